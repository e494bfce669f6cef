"""Value objects (V*): session details, the application error and the published constants."""

from .common import *  # noqa: F403
from .common import C, Ctx, DICT, INT, Incomplete, LIST, NONE, STR, T, contains, cv, is_c, path_of, same, show
from .state import DictO, ListO

FIELDS = ["session_id", "realm", "authid", "authrole"]


def v01(rep, tier):
    rep.rule("every path of the comparison of two symbolic details is True exactly when all four attributes are known to be equal on it")
    ctx = Ctx(rep)
    eng = ctx.eng
    st = eng.start()
    c = ctx.need_attr(st, "types.SessionDetails")
    a = [ctx.sym(f"first {f}", INT if f == "session_id" else STR) for f in FIELDS]
    b = [ctx.sym(f"second {f}", INT if f == "session_id" else STR) for f in FIELDS]
    s, x = one(ctx, rep, st, c, a)
    s, y = one(ctx, rep, s, c, b)
    for f, v in zip(FIELDS, a):
        got = ctx.get(s, x, f)
        rep.need(all(k == "v" and same(ctx, s2, w, v) for s2, k, w in got), f"details keep their {f}", s,
                 "; ".join(show(w)[:60] for s2, k, w in got))
    alleq = eng.mk_and([eng.mk_eq(s, u, v) for u, v in zip(a, b)])
    # each attribute alone may differ, so every combination of equal and different attributes is a world of its own
    for mask in range(16):
        s0 = s.copy()
        if not all(s0.assume(eng.mk_eq(s0, u, v), bool(mask >> i & 1)) for i, (u, v) in enumerate(zip(a, b))):
            continue
        want = mask == 15
        diff = [f for i, f in enumerate(FIELDS) if not mask >> i & 1]
        for op, neg in (("==", False), ("!=", True)):
            outs = compare(ctx, s0, x, y, neg)
            rep.op(f"{op} with {'nothing' if want else ', '.join(diff)} different", len(outs))
            for s1, k, v in outs:
                rep.need(k == "v", "details can be compared", s1, "raises " + ctx.exc(s1, v)[:80] if k == "x" else "")
                for s2, t in eng.truth(s1, v) if k == "v" else []:
                    rep.need((t != neg) == want, "details are equal exactly when all their attributes are", s2,
                             f"{op} is {t} although {', '.join(diff) or 'nothing'} differs")
    for what, other in (("None", NONE), ("a number", a[0]), ("a text", a[1])):
        outs = compare(ctx, s, x, other, False)
        rep.op(f"== with {what}", len(outs))
        for s1, k, v in outs:
            rep.need(k == "v", f"details can be compared with {what}", s1, "raises " + ctx.exc(s1, v)[:80] if k == "x" else "")
            for s2, t in eng.truth(s1, v) if k == "v" else []:
                rep.need(t is False, f"details are not equal to {what}", s2, "equal")


def compare(ctx, s, x, y, neg):
    import ast
    return ctx.eng.compare(s.copy(), ast.NotEq() if neg else ast.Eq(), x, y)


def one(ctx, rep, st, c, args):
    outs = ctx.run(st, c, *args)
    if len(outs) != 1 or outs[0][1] != "v":
        raise Incomplete("construction has several outcomes")
    return outs[0][0], outs[0][2]


def parts(t):
    """The pieces of a text, in order."""
    if t[0] == "t" and t[1] in ("concat", "fstr"):
        return [y for x in t[2:] for y in parts(x)]
    if t[0] == "t" and t[1] == "str" and len(t) == 3:
        return parts(t[2])
    return [t]


def v02(rep, tier):
    rep.rule("in every combination of absent, empty and filled arguments the error can be built and shown, and its text is the reason "
             "followed by the arguments and the keyword arguments in order")
    ctx = Ctx(rep)
    st = ctx.eng.start()
    c = ctx.need_attr(st, "exception.ApplicationError")
    combinations(ctx, rep, st, "ApplicationError", lambda s, uri, args, kwargs: ctx.run(s, c, uri, args, kwargs), ("message", "kwargs"))


def v04(rep, tier):
    rep.rule("the text of an ERROR message is its error uri followed by its arguments and keyword arguments in order, whether they are absent, "
             "empty or filled")
    ctx = Ctx(rep)
    st = ctx.eng.start()
    fc, mc = ctx.need_attr(st, "messages.ErrorFields"), ctx.need_attr(st, "messages.Error")
    mt, rid, det = ctx.sym("error.message_type", INT), ctx.sym("error.request_id", INT), ctx.sym("error.details", DICT)

    def make(s, uri, args, kwargs):
        return ctx.eng.bind(ctx.run(s, fc, message_type=mt, request_id=rid, uri=uri, args=args, kwargs=kwargs, details=det),
                            lambda s2, f: ctx.run(s2, mc, f))

    combinations(ctx, rep, st, "ERROR", make, ("uri", "args", "kwargs"))


def combinations(ctx, rep, st, what, make, kept):
    """The error built and shown in every combination of absent, empty and filled arguments."""
    uri = ctx.sym("uri", STR)
    a = [ctx.sym(f"arg{i}") for i in range(3)]
    kv = [ctx.sym(f"value{i}") for i in range(2)]
    names = [C("alpha"), C("beta")]
    for la in (None, 0, 1, 3):
        for lk in (None, 0, 1, 2):
            s = st.copy()
            args = NONE if la is None else s.alloc(ListO(None, tuple(("e", x) for x in a[:la])))
            kwargs = NONE if lk is None else s.alloc(DictO(None, tuple((k, v, None, None) for k, v in zip(names[:lk], kv))))
            label = f"{'no' if la is None else la} args, {'no' if lk is None else lk} kwargs"
            want = [uri] + a[:la or 0] + [z for p in zip(names[:lk or 0], kv) for z in p]
            shown(ctx, rep, s, what, make, kept, uri, args, kwargs, label, want)
    # arguments and keyword arguments of any number
    for la in (NONE, ctx.sym("args", LIST)):
        for lk in (NONE, ctx.sym("kwargs", DICT)):
            shown(ctx, rep, st.copy(), what, make, kept, uri, la, lk, f"{'no' if la == NONE else 'any'} args, {'no' if lk == NONE else 'any'} kwargs", None)


def shown(ctx, rep, s, what, make, kept, uri, args, kwargs, label, want):
    eng = ctx.eng
    outs = make(s, uri, args, kwargs)
    rep.op(f"{what}: {label}", len(outs))
    for s1, k, e in outs:
        if k == "x":
            rep.need(False, f"the error can be built ({label})", s1, "raises " + ctx.exc(s1, e)[:80])
            continue
        for f in kept:
            v = {"message": uri, "uri": uri, "args": args, "kwargs": kwargs}[f]
            for s2, k2, w in ctx.get(s1, e, f):
                rep.need(k2 == "v" and (same(ctx, s2, w, eng.deep(s2, v)) or "args" in f and blank(ctx, s2, w) and blank(ctx, s2, v)),
                         f"the error keeps its {f}", s2, show(ctx.deep(s2, w))[:80])
        for s2, k2, t in eng.call(s1.copy(), ("bi", "str"), [e], {}):
            if k2 == "x":
                rep.need(False, f"the error can be shown ({label})", s2, "raises " + ctx.exc(s2, t)[:100])
                continue
            d = ctx.deep(s2, t)
            ps = parts(d)
            if want is None:
                rep.need(ps[:1] == [uri], f"the text begins with the reason ({label})", s2, show(d)[:120])
                for n, v in (("arguments", args), ("keyword arguments", kwargs)):
                    if v == NONE:
                        continue
                    for s3, filled in eng.truth(s2, v):
                        rep.need(not filled or contains(d, v) or any(contains(x, v) and hasop(x, "join") for x in facts(s3)), f"the {n} are shown ({label})", s3, show(d)[:160])
                continue
            rest = list(ps)
            for w in want:
                i = next((i for i, p in enumerate(rest) if p == w or is_c(w) and is_c(p) and isinstance(cv(p), str) and cv(w) in cv(p)), None)
                if i is None:
                    rep.need(False, f"the text shows the reason, the arguments and the keyword arguments ({label})", s2,
                             f"{show(w)} is not shown in order: {show(d)[:120]}", imprecise=vague(d))
                    break
                rest = rest[i + (0 if is_c(w) else 1):]
            else:
                rep.need(True, f"the text shows the reason, the arguments and the keyword arguments ({label})", s2, "")
            syms = [p for p in ps if not is_c(p)]
            rep.need(vague(d) or len(syms) == sum(not is_c(w) for w in want), f"nothing else is shown ({label})", s2, show(d)[:120])


def hasop(t, op):
    return isinstance(t, tuple) and (t[:2] == ("t", op) or any(hasop(x, op) for x in t))


def facts(s):
    return s.facts


def blank(ctx, s, v):
    d = ctx.deep(s, v)
    return d == NONE or d[0] == "t" and d[1] in ("dict", "list") and len(d) == 3 and d[2] == NONE


def vague(d):
    return any(p[0] == "t" and p[1] not in ("item", "attr") for p in parts(d))


CONSTANTS = {
    "uris.INVALID_ARGUMENT": "wamp.error.invalid_argument",
    "uris.PROCEDURE_ALREADY_EXISTS": "wamp.error.procedure_already_exists",
    "uris.INVALID_URI": "wamp.error.invalid_uri",
    "uris.AUTHENTICATION_FAILED": "wamp.error.authentication_failed",
    "uris.CLOSE_REALM": "wamp.close.close_realm",
    "transports.rawsocket.MAGIC": 0x7F,
    "transports.rawsocket.PROTOCOL_MAX_MSG_SIZE": 2**24,
    "transports.rawsocket.DEFAULT_MAX_MSG_SIZE": 2**20,
    "transports.rawsocket.SERIALIZER_TYPE_JSON": 1,
    "transports.rawsocket.SERIALIZER_TYPE_MSGPACK": 2,
    "transports.rawsocket.SERIALIZER_TYPE_CBOR": 3,
    "transports.rawsocket.MSG_TYPE_WAMP": 0,
    "transports.rawsocket.MSG_TYPE_PING": 1,
    "transports.rawsocket.MSG_TYPE_PONG": 2,
    "serializers.NONE_SERIALIZER_ID": 0,
    "serializers.JSON_SERIALIZER_ID": 1,
    "serializers.MSGPACK_SERIALIZER_ID": 2,
    "serializers.CBOR_SERIALIZER_ID": 3,
    "acceptor.Acceptor.ANONYMOUS": "anonymous",
    "acceptor.Acceptor.TICKET": "ticket",
    "acceptor.Acceptor.WAMPCRA": "wampcra",
    "acceptor.Acceptor.CRYPTOSIGN": "cryptosign",
    "idgen.ID_MAX": 2**53,
}


def v03(rep, tier):
    rep.rule("each published constant, evaluated from its definition, has the value the protocol assigns to it")
    ctx = Ctx(rep)
    st = ctx.eng.start()
    for name, want in CONSTANTS.items():
        v = ctx.attr(st, name)
        owner, _, field = name.rpartition(".")
        if v is None and owner.rpartition(".")[2][:1].isupper():
            got = ctx.get(st, ctx.need_attr(st, owner), field)
            v = got[0][2] if len(got) == 1 and got[0][1] == "v" else None
        rep.op(name, 1)
        if v is not None and v[0] == "en":
            v = v[3]
        rep.need(v is not None and v == C(want), f"{name} has the value the protocol assigns", name,
                 f"is {show(v) if v else 'not found'}, expected {want!r}", imprecise=v is None)


RULES = {"V01": v01, "V02": v02, "V03": v03, "V04": v04}
