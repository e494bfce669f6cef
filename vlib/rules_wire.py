"""Wire-format rules (W*), decided on the effect summaries of encoders, decoders and the type dispatcher.

The oracle is SPEC: the element layout of each message as the WAMP basic profile defines it.
"""

from .common import *  # noqa: F403
from .state import DictO
from .common import (ANY, BOOL, BYTES, C, Ctx, DICT, FALSE, INF, INT, Incomplete, LIST, MAX_ID, NONE, NONE_T, S, STR, T, TRUE,
                     WIRE_TS, contains, cv, holds, is_c, is_imprecise, loc_of, path_of, refuted, restrict, same, show,
                     subst, universal, witness)

ID, ROLES = "id", "roles"
# name -> (code, [(attribute, element type)], carries args/kwargs)
SPEC = {
    "Abort": (3, [("details", "dict"), ("reason", "str")], True),
    "Challenge": (4, [("authmethod", "str"), ("extra", "dict")], False),
    "Authenticate": (5, [("signature", "str"), ("extra", "dict")], False),
    "Goodbye": (6, [("details", "dict"), ("reason", "str")], False),
    "Error": (8, [("message_type", "int"), ("request_id", ID), ("details", "dict"), ("uri", "str")], True),
    "Publish": (16, [("request_id", ID), ("options", "dict"), ("topic", "str")], True),
    "Published": (17, [("request_id", ID), ("publication_id", ID)], False),
    "Subscribe": (32, [("request_id", ID), ("options", "dict"), ("topic", "str")], False),
    "Subscribed": (33, [("request_id", ID), ("subscription_id", ID)], False),
    "Unsubscribe": (34, [("request_id", ID), ("subscription_id", ID)], False),
    "Unsubscribed": (35, [("request_id", ID)], False),
    "Event": (36, [("subscription_id", ID), ("publication_id", ID), ("details", "dict")], True),
    "Call": (48, [("request_id", ID), ("options", "dict"), ("procedure", "str")], True),
    "Cancel": (49, [("request_id", ID), ("options", "dict")], False),
    "Result": (50, [("request_id", ID), ("details", "dict")], True),
    "Register": (64, [("request_id", ID), ("options", "dict"), ("procedure", "str")], False),
    "Registered": (65, [("request_id", ID), ("registration_id", ID)], False),
    "Unregister": (66, [("request_id", ID), ("registration_id", ID)], False),
    "Unregistered": (67, [("request_id", ID)], False),
    "Invocation": (68, [("request_id", ID), ("registration_id", ID), ("details", "dict")], True),
    "Interrupt": (69, [("request_id", ID), ("options", "dict")], False),
    "Yield": (70, [("request_id", ID), ("options", "dict")], True),
}
# HELLO and WELCOME keep their fields inside the details dictionary
DETAILS = {
    "Hello": (1, ("realm", "str"), {"roles": ROLES, "authid": "str", "authmethods": "list", "authextra": "dict"}),
    "Welcome": (2, ("session_id", ID), {"roles": ROLES, "authid": "str", "authrole": "str", "authmethod": "str",
                                        "authextra": "dict"}),
}
# HELLO.details entries that are typed but not part of the decoded message
TYPED_ONLY = {"Hello": {"authrole": "str"}}
# where the constructor lets a dictionary be left out, it must be encoded as an empty dictionary
OPTIONAL_DICT = {"options", "extra"} | {"details"}
ROLE_NAMES = ["callee", "caller", "publisher", "subscriber", "dealer", "broker"]
TY = {"str": STR, "dict": DICT, "list": LIST, "int": INT, ID: INT, ROLES: DICT}
ALL = sorted(SPEC) + sorted(DETAILS)


def symbols(ctx, st, name):
    """Constructor arguments of a well-formed message, as typed symbols."""
    kw = {}
    elems = SPEC[name][1] if name in SPEC else [DETAILS[name][1]] + sorted(DETAILS[name][2].items())
    for a, t in elems:
        s = ctx.sym(f"{name}.{a}", TY[t])
        if t == ID:
            st.iv[s] = (1, MAX_ID)
        if t == ROLES:
            st.iv[T("len", s)] = (1, INF)
        kw[a] = s
    return kw


def variants(ctx, name, kw, payload):
    """(label, kwargs) for the presence combinations of the optional parts."""
    outs = []
    if payload:
        A, K = ctx.sym(f"{name}.args", LIST), ctx.sym(f"{name}.kwargs", DICT)
        for a in (None, A):
            for k in (None, K):
                d = dict(kw)
                lab = []
                if a is not None:
                    d["args"] = a
                    lab.append("args")
                if k is not None:
                    d["kwargs"] = k
                    lab.append("kwargs")
                outs.append(("+".join(lab) or "no payload", d))
    else:
        outs.append(("full", dict(kw)))
    return outs


def optional_params(ctx, st, name):
    """Constructor parameters of <name>Fields that have a default."""
    k = ctx.need_attr(st, f"messages.{name}Fields")
    init, _ = ctx.eng.class_lookup(st, k[1], "__init__")
    if init is None or init[0] != "f":
        ci = ctx.eng.classes[k[1]]
        return {n for n, d in (ci.fields or {}).items() if d is not None} if isinstance(ci.fields, dict) else set()
    node = ctx.eng.funcs[init[1]].node
    a = node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    res = set(names[len(names) - len(a.defaults):]) if a.defaults else set()
    res |= {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
    return res


def build(ctx, st, name, kw):
    f = ctx.run(st, ctx.need_attr(st, f"messages.{name}Fields"), **kw)
    outs = []
    for s, k, v in f:
        if k == "x":
            outs.append((s, k, v))
            continue
        for s2, k2, v2 in ctx.eng.call(s, ctx.need_attr(s, f"messages.{name}"), [v], {}):
            outs.append((s2, k2, v2))
    return outs


def expected_list(name, kw):
    code, elems, payload = SPEC[name]
    want = [C(code)]
    for a, t in elems:
        want.append(kw[a] if a in kw else T("dict", NONE))
    if payload:
        if "args" in kw:
            want.append(kw["args"])
        elif "kwargs" in kw:
            want.append(T("list", NONE))
        if "kwargs" in kw:
            want.append(kw["kwargs"])
    return want


def elements(ctx, st, v):
    """Elements of a list value, or None when its length is not known."""
    v = ctx.eng.force(st, v)
    if v[0] == "tp":
        return list(v[1:])
    if v[0] == "r" and st.heap[v[1]].kind == "list":
        o = st.heap[v[1]]
        if o.base is None and all(g[0] == "e" for g in o.segs):
            return [g[1] for g in o.segs]
    return None


def dict_entry(ctx, st, v, key):
    """[(state, value|None)] of looking a constant key up in a dict value."""
    v = ctx.eng.force(st, v)
    if v[0] == "r" and st.heap[v[1]].kind == "dict":
        return ctx.eng.dict_find(st.copy(), v, C(key))
    return []


def w01(rep, tier):
    rep.rule("for every message class, marshal() of a message built from arbitrary well-typed fields returns "
             "[code, fields in specified order (, args|[] , kwargs)] on every path")
    ctx = Ctx(rep)
    for name in ALL:
        st = ctx.eng.start()
        kw = symbols(ctx, st, name)
        if name in SPEC:
            opt = optional_params(ctx, st, name)
            cases = variants(ctx, name, kw, SPEC[name][2])
            for lab, d in list(cases):
                for a, t in SPEC[name][1]:
                    if t == "dict" and a in opt and a in OPTIONAL_DICT:
                        d2 = dict(d)
                        del d2[a]
                        cases.append((lab + f", {a} omitted", d2))
        else:
            cases = [("full", kw)]
            req = {DETAILS[name][1][0], "roles"}
            for a in sorted(set(kw) - req):
                d2 = dict(kw)
                del d2[a]
                cases.append((f"{a} omitted", d2))
            cases.append(("minimal", {a: kw[a] for a in req}))
        for lab, d in cases:
            outs = []
            for s, k, m in build(ctx, st, name, d):
                if k == "x":
                    outs.append((s, k, m))
                else:
                    outs += ctx.method(s, m, "marshal")
            rep.op(f"{name}.marshal [{lab}]", len(outs))
            for s, k, v in outs:
                what = f"{name} encodes as specified ({lab})"
                if k == "x":
                    rep.need(False, what, s, f"raises {ctx.exc(s, v)}")
                    continue
                got = elements(ctx, s, v)
                if name in SPEC:
                    want = expected_list(name, d)
                    good = got is not None and len(got) == len(want) and all(same(ctx, s, g, w) for g, w in zip(got, want))
                    rep.need(good, what, s, f"encoded as {show(ctx.deep(s, v))[:300]}, expected "
                             f"[{', '.join(show(w) for w in want)}]; path {path_of(s)}")
                else:
                    check_details(ctx, rep, s, name, d, got, what)


def check_details(ctx, rep, s, name, d, got, what):
    code, (first, _), fields = DETAILS[name]
    if got is None or len(got) != 3 or not same(ctx, s, got[0], C(code)) or not same(ctx, s, got[1], d[first]):
        rep.need(False, what, s, f"encoded as {[show(g) for g in got or []]}")
        return
    for f in sorted(fields):
        ents = dict_entry(ctx, s, got[2], f)
        if not ents:
            rep.need(False, what, s, "details element is not a dictionary")
            return
        for s2, v in ents:
            if f in d:
                rep.need(v is not None and same(ctx, s2, v, d[f]), f"{what}: details.{f}", s2,
                         f"details.{f} is {show(v) if v else 'missing'}; path {path_of(s2)}")
            else:
                rep.need(v is None or same(ctx, s2, v, NONE) or optional_empty(ctx, s2, v, fields[f]),
                         f"{what}: details.{f}", s2, f"details.{f} is {show(v) if v else 'missing'} though not given")
    rep.ok(what, loc_of(s))


def optional_empty(ctx, s, v, ty):
    d = ctx.deep(s, v)
    return ty in ("dict", "list") and d == T(ty, NONE)


# ------------------------------------------------------------------ decoding
_PARSED = {}


def parsed(ctx, name):
    """Outcomes of <name>.parse on an arbitrary list of wire values."""
    key = (id(ctx), name)
    if key not in _PARSED:
        st = ctx.eng.start()
        msg = ctx.sym("msg", frozenset({("list", "WIRE")}))
        outs = ctx.method(st, ctx.need_attr(st, f"messages.{name}"), "parse", msg)
        ctx.rep.op(f"{name}.parse", len(outs))
        _PARSED[key] = (msg, outs)
    return _PARSED[key]


def bounds(name):
    if name in SPEC:
        n = len(SPEC[name][1]) + 1
        return (n, n + 2) if SPEC[name][2] else (n, n)
    return (3, 3)


def layout(name):
    """[(attribute, index, key|None, type)]"""
    if name in SPEC:
        out = [(a, i + 1, None, t) for i, (a, t) in enumerate(SPEC[name][1])]
        n = len(out) + 1
        if SPEC[name][2]:
            out += [("args", n, None, "list"), ("kwargs", n + 1, None, "dict")]
        return out
    code, (first, t), fields = DETAILS[name]
    return [(first, 1, None, t)] + [(a, 2, a, ty) for a, ty in sorted(fields.items())]


def wire_item(ctx, st, msg, i):
    return T("item", msg, C(i))


def accepted(ctx, name):
    msg, outs = parsed(ctx, name)
    res = [(s, v) for s, k, v in outs if k == "v"]
    if not res:
        ctx.rep.need(False, f"{name}: some message is accepted", "-", "the decoder has no accepting path")
    return msg, res


def w02(rep, tier):
    rep.rule("for every decoder, on every accepting path each field of the decoded message reads back exactly the wire "
             "element the layout assigns to it (None when the element is absent)")
    ctx = Ctx(rep)
    for name in ALL:
        msg, res = accepted(ctx, name)
        for s, v in res:
            for attr, idx, key, ty in layout(name):
                for s2, k, got in ctx.get(s, v, attr):
                    what = f"{name}.{attr} is wire element {idx}" + (f"[{key!r}]" if key else "")
                    if k == "x":
                        rep.need(False, what, s2, f"reading it raises {ctx.exc(s2, got)}")
                        continue
                    it = wire_item(ctx, s2, msg, idx)
                    if key is None:
                        here = s2.decide(T("lt", C(idx), T("len", msg))) if idx >= bounds(name)[0] else True
                        if here is None:
                            here = not refuted(s2, T("lt", C(idx), T("len", msg)))
                        want = it if here else NONE
                        rep.need(same(ctx, s2, got, want), what, s2, f"reads {show(ctx.deep(s2, got))[:200]}, expected "
                                 f"{show(want)}; path {path_of(s2)}")
                    else:
                        for s3, b in s2.copy().branch(ctx.eng.in_atom(s2, C(key), it)):
                            want = T("item", it, C(key)) if b else NONE
                            absent = not b or s3.decide(T("isnone", want)) is True
                            ok = same(ctx, s3, got, want) or (absent and (same(ctx, s3, got, NONE) or optional_empty(
                                ctx, s3, got, ty)))
                            rep.need(ok, what, s3, f"reads {show(ctx.deep(s3, got))[:200]}, expected {show(want)}; "
                                     f"path {path_of(s3)}")
    # composition: what is encoded decodes to the same fields
    rep.rule("decode(encode(m)) is accepted and reads back every field of m, for arbitrary well-typed fields")
    for name in ALL:
        st = ctx.eng.start()
        kw = symbols(ctx, st, name)
        cases = variants(ctx, name, kw, name in SPEC and SPEC[name][2])
        for lab, d in cases:
            for s, k, m in build(ctx, st, name, d):
                if k == "x":
                    rep.need(False, f"{name}: construction", s, ctx.exc(s, m))
                    continue
                n = 0
                for s2, k2, lst in ctx.method(s, m, "marshal"):
                    if k2 == "x":
                        rep.need(False, f"{name} round trip ({lab})", s2, f"encoding raises {ctx.exc(s2, lst)}")
                        continue
                    for s3, k3, v3 in ctx.method(s2, ctx.need_attr(s2, f"messages.{name}"), "parse", lst):
                        n += 1
                        what = f"{name} round trip ({lab})"
                        if name in DETAILS and not roles_feasible(ctx, s3, d["roles"]):
                            continue
                        if k3 == "x":
                            rep.need(False, what, s3, f"decoding its own encoding raises {ctx.exc(s3, v3)}; path {path_of(s3)}")
                            continue
                        for attr, idx, key, ty in layout(name):
                            for s4, k4, got in ctx.get(s3, v3, attr):
                                if attr in d:
                                    want = d[attr]
                                elif attr == "args" and "kwargs" in d:
                                    want = T("list", NONE)
                                else:
                                    want = NONE
                                rep.need(k4 == "v" and same(ctx, s4, got, want), f"{what}: {attr}", s4,
                                         f"{attr} reads {show(ctx.deep(s4, got))[:200]}, expected {show(want)}; path {path_of(s4)}")
                rep.op(f"{name} encode;decode [{lab}]", n)


def type_preds(ctx, s, msg, name):
    """[(text, function(state) -> True/False/None)] the conditions a well-typed message satisfies."""
    preds = []
    for attr, idx, key, ty in layout(name):
        it = wire_item(ctx, s, msg, idx)
        if key is None:
            if idx >= bounds(name)[0]:
                if not holds(s, T("lt", C(idx), T("len", msg))):
                    continue
            preds.append((attr, f"element {idx}", it, ty))
        else:
            preds.append((attr, f"element {idx}[{key!r}]", (it, key), ty))
    return preds


HEADS = {"str": {"str"}, "dict": {"dict"}, "list": {"list"}, "int": {"int", "bool"}, ID: {"int", "bool"}, ROLES: {"dict"}}


def w03(rep, tier):
    rep.rule("on every accepting path of a decoder, each element has its specified type, every id lies in 1..2**53, and "
             "HELLO/WELCOME roles are a non-empty dictionary of defined role names")
    ctx = Ctx(rep)
    for name in ALL:
        msg, res = accepted(ctx, name)
        for s, v in res:
            details = wire_item(ctx, s, msg, 2)
            if name in DETAILS:
                rep.need(s.heads(details) <= {"dict"}, f"{name}: details is a dictionary", s, f"types {sorted(s.heads(details))}")
            only = [(k, f"element 2[{k!r}]", (details, k), t) for k, t in TYPED_ONLY.get(name, {}).items()]
            for attr, txt, it, ty in list(type_preds(ctx, s, msg, name)) + only:
                what = f"{name}: {txt} is a valid {ty}"
                if isinstance(it, tuple) and it[0] not in ("s", "t"):
                    base, key = it
                    for s2, b in s.copy().branch(ctx.eng.in_atom(s, C(key), base)):
                        v2 = T("item", base, C(key))
                        if not b:
                            rep.need(ty != ROLES, what, s2, "roles missing and accepted")
                            continue
                        hs = s2.heads(v2)
                        if ty == ROLES:
                            rep.need(hs <= {"dict"}, what, s2, f"roles may be {sorted(hs)}")
                            check_roles(ctx, rep, s2, v2, what)
                        else:
                            rep.need(hs <= HEADS[ty] | {"none"}, what, s2, f"may be of type {sorted(hs - HEADS[ty])}; "
                                     f"path {path_of(s2)}")
                    continue
                hs = s.heads(it)
                rep.need(hs <= HEADS[ty], what, s, f"accepted with type {sorted(hs - HEADS[ty])}; path {path_of(s)}")
                if ty == ID and hs <= HEADS[ty]:
                    lo, hi = s.interval(it)
                    rep.need(lo >= 1 and hi <= MAX_ID, f"{name}: {txt} lies in 1..2**53", s,
                             f"accepted range is [{lo}, {hi}]; path {path_of(s)}")


def check_roles(ctx, rep, s, roles, what):
    lo, hi = s.interval(T("len", roles))
    rep.need(lo >= 1, what + " (non-empty)", s, f"an empty roles dictionary is accepted; path {path_of(s)}")
    w, cur = universal(ctx, s, roles, frozenset({("str",), ("int",), ("bytes",)}))
    at = ctx.eng.in_const(s, w, [C(r) for r in ROLE_NAMES])
    for s2 in cur:
        rep.need(holds(s2, at), what + " (known roles)", s2, f"a role outside the defined set is accepted; path {path_of(s)}")


def roles_feasible(ctx, s, roles):
    """Is the path compatible with a roles dictionary that has only defined names?"""
    for a, val in list(s.facts.items()):
        if a[0] == "t" and a[1] == "exists" and val is True and a[2] == roles:
            w, s2 = witness(ctx, s, roles, a[3][1:], STR)
            if s2 is None or not s2.assume(ctx.eng.in_const(s2, w, [C(r) for r in ROLE_NAMES]), True):
                return False
    return True


def well_formed(ctx, s, msg, name):
    """Restrict s to well-formed messages of this class; None when the path excludes them."""
    lo, hi = bounds(name)
    s = s.copy()
    code = SPEC[name][0] if name in SPEC else DETAILS[name][0]
    if not s.assume(T("lt", C(lo - 1), T("len", msg)), True) or not s.assume(T("lt", C(hi), T("len", msg)), False):
        return None
    it0 = wire_item(ctx, s, msg, 0)
    if not restrict(s, it0, INT) or not s.assume(ctx.eng.mk_eq(s, it0, C(code)), True):
        return None
    for attr, idx, key, ty in layout(name) + [(k, 2, k, t) for k, t in TYPED_ONLY.get(name, {}).items()]:
        it = wire_item(ctx, s, msg, idx)
        if key is None:
            if idx >= lo:
                here = s.decide(T("lt", C(idx), T("len", msg)))
                if here is False:
                    continue
                if here is None:
                    # the element may be absent: only a violation if its presence does not matter
                    if not s.assume(T("lt", C(idx), T("len", msg)), False):
                        return None
                    continue
            if not restrict(s, it, TY[ty] if ty not in ("dict", "list") else frozenset(
                    {("dict", "WIREK", "WIRE")} if ty == "dict" else {("list", "WIRE")})):
                return None
            if ty == ID and not (s.assume(ctx.eng.mk_lt(s, it, C(1)), False) and s.assume(
                    ctx.eng.mk_lt(s, C(MAX_ID), it), False)):
                return None
        else:
            if not restrict(s, it, frozenset({("dict", "WIREK", "WIRE")})):
                return None
            ina = ctx.eng.in_atom(s, C(key), it)
            v = T("item", it, C(key))
            tys = {"str": STR, "dict": frozenset({("dict", "WIREK", "WIRE")}), "list": frozenset({("list", "WIRE")})}
            if ty == ROLES:
                if not s.assume(ina, True) or not restrict(s, v, tys["dict"]):
                    return None
                if not s.assume(T("lt", C(0), T("len", v)), True):
                    return None
                if not roles_feasible(ctx, s, v):
                    return None
            else:
                d = s.decide(ina)
                if d is not False:
                    # present (as None or well typed) or absent
                    s2 = s.copy()
                    s2.facts[ina] = True
                    if restrict(s2, v, tys[ty] | NONE_T):
                        s = s2
                    elif d is True or not s.assume(ina, False):
                        return None
    return s


def w04(rep, tier):
    rep.rule("no rejecting path of a decoder is compatible with a well-formed message (right code, length, types, id range, "
             "roles)")
    ctx = Ctx(rep)
    for name in ALL:
        msg, outs = parsed(ctx, name)
        n = 0
        for s, k, v in outs:
            if k == "v":
                continue
            n += 1
            s2 = well_formed(ctx, s, msg, name)
            if s2 is None:
                rep.ok(f"{name}: rejecting path excludes well-formed messages", loc_of(s))
            else:
                rep.need(False, f"{name}: well-formed messages are accepted", s,
                         f"raises {ctx.exc(s, v)[:120]} for a well-formed message; path {path_of(s)}")
        # a well-formed message takes an accepting path
        accepted(ctx, name)


def w05(rep, tier):
    rep.rule("every accepting path of a decoder bounds the list length to the specified range and the first element to the "
             "message's code")
    ctx = Ctx(rep)
    for name in ALL:
        msg, res = accepted(ctx, name)
        lo, hi = bounds(name)
        code = SPEC[name][0] if name in SPEC else DETAILS[name][0]
        for s, v in res:
            a, b = s.interval(T("len", msg))
            rep.need(a >= lo and b <= hi, f"{name}: length within {lo}..{hi}", s, f"accepts lengths [{a}, {b}]; path {path_of(s)}")
            rep.need(holds(s, ctx.eng.mk_eq(s, wire_item(ctx, s, msg, 0), C(code))), f"{name}: first element is {code}", s,
                     f"accepts another type code; path {path_of(s)}")


def dispatch(ctx):
    st = ctx.eng.start()
    f = ctx.need_attr(st, "serializers.serializer.to_message")
    msg = ctx.sym("msg", frozenset({("list", "WIRE")}))
    seen = []

    def stop(name):
        def h(eng, s, args, kw, loc):
            seen.append((name, s, args))
            return [(s, "v", T("parsed", C(name), *args[-1:]))]
        return h

    for name in ALL:
        k = ctx.need_attr(st, f"messages.{name}")
        p, owner = ctx.eng.class_lookup(st, k[1], "parse")
        if p is None or owner != k[1]:
            continue
        fv = p
        while fv[0] != "f":
            fv = fv[1]
        ctx.eng.intercepts[ctx.eng.funcs[fv[1]].qual] = stop(name)
    outs = ctx.run(st, f, msg)
    ctx.eng.intercepts.clear()
    ctx.rep.op("to_message", len(outs))
    return msg, outs


def w06(rep, tier):
    rep.rule("the type dispatcher sends a list to the decoder of exactly the message whose code is its first element, covers "
             "all 24 codes, and raises for every other first element")
    ctx = Ctx(rep)
    msg, outs = dispatch(ctx)
    it0 = wire_item(ctx, None, msg, 0)
    codes = {n: (SPEC[n][0] if n in SPEC else DETAILS[n][0]) for n in ALL}
    reached = set()
    for s, k, v in outs:
        if k == "v":
            if not (v[0] == "t" and v[1] == "parsed"):
                rep.need(False, "dispatch returns what a decoder returned", s, show(v)[:200])
                continue
            name = cv(v[2])
            ok = holds(s, ctx.eng.mk_eq(s, it0, C(codes[name])))
            rep.need(ok, f"{name} decoder is used for code {codes[name]} only", s, f"path {path_of(s)}")
            rep.need(len(v) > 3 and same(ctx, s, v[3], msg), f"{name} decoder gets the received list", s, show(v)[:200])
            if ok:
                reached.add(name)
        else:
            for name in ALL:
                s2 = s.copy()
                if (restrict(s2, it0, INT) and s2.assume(ctx.eng.mk_eq(s2, it0, C(codes[name])), True)
                        and s2.assume(T("lt", C(0), T("len", msg)), True)):
                    rep.need(False, f"code {codes[name]} is dispatched", s, f"raises {ctx.exc(s, v)[:100]}; path {path_of(s)}")
            rep.ok("rejected first elements are not message codes", loc_of(s))
    for name in ALL:
        rep.need(name in reached, f"code {codes[name]} reaches the {name} decoder", "-", "no path dispatches to it")
    st = ctx.eng.start()
    for name in ALL:
        got = ctx.attr(st, f"messages.{name}")
        for s, k, v in ctx.get(st, got, "TYPE"):
            rep.need(k == "v" and v == C(codes[name]), f"{name}.TYPE is {codes[name]}", s, show(v))


def w07(rep, tier):
    rep.rule("on every path of to_message and of each decoder, for any value a codec can produce, the only exceptions are "
             "ValueError and TypeError (or their subclasses)")
    ctx = Ctx(rep)
    st = ctx.eng.start()
    msg = ctx.sym("msg", WIRE_TS)
    outs = ctx.run(st, ctx.need_attr(st, "serializers.serializer.to_message"), msg)
    rep.op("to_message(any value)", len(outs))
    nx = 0
    for s, k, v in outs:
        if k == "x":
            nx += 1
            rep.need(ctx.is_exc(s, v, "ValueError", "TypeError"), "malformed input raises ValueError or TypeError", s,
                     f"raises {ctx.exc(s, v)[:160]}; path {path_of(s)}")
        else:
            rep.need(any(t[0] == "inst" and ".messages." in t[1] for t in s.types_of(v)), "accepted input yields a message", s,
                     show(v)[:120])
    rep.need(nx > 0, "malformed input is rejected", "-", "no rejecting path")
    for name in ALL:
        k = ctx.need_attr(st, f"messages.{name}")
        msg2 = ctx.sym("anything", WIRE_TS)
        outs = ctx.method(st, k, "parse", msg2)
        rep.op(f"{name}.parse(any value)", len(outs))
        for s, kk, v in outs:
            if kk == "x":
                rep.need(ctx.is_exc(s, v, "ValueError", "TypeError"), f"{name}: malformed input raises ValueError or TypeError",
                         s, f"raises {ctx.exc(s, v)[:160]}; path {path_of(s)}")
            else:
                rep.ok(f"{name}: accepted", loc_of(s))


def w08(rep, tier):
    rep.rule("marshal() changes nothing reachable from the message or its fields and a second call returns the same list")
    ctx = Ctx(rep)
    for name in ALL:
        st = ctx.eng.start()
        kw = symbols(ctx, st, name)
        cases = variants(ctx, name, kw, name in SPEC and SPEC[name][2])
        if "serializer" in parameters(ctx, st, name):
            cases.append(("with payload", payload_mode(ctx, name, kw)))
        for lab, d in cases:
            for s, k, m in build(ctx, st, name, d):
                if k == "x":
                    rep.need(False, f"{name}: construction", s, ctx.exc(s, m))
                    continue
                for a, *_ in layout(name):
                    for s1, k1, old in ctx.get(s, m, a):
                        was = alpha(ctx.deep(s1, old)) if k1 == "v" else None
                        for s2, k2, _ in ctx.method(s1, m, "marshal"):
                            for s3, k3, now in ctx.get(s2, m, a) if k2 == "v" else ():
                                rep.need(k3 == k1 == "v" and alpha(ctx.deep(s3, now)) == was,
                                         f"{name}.{a} is unchanged by encoding ({lab})", s2, f"{show(ctx.deep(s3, now))[:160]}")
                for s2, k2, l1 in ctx.method(s, m, "marshal"):
                    if k2 == "x":
                        rep.need(False, f"{name}: encoding", s2, ctx.exc(s2, l1))
                        continue
                    first = elements(ctx, s2, l1)
                    snap = alpha(ctx.deep(s2, l1))
                    for a, sy in d.items():
                        r = ctx.eng.force(s2, sy)
                        if r[0] == "r":
                            rep.need(ctx.eng.norm(s2, r) == sy, f"{name}: the given {a} is not modified ({lab})", s2,
                                     show(ctx.deep(s2, r))[:160])
                    for s3, k3, l2 in ctx.method(s2, m, "marshal"):
                        rep.need(k3 == "v" and alpha(ctx.deep(s3, l2)) == snap and first is not None,
                                 f"{name}: encoding again gives the same list ({lab})", s3, show(ctx.deep(s3, l2))[:200])


def alpha(t):
    """The term with its fresh symbols renamed in order of appearance."""
    names = {}

    def go(x):
        if not isinstance(x, tuple):
            return x
        if len(x) == 2 and x[0] == "s" and isinstance(x[1], str) and x[1].startswith("fresh:"):
            return ("s", names.setdefault(x[1], f"fresh:{len(names)}"))
        return tuple(go(y) for y in x)
    return go(t)


def parameters(ctx, st, name):
    k = ctx.need_attr(st, f"messages.{name}Fields")
    init, _ = ctx.eng.class_lookup(st, k[1], "__init__")
    return {p for p, _ in carrier_params(ctx, st, k, init)}


def payload_mode(ctx, name, kw):
    return dict(kw, serializer=ctx.sym(f"{name}.serializer", INT), payload=ctx.sym(f"{name}.payload", frozenset({("bytes",)})))


def w11(rep, tier):
    rep.rule("marshal() of a message built with a payload serializer yields the specified list in which the options/details hold that "
             "serializer under x_payload_serializer and every other entry as given")
    ctx = Ctx(rep)
    n = 0
    for name in sorted(SPEC):
        st = ctx.eng.start()
        if "serializer" not in parameters(ctx, st, name):
            continue
        n += 1
        kw = symbols(ctx, st, name)
        d = payload_mode(ctx, name, kw)
        at = [i for i, (a, t) in enumerate(SPEC[name][1]) if t == "dict"][0] + 1
        given = kw[SPEC[name][1][at - 1][0]]
        for s, k, m in build(ctx, st, name, d):
            outs = ctx.method(s, m, "marshal") if k == "v" else []
            rep.op(f"{name}.marshal [with payload]", len(outs))
            rep.need(k == "v", f"{name}: construction with a payload", s, ctx.exc(s, m) if k == "x" else "")
            for s2, k2, v in outs:
                got = elements(ctx, s2, v) if k2 == "v" else None
                want = expected_list(name, kw)
                rep.need(got is not None and len(got) == len(want), f"{name}: the list has the specified elements", s2, "")
                if got is None or len(got) != len(want):
                    continue
                rep.need(all(same(ctx, s2, g, w) for i, (g, w) in enumerate(zip(got, want)) if i != at),
                         f"{name}: the other elements are as specified", s2, show(ctx.deep(s2, v))[:200])
                for s3, x in dict_entry(ctx, s2, got[at], "x_payload_serializer"):
                    rep.need(x is not None and same(ctx, s3, x, d["serializer"]), f"{name}: the serializer is announced", s3,
                             show(x)[:80] if x else "absent")
                key = ctx.sym("key", STR)
                s3 = s2.copy()
                s3.assume(ctx.eng.mk_eq(s3, key, C("x_payload_serializer")), False)
                a = ctx.eng.dict_find(s3, ctx.eng.force(s3, got[at]), key)
                for s4, x in a:
                    for s5, b in ctx.eng.branch_bool(s4, ctx.eng.in_atom(s4, key, given)):
                        rep.need((x is not None) == b and (x is None or same(ctx, s5, x, T("item", given, key))),
                                 f"{name}: every other entry is as given", s5, show(x)[:80] if x else "absent")
    if not n:
        raise Incomplete("no message class takes a payload serializer")


CHECKS = [("validate_realm_or_raise", "InvalidRealmError"), ("validate_uri_or_raise", "InvalidUriError"),
          ("validate_procedure_or_raise", "InvalidUriError")]


def others(*heads):
    return frozenset(t for t in WIRE_TS if t[0] not in heads)


def w12(rep, tier):
    rep.rule("every path of a standalone check returns its argument exactly when it is well-formed and raises the check's own error otherwise")
    ctx = Ctx(rep)
    eng = ctx.eng
    st0 = eng.start()
    what = ctx.sym("what", STR)

    def verdicts(name, st, v, good, err, *more):
        f = ctx.need_attr(st, "messages.util." + name)
        e = ctx.need_attr(st, "messages.exceptions." + err)
        outs = ctx.run(st.copy(), f, v, what, *more)
        rep.op(f"{name}: {'well-formed' if good else 'malformed'}", len(outs))
        for s, k, r in outs:
            if good:
                rep.need(k == "v" and same(ctx, s, r, v), f"{name} returns a well-formed value unchanged", s,
                         ctx.exc(s, r)[:100] if k == "x" else show(ctx.deep(s, r))[:100])
            else:
                rep.need(k == "x" and eng.exc_match(s, r, e), f"{name} refuses a malformed value with {err}", s,
                         f"{'returns ' + show(ctx.deep(s, r))[:80] if k == 'v' else ctx.exc(s, r)[:100]}")

    for name, err in CHECKS:
        verdicts(name, st0, ctx.sym("text", STR), True, err)
        verdicts(name, st0, ctx.sym("other", others("str")), False, err)
    # dictionaries of details have text keys
    for field in ((), (ctx.sym("field", STR),)):
        name, err = "validate_details_or_raise", "InvalidDetailsError"
        verdicts(name, st0, ctx.sym("other", others("dict")), False, err, *field)
        verdicts(name, st0, ctx.sym("details", DICT), True, err, *field)
        for bad in range(3):
            st = st0.copy()
            ks = [ctx.sym(f"key{i}", STR if i != bad else INT) for i in range(2)]
            st.assume(eng.mk_eq(st, *ks), False)
            d = st.alloc(DictO(None, tuple((k, ctx.sym(f"value{i}"), None, None) for i, k in enumerate(ks))))
            verdicts(name, st, d, bad == 2, err, *field)
        name, err = "validate_session_id_or_raise", "ProtocolError"
        verdicts(name, st0, ctx.sym("other", others("int", "bool")), False, err, *field)
        for lo, hi, good in ((-INF, 0, False), (1, MAX_ID, True), (MAX_ID + 1, INF, False)):
            st = st0.copy()
            i = ctx.sym("session", INT)
            st.iv[i] = (lo, hi)
            verdicts(name, st, i, good, err, *field)
    # the shape check of a whole message
    f = ctx.need_attr(st0, "messages.util.sanity_check")
    lo, hi, code = ctx.sym("least", INT), ctx.sym("most", INT), ctx.sym("code", INT)
    for label, v in (("a list", ctx.sym("list", LIST)), ("another value", ctx.sym("other", others("list")))):
        st = st0.copy()
        st.iv[lo] = (1, INF)
        outs = ctx.run(st, f, v, lo, hi, code, what)
        rep.op(f"sanity_check of {label}", len(outs))
        for s, k, r in outs:
            ok = []
            if label == "a list":
                n = eng.len_term(s, v)
                ok = [eng.mk_not(eng.mk_lt(s, n, lo)), eng.mk_not(eng.mk_lt(s, hi, n)), eng.mk_eq(s, wire_item(ctx, s, v, 0), code)]
            if k == "v":
                rep.need(bool(ok) and all(holds(s, a) for a in ok), "sanity_check passes only lists of the right code and length", s,
                         f"passes {label}; path {path_of(s)}")
            else:
                rep.need(ctx.is_exc(s, r, "ValueError"), "sanity_check raises ValueError", s, ctx.exc(s, r)[:100])
                rep.need(not ok or any(refuted(s, a) for a in ok), "sanity_check refuses only lists of a wrong code or length", s,
                         f"path {path_of(s)}")


def w09(rep, tier):
    rep.rule("every plain data carrier of the API returns through each accessor exactly the constructor argument of that name")
    ctx = Ctx(rep)
    n = 0
    # message field carriers, including the optional payload attributes
    st0 = ctx.eng.start()
    targets = []
    for name in ALL:
        targets.append((f"messages.{name}Fields", None))
    for t in ("types.Result", ):
        targets.append((t, None))
    for dotted in ("auth.auth.WAMPCRAResponse", "auth.auth.WAMPCRASaltedResponse", "auth.auth.Response",
                   "auth.auth.CryptoSignResponse", "auth.auth.TicketResponse", "auth.auth.RequestBase"):
        targets.append((dotted, None))
    extra = discover_carriers(ctx, st0)
    done = set()
    for dotted in [t for t, _ in targets] + extra:
        k = ctx.attr(st0, dotted)
        if k is None or k[0] != "k" or k[1] in done:
            continue
        done.add(k[1])
        init, owner = ctx.eng.class_lookup(st0, k[1], "__init__")
        ci = ctx.eng.classes[k[1]]
        params = carrier_params(ctx, st0, k, init)
        if not params:
            continue
        st = st0.copy()
        kw = {}
        for p, ty in params:
            sy = ctx.sym(f"{k[1].rsplit('.', 1)[-1]}.{p}", ty)
            kw[p] = sy
        outs = ctx.run(st, k, **kw)
        rep.op(f"{dotted}(...)", len(outs))
        for s, kk, v in outs:
            if kk == "x":
                # constructors that validate their arguments may refuse them
                rep.ok(f"{dotted} construction", loc_of(s))
                continue
            for s1, o, what in [(s, v, dotted)] + messages_of(ctx, rep, s, v, dotted):
                for p, attr in (("serializer", "payload_serializer"), ("binary", "payload_is_binary")):
                    if p in kw:
                        n += payload_accessor(ctx, rep, s1, o, what, attr, kw[p])
                if "payload" not in kw and ctx.eng.class_lookup(s1, s1.heap[o[1]].cls, "payload")[0] is not None:
                    payload_accessor(ctx, rep, s1, o, what, "payload", NONE)
                    payload_accessor(ctx, rep, s1, o, what, "payload_is_binary", FALSE)
                if o == v:
                    continue
                if "serializer" not in kw and has_accessor(ctx, s1, ("k", s1.heap[o[1]].cls), "payload_serializer"):
                    for s2, k2, w in ctx.get(s1, v, "payload_serializer"):
                        n += payload_accessor(ctx, rep, s2, o, what, "payload_serializer", w) if k2 == "v" else 0
                for p, _ in params:
                    if p in ("serializer", "binary", "options", "details", "extra") or ctx.eng.class_lookup(s1, s1.heap[o[1]].cls, p)[0] is None:
                        continue
                    for s2, k2, got in ctx.get(s1, o, p):
                        n += 1
                        rep.need(k2 == "v" and (same(ctx, s2, got, kw[p]) or default_ok(ctx, s2, got, kw[p])), f"{what}.{p} returns what its fields hold",
                                 s2, show(ctx.deep(s2, got))[:160])
            for p, _ in params:
                for s2, k2, got in ctx.get(s, v, p):
                    if k2 == "x":
                        if ctx.is_exc(s2, got, "AttributeError") and not has_accessor(ctx, s2, k, p):
                            continue
                        rep.need(False, f"{dotted}.{p} is readable", s2, f"raises {ctx.exc(s2, got)[:120]}")
                        continue
                    if got[0] == "bm":
                        continue
                    n += 1
                    ok = same(ctx, s2, got, kw[p]) or default_ok(ctx, s2, got, kw[p])
                    rep.need(ok, f"{dotted}.{p} returns the constructor argument", s2,
                             f"returns {show(ctx.deep(s2, got))[:160]}; path {path_of(s2)}")
    # whatever object the application passes as fields, the message hands out what that object holds
    for name in ALL:
        st = st0.copy()
        o = ctx.sym(f"{name} fields")
        attrs = sorted(parameters(ctx, st, name) - {"serializer", "binary", "options", "details", "extra"} | {"payload", "payload_serializer"})
        for s, k, m in ctx.run(st, ctx.need_attr(st, f"messages.{name}"), o):
            if k == "x" or m[0] != "r" or s.heap[m[1]].kind != "inst":
                continue
            cls = ("k", s.heap[m[1]].cls)
            rep.op(f"messages.{name} of any fields", 1)
            for a in attrs:
                if not has_accessor(ctx, s, cls, a):
                    continue
                for s2, k2, w in ctx.get(s.copy(), o, a):
                    for s3, k3, v in ctx.get(s2, m, a):
                        n += 1
                        rep.need(k3 == "v" and same(ctx, s3, v, w), f"messages.{name}.{a} returns what its fields hold", s3,
                                 show(ctx.deep(s3, v))[:160])
            if has_accessor(ctx, s, cls, "payload_is_binary"):
                for s2, k2, f in ctx.get(s.copy(), m, "payload_is_binary"):
                    outs = ctx.eng.call(s2, f, [], {}) if k2 == "v" and f[0] == "bm" else [(s2, k2, f)]
                    for s3, k3, v in outs:
                        want = (T("mcall", o, C("payload_is_binary")), T("attr", o, C("payload_is_binary")))
                        rep.need(k3 == "x" or v in want, f"messages.{name}.payload_is_binary() returns what its fields say", s3,
                                 show(ctx.deep(s3, v))[:160])
    # a message built without a payload has none
    for name in ALL:
        st = st0.copy()
        for s, k, m in build(ctx, st, name, symbols(ctx, st, name)):
            if k == "v" and m[0] == "r" and ctx.eng.class_lookup(s, s.heap[m[1]].cls, "payload")[0] is not None:
                rep.op(f"{name} without payload", 1)
                n += payload_accessor(ctx, rep, s, m, f"messages.{name} built without payload", "payload", NONE)
                n += payload_accessor(ctx, rep, s, m, f"messages.{name} built without payload", "payload_is_binary", FALSE)
    rep.need(n >= 90, "data carrier accessors found", "-", f"only {n} accessors analysed") if n >= 90 else rep.open(
        "data carrier accessors found", "-", f"only {n}")


def messages_of(ctx, rep, s, fields, dotted):
    """The message object built on a fields carrier: [(state, object, its name)]."""
    if not dotted.startswith("messages.") or not dotted.endswith("Fields"):
        return []
    k = ctx.attr(s, dotted[:-len("Fields")])
    if k is None or k[0] != "k":
        return []
    return [(s2, v, dotted[:-len("Fields")]) for s2, kk, v in ctx.run(s.copy(), k, fields) if kk == "v" and v[0] == "r"]


def payload_accessor(ctx, rep, s, o, what, attr, want):
    n = 0
    for s2, k2, got in ctx.get(s, o, attr):
        outs = ctx.eng.call(s2, got, [], {}) if k2 == "v" and got[0] == "bm" else [(s2, k2, got)]
        for s3, k3, v in outs:
            n += 1
            if k3 == "x":
                rep.need(False, f"{what}.{attr} is readable", s3, f"raises {ctx.exc(s3, v)[:120]}")
                continue
            rep.need(same(ctx, s3, v, want), f"{what}.{attr} returns what was given", s3, show(ctx.deep(s3, v))[:120])
    return n


def default_ok(ctx, s, got, sym):
    """None given for an optional container: an empty container is an allowed reading."""
    d = ctx.deep(s, got)
    return s.decide(T("isnone", sym)) is True and d in (T("dict", NONE), T("list", NONE), NONE)


def has_accessor(ctx, st, k, p):
    a, _ = ctx.eng.class_lookup(st, k[1], p)
    return a is not None


def carrier_params(ctx, st, k, init):
    ci = ctx.eng.classes[k[1]]
    if ci.dataclass or ci.namedtuple:
        return [(f, ctx.eng.field_types(k[1], f)) for f in ci.fields]
    if init is None or init[0] != "f":
        return []
    fi = ctx.eng.funcs[init[1]]
    out = []
    a = fi.node.args
    for x in (a.posonlyargs + a.args)[1:] + a.kwonlyargs:
        ty = ctx.eng.ann_types(st, x.annotation, "Fmod:" + fi.mod) if x.annotation is not None else ANY
        out.append((x.arg, ty))
    return out


def discover_carriers(ctx, st):
    """Classes whose constructor parameters are all readable back under the same public name."""
    out = []
    pre = "wampproto."
    for q, ci in sorted(ctx.eng.classes.items()):
        if ci.enum or ctx.eng.is_exc_class(q):
            continue
        init, owner = ctx.eng.class_lookup(st, q, "__init__")
        ps = carrier_params(ctx, st, ("k", q), init)
        if not ps:
            continue
        if all(ctx.eng.class_lookup(st, q, p)[0] is not None and ctx.eng.class_lookup(st, q, p)[0][0] == "prop" for p, _ in ps) or (
                (ci.dataclass or ci.namedtuple) and len(ps) >= 1):
            out.append(q[len(pre):])
    return out


RULES = {"W01": w01, "W02": w02, "W03": w03, "W04": w04, "W05": w05, "W06": w06, "W07": w07, "W08": w08, "W09": w09, "W11": w11, "W12": w12}
