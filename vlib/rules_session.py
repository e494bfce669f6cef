"""Client session rules (C*): the session simulates a reference model of outstanding requests and active ids.

The reference model is a family of sets; "id z is in set k" is observed only through the public interface (is the reply
accepted?), from an arbitrary session state.  Each operation is checked to move every observation exactly as the model
does, so by induction over the history acceptance coincides with the model after any sequence of operations.
"""

from .common import *  # noqa: F403
from .common import (ANY, BOOL, C, Ctx, DICT, FALSE, INT, Incomplete, LIST, MAX_ID, NONE, S, STR, T, TRUE, cv, generalise, holds,
                     is_imprecise, loc_of, option, path_of, refuted, rewind, same, show, split)
from .rules_wire import ALL, DETAILS, SPEC, TY

KINDS = ["call", "register", "unregister", "publish", "subscribe", "unsubscribe", "registration", "subscription", "invocation"]
CODE = {"call": 48, "register": 64, "unregister": 66, "publish": 16, "subscribe": 32, "unsubscribe": 34}


class Sess:
    def __init__(self, rep):
        self.ctx = Ctx(rep)
        self.rep = rep
        ctx = self.ctx
        st = ctx.eng.start()
        ser = ctx.need_attr(st, "serializers.serializer.Serializer")
        self.ser = ctx.sym("serializer", frozenset({("inst", ser[1])}))
        self.fresh0, self.obj = ctx.new(st, "session.WAMPSession", self.ser)
        self.any = self.fresh0.copy()
        generalise(ctx, self.any, self.obj, "session")
        self.n = 0

    def sym(self, label, ty, st, ident=False):
        s = self.ctx.sym(label, ty)
        if ident:
            st.iv[s] = (1, MAX_ID)
        return s

    def msg(self, st, name, label, **fix):
        """(state, message, args) with arbitrary field values except the fixed ones; flags set options keys."""
        ctx = self.ctx
        st = st.copy()
        kw = {}
        flags = fix.pop("flags", {})
        elems = SPEC[name][1] if name in SPEC else [DETAILS[name][1]] + sorted(DETAILS[name][2].items())
        for a, t in elems:
            if a in fix:
                kw[a] = fix[a]
                continue
            kw[a] = self.sym(f"{label}.{a}", TY[t], st, t == "id")
        if fix.get("payload"):
            kw["payload"] = ctx.sym(f"{label}.payload", frozenset({("bytes",)}))
            kw["serializer"], kw["binary"] = ctx.sym(f"{label}.serializer", INT), ctx.sym(f"{label}.binary", BOOL)
        if name in SPEC and SPEC[name][2]:
            for a, ty in (("args", LIST), ("kwargs", DICT)):
                kw[a] = ctx.sym(f"{label}.{a}", ty | frozenset({("none",)}))
        for (a, key), val in flags.items():
            if not option(ctx, st, kw[a], key, val):
                raise Incomplete("inconsistent flags")
        s, m = ctx.message(st, name, **kw)
        return s, m, kw

    def do(self, st, verb, m):
        """Outcomes of sending/receiving; failures of the serializer object itself are not of interest."""
        return [(s, k, v) for s, k, v in self.ctx.method(st, self.obj, verb, m)
                if not (k == "x" and v[0] == "e" and v[1] == ("x", "?any"))]

    def observe(self, st, kind, z):
        """[(state, bool)]: is z in the session's set `kind` -- by acceptance of the message that needs it."""
        lab = f"obs:{kind}"
        if kind in CODE:
            s, m, _ = self.msg(st, "Error", lab, message_type=C(CODE[kind]), request_id=z)
            outs = self.do(s, "receive_message", m)
        elif kind == "registration":
            s, m, _ = self.msg(st, "Invocation", lab, registration_id=z)
            outs = self.do(s, "receive_message", m)
        elif kind == "subscription":
            s, m, _ = self.msg(st, "Event", lab, subscription_id=z)
            outs = self.do(s, "receive_message", m)
        else:
            s, m, _ = self.msg(st, "Yield", lab, request_id=z, flags={("options", "progress"): True})
            outs = self.do(s, "send_message", m)
        return [(s2, k == "v") for s2, k, v in outs]

    def z(self, st, name="z"):
        return self.sym(name, INT, st, True)


def ops(S_):
    """[(label, verb, message class, fix/flags, effect)] with effect: kind -> (field of the message, 'add'|'remove')."""
    o = []
    P, ACK = ("options", "progress"), ("options", "acknowledge")
    D = ("details", "progress")
    o.append(("send CALL", "send_message", "Call", {}, {"call": ("request_id", "add")}, None))
    o.append(("send REGISTER", "send_message", "Register", {}, {"register": ("request_id", "add")}, None))
    o.append(("send UNREGISTER", "send_message", "Unregister", {}, {"unregister": ("request_id", "add")}, None))
    o.append(("send SUBSCRIBE", "send_message", "Subscribe", {}, {"subscribe": ("request_id", "add")}, None))
    o.append(("send UNSUBSCRIBE", "send_message", "Unsubscribe", {}, {"unsubscribe": ("request_id", "add")}, None))
    o.append(("send PUBLISH with acknowledge", "send_message", "Publish", {"flags": {ACK: True}},
              {"publish": ("request_id", "add")}, None))
    for v in (None, False):
        o.append((f"send PUBLISH acknowledge={v}", "send_message", "Publish", {"flags": {ACK: v}}, {}, None))
    o.append(("send YIELD progress", "send_message", "Yield", {"flags": {P: True}}, {}, ("invocation", "request_id")))
    for v in (None, False):
        o.append((f"send YIELD progress={v}", "send_message", "Yield", {"flags": {P: v}}, {"invocation": ("request_id", "remove")},
                  ("invocation", "request_id")))
    o.append(("send invocation ERROR", "send_message", "Error", {"message_type": C(68)}, {"invocation": ("request_id", "remove")},
              None))
    o.append(("send GOODBYE", "send_message", "Goodbye", {}, {}, None))
    o.append(("receive RESULT progress", "receive_message", "Result", {"flags": {D: True}}, {}, ("call", "request_id")))
    for v in (None, False):
        o.append((f"receive RESULT progress={v}", "receive_message", "Result", {"flags": {D: v}}, {"call": ("request_id", "remove")},
                  ("call", "request_id")))
    o.append(("receive REGISTERED", "receive_message", "Registered", {},
              {"register": ("request_id", "remove"), "registration": ("registration_id", "add")}, ("register", "request_id")))
    o.append(("receive SUBSCRIBED", "receive_message", "Subscribed", {},
              {"subscribe": ("request_id", "remove"), "subscription": ("subscription_id", "add")}, ("subscribe", "request_id")))
    o.append(("receive UNREGISTERED", "receive_message", "Unregistered", {},
              {"unregister": ("request_id", "remove"), "registration": (None, "target")}, ("unregister", "request_id")))
    o.append(("receive UNSUBSCRIBED", "receive_message", "Unsubscribed", {},
              {"unsubscribe": ("request_id", "remove"), "subscription": (None, "target")}, ("unsubscribe", "request_id")))
    o.append(("receive PUBLISHED", "receive_message", "Published", {}, {"publish": ("request_id", "remove")},
              ("publish", "request_id")))
    o.append(("receive INVOCATION", "receive_message", "Invocation", {}, {"invocation": ("request_id", "add")},
              ("registration", "registration_id")))
    o.append(("receive EVENT", "receive_message", "Event", {}, {}, ("subscription", "subscription_id")))
    for kd, code in sorted(CODE.items()):
        o.append((f"receive {kd} ERROR", "receive_message", "Error", {"message_type": C(code)}, {kd: ("request_id", "remove")},
                  (kd, "request_id")))
    for label, verb, name, fix, effect, cond in list(o):
        if name in ("Call", "Yield", "Invocation", "Result"):
            o.append((label + " with payload", verb, name, {**fix, "payload": True}, effect, cond))
    o.append(("receive GOODBYE", "receive_message", "Goodbye", {}, {}, None))
    o.append(("receive ABORT", "receive_message", "Abort", {}, {}, None))
    return o


def transitions(S_, select, kinds, rep, rule):
    """Check that each selected operation moves each selected observation as the reference model does."""
    ctx = S_.ctx
    for label, verb, name, fix, effect, cond in ops(S_):
        if not select(label):
            continue
        n = 0
        for kind in kinds:
            base = S_.any.copy()
            z = S_.z(base)
            for so, before in S_.observe(base, kind, z):
                pre = rewind(base, so)
                s, m, kw = S_.msg(pre, name, label, **fix)
                for s1, k, v in S_.do(s, verb, m):
                    n += 1
                    for s2, after in S_.observe(s1, kind, z):
                        check(S_, rep, label, kind, kw, effect, cond, before, k, s1, s2, after, z)
        rep.op(label, n)


def check(S_, rep, label, kind, kw, effect, cond, before, k, s1, s2, after, z):
    ctx = S_.ctx
    eff = effect.get(kind)
    what = f"{label}: membership of an id in '{kind}' afterwards"
    if k == "x":
        if kind in effect and effect.get(kind) is not None and label in ("receive UNREGISTERED", "receive UNSUBSCRIBED"):
            return  # an acknowledged request whose registration is already gone may be consumed with the error
        rep.need(after == before, what + " (rejected)", s2, f"was {before}, is {after} though the message was rejected; path "
                 f"{path_of(s2)}")
        return
    if eff is None:
        rep.need(after == before, what, s2, f"was {before}, is {after}; path {path_of(s2)}")
        return
    fld, how = eff
    if how == "target":
        # exactly one id leaves the set: the one the matching request named (checked by `targets`)
        rep.need(before or not after, what, s2, f"was {before}, is {after}; path {path_of(s2)}")
        return
    for s3, eq in split(ctx, [s2], ctx.eng.mk_eq(s2, kw[fld], z)):
        want = (how == "add") if eq else before
        rep.need(after == want, what, s3, f"was {before}, expected {want}, is {after} "
                 f"(same id: {eq}); path {path_of(s3)}")


def accept(S_, select, rep):
    """Acceptance of each selected message coincides with membership in the model's set."""
    ctx = S_.ctx
    for label, verb, name, fix, effect, cond in ops(S_):
        if not select(label):
            continue
        base = S_.any.copy()
        n = 0
        if cond is None:
            s, m, kw = S_.msg(base, name, label, **fix)
            for s1, k, v in S_.do(s, verb, m):
                n += 1
                rep.need(k == "v", f"{label}: accepted", s1, f"raises {ctx.exc(s1, v) if k == 'x' else ''}; path {path_of(s1)}")
                returns(S_, rep, label, verb, s1, k, v, m)
        else:
            kind, fld = cond
            z = S_.z(base)
            for so, member in S_.observe(base, kind, z):
                pre = rewind(base, so)
                f2 = dict(fix)
                f2[fld] = z
                s, m, kw = S_.msg(pre, name, label, **f2)
                for s1, k, v in S_.do(s, verb, m):
                    n += 1
                    if member and label in ("receive UNREGISTERED", "receive UNSUBSCRIBED"):
                        # also needs the named registration/subscription to be active
                        rep.ok(f"{label}: decided by the target id", loc_of(s1))
                    else:
                        rep.need((k == "v") == member, f"{label}: accepted iff the id is in '{kind}'", s1,
                                 f"id {'in' if member else 'not in'} the set, message "
                                 f"{'accepted' if k == 'v' else 'rejected with ' + ctx.exc(s1, v)[:100]}; path {path_of(s1)}")
                    if k == "x":
                        rep.need(ctx.is_exc(s1, v, "ValueError"), f"{label}: rejected with ValueError", s1, ctx.exc(s1, v)[:120])
                    returns(S_, rep, label, verb, s1, k, v, m)
        rep.op(label, n)


def returns(S_, rep, label, verb, s, k, v, m):
    if k != "v":
        return  # nothing is handed out, so nothing is sent
    if verb == "receive_message":
        rep.need(v == m, f"{label}: returns the received message", s, show(v)[:120])
    else:
        sent = [e for e in s.events if e[0] == "open" and e[3] == "serialize"]
        ok = len(sent) == 1 and v == sent[0][5] and sent[0][4][-1:] and S_.ctx.deep(s, m) in sent[0][4]
        rep.need(ok, f"{label}: returns the serialised message", s, f"{show(v)[:100]} {sent}"[:300])


def fresh(S_, rep, kinds):
    for kind in kinds:
        base = S_.fresh0.copy()
        z = S_.z(base)
        outs = S_.observe(base, kind, z)
        rep.op(f"new session: {kind}", len(outs))
        for s, b in outs:
            rep.need(not b, f"a new session has no '{kind}'", s, f"accepted; path {path_of(s)}")


def targets(S_, rep, req, ack, kind, field, rule):
    """The acknowledged request deactivates exactly the id it named, whatever other operation happened in between."""
    ctx = S_.ctx
    others = [None] + ops(S_)
    for other in others:
        n = 0
        base = S_.any.copy()
        rid, tgt, y = S_.z(base, "request"), S_.z(base, "target"), S_.z(base, "y")
        for s0, m, kw in [S_.msg(base, req, "first", **{"request_id": rid, field: tgt})]:
            for s1, k, v in S_.do(s0, "send_message", m):
                if k == "x":
                    continue
                mids = [(s1, {})]
                if other is not None:
                    label, verb, name, fix, effect, cond = other
                    mids = []
                    s2, m2, kw2 = S_.msg(s1, name, "between", **fix)
                    for s3, k3, v3 in S_.do(s2, verb, m2):
                        # operations that themselves concern this request are covered by the transition rule
                        if name in (req, ack) or name == "Error":
                            if not s3.assume(ctx.eng.mk_eq(s3, kw2["request_id"], rid), False):
                                continue
                        mids.append((s3, kw2))
                for s3, kw2 in mids:
                    for so, before in S_.observe(s3, kind, y):
                        pre = rewind(s3, so)
                        s4, m4, _ = S_.msg(pre, ack, "ack", request_id=rid)
                        for s5, k5, v5 in S_.do(s4, "receive_message", m4):
                            n += 1
                            if k5 == "x":
                                # only when the target is not active any more
                                for s6, act in S_.observe(s5, kind, tgt):
                                    rep.need(not act, f"{ack}: rejected only when the named id is not active", s6,
                                             f"raises {ctx.exc(s5, v5)[:100]}; path {path_of(s6)}")
                                continue
                            for s6, after in S_.observe(s5, kind, y):
                                for s7, eq in split(ctx, [s6], ctx.eng.mk_eq(s6, y, tgt)):
                                    want = False if eq else before
                                    rep.need(after == want, f"{ack} deactivates exactly the id named by its request", s7,
                                             f"was {before}, expected {want}, is {after} (named id: {eq}), in between: "
                                             f"{other[0] if other else 'nothing'}; path {path_of(s7)}")
        rep.op(f"{req}; {other[0] if other else 'nothing'}; {ack}", n)


REPLIES = ("receive RESULT", "receive REGISTERED", "receive UNREGISTERED", "receive SUBSCRIBED", "receive UNSUBSCRIBED",
           "receive PUBLISHED")
REQ_KINDS = ["call", "register", "unregister", "publish", "subscribe", "unsubscribe"]


def c01(rep, tier):
    rep.rule("from an arbitrary session state, a reply or ERROR is accepted iff an observation equivalent to 'its request is "
             "outstanding' holds; a request becomes outstanding by sending it and a new session has none outstanding")
    S_ = Sess(rep)
    accept(S_, lambda l: l.startswith(REPLIES) or "ERROR" in l and l.startswith("receive"), rep)
    transitions(S_, lambda l: l.startswith("send"), REQ_KINDS, rep, "C01")
    fresh(S_, rep, REQ_KINDS)


def c02(rep, tier):
    rep.rule("accepting a terminal reply or ERROR removes its request (a second one is rejected); a progressive RESULT keeps it; "
             "a rejected message changes nothing")
    S_ = Sess(rep)
    transitions(S_, lambda l: l.startswith("receive"), REQ_KINDS, rep, "C02")


def c03(rep, tier):
    rep.rule("INVOCATION/EVENT accepted iff the id is active; REGISTERED/SUBSCRIBED activate exactly their id, and "
             "UNREGISTERED/UNSUBSCRIBED deactivate exactly the id named by the request they answer")
    S_ = Sess(rep)
    accept(S_, lambda l: l in ("receive INVOCATION", "receive EVENT"), rep)
    transitions(S_, lambda l: True, ["registration", "subscription"], rep, "C03")
    fresh(S_, rep, ["registration", "subscription"])
    targets(S_, rep, "Unregister", "Unregistered", "registration", "registration_id", "C03")
    targets(S_, rep, "Unsubscribe", "Unsubscribed", "subscription", "subscription_id", "C03")


def c04(rep, tier):
    rep.rule("YIELD is sent iff the invocation is outstanding; it becomes outstanding by an accepted INVOCATION and stops being "
             "so by the final YIELD or an invocation ERROR only")
    S_ = Sess(rep)
    accept(S_, lambda l: l.startswith("send YIELD"), rep)
    transitions(S_, lambda l: True, ["invocation"], rep, "C04")
    fresh(S_, rep, ["invocation"])


def c05(rep, tier):
    rep.rule("PUBLISHED is accepted iff an unanswered PUBLISH asked for acknowledgement")
    S_ = Sess(rep)
    accept(S_, lambda l: "PUBLISH" in l, rep)
    transitions(S_, lambda l: True, ["publish"], rep, "C05")
    fresh(S_, rep, ["publish"])


def c06(rep, tier):
    rep.rule("an operation on one kind of request or id leaves every observation of the other kinds unchanged, even for equal ids")
    S_ = Sess(rep)
    for label, verb, name, fix, effect, cond in ops(S_):
        transitions(S_, lambda l: l == label, [k for k in KINDS if k not in effect], rep, "C06")


SENDABLE = {"Call", "Register", "Unregister", "Yield", "Publish", "Subscribe", "Unsubscribe", "Goodbye", "Error"}
RECEIVABLE = {"Result", "Registered", "Unregistered", "Invocation", "Published", "Subscribed", "Unsubscribed", "Event", "Error",
              "Goodbye", "Abort"}
# CANCEL and INTERRUPT are client messages this version does not support: neither accepting nor rejecting them is required
OPEN_SEND, OPEN_RECV = {"Cancel", "Abort"}, {"Interrupt"}


def c07(rep, tier):
    rep.rule("messages of the wrong direction are rejected with ValueError, send nothing and change no observation; accepted ones "
             "are returned (receive) or serialised exactly once (send)")
    S_ = Sess(rep)
    ctx = S_.ctx
    accept(S_, lambda l: True, rep)
    for name in ALL:
        for verb, allowed, skip in (("send_message", SENDABLE, OPEN_SEND), ("receive_message", RECEIVABLE, OPEN_RECV)):
            if name in allowed or name in skip:
                continue
            label = f"{verb} {name}"
            n = 0
            for kind in KINDS:
                base = S_.any.copy()
                z = S_.z(base)
                for so, before in S_.observe(base, kind, z):
                    pre = rewind(base, so)
                    s, m, kw = S_.msg(pre, name, label)
                    for s1, k, v in S_.do(s, verb, m):
                        n += 1
                        rep.need(k == "x" and ctx.is_exc(s1, v, "ValueError", "TypeError"), f"{label}: rejected with ValueError", s1,
                                 f"{'accepted' if k == 'v' else ctx.exc(s1, v)[:100]}")
                        returns(S_, rep, label, verb, s1, k, v, m)
                        for s2, after in S_.observe(s1, kind, z):
                            rep.need(after == before, f"{label}: changes nothing", s2, f"'{kind}' was {before}, is {after}")
            rep.op(label, n)
    # ERROR: only invocation errors can be sent, only request errors can be received
    for verb, ok in (("send_message", [68]), ("receive_message", sorted(CODE.values()))):
        base = S_.any.copy()
        s, m, kw = S_.msg(base, "Error", verb + " ERROR")
        for c in ok:
            s.assume(ctx.eng.mk_eq(s, kw["message_type"], C(c)), False)
        outs = S_.do(s, verb, m)
        rep.op(f"{verb} ERROR of another request type", len(outs))
        for s1, k, v in outs:
            rep.need(k == "x" and ctx.is_exc(s1, v, "ValueError"), f"{verb}: ERROR for another request type is rejected", s1,
                     f"{'accepted' if k == 'v' else ctx.exc(s1, v)[:100]}; path {path_of(s1)}")
    c07_receive(S_, rep)


def c07_receive(S_, rep):
    """receive(data) hands exactly the deserialised message on."""
    ctx = S_.ctx
    rep.rule("receive(data) deserialises data once with the session's serializer and treats the result as receive_message does")
    base = S_.any.copy()
    data = ctx.sym("data", frozenset({("str",), ("bytes",)}))
    rm = None
    k = ctx.need_attr(base, "session.WAMPSession")
    f, _ = ctx.eng.class_lookup(base, k[1], "receive_message")
    got = []

    def h(eng, s, args, kw, loc):
        got.append(args)
        return [(s, "v", T("handled", *args[1:]))]

    ctx.eng.intercepts[ctx.eng.funcs[f[1]].qual] = h
    outs = S_.do(base, "receive", data)
    ctx.eng.intercepts.clear()
    rep.op("receive(data)", len(outs))
    direct = bool(outs) and all(v and v[0] == "t" and v[1] == "handled" for s, kk, v in outs)
    if direct:
        for s, kk, v in outs:
            des = [e for e in s.events if e[0] == "open" and e[3] == "deserialize"]
            rep.need(kk == "v" and len(des) == 1 and des[0][4][-1] == data and v[2] == des[0][5], "receive(data)", s,
                     f"{show(v)[:160]} {des}"[:300])
        return
    # receive() does not simply call receive_message(): compare the two message class by message class
    for name in ALL:
        for kind in KINDS:
            base = S_.any.copy()
            z = S_.z(base)
            for so, before in S_.observe(base, kind, z):
                pre = rewind(base, so)
                s, m, kw = S_.msg(pre, name, "receive " + name)
                res = []
                for verb in ("receive", "receive_message"):
                    ctx.eng.open_hooks["deserialize"] = lambda eng, s2, b, args, kw2: [(s2, "v", m)] if args[-1:] == [data] else None
                    outs = S_.do(s.copy(), verb, data if verb == "receive" else m)
                    ctx.eng.open_hooks.clear()
                    got = {}
                    for s1, k1, v in outs:
                        how = (k1, "returned" if k1 == "v" and v == m else show(ctx.deep(s1, v))[:60] if k1 == "v" else v[1] if v[0] == "e" else "?")
                        for s2, after in S_.observe(s1, kind, z):
                            got[(how, after)] = s2
                    res.append(got)
                for how in set(res[0]) ^ set(res[1]):
                    mine = how in res[0]
                    rep.need(False, f"receive(data) treats {name} as receive_message does", (res[0] if mine else res[1])[how],
                             f"only {'receive' if mine else 'receive_message'} has the outcome {how[0]} ('{kind}' was {before}, is {how[1]})")
                if set(res[0]) == set(res[1]):
                    rep.need(True, f"receive(data) treats {name} as receive_message does", s, "")


def unsent(S_, rep, label, verb, pre, kind, z, before, m, kw):
    """Outcomes in which the serializer fails: the observation is what it was."""
    n = 0
    for s1, k, v in S_.ctx.method(pre, S_.obj, verb, m):
        if k != "x" or v[0] != "e" or v[1] != ("x", "?any"):
            continue
        n += 1
        for s2, after in S_.observe(s1, kind, z):
            rep.need(after == before, f"{label}: a failure changes nothing", s2,
                     f"membership of an id in '{kind}' was {before}, is {after} though nothing was sent or received; path {path_of(s2)}")
    return n


def c08(rep, tier):
    rep.rule("every outcome of send_message or receive in which the serializer raises leaves every observation of the session unchanged")
    S_ = Sess(rep)
    ctx = S_.ctx
    for label, verb, name, fix, effect, cond in ops(S_) + [(f"send {n.upper()} of any contents", "send_message", n, {}, {}, None) for n in ALL]:
        if verb != "send_message":
            continue
        n = 0
        for kind in KINDS:
            base = S_.any.copy()
            z = S_.z(base)
            for so, before in S_.observe(base, kind, z):
                pre = rewind(base, so)
                s, m, kw = S_.msg(pre, name, label, **fix)
                n += unsent(S_, rep, label, verb, s, kind, z, before, m, kw)
        rep.op(label, n)
        if cond is None and name in SENDABLE - {"Error", "Yield"}:
            rep.need(n > 0, f"{label}: the serializer is asked", "-", "no outcome in which it fails")
    n = 0
    for kind in KINDS:
        base = S_.any.copy()
        z = S_.z(base)
        for so, before in S_.observe(base, kind, z):
            data = ctx.sym("data", frozenset({("str",), ("bytes",)}))
            n += unsent(S_, rep, "receive(data)", "receive", rewind(base, so), kind, z, before, data, {})
    rep.op("receive(data)", n)
    rep.need(n > 0, "receive(data): the serializer is asked", "-", "no outcome in which it fails")


RULES = {"C08": c08, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07}
