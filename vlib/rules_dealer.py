"""Dealer rules (D*): the dealer simulates a reference model of sessions, registrations and pending calls.

Pre-states are an arbitrary population of other sessions, registrations and pending calls (see frame.py) plus explicitly
named ones that were put there by the dealer's own operations.  Every operation is run with every identity relation between
its parameters and the named entities; what each named entity answers afterwards -- through the public interface only -- is
compared with the model.
"""

from .common import *  # noqa: F403
from .common import (ANY, BOOL, C, Ctx, DICT, FALSE, INT, Incomplete, LIST, MAX_ID, NONE, S, STR, T, TRUE, cv, holds,
                     is_imprecise, loc_of, option, path_of, refuted, rewind, same, show, split)
from .frame import Frame
from .rules_wire import ALL, DETAILS, SPEC, TY

CALL, REGISTER, UNREGISTER, INVOCATION = 48, 64, 66, 68


REFUSALS = ("D07", "B05")


class Router:
    """Shared by dealer and broker: building messages and sessions, running operations, reading results."""

    dotted = None
    kinds = ()

    def __init__(self, rep, frame=True):
        self.rep = rep
        self.ctx = ctx = Ctx(rep)
        self.eng = ctx.eng
        st = ctx.eng.start()
        self.fresh_ids = []
        self.session_cls = ctx.need_attr(st, "types.SessionDetails")
        gen = ctx.need_attr(st, "idgen.SessionScopeIDGenerator")
        f, _ = ctx.eng.class_lookup(st, gen[1], "next")
        if f is None or f[0] != "f":
            raise Incomplete("anchor idgen.SessionScopeIDGenerator.next not found")
        self.next_qual = ctx.eng.funcs[f[1]].qual
        self.frame = None
        ctx.eng.intercepts[self.next_qual] = self.mint
        self.fresh, self.obj = ctx.new(st, self.dotted)
        self.base = self.fresh
        if frame:
            try:
                self.frame = Frame(self)
                self.base = self.frame.state
                rep.rule("pre-state: arbitrary population (" + self.frame.describe() + ") plus named entities")
            except Incomplete as e:
                self.frame = None
                rep.rule(f"pre-state: named entities only ({e})")

    def mint(self, eng, st, args, kw, loc):
        """The id generator: an id no live entity has (id uniqueness is I01; wrap-around is out of scope)."""
        if args and args[0][0] == "r" and args[0][1] in eng.shared:
            eng.sharedwrites.add((args[0][1], loc))  # drawing an id advances the generator
        s = st.fresh("newid")
        eng.symtypes[s] = INT
        st.iv[s] = (1, MAX_ID)
        self.fresh_ids.append(s)
        self.eng.unique.add(s)
        if self.frame is not None:
            self.frame.minted(st, s)
        return [(st, "v", s)]

    # ------------------------------------------------------------- building
    def name(self, label, ty=INT, st=None):
        s = self.ctx.sym(label, ty)
        if st is not None and ty == INT:
            st.iv[s] = (1, MAX_ID)
        return s

    def distinct(self, st, s, others):
        """Assume s differs from the others (in place)."""
        for o in others:
            if o != s and not st.assume(self.eng.mk_eq(st, s, o), False):
                raise Incomplete("inconsistent names")
        return st

    def msg(self, st, name, label, **fix):
        """(state, message, kwargs): arbitrary field values except the fixed ones."""
        ctx = self.ctx
        st = st.copy()
        flags = fix.pop("flags", {})
        payload = fix.pop("payload", None)
        kw = {}
        elems = SPEC[name][1] if name in SPEC else [DETAILS[name][1]] + sorted(DETAILS[name][2].items())
        for a, t in elems:
            if a in fix:
                kw[a] = fix[a]
                continue
            kw[a] = ctx.sym(f"{label}.{a}", TY[t])
            if t == "id":
                st.iv[kw[a]] = (1, MAX_ID)
        if name in SPEC and SPEC[name][2]:
            for a, ty in (("args", LIST), ("kwargs", DICT)):
                kw[a] = ctx.sym(f"{label}.{a}", ty | frozenset({("none",)}))
        for (a, key), val in flags.items():
            if not option(ctx, st, kw[a], key, val):
                raise Incomplete("inconsistent flags")
        s, m = ctx.message(st, name, **kw)
        return s, m, kw

    def details(self, st, sid, label):
        ctx = self.ctx
        names = ("realm", "authid", "authrole")
        return ctx.new(st, "types.SessionDetails", session_id=sid, **{n: ctx.sym(f"{label}.{n}", STR) for n in names})

    def add_session(self, st, sid, label="session"):
        s, d = self.details(st, sid, label)
        return self.ctx.method(s, self.obj, "add_session", d)

    def remove_session(self, st, sid):
        return self.ctx.method(st, self.obj, "remove_session", sid)

    def recv(self, st, sid, m):
        return self.ctx.method(st, self.obj, "receive_message", sid, m)

    # ------------------------------------------------------------- reading
    def read(self, st, obj, name):
        outs = [(s, v) for s, k, v in self.ctx.get(st, obj, name) if k == "v"]
        return outs

    def envelope(self, st, v):
        """[(state, class name, recipient, message)] of a returned message with its recipient."""
        out = []
        v = self.eng.force(st, v)
        if v[0] != "r" or st.heap[v[1]].kind != "inst":
            return [(st, None, None, None)]
        for s, m in self.read(st, v, "message"):
            for s2, r in self.read(s, v, "recipient"):
                m2 = self.eng.force(s2, m)
                cls = s2.heap[m2[1]].cls.rsplit(".", 1)[-1] if m2[0] == "r" and s2.heap[m2[1]].kind == "inst" else None
                out.append((s2, cls, r, m2))
        return out

    def fields(self, st, m, names):
        """[(state, {name: value})]"""
        cur = [(st, {})]
        for n in names:
            if n.endswith("()"):
                cur = [(s2, {**d, n: v}) for s, d in cur for s2, k, v in self.ctx.method(s, m, n[:-2]) if k == "v"]
            else:
                cur = [(s2, {**d, n: v}) for s, d in cur for s2, v in self.read(s, m, n)]
        return cur

    def eq(self, st, a, b):
        return self.eng.cn(st, a) == self.eng.cn(st, b) or st.keq(a, b) is True or same(self.ctx, st, a, b)

    def only(self, outs, cls, names):
        """(state, fields) of the only normal outcome of an example operation."""
        res = []
        for s, k, v in outs:
            if k == "v":
                for s2, c, to, m in self.envelope(s, v):
                    if c == cls:
                        res += self.fields(s2, m, names)
        if len(res) != 1:
            raise Incomplete(f"population: {cls} has {len(res)} outcomes")
        return res[0]

    def accepted(self, outs, what):
        """[(state, accepted?)] of an observation; where the property says so, its refusals must be ValueErrors."""
        for s, k, v in outs:
            if k == "x" and self.rep.pid in REFUSALS:
                self.rep.need(self.ctx.is_exc(s, v, "ValueError"), f"a refused {what} raises ValueError", s,
                              self.ctx.exc(s, v)[:120] + f"; path {path_of(s)}")
        return [(s, k == "v") for s, k, v in outs]

    def go(self, outs, what):
        """The normal outcomes of an operation that builds the pre-state."""
        return [(s, v) for s, k, v in outs if k == "v"]


class Dealer(Router):
    dotted = "dealer.Dealer"
    n_obs = 0

    def examples(self):
        """The operations that create each kind of entity: (kind, run(state) -> (state, new symbols, ids, kinds it needs))."""
        ctx = self.ctx
        A, x, q, p = self.name("eA"), self.name("ex"), self.name("eq"), self.name("ep", STR)
        mem = {}

        def session(st):
            outs = self.go(self.add_session(st, A, "eA"), "add_session")
            if len(outs) != 1:
                raise Incomplete("population: adding a session has several outcomes")
            return outs[0][0], [A], [], []

        def registration(st):
            s, m, kw = self.msg(st, "Register", "ereg", procedure=p)
            s, f = self.only(self.recv(s, A, m), "Registered", ["registration_id"])
            mem["rid"] = f["registration_id"]
            return s, [p, mem["rid"]], [mem["rid"]], ["session"]

        def pending(st):
            st = st.copy()
            st.iv[x] = st.iv[A] = (1, MAX_ID)
            self.distinct(st, x, [A])
            s, m, kw = self.msg(st, "Call", "ecall", procedure=p, request_id=q,
                                flags={("options", "progress"): None, ("options", "receive_progress"): None})
            s, f = self.only(self.recv(s, x, m), "Invocation", ["request_id"])
            i = f["request_id"]
            return s, [i, x, q, A], [i], ["session"]

        return [("session", session), ("registration", registration), ("pending call", pending)]

    # ------------------------------------------------------------- observations
    def label(self, kind):
        self.n_obs += 1
        return f"{kind}{self.n_obs}"

    def route(self, st, p):
        """[(state, ('none',) | ('to', callee, registration id, invocation id) | ('exc', text))]: who gets a call of p."""
        out = []
        lab = self.label("obs-call")
        s = st.copy()
        x, q = self.name(lab + ".caller", INT, s), self.name(lab + ".request", INT, s)
        self.outsiders(s, [x])
        s, m, kw = self.msg(s, "Call", lab, procedure=p, request_id=q, flags={("options", "progress"): None})
        for s2, k, v in self.recv(s, x, m):
            if k == "x":
                out.append((s2, ("exc", self.ctx.exc(s2, v)[:80])))
                continue
            for s3, cls, to, msg in self.envelope(s2, v):
                if cls == "Error":
                    ok = self.eq(s3, to, x)
                    for s4, f in self.fields(s3, msg, ["message_type", "request_id", "uri"]):
                        ok = ok and self.eq(s4, f["message_type"], C(CALL)) and self.eq(s4, f["request_id"], q) and self.eq(
                            s4, f["uri"], C("wamp.error.no_such_procedure"))
                        out.append((s4, ("none",) if ok else ("exc", f"error reply {show(f['uri'])} to {show(to)}")))
                elif cls == "Invocation":
                    for s4, f in self.fields(s3, msg, ["registration_id", "request_id"]):
                        out.append((s4, ("to", to, f["registration_id"], f["request_id"])))
                else:
                    out.append((s3, ("exc", f"answered with {cls}")))
        return out

    def outsiders(self, st, syms):
        """Sessions that never did anything before (in place)."""
        for x in syms:
            self.eng.outsiders.add(x)
            if self.frame is not None:
                self.frame.minted(st, x)

    def owns(self, st, s_, r):
        """[(state, bool)]: would session s_ be allowed to unregister r."""
        lab = self.label("obs-unregister")
        s, m, kw = self.msg(st, "Unregister", lab, registration_id=r)
        return self.accepted(self.recv(s, s_, m), "UNREGISTER")

    def live(self, st, s_):
        """[(state, bool)]: is the session known (removing it is accepted)."""
        return self.accepted(self.remove_session(st, s_), "removal of a session")

    def addable(self, st, s_):
        return self.accepted(self.add_session(st, s_, self.label("obs-details")), "addition of a session")

    def has(self, st, p):
        out = []
        for s, k, v in self.ctx.method(st, self.obj, "has_registration", p):
            if k == "x":
                out.append((s, None))
                continue
            for s2, b in self.eng.truth(s, v):
                out.append((s2, b))
        return out

    def answer(self, st, c, i, verb="Yield", progress=None):
        """[(state, None | (recipient, request id, details, message))]: an answer of session c to invocation i."""
        lab = self.label("obs-" + verb.lower())
        if verb == "Yield":
            s, m, kw = self.msg(st, "Yield", lab, request_id=i, flags={("options", "progress"): progress})
        else:
            s, m, kw = self.msg(st, "Error", lab, message_type=C(INVOCATION), request_id=i)
        out = []
        outs = self.recv(s, c, m)
        self.accepted(outs, verb.upper())
        for s2, k, v in outs:
            if k == "x":
                out.append((s2, None))
                continue
            for s3, cls, to, msg in self.envelope(s2, v):
                for s4, f in self.fields(s3, msg, ["request_id"]):
                    out.append((s4, (cls, to, f["request_id"])))
        return out


# ------------------------------------------------------------------------------------------------ named entities
class World:
    """A pre-state with named entities and what the model says about them."""

    def __init__(self, d, st, label, A, x, p=None, rid=None, q=None, inv=None, recv=None, others=()):
        self.d, self.st, self.label = d, st, label
        self.A, self.x, self.p, self.rid, self.q, self.inv, self.recv = A, x, p, rid, q, inv, recv
        self.others = others


def worlds(d, level, recvs=(None, True), callers=("other", "self"), rep=None):
    """Pre-states with: level 1 a session A; 2 also its registration of p; 3 also a pending call of x to p."""
    ctx = d.ctx
    out = []
    st = d.base.copy()
    A = d.name("A", INT, st)
    starts = []
    for s, k, v in d.add_session(st, A, "A"):
        if k == "v":
            starts.append((s, "new session"))
    if d.frame is not None:
        s = st.copy()
        for s2, b in d.live(s, A):
            if b:
                starts.append((rewind(s, s2), "any session"))
    if not starts:
        raise Incomplete("a session cannot be added")
    for s, lab in starts:
        x = d.name("x", INT, s)
        if level < 2:
            d.distinct(s, x, [A])
            out.append(World(d, s, lab, A, x))
            continue
        p = d.name("p", STR)
        s1, m, kw = d.msg(s, "Register", "reg", procedure=p)
        for s2, k, v in d.recv(s1, A, m):
            if k == "x":
                continue
            for s3, cls, to, msg in d.envelope(s2, v):
                if cls != "Registered":
                    continue
                for s4, f in d.fields(s3, msg, ["registration_id"]):
                    rid = f["registration_id"]
                    if level < 3:
                        d.distinct(s4, x, [A])
                        out.append(World(d, s4, lab + ", registered", A, x, p, rid))
                        continue
                    for caller in callers:
                        s5 = s4.copy()
                        c = A if caller == "self" else x
                        if caller != "self":
                            d.distinct(s5, x, [A])
                        q = d.name("q", INT, s5)
                        for rv in recvs:
                            s6, m6, kw6 = d.msg(s5, "Call", "call", procedure=p, request_id=q,
                                                flags={("options", "receive_progress"): rv})
                            for s7, k7, v7 in d.recv(s6, c, m6):
                                if k7 == "x":
                                    continue
                                for s8, cls8, to8, msg8 in d.envelope(s7, v7):
                                    if cls8 != "Invocation" or not d.eq(s8, to8, A):
                                        continue
                                    for s9, f9 in d.fields(s8, msg8, ["request_id"]):
                                        if d.frame is not None and f9["request_id"] not in d.fresh_ids:
                                            continue  # continuation of a pending call of the population
                                        out.append(World(d, s9, f"{lab}, registered, called by {caller}", A, c, p, rid, q,
                                                         f9["request_id"], rv))
    return out


def sessions_of(w, st):
    """[(state, label, session)]: every identity of the acting session."""
    out = [(st.copy(), "A", w.A)]
    if w.x != w.A:
        out.append((st.copy(), "x", w.x))
    s = st.copy()
    y = w.d.name("y", INT, s)
    w.d.distinct(s, y, {w.A, w.x})
    out.append((s, "other", y))
    return out


def names_of(w, st, what):
    """[(state, label, value)] for a procedure / registration id / invocation id parameter."""
    cur = {"p": w.p, "r": w.rid, "i": w.inv, "q": w.q}[what]
    out = []
    if cur is not None:
        out.append((st.copy(), "same", cur))
    s = st.copy()
    o = w.d.name({"p": "p2", "r": "r2", "i": "i2", "q": "q2"}[what], STR if what == "p" else INT, s)
    if cur is not None:
        w.d.distinct(s, o, [cur])
    out.append((s, "other", o))
    return out


def operations(w):
    """[(label, state, thunk(state) -> outcomes, effect)]; effect: what the model says about the named entities afterwards.

    effect keys (absent: unchanged): live, reg, pend -> False when removed.  'must' True/False: acceptance is required.
    """
    d = w.d
    ops = []
    for s, ln, y in sessions_of(w, w.st):
        # ---- sessions
        ops.append((f"add_session({ln})", s, lambda st, y=y: d.add_session(st, y, "again"),
                    {"must": False if ln == "A" else None}))
        eff = {}
        if ln == "A":
            eff = {"live": False, "reg": False, "pend": False, "must": True}
        elif y == w.x:
            eff = {"pend": False}
        ops.append((f"remove_session({ln})", s, lambda st, y=y: d.remove_session(st, y), eff))
        # ---- register / unregister
        for s2, lp, p in names_of(w, s, "p"):
            def reg(st, y=y, p=p):
                st, m, kw = d.msg(st, "Register", "op", procedure=p)
                return d.recv(st, y, m)
            ops.append((f"REGISTER({ln}, {lp} procedure)", s2, reg, {"session": y}))
        for s2, lr, r in names_of(w, s, "r"):
            def unreg(st, y=y, r=r):
                st, m, kw = d.msg(st, "Unregister", "op", registration_id=r)
                return d.recv(st, y, m)
            mine = ln == "A" and lr == "same"
            ops.append((f"UNREGISTER({ln}, {lr} registration)", s2, unreg,
                        {"reg": False, "must": True} if mine else {"must": False} if lr == "same" else {}))
        # ---- call
        for s2, lp, p in names_of(w, s, "p"):
            for s3, lq, q in names_of(w, s2, "q"):
                def call(st, y=y, p=p, q=q):
                    st, m, kw = d.msg(st, "Call", "op", procedure=p, request_id=q)
                    return d.recv(st, y, m)
                ops.append((f"CALL({ln}, {lp} procedure, {lq} request)", s3, call, {"must": True}))
        # ---- yield / error
        for s2, li, i in names_of(w, s, "i"):
            mine = ln == "A" and li == "same"
            for pg in (None, False, True):
                def yld(st, y=y, i=i, pg=pg):
                    st, m, kw = d.msg(st, "Yield", "op", request_id=i, flags={("options", "progress"): pg})
                    return d.recv(st, y, m)
                eff = {}
                if mine:
                    eff = {"must": True}
                    if not (pg and w.recv):
                        eff["pend"] = False
                elif li == "same":
                    eff = {"must": False}
                ops.append((f"YIELD({ln}, {li} invocation, progress={pg})", s2, yld, eff))

            def err(st, y=y, i=i):
                st, m, kw = d.msg(st, "Error", "op", message_type=C(INVOCATION), request_id=i)
                return d.recv(st, y, m)
            eff = {"pend": False, "must": True} if mine else {"must": False} if li == "same" else {}
            ops.append((f"ERROR({ln}, {li} invocation)", s2, err, eff))
    return ops


def observe(w, rep, label, st, eff, before=None, which=("route", "owns", "pend", "live")):
    """Compare the answers about the named entities with the model after an operation."""
    d = w.d
    alive = eff.get("live", True)
    reg = w.p is not None and eff.get("reg", True)
    pend = w.inv is not None and eff.get("pend", True)
    n = 0
    if "route" in which and w.p is not None and eff.get("reg") != "skip":
        for s, r in d.route(st, w.p):
            n += 1
            if reg:
                ok = r[0] == "to" and d.eq(s, r[1], w.A) and d.eq(s, r[2], w.rid)
                rep.need(ok, f"after {label}: a call reaches the registrant with its registration id", s,
                         f"got {rshow(r)}; path {path_of(s)}")
            else:
                rep.need(r[0] == "none", f"after {label}: a call gets no_such_procedure", s, f"got {rshow(r)}; path {path_of(s)}")
        for s, b in d.has(st, w.p):
            n += 1
            rep.need(b is reg, f"after {label}: has_registration agrees", s, f"{b}, expected {reg}; path {path_of(s)}")
    if "owns" in which and w.p is not None:
        for s, b in d.owns(st, w.A, w.rid):
            n += 1
            rep.need(b == bool(reg), f"after {label}: only a registrant can unregister", s,
                     f"unregister {'accepted' if b else 'rejected'}, expected {bool(reg)}; path {path_of(s)}")
        s0 = st.copy()
        z = d.name("z", INT, s0)
        d.distinct(s0, z, [w.A])
        for s, b in d.owns(s0, z, w.rid):
            n += 1
            rep.need(not b, f"after {label}: another session cannot unregister it", s, f"accepted; path {path_of(s)}")
    if "pend" in which and w.inv is not None:
        for verb in ("Yield", "Error"):
            for s, a in d.answer(st, w.A, w.inv, verb):
                n += 1
                if pend:
                    ok = a is not None and a[0] == {"Yield": "Result", "Error": "Error"}[verb] and d.eq(s, a[1], w.x) and d.eq(
                        s, a[2], w.q)
                    rep.need(ok, f"after {label}: the callee's {verb.upper()} reaches the caller with the call's request id", s,
                             f"got {a and (a[0], show(a[1]), show(a[2]))}; path {path_of(s)}")
                else:
                    rep.need(a is None, f"after {label}: {verb.upper()} for a finished invocation is rejected", s,
                             f"got {a and (a[0], show(a[1]), show(a[2]))}; path {path_of(s)}")
            s0 = st.copy()
            z = d.name("z", INT, s0)
            d.distinct(s0, z, [w.A])
            for s, a in d.answer(s0, z, w.inv, verb):
                n += 1
                rep.need(a is None, f"after {label}: {verb.upper()} of a session that was not invoked is rejected", s,
                         f"got {a and (a[0], show(a[1]), show(a[2]))}; path {path_of(s)}")
    if "live" in which:
        for s, b in d.live(st, w.A):
            n += 1
            rep.need(b == alive, f"after {label}: the session can be removed exactly while it is present", s,
                     f"remove {'accepted' if b else 'rejected'}, expected {alive}; path {path_of(s)}")
        for s, b in d.addable(st, w.A):
            n += 1
            rep.need(b != alive, f"after {label}: the session can be added exactly while it is absent", s,
                     f"add {'accepted' if b else 'rejected'}; path {path_of(s)}")
    rep.op(f"{label}; observations", n)


def rshow(r):
    return tuple(show(x) if isinstance(x, tuple) else x for x in r)


def transitions(d, rep, level, select, which, rejected=False, worlds_kw=None, only_rejected=False):
    for w in worlds(d, level, **(worlds_kw or {})):
        for label, st, run, eff in operations(w):
            if not select(label):
                continue
            outs = run(st)
            rep.op(f"[{w.label}] {label}", len(outs))
            for s, k, v in outs:
                if k == "x":
                    rep.need(eff.get("must") is not True, f"{label}: accepted", s, f"raises {d.ctx.exc(s, v)[:120]}; path {path_of(s)}")
                    if rep.pid in REFUSALS:
                        rep.need(d.ctx.is_exc(s, v, "ValueError"), f"{label}: a rejection is a ValueError", s,
                                 d.ctx.exc(s, v)[:120] + f"; path {path_of(s)}")
                    observe(w, rep, label + " rejected", s, {}, which=which)
                elif not only_rejected:
                    rep.need(eff.get("must") is not False, f"{label}: rejected", s, f"accepted; path {path_of(s)}")
                    observe(w, rep, label, s, eff, which=which)


def any_op(label):
    return True


def result(d, rep, label, st, v, cls, to, want):
    """The operation's answer: message class, recipient and field values."""
    n = 0
    for s, c, r, m in d.envelope(st, v):
        ok = c == cls and r is not None and d.eq(s, r, to)
        rep.need(ok, f"{label}: answered with {cls} to the right session", s, f"{c} to {show(r) if r else r}, expected {cls} to "
                 f"{show(to)}; path {path_of(s)}")
        if not ok:
            continue
        for s2, f in d.fields(s, m, list(want)):
            n += 1
            for k in want:
                rep.need(d.eq(s2, f[k], want[k]), f"{label}: {cls}.{k}", s2,
                         f"{show(d.ctx.deep(s2, f[k]))[:160]}, expected {show(d.ctx.deep(s2, want[k]))[:160]}; path {path_of(s2)}")
    return n


def absent(d, st, p):
    """States of st in which p has no registration (observed through has_registration), rewound."""
    return [rewind(st, s) for s, b in d.has(st, p) if b is False]


def d01(rep, tier):
    rep.rule("REGISTER of a registered procedure is answered with procedure_already_exists and changes nothing; of a free one with "
             "a REGISTERED carrying an id no other registration has")
    d = Dealer(rep)
    for w in worlds(d, 2):
        for s, ln, y in sessions_of(w, w.st):
            s1, m, kw = d.msg(s, "Register", "again", procedure=w.p)
            for s2, k, v in d.recv(s1, y, m):
                rep.op(f"[{w.label}] REGISTER of a taken procedure by {ln}", 1)
                if k == "x":
                    rep.need(ln != "A", "REGISTER of a taken procedure by a known session is answered", s2, d.ctx.exc(s2, v)[:120])
                else:
                    result(d, rep, "REGISTER of a taken procedure", s2, v, "Error", y,
                           {"message_type": C(REGISTER), "request_id": kw["request_id"],
                            "uri": C("wamp.error.procedure_already_exists")})
                observe(w, rep, f"REGISTER of a taken procedure by {ln}", s2, {}, which=("route", "owns"))
        # a second registration of the same session
        p2 = d.name("p2", STR)
        s = d.distinct(w.st.copy(), p2, [w.p])
        for s0 in absent(d, s, p2):
            s1, m, kw = d.msg(s0, "Register", "second", procedure=p2)
            for s2, k, v in d.recv(s1, w.A, m):
                rep.op(f"[{w.label}] second REGISTER", 1)
                if k == "x":
                    rep.fail("REGISTER of a free procedure is accepted", loc_of(s2), d.ctx.exc(s2, v)[:160])
                    continue
                for s3, c, to, msg in d.envelope(s2, v):
                    ok = c == "Registered" and d.eq(s3, to, w.A)
                    rep.need(ok, "REGISTER of a free procedure is answered with REGISTERED", s3, f"{c}; path {path_of(s3)}")
                    if not ok:
                        continue
                    for s4, f in d.fields(s3, msg, ["registration_id", "request_id"]):
                        rid = f["registration_id"]
                        rep.need(d.eq(s4, f["request_id"], kw["request_id"]), "REGISTERED.request_id", s4, show(f["request_id"]))
                        rep.need(s4.keq(rid, w.rid) is False, "registration ids differ", s4, f"{show(rid)} / {show(w.rid)}")
                        lo, hi = s4.interval(rid)
                        rep.need(1 <= lo and hi <= MAX_ID, "registration id is a WAMP id", s4, f"{lo}..{hi}")
                        for s5, r in d.route(s4, p2):
                            rep.need(r[0] == "to" and d.eq(s5, r[1], w.A) and d.eq(s5, r[2], rid),
                                     "the new registration is the one called", s5, str(rshow(r)))
                        observe(w, rep, "a second REGISTER", s4, {}, which=("route", "owns"))


def d02(rep, tier):
    rep.rule("after every operation, a CALL of a procedure reaches exactly its current registrant and a procedure without "
             "registration is answered with no_such_procedure")
    d = Dealer(rep)
    transitions(d, rep, 2, any_op, ("route",))
    transitions(d, rep, 3, any_op, ("route",), worlds_kw={"recvs": (None,)})
    stays_absent(d, rep)
    for w in worlds(d, 2):
        for s, ln, y in sessions_of(w, w.st):
            q = d.name("callq")
            d.outsiders(s, [q])
            for pg in (None, True):
                for rp in (None, True):
                    s1, m, kw = d.msg(s, "Call", "call", procedure=w.p, request_id=q,
                                      flags={("options", "progress"): pg, ("options", "receive_progress"): rp})
                    for s2, k, v in d.recv(s1, y, m):
                        rep.op(f"[{w.label}] CALL by {ln}", 1)
                        if k == "x":
                            rep.fail("CALL of a registered procedure is accepted", loc_of(s2), d.ctx.exc(s2, v)[:160])
                            continue
                        for s3, c, to, msg in d.envelope(s2, v):
                            for s4, f in d.fields(s3, msg, ["request_id", "registration_id"]) if c == "Invocation" else [(s3, {})]:
                                rep.need(c == "Invocation" and d.eq(s4, to, w.A) and d.eq(s4, f["registration_id"], w.rid),
                                         "CALL becomes an INVOCATION of the registrant", s4, f"{c} to {show(to)}; path {path_of(s4)}")


def stays_absent(d, rep):
    """A procedure without registration stays so under every operation except its own successful REGISTER."""
    for w in worlds(d, 3, recvs=(None,), callers=("other",)):
        p0 = d.name("p0", STR)
        base = d.distinct(w.st.copy(), p0, [w.p])
        for st in absent(d, base, p0):
            w2 = World(d, st, w.label, w.A, w.x, w.p, w.rid, w.q, w.inv, w.recv)
            for label, s0, run, eff in operations(w2):
                if label.startswith("REGISTER") and "other procedure" in label:
                    s0 = s0.copy()
                    if not s0.assume(d.eng.mk_eq(s0, S("p2"), p0), False):
                        continue
                for s, k, v in run(s0):
                    rep.op(f"[{w.label}, p0 not registered] {label}", 1)
                    for s1, b in d.has(s, p0):
                        rep.need(b is False, f"after {label}: an unregistered procedure stays unregistered", s1, f"{b}; {path_of(s1)}")
                    for s1, r in d.route(s, p0):
                        rep.need(r[0] == "none", f"after {label}: a call of an unregistered procedure gets no_such_procedure", s1,
                                 f"{rshow(r)}; {path_of(s1)}")


def d03(rep, tier):
    rep.rule("from a pending call, whatever happened in between, the callee's YIELD/ERROR is delivered to the caller under the "
             "call's request id, and the same answer from any other session is rejected")
    d = Dealer(rep)
    transitions(d, rep, 3, any_op, ("pend",))
    for w in worlds(d, 3):
        for pg in (None, False, True):
            s, m, kw = d.msg(w.st, "Yield", "yield", request_id=w.inv, flags={("options", "progress"): pg})
            for s2, k, v in d.recv(s, w.A, m):
                rep.op(f"[{w.label}] YIELD progress={pg}", 1)
                if k == "v":
                    result(d, rep, "YIELD", s2, v, "Result", w.x, {"request_id": w.q})
                else:
                    rep.fail("the callee's YIELD is accepted", loc_of(s2), d.ctx.exc(s2, v)[:160])
        s, m, kw = d.msg(w.st, "Error", "error", request_id=w.inv, message_type=C(INVOCATION))
        for s2, k, v in d.recv(s, w.A, m):
            rep.op(f"[{w.label}] ERROR", 1)
            if k == "v":
                result(d, rep, "ERROR", s2, v, "Error", w.x, {"request_id": w.q, "message_type": C(CALL), "uri": kw["uri"]})
            else:
                rep.fail("the callee's ERROR is accepted", loc_of(s2), d.ctx.exc(s2, v)[:160])
        second_call(d, rep, w)


def second_call(d, rep, w):
    """While a call is pending another session calls, perhaps under the same request id: each gets the answer to its own call."""
    for st, ln, y in sessions_of(w, w.st):
        for s0, lq, q in names_of(w, st, "q"):
            if y == w.x and lq == "same":
                continue
            what = f"a call of {'the same caller' if y == w.x else 'another caller'} under {'the same' if lq == 'same' else 'another'} request id"
            s, m, kw = d.msg(s0, "Call", "second-call", procedure=w.p, request_id=q)
            d.outsiders(s, [y] if ln == "other" else [])
            for s1, k, v in d.recv(s, y, m):
                rep.op(f"[{w.label}] {what}", 1)
                if k == "x":
                    rep.fail(f"{what} is accepted", loc_of(s1), d.ctx.exc(s1, v)[:160])
                    continue
                for s2, c, to, msg in d.envelope(s1, v):
                    for s3, f in d.fields(s2, msg, ["request_id"]) if c == "Invocation" else ():
                        i2 = f["request_id"]
                        if lq == "same" or ln == "other":
                            rep.need(s3.keq(i2, w.inv) is False, f"{what} is an invocation of its own", s3, f"{show(i2)}; path {path_of(s3)}")
                        if s3.keq(i2, w.inv) is False:
                            for s4, a in d.answer(s3, to, i2):
                                rep.need(a is not None and d.eq(s4, a[1], y) and d.eq(s4, a[2], q), f"{what} is answered to its caller", s4,
                                         f"{a and (a[0], show(a[1]), show(a[2]))}; path {path_of(s4)}")


def d04(rep, tier):
    rep.rule("the final YIELD or ERROR ends the invocation: any further answer is rejected and the caller may use the request id "
             "for a new call, which gets an invocation of its own; a progressive one to a caller that asked for it does not")
    d = Dealer(rep)
    transitions(d, rep, 3, lambda l: l.startswith(("YIELD(A, same", "ERROR(A, same", "remove_session")), ("pend",))
    for w in worlds(d, 3):
        ends = []
        for pg in (None, False, True):
            s, m, kw = d.msg(w.st, "Yield", "yield", request_id=w.inv, flags={("options", "progress"): pg})
            ends += [(f"YIELD progress={pg}", s2, not (pg and w.recv)) for s2, k, v in d.recv(s, w.A, m) if k == "v"]
        s, m, kw = d.msg(w.st, "Error", "error", request_id=w.inv, message_type=C(INVOCATION))
        ends += [("ERROR", s2, True) for s2, k, v in d.recv(s, w.A, m) if k == "v"]
        for lab, st, over in ends:
            s, m, kw = d.msg(st, "Call", "new-call", procedure=w.p, request_id=w.q)
            for s2, k, v in d.recv(s, w.x, m):
                rep.op(f"[{w.label}] {lab}; the same request id again", 1)
                if k == "x":
                    rep.fail(f"a request id can be used again after {lab}", loc_of(s2), d.ctx.exc(s2, v)[:160])
                    continue
                for s3, c, to, msg in d.envelope(s2, v):
                    if c != "Invocation":
                        rep.need(False, f"a request id can be used again after {lab}", s3, f"{c}")
                        continue
                    for s4, f in d.fields(s3, msg, ["request_id"]):
                        i2 = f["request_id"]
                        if over:
                            rep.need(s4.keq(i2, w.inv) is False, f"a new call after {lab} is a new invocation", s4, show(i2))
                            for s5, a in d.answer(s4, w.A, w.inv):
                                rep.need(a is None, f"the old invocation stays finished after {lab}", s5, str(a and a[0]))
                        else:
                            rep.need(d.eq(s4, i2, w.inv), f"the invocation goes on after {lab}", s4, show(i2))
                        for s5, a in d.answer(s4, w.A, i2):
                            rep.need(a is not None and d.eq(s5, a[1], w.x) and d.eq(s5, a[2], w.q),
                                     "the new call is answered to its caller", s5, str(a and a[0]))


def d05(rep, tier):
    rep.rule("after every operation the answers about sessions, registrations and calls agree with one model: removing a session "
             "or a registration removes it everywhere, and nothing else")
    d = Dealer(rep)
    transitions(d, rep, 1, any_op, ("live",))
    transitions(d, rep, 2, any_op, ("route", "owns", "live"))
    transitions(d, rep, 3, lambda l: l.startswith(("remove_session", "UNREGISTER", "add_session")), ("route", "owns", "pend", "live"))
    # a removed session that comes back starts with nothing
    for w in worlds(d, 3, recvs=(None,)):
        for s, k, v in d.remove_session(w.st, w.A):
            if k == "x":
                continue
            for s1, k1, v1 in d.add_session(s, w.A, "back"):
                rep.op(f"[{w.label}] remove and add again", 1)
                if k1 == "x":
                    rep.fail("a removed session can be added again", loc_of(s1), d.ctx.exc(s1, v1)[:160])
                    continue
                observe(w, rep, "removing and adding the session again", s1, {"reg": False, "pend": False})
                # and can register the procedure again
                s2, m, kw = d.msg(s1, "Register", "re", procedure=w.p)
                for s3, k3, v3 in d.recv(s2, w.A, m):
                    c = d.envelope(s3, v3)[0][1] if k3 == "v" else d.ctx.exc(s3, v3)
                    rep.need(c == "Registered", "a removed registration leaves its procedure free", s3, str(c)[:160])
    # two registrations of one session
    for w in worlds(d, 2):
        p2 = d.name("p2", STR)
        s = d.distinct(w.st.copy(), p2, [w.p])
        for s0 in absent(d, s, p2):
            s1, m, kw = d.msg(s0, "Register", "second", procedure=p2)
            for s2, k, v in d.recv(s1, w.A, m):
                if k == "x" or d.envelope(s2, v)[0][1] != "Registered":
                    continue
                s3, _, _, msg = d.envelope(s2, v)[0]
                for s4, f in d.fields(s3, msg, ["registration_id"]):
                    w2 = World(d, s4, w.label, w.A, w.x, p2, f["registration_id"])
                    for s5, k5, v5 in d.remove_session(s4, w.A):
                        rep.op(f"[{w.label}] remove a session with two registrations", 1)
                        rep.need(k5 == "v", "removing a session with two registrations", s5, d.ctx.exc(s5, v5)[:160] if k5 == "x" else "")
                        for ww in (w, w2):
                            observe(ww, rep, "removing a session with two registrations", s5, {"reg": False, "live": False},
                                    which=("route", "owns"))
                    for first, second in ((w, w2), (w2, w)):
                        s6, m6, kw6 = d.msg(s4, "Unregister", "un", registration_id=first.rid)
                        for s7, k7, v7 in d.recv(s6, w.A, m6):
                            rep.op(f"[{w.label}] unregister one of two registrations", 1)
                            observe(first, rep, "unregistering one of two registrations (that one)", s7, {"reg": False},
                                    which=("route", "owns"))
                            observe(second, rep, "unregistering one of two registrations (the other)", s7, {}, which=("route", "owns"))


def d06(rep, tier):
    rep.rule("INVOCATION carries the call's args, kwargs and payload, RESULT the yield's, ERROR the error's args, kwargs, details "
             "and uri, each unchanged and in its place")
    d = Dealer(rep)
    ctx = d.ctx
    for w in worlds(d, 2):
        for s, ln, y in sessions_of(w, w.st)[1:]:
            d.outsiders(s, [y])
            for rp in (None, False, True):
                for pg in (None, False, True):
                    s1, m, kw = d.msg(s, "Call", "call", procedure=w.p, flags={("options", "receive_progress"): rp,
                                                                                ("options", "progress"): pg})
                    for s2, k, v in d.recv(s1, y, m):
                        rep.op(f"[{w.label}] CALL", 1)
                        if k == "v":
                            result(d, rep, "CALL", s2, v, "Invocation", w.A, {"args": kw["args"], "kwargs": kw["kwargs"],
                                                                               "payload": NONE})
                            flags(d, rep, "INVOCATION", s2, v, {"receive_progress": bool(rp), "progress": bool(pg)})
            # opaque payload
            s1, m, want = payload_message(ctx, s, "Call", procedure=w.p)
            for s2, k, v in d.recv(s1, y, m):
                rep.op(f"[{w.label}] CALL with payload", 1)
                if k == "v":
                    result(d, rep, "CALL with payload", s2, v, "Invocation", w.A, want)
            break
    for w in worlds(d, 3):
        for pg in (None, False, True):
            s, m, kw = d.msg(w.st, "Yield", "yield", request_id=w.inv, flags={("options", "progress"): pg})
            for s2, k, v in d.recv(s, w.A, m):
                rep.op(f"[{w.label}] YIELD progress={pg}", 1)
                if k == "v":
                    result(d, rep, "YIELD", s2, v, "Result", w.x, {"args": kw["args"], "kwargs": kw["kwargs"]})
                    flags(d, rep, "RESULT", s2, v, {"progress": bool(pg and w.recv)})
        s, m, want = payload_message(ctx, w.st, "Yield", request_id=w.inv)
        for s2, k, v in d.recv(s, w.A, m):
            rep.op(f"[{w.label}] YIELD with payload", 1)
            if k == "v":
                result(d, rep, "YIELD with payload", s2, v, "Result", w.x, want)
        s, m, kw = d.msg(w.st, "Error", "error", request_id=w.inv, message_type=C(INVOCATION))
        for s2, k, v in d.recv(s, w.A, m):
            rep.op(f"[{w.label}] ERROR", 1)
            if k == "v":
                result(d, rep, "ERROR", s2, v, "Error", w.x, {"args": kw["args"], "kwargs": kw["kwargs"], "details": kw["details"],
                                                               "uri": kw["uri"], "message_type": C(CALL)})


def payload_message(ctx, st, name, **kw):
    """A message carrying an opaque payload, and the attributes it must be forwarded with."""
    pay, ser, bn = ctx.sym("payload", frozenset({("bytes",)})), ctx.sym("payload_serializer", INT), ctx.sym("payload_is_binary", BOOL)
    kw.setdefault("request_id", ctx.sym("rq", INT))
    s, m = ctx.message(st, name, payload=pay, serializer=ser, binary=bn, **kw)
    return s, m, {"payload": pay, "payload_serializer": ser, "payload_is_binary()": bn}


def flags(d, rep, label, st, v, want):
    """Boolean entries of the details of a forwarded message: present and true exactly when wanted."""
    for s, c, to, m in d.envelope(st, v):
        for s2, f in d.fields(s, m, ["details"]):
            ref = d.eng.force(s2, f["details"])
            for key, on in want.items():
                for s3, x in d.eng.dict_find(s2.copy(), ref, C(key)):
                    got = False
                    if x is not None:
                        bs = {b for _, b in d.eng.truth(s3.copy(), x)}
                        got = bs == {True} or (None if bs != {False} else False)
                    rep.need(got is on, f"{label}: details.{key} is set exactly when it applies", s3,
                             f"{got}, expected {on}; path {path_of(s3)}")


def d07(rep, tier):
    rep.rule("an operation that raises leaves every answer about sessions, registrations and pending calls as it was")
    d = Dealer(rep)
    transitions(d, rep, 1, any_op, ("live",), only_rejected=True)
    transitions(d, rep, 3, any_op, ("route", "owns", "pend", "live"), only_rejected=True,
                worlds_kw={} if tier == "thorough" else {"recvs": (None,)})
    # refusals after each kind of operation
    transitions(d, rep, 3, any_op, ("owns", "pend", "live"),
                worlds_kw={"recvs": (True,)} if tier == "thorough" else {"recvs": (True,), "callers": ("other",)})
    # messages a dealer does not handle
    for w in worlds(d, 3, recvs=(None,), callers=("other",)):
        for name in ALL:
            if name in ("Call", "Yield", "Register", "Unregister", "Cancel"):
                continue
            for s, ln, y in sessions_of(w, w.st):
                s1, m, kw = d.msg(s, name, "odd")
                if name == "Error" and not s1.assume(d.eng.mk_eq(s1, kw["message_type"], C(INVOCATION)), False):
                    continue
                for s2, k, v in d.recv(s1, y, m):
                    rep.op(f"[{w.label}] {name} from {ln}", 1)
                    rep.need(k == "x" and d.ctx.is_exc(s2, v, "ValueError"), f"{name} is rejected with ValueError", s2,
                             "accepted" if k == "v" else d.ctx.exc(s2, v)[:120])
                    observe(w, rep, f"a rejected {name}", s2, {})


def moved(w):
    """[(label, state)]: the registration the pending call went to is still there, is gone, or belongs to another session."""
    d = w.d
    out = [("", w.st)]
    s, m, kw = d.msg(w.st, "Unregister", "leave", registration_id=w.rid)
    for s1, k, v in d.recv(s, w.A, m):
        if k == "x":
            continue
        out.append(("after the registration ended", s1))
        s2 = s1.copy()
        z = d.name("z8", INT, s2)
        d.distinct(s2, z, [w.A, w.x])
        for s3, k3, v3 in d.add_session(s2, z, "z8"):
            if k3 == "x":
                continue
            s4, m4, kw4 = d.msg(s3, "Register", "take", procedure=w.p)
            out += [("after another session registered the procedure", s5) for s5, k5, v5 in d.recv(s4, z, m4) if k5 == "v"]
    for label, st, op, eff in operations(w):
        if label == "YIELD(A, same invocation, progress=True)" and "pend" not in eff or label == "YIELD(A, other invocation, progress=None)":
            out += [(f"after {label}", s1) for s1, k, v in op(st) if k == "v"]
    return out


def refuted_by(a, b):
    """Do the path facts of the two states contradict each other?"""
    return any(a.facts.get(t) is not None and a.facts[t] != x for t, x in b.facts.items() if isinstance(x, bool))


def d08(rep, tier):
    rep.rule("a CALL that repeats the caller and request id of a pending call is forwarded as the same invocation to the same "
             "callee, and leaves the call pending exactly once")
    d = Dealer(rep)
    for w in worlds(d, 3):
        for how, st in moved(w):
            for same in (True, False)[:1 if "YIELD" in how else 2]:
                s0 = st.copy()
                p = w.p if same else d.name("p9", STR)
                if not same:
                    d.distinct(s0, p, [w.p])
                s, m, kw = d.msg(s0, "Call", "chunk", procedure=p, request_id=w.q)
                for s2, k, v in d.recv(s, w.x, m):
                    rep.op(f"[{w.label}] next chunk {how}, {'same' if same else 'another'} procedure", 1)
                    if k == "x":
                        rep.fail(f"a further chunk is accepted {how}", loc_of(s2), d.ctx.exc(s2, v)[:160])
                        continue
                    for s3, c, to, msg in d.envelope(s2, v):
                        if c == "Error":
                            for s4, b in d.has(st, p):
                                rep.need(b is False or refuted_by(s3, s4), f"a chunk naming a registered procedure is forwarded {how}", s3,
                                         f"{c}; path {path_of(s3)}")
                            continue
                        for s4, f in d.fields(s3, msg, ["request_id", "registration_id"]) if c == "Invocation" else [(s3, {})]:
                            rep.need(c == "Invocation" and d.eq(s4, to, w.A) and d.eq(s4, f["request_id"], w.inv),
                                     f"a further chunk goes to the same callee as the same invocation {how}", s4,
                                     f"{c} to {show(to)}; path {path_of(s4)}")
                            if c == "Invocation":
                                rep.need(d.eq(s4, f["registration_id"], w.rid),
                                         f"a further chunk names the registration its invocation was made for {how}", s4,
                                         f"{show(f['registration_id'])}; path {path_of(s4)}")
                    observe(w, rep, f"a further chunk {how}", s2, {}, which=("pend",))
        for pg in (None, False, True):
            s, m, kw = d.msg(w.st, "Call", "chunk", procedure=w.p, request_id=w.q, flags={("options", "progress"): pg})
            for s2, k, v in d.recv(s, w.x, m):
                rep.op(f"[{w.label}] next chunk, progress={pg}", 1)
                if k == "x":
                    rep.fail("a further chunk is accepted", loc_of(s2), d.ctx.exc(s2, v)[:160])
                    continue
                result(d, rep, "a further chunk", s2, v, "Invocation", w.A, {"request_id": w.inv, "args": kw["args"],
                                                                             "kwargs": kw["kwargs"]})
                flags(d, rep, "a further chunk", s2, v, {"progress": bool(pg)})
                observe(w, rep, "a further chunk", s2, {}, which=("pend", "route"))
                # one final answer ends it
                for verb in ("Yield", "Error"):
                    s3, m3, kw3 = d.msg(s2, verb, "end", request_id=w.inv, **(
                        {"flags": {("options", "progress"): None}} if verb == "Yield" else {"message_type": C(INVOCATION)}))
                    for s4, k4, v4 in d.recv(s3, w.A, m3):
                        if k4 == "v":
                            observe(w, rep, f"a further chunk and the final {verb.upper()}", s4, {"pend": False}, which=("pend",))
        # the same request id of another caller, or another request id of the same caller, is another call
        for ln, y, q in (("another caller", d.name("y2"), w.q), ("another request", w.x, d.name("q3"))):
            s = w.st.copy()
            d.distinct(s, y, [w.x] if ln == "another caller" else [])
            d.distinct(s, q, [w.q] if ln == "another request" else [])
            s1, m, kw = d.msg(s, "Call", "other-call", procedure=w.p, request_id=q)
            for s2, k, v in d.recv(s1, y, m):
                rep.op(f"[{w.label}] call of {ln}", 1)
                if k == "x":
                    rep.fail(f"a call of {ln} is accepted", loc_of(s2), d.ctx.exc(s2, v)[:160])
                    continue
                for s3, c, to, msg in d.envelope(s2, v):
                    for s4, f in d.fields(s3, msg, ["request_id"]):
                        rep.need(c == "Invocation" and s4.keq(f["request_id"], w.inv) is False,
                                 f"a call of {ln} is another invocation", s4, f"{c} {show(f['request_id'])}; path {path_of(s4)}")
                observe(w, rep, f"a call of {ln}", s2, {}, which=("pend",))


def d09(rep, tier):
    rep.rule("REGISTER/UNREGISTER of a session that was never added or was removed raise ValueError; so do adding a session twice "
             "and removing one twice; a present session is served")
    d = Dealer(rep)
    for w in worlds(d, 2):
        # unknown session: never added
        s = w.st.copy()
        y = d.name("stranger")
        d.outsiders(s, [y])
        removed = [(s2, "removed", w.A) for s2, k, v in d.remove_session(w.st, w.A) if k == "v"]
        for st, ln, who in [(s, "never added", y)] + removed:
            for s2, k, v in d.add_session(st, who, "comes"):
                rep.op(f"[{w.label}] adding a session {ln}", 1)
                rep.need(k == "v", f"adding a session {ln} is accepted", s2, d.ctx.exc(s2, v)[:120] if k == "x" else "")
            for name, kws in (("Register", {}), ("Register", {"procedure": w.p}), ("Unregister", {"registration_id": w.rid}),
                              ("Unregister", {})):
                s1, m, kw = d.msg(st, name, "str", **kws)
                for s2, k, v in d.recv(s1, who, m):
                    rep.op(f"[{w.label}] {name} of a session {ln}", 1)
                    rep.need(k == "x" and d.ctx.is_exc(s2, v, "ValueError"), f"{name} of a session {ln} raises ValueError", s2,
                             "accepted" if k == "v" else d.ctx.exc(s2, v)[:120])
                    if ln == "never added":
                        observe(w, rep, f"{name} of a session {ln}", s2, {})
            for s2, k, v in d.remove_session(st, who):
                rep.need(k == "x" and d.ctx.is_exc(s2, v, "ValueError"), f"removing a session {ln} raises ValueError", s2,
                         "accepted" if k == "v" else d.ctx.exc(s2, v)[:120])
        for s2, k, v in d.add_session(w.st, w.A, "twice"):
            rep.op(f"[{w.label}] add twice", 1)
            rep.need(k == "x" and d.ctx.is_exc(s2, v, "ValueError"), "adding a session twice raises ValueError", s2,
                     "accepted" if k == "v" else d.ctx.exc(s2, v)[:120])
            observe(w, rep, "adding a session twice", s2, {})
    for w in worlds(d, 1):
        p = d.name("pp", STR)
        back = [(s3, ", also after leaving and coming back") for s1, k1, v1 in d.remove_session(w.st, w.A) if k1 == "v"
                for s2, k2, v2 in d.add_session(s1, w.A, "back") for s3 in back_again(d, rep, s2, k2, v2)]
        for st, how in [(w.st, "")] + back:
            for s0 in absent(d, st, p):
                s1, m, kw = d.msg(s0, "Register", "ok", procedure=p)
                for s2, k, v in d.recv(s1, w.A, m):
                    rep.need(k == "v", f"a present session can register{how}", s2, d.ctx.exc(s2, v)[:120] if k == "x" else "")


def back_again(d, rep, st, k, v):
    rep.need(k == "v", "a session that left can be added again", st, d.ctx.exc(st, v)[:120] if k == "x" else "")
    return [st] if k == "v" else []


RULES = {"D01": d01, "D02": d02, "D03": d03, "D04": d04, "D05": d05, "D06": d06, "D07": d07, "D08": d08, "D09": d09}
