"""Client side of the handshake (J*): fixpoint over all sequences of send_hello and received messages."""

from .common import *  # noqa: F403
from .common import (ANY, C, Ctx, DICT, INT, Incomplete, LIST, NONE, NONE_T, is_c, loc_of, S, STR, T, path_of, restrict, same, show, ts)
from .rules_auth import Explorer, anymsgs, failed, kind_of, opens, succeeded
from .rules_wire import ALL

METHODS = {"AnonymousAuthenticator": "anonymous", "TicketAuthenticator": "ticket", "WAMPCRAAuthenticator": "wampcra",
           "CryptoSignAuthenticator": "cryptosign"}


class Client:
    """config: 'given' with an arbitrary authenticator, 'default' without one."""

    def __init__(self, rep, verb):
        self.rep, self.verb = rep, verb
        self.ctx = Ctx(rep)

    def start(self, config):
        ctx = self.ctx
        st = ctx.eng.start()
        au = ctx.need_attr(st, "auth.IClientAuthenticator")
        ser = ctx.need_attr(st, "serializers.serializer.Serializer")
        self.realm = ctx.sym("realm", STR)
        self.ser = ctx.sym("serializer", frozenset({("inst", ser[1])}))
        self.auth = ctx.sym("authenticator", frozenset({("inst", au[1])})) if config == "given" else NONE
        return ctx.new(st, "joiner.Joiner", self.realm, self.ser, self.auth)

    def receive(self, st, obj, m):
        """[(state, kind, class of the answer, answer)]"""
        ctx = self.ctx
        if self.verb == "receive_message":
            return [(s, k, "raise" if k == "x" else kind_of(ctx, s, v), v) for s, k, v in ctx.method(st, obj, "receive_message", m)]
        data = ctx.sym("data", ts("str", "bytes"))
        ctx.eng.open_hooks["deserialize"] = lambda eng, s, base, args, kw: (
            [(s, "v", m)] if base == self.ser and args[-1:] == [data] else None)
        outs = ctx.method(st, obj, "receive", data)
        ctx.eng.open_hooks.clear()
        res = []
        for s, k, v in outs:
            ser = opens(s, "serialize")
            if k == "x":
                if ser and failed(s, ser[-1]):
                    continue
                res.append((s, k, "raise", v))
            elif not ser:
                res.append((s, k, "none" if v == NONE else "?", v))
            else:
                arg = ser[-1][7][-1]
                self.rep.need(len(ser) == 1 and ser[-1][1] == self.ser and v == ser[-1][5],
                              "the answer is serialised once with the configured serializer and returned", s, show(v)[:120])
                res.append((s, k, kind_of(ctx, s, arg), arg))
        return res

    def hello(self, st, obj, roles):
        """[(state, kind, class, message or exception)] of send_hello."""
        res = []
        for s, k, v in self.ctx.method(st, obj, "send_hello", *(() if roles is None else (roles,))):
            ser = opens(s, "serialize")
            if k == "x":
                if not (ser and failed(s, ser[-1])):
                    res.append((s, k, "raise", v))
                continue
            ok = len(ser) == 1 and ser[0][1] == self.ser and v == ser[0][5]
            self.rep.need(ok, "send_hello returns the HELLO serialised with the configured serializer", s, show(v)[:120])
            if ok:
                res.append((s, k, kind_of(self.ctx, s, ser[0][7][-1]), ser[0][7][-1]))
        return res

    def explore(self, config, check):
        ctx, rep = self.ctx, self.rep
        st, obj = self.start(config)
        self.obj = obj
        ex = Explorer(ctx, rep, {"authenticator", "serializer", "realm", "roles"})
        start = {"label": "start", "config": config, "welcome": None, "answered": False}
        counts = {}

        def roots(g):
            return [obj] + ([x for x in g["welcome"].values()] if g["welcome"] else [])

        def count(o, n):
            counts[o] = counts.get(o, 0) + n

        def step(node):
            nxt = []
            lab = node.ghost["label"]
            roles = ctx.sym("roles", DICT)
            for r in (None, roles):
                outs = self.hello(node.st, obj, r)
                count(f"{config}/{lab}: send_hello", len(outs))
                for s, k, cls, v in outs:
                    g = dict(node.ghost, label="hello_sent", answered=False) if k == "v" else node.ghost
                    check(node, "send_hello", {"roles": r}, s, k, cls, v, g)
                    nxt.append((s, g))
            for name in ALL:
                outs = []
                for s0, m, kw in anymsgs(ctx, node.st, name, node.depth):
                    outs += [((m, s0), *o) for o in self.receive(s0, obj, m)]
                count(f"{config}/{lab}: {name}", len(outs))
                for self.msg, s, k, cls, v in outs:
                    g = dict(node.ghost)
                    if k == "x" and name == "Abort":
                        g["label"] = "aborted"
                    elif k == "v" and name == "Welcome":
                        g["label"], g["welcome"] = "joined", {a: kw[a] for a in ("session_id", "authid", "authrole")}
                    elif k == "v" and name == "Challenge":
                        g["label"], g["answered"] = "authenticated", True
                    elif name == "Challenge" and lab == "hello_sent" and k == "x" and raised_by_authenticator(self, s, v):
                        g["label"] = "hello_sent, authenticator failed"
                    check(node, name, kw, s, k, cls, v, g)
                    nxt.append((s, g))
            return nxt

        nodes = ex.run(st, start, roots, step)
        for o, n in sorted(counts.items()):
            rep.op(o, n)
        rep.op(f"{config}: abstract client states", len(nodes))
        return nodes

    def read(self, s, v, name):
        vs = [(s2, x) for s2, k, x in self.ctx.get(s, v, name) if k == "v"]
        return vs[0][1] if len(vs) == 1 else None


FAILED = "hello_sent, authenticator failed"
ACCEPT = {("hello_sent", "Welcome"), ("authenticated", "Welcome"), ("hello_sent", "Challenge")}


def raised_by_authenticator(C_, s, v):
    ev = opens(s, "authenticate")
    return bool(ev) and failed(s, ev[-1]) or C_.auth == NONE and C_.ctx.is_exc(s, v, "NotImplementedError")


def j01(rep, tier):
    rep.rule("acceptance table of the client side over every abstract client state, and availability and contents of the session "
             "details after each step")
    for verb in ("receive_message", "receive"):
        C_ = Client(rep, verb)
        ctx = C_.ctx

        def check(node, name, kw, s, k, cls, v, g):
            lab = node.ghost["label"]
            if name == "send_hello":
                rep.need(k == "v" and cls == "Hello", "send_hello sends HELLO", s, "raises " + ctx.exc(s, v)[:80] if k == "x" else cls)
            elif (lab, name) in ACCEPT:
                if name == "Welcome":
                    rep.need(k == "v" and cls == "none", f"WELCOME is accepted in state '{lab}'", s,
                             f"raises {ctx.exc(s, v)[:80]}; path {path_of(s)}" if k == "x" else f"answers {cls}")
                else:
                    rep.need(k == "v" and cls == "Authenticate" or k == "x" and raised_by_authenticator(C_, s, v),
                             f"CHALLENGE is accepted in state '{lab}'", s,
                             f"raises {ctx.exc(s, v)[:80]}; path {path_of(s)}" if k == "x" else f"answers {cls}")
            elif lab == FAILED and name in ("Welcome", "Challenge"):
                rep.ok(f"{name} in state '{lab}' may be accepted", loc_of(s))
            elif name != "Abort":
                rep.need(k == "x" and ctx.is_exc(s, v, "ValueError"), f"{name} in state '{lab}' is refused with ValueError", s,
                         f"raises {ctx.exc(s, v)[:80]}" if k == "x" else f"answers {cls}; path {path_of(s)}")
            for s2, k2, d in ctx.method(s, C_.obj, "get_session_details"):
                w = g["welcome"]
                if w is None:
                    rep.need(k2 == "x" and ctx.is_exc(s2, d, "ValueError"), "no session details before an accepted WELCOME", s2,
                             f"after {name} in state '{lab}': details are available")
                    continue
                rep.need(k2 == "v", "session details are available after an accepted WELCOME", s2,
                         f"after {name} in state '{lab}': raises {ctx.exc(s2, d)[:80]}" if k2 == "x" else "")
                if k2 == "v":
                    for a, want in list(w.items()) + [("realm", C_.realm)]:
                        x = C_.read(s2, d, a)
                        rep.need(x is not None and same(ctx, s2, x, want), f"session details: {a}", s2,
                                 f"is {show(x)[:80] if x else '?'}, expected {show(want)[:80]}")

        C_.explore("given", check)
        C_.explore("default", check)


def j02(rep, tier):
    rep.rule("AUTHENTICATE is sent only for CHALLENGE, once per HELLO, and is the authenticator's result for that very challenge; HELLO "
             "is built from the configured realm, authenticator and roles")
    for verb in ("receive_message", "receive"):
        C_ = Client(rep, verb)
        ctx = C_.ctx

        def check(node, name, kw, s, k, cls, v, g):
            lab = node.ghost["label"]
            calls = opens(s, "authenticate")
            if name == "send_hello":
                if k == "v" and cls == "Hello":
                    hello_fields(C_, rep, s, v, kw["roles"], node.ghost["config"])
                return
            rep.need(len(calls) <= (1 if name == "Challenge" and lab in ("hello_sent", FAILED) else 0),
                     f"the authenticator is asked only for an expected CHALLENGE ({name} in state '{lab}')", s, f"{len(calls)} calls")
            if k == "v":
                rep.need(cls == ("Authenticate" if name == "Challenge" else "none"), f"answer to {name}", s, f"answers {cls}")
            if k == "v" and name == "Challenge" and calls:
                ev = calls[0]
                rep.need(not node.ghost["answered"], "at most one AUTHENTICATE per HELLO", s, f"state '{lab}'")
                rep.need(ev[1] == C_.auth and len(calls) == 1, "the configured authenticator answers", s, show(ev[1])[:80])
                rep.need(v == ev[5] or ctx.deep(s, v) == ctx.deep(s, ev[5]), "AUTHENTICATE is the authenticator's result", s,
                         show(ctx.deep(s, v))[:120])
                arg = ev[7][-1] if ev[7] else NONE
                for a in ("authmethod", "extra"):
                    x = C_.read(s, arg, a) if kind_of(ctx, s, arg) == "Challenge" else None
                    rep.need(x is not None and same(ctx, s, x, kw[a]), f"the authenticator sees the challenge's {a}", s, show(arg)[:80])

        C_.explore("given", check)
        C_.explore("default", check)
    authenticators(Client(rep, "receive_message"), rep)


def hello_fields(C_, rep, s, v, roles, config):
    ctx = C_.ctx
    want = {"realm": C_.realm}
    if roles is not None:
        want["roles"] = roles
    else:
        x = C_.read(s, v, "roles")
        d = ctx.deep(s, x) if x is not None else NONE
        names = {"caller", "callee", "publisher", "subscriber"}
        keys = {e[2][2] for e in d[3:] if e[0] == "t" and e[1] == "kv" and is_c(e[2])} if d[0] == "t" and d[1] == "dict" else set()
        rep.need(names <= keys, "without given roles HELLO announces the client roles", s, show(d)[:120])
    if config == "given":
        for a, p in (("authid", "authid"), ("authextra", "auth_extra")):
            g = [(s2, y) for s2, k, y in ctx.get(s, C_.auth, p) if k == "v"]
            if len(g) == 1:
                want[a] = g[0][1]
        m = [(s2, y) for s2, k, y in ctx.get(s, C_.auth, "auth_method") if k == "v"]
        method = m[0][1] if len(m) == 1 else None
    else:
        method = C("anonymous")
    for a, w in want.items():
        x = C_.read(s, v, a)
        rep.need(x is not None and same(ctx, s, x, w), f"HELLO carries the configured {a}", s,
                 f"is {show(ctx.deep(s, x))[:80] if x else '?'}, expected {show(w)[:80]}")
    x = C_.read(s, v, "authmethods")
    first = ctx.deep(s, x) if x is not None else NONE
    rep.need(method is not None and first[0] == "t" and first[1] == "list" and len(first) == 4 and first[3] == ctx.deep(s, method),
             "HELLO lists exactly the authenticator's method", s, f"is {show(first)[:80]}")


def keeps(ctx, rep, s, x, extra, name):
    """Every entry of the given dictionary is in x with its value; x has no other keys but a public key."""
    if x is None:
        rep.need(False, name, s, "none")
        return
    miss = ctx.sym("missing", INT)
    for key in (C("pubkey"), ctx.sym("some key", STR)):
        s0 = s.copy()
        if not is_c(key) and not s0.assume(ctx.eng.mk_not(ctx.eng.mk_eq(s0, key, C("pubkey"))), True):
            continue
        for s1, there in ctx.eng.branch_bool(s0, T("in", key, extra)):
            if not there and is_c(key):
                continue
            for s2, k, v in ctx.method(s1, x, "get", key, miss):
                if k == "x":
                    rep.need(False, name, s2, "raises " + ctx.exc(s2, v)[:80])
                    continue
                for s3, k3, w in ctx.method(s2, extra, "get", key, miss):
                    rep.need(k3 == "v" and same(ctx, s3, v, w), name, s3, f"{show(ctx.deep(s3, v))[:60]} under a key whose "
                             f"value was {show(w)[:60] if k3 == 'v' else '?'}")


def authenticators(C_, rep):
    """The supplied authenticators announce their identity and their method; a ticket is answered with the ticket."""
    ctx = C_.ctx
    st, _ = C_.start("given")
    for cls, method in METHODS.items():
        au = ctx.attr(st, f"auth.{cls}")
        if au is None:
            rep.need(False, f"{cls} is available", "-", "not found")
            continue
        authid, cred, extra = ctx.sym("authid", STR), ctx.sym("credential", STR), ctx.sym("extra", DICT)
        args = [authid] if method == "anonymous" else [authid, cred]
        for ex in (NONE, extra):
            outs = ctx.run(st, au, *args, ex)
            rep.op(f"{cls}(...)", len(outs))
            for s, k, o in outs:
                if k == "x":
                    rep.need(method == "cryptosign", f"{cls} can be built", s, "raises " + ctx.exc(s, o)[:80])
                    continue
                m = C_.read(s, o, "auth_method")
                rep.need(m == C(method), f"{cls} announces '{method}'", s, show(m)[:80] if m else "?")
                a = C_.read(s, o, "authid")
                rep.need(a == authid, f"{cls} announces its identity", s, show(a)[:80] if a else "?")
                if ex == extra:
                    x = C_.read(s, o, "auth_extra")
                    keeps(ctx, rep, s, x, extra, f"{cls} keeps the extra data")
                if method == "ticket":
                    for s2, ch, kw in anymsgs(ctx, s, "Challenge", "t"):
                        for s3, k3, v in ctx.method(s2, o, "authenticate", ch):
                            sig = C_.read(s3, v, "signature") if k3 == "v" and kind_of(ctx, s3, v) == "Authenticate" else None
                            rep.need(sig == cred, "a ticket challenge is answered with the ticket", s3,
                                     f"raises {ctx.exc(s3, v)[:80]}" if k3 == "x" else show(sig or v)[:80])


def j03(rep, tier):
    rep.rule("every ABORT raises an ApplicationError whose message, args and kwargs are those of the ABORT; no message accepted after it "
             "sets session details or is answered")
    for verb in ("receive_message", "receive"):
        C_ = Client(rep, verb)
        ctx = C_.ctx
        err = ctx.need_attr(ctx.eng.start(), "exception.ApplicationError")

        def check(node, name, kw, s, k, cls, v, g):
            lab = node.ghost["label"]
            if name == "Abort":
                rep.need(k == "x" and ctx.eng.exc_match(s, v, err), f"ABORT in state '{lab}' raises ApplicationError", s,
                         f"answers {cls}" if k == "v" else f"raises {ctx.exc(s, v)[:80]}")
                if k == "x" and ctx.eng.exc_match(s, v, err):
                    error_fields(C_, rep, s, v, kw)
            if lab == "aborted" and name not in ("send_hello", "Abort"):
                rep.need(k == "x", f"{name} after ABORT is refused", s, f"answers {cls}; path {path_of(s)}")
                rep.need(g["welcome"] is node.ghost["welcome"], "no message after ABORT joins the client", s, "")

        C_.explore("given", check)
        C_.explore("default", check)


def error_fields(C_, rep, s, v, kw):
    ctx = C_.ctx
    x = C_.read(s, v, "message")
    rep.need(x is not None and same(ctx, s, x, kw["reason"]), "the error's message is the ABORT's reason", s, show(x)[:80] if x else "?")
    x = C_.read(s, v, "kwargs")
    rep.need(x is not None and (same(ctx, s, x, kw["kwargs"]) or "none" in s.heads(kw["kwargs"]) and empty(ctx, s, x)),
             "the error's kwargs are the ABORT's", s, show(ctx.deep(s, x))[:120] if x else "?")
    s1 = s.copy()
    if restrict(s1, kw["args"], LIST):
        for s2, k2, a in ctx.get(s1, v, "args"):
            for s3, k3, ln in (ctx.eng.call(s2, ("bi", "list"), [a], {}) if k2 == "v" else []):
                rep.need(k3 == "v" and same(ctx, s3, ln, kw["args"]), "the error's args are the ABORT's", s3, show(ctx.deep(s3, ln))[:120])


def empty(ctx, s, x):
    d = ctx.deep(s, x)
    return d == NONE or d[0] == "t" and d[1] in ("dict", "list") and len(d) == 3 and d[2] == NONE


RULES = {"J01": j01, "J02": j02, "J03": j03}
