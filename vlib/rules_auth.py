"""Handshake rules (A*, J*): typestate fixpoints over all message sequences; authentication primitives (X*).

The router side and the client side are explored from their constructors: every message class, with symbolic contents, is
applied to every abstract state reached so far and with every outcome of the authenticator.  Two states are the same when the
object graphs and the path facts about what is still reachable agree up to renaming of symbols, so the exploration ends in a
fixpoint that covers message sequences of any length.
"""

from .common import *  # noqa: F403
from .common import (ANY, BOOL, BYTES, C, Ctx, DICT, FALSE, INF, INT, Incomplete, LIST, MAX_ID, NONE, NONE_T, S, STR, T, TRUE,
                     contains, cv, holds, is_c, is_imprecise, loc_of, path_of, refuted, restrict, same, show, subst, ts)
from .rules_wire import ALL, DETAILS, SPEC, TY
from .terms import subterms

METHODS = ["anonymous", "ticket", "wampcra", "cryptosign"]
MAX_NODES = 1500


class Node:
    def __init__(self, st, ghost, depth):
        self.st, self.ghost, self.depth = st, ghost, depth


def symbols_of(t, acc):
    for x in subterms(t):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == "s" and x[1] not in acc:
            acc.append(x[1])


def canon(ctx, st, roots, fixed):
    """A key that is equal for states that differ only in the names of symbols and in what is unreachable."""
    terms = [ctx.deep(st, r) for r in roots]
    live = []
    for t in terms:
        symbols_of(t, live)
    m = {}
    for i, n in enumerate(x for x in live if x not in fixed):
        m[S(n)] = S(f"{n.split('#')[0].split('@')[0]}~{i}")
    ok = set(live) | set(fixed)

    def keep(t):
        acc = []
        symbols_of(t, acc)
        return acc and all(n in ok for n in acc)

    facts = frozenset((subst(a, m), b) for a, b in st.facts.items() if keep(a))
    types = frozenset((subst(a, m), b) for a, b in st.types.items() if keep(a))
    iv = frozenset((subst(a, m), b) for a, b in st.iv.items() if keep(a))
    eq = frozenset((subst(a, m), subst(b, m)) for a, b in st.eqc.items() if keep(a) and isinstance(b, tuple))
    return tuple(subst(t, m) for t in terms), facts, types, iv, eq


class Explorer:
    """Fixpoint over the abstract states of one object."""

    def __init__(self, ctx, rep, fixed):
        self.ctx, self.rep, self.fixed = ctx, rep, fixed
        self.nodes, self.seen, self.steps = [], set(), 0

    def add(self, st, ghost, roots, depth):
        key = (canon(self.ctx, st, roots, self.fixed), ghost_key(ghost))
        if key in self.seen:
            return
        if len(self.seen) >= MAX_NODES:
            raise Incomplete(f"more than {MAX_NODES} abstract handshake states")
        self.seen.add(key)
        self.nodes.append(Node(st, ghost, depth))

    def run(self, start, ghost, roots, step):
        """step(node) -> [(state, ghost)]"""
        self.add(start, ghost, roots(ghost), 0)
        i = 0
        while i < len(self.nodes):
            n = self.nodes[i]
            i += 1
            for st, g in step(n):
                s = st.copy()
                s.events, s.trail = (), ()
                self.add(s, g, roots(g), n.depth + 1)
        return self.nodes


def ghost_key(g):
    return (g["label"], g.get("config"), tuple(sorted(k for k, v in g.items() if v is not None)))


def anymsgs(ctx, st, name, tag, **fix):
    """[(state, message, fields)]: a message of this class with arbitrary contents, for every outcome of its constructors."""
    st = st.copy()
    kw = {}
    elems = SPEC[name][1] if name in SPEC else [DETAILS[name][1]] + sorted(DETAILS[name][2].items())
    opt = set() if name in SPEC else {k for k in DETAILS[name][2] if k != "roles"}
    for a, t in elems:
        if a in fix:
            kw[a] = fix[a]
            continue
        kw[a] = ctx.sym(f"{name.lower()}.{a}@{tag}", TY[t] | (NONE_T if a in opt else frozenset()))
        if t == "id":
            st.iv[kw[a]] = (1, MAX_ID)
    if name in SPEC and SPEC[name][2]:
        for a, ty in (("args", LIST), ("kwargs", DICT)):
            kw[a] = ctx.sym(f"{name.lower()}.{a}@{tag}", ty | NONE_T)
    res = []
    for s, k, f in ctx.run(st, ctx.need_attr(st, f"messages.{name}Fields"), **kw):
        for s2, k2, m in (ctx.run(s, ctx.need_attr(s, f"messages.{name}"), f) if k == "v" else []):
            if k2 == "v":
                s2.events, s2.trail = (), ()
                res.append((s2, m, kw))
    if not res:
        raise Incomplete(f"no {name} message can be built")
    return res


def kind_of(ctx, s, v):
    """Name of the message class of a returned value."""
    if v == NONE:
        return "none"
    if v[0] == "r" and v[1] in s.heap and s.heap[v[1]].kind == "inst":
        return s.heap[v[1]].cls.rsplit(".", 1)[-1]
    hs = {t[1].rsplit(".", 1)[-1] for t in s.types_of(v) if t[0] == "inst"}
    return next(iter(hs)) if len(hs) == 1 else "?"


def opens(s, name):
    return [e for e in s.events if e[0] == "open" and e[3] == name]


def succeeded(s, ev):
    return s.facts.get(T("openraise", ev[5])) is False


def failed(s, ev):
    return s.facts.get(T("openraise", ev[5])) is True


PEEL = {"encode", "decode", "b64enc", "b64dec", "hexenc", "hexdec", "str"}


def strip(t):
    while isinstance(t, tuple) and t[0] == "t" and t[1] in PEEL and len(t) >= 3:
        t = t[2]
    return t


# ------------------------------------------------------------------ router side
class Router:
    """The acceptor under exploration.  config: 'auth' with an authenticator, 'open' without."""

    def __init__(self, rep, verb="receive_message"):
        self.rep, self.verb = rep, verb
        self.ctx = ctx = Ctx(rep)
        self.nodes = []
        self.n = 0

    def start(self, config):
        ctx = self.ctx
        st = ctx.eng.start()
        au = ctx.need_attr(st, "auth.IServerAuthenticator")
        ser = ctx.need_attr(st, "serializers.serializer.Serializer")
        self.auth = ctx.sym("authenticator", frozenset({("inst", au[1])})) if config == "auth" else NONE
        self.ser = ctx.sym("serializer", frozenset({("inst", ser[1])}))
        self.roles = ctx.sym("roles", DICT)
        return ctx.new(st, "acceptor.Acceptor", self.ser, self.auth, self.roles)

    def send(self, st, obj, m):
        """Outcomes of handing message m to the router side: [(state, kind, class of the answer, answer, final flag)]."""
        ctx = self.ctx
        res = []
        if self.verb == "receive_message":
            for s, k, v in ctx.method(st, obj, "receive_message", m):
                res.append((s, k, "raise" if k == "x" else kind_of(ctx, s, v), v, None))
            return res
        data = ctx.sym("data", ts("str", "bytes"))
        ctx.eng.open_hooks["deserialize"] = lambda eng, s, base, args, kw: [(s, "v", m)] if base == self.ser and args[-1:] == [data] \
            else None
        outs = ctx.method(st, obj, "receive", data)
        ctx.eng.open_hooks.clear()
        for s, k, v in outs:
            ser = opens(s, "serialize")
            if k == "x":
                if v[0] == "e" and v[1] == ("x", "?any") and ser and failed(s, ser[-1]):
                    continue  # the serializer itself failed
                res.append((s, k, "raise", v, None))
                continue
            if v[0] != "tp" or len(v) != 3:
                self.rep.need(False, "receive yields a pair of data and flag", s, show(v)[:100])
                continue
            if not ser:
                res.append((s, k, "none" if v[1] == NONE else "?", v[1], v[2]))
                continue
            arg = ser[-1][7][-1]
            self.rep.need(len(ser) == 1 and ser[-1][1] == self.ser and v[1] == ser[-1][5],
                          "the answer is serialised once with the configured serializer and returned", s, show(v)[:160])
            res.append((s, k, kind_of(ctx, s, arg), arg, v[2]))
        return res

    def explore(self, config, check=None, classes=None):
        ctx, rep = self.ctx, self.rep
        st, obj = self.start(config)
        self.obj = obj
        ex = Explorer(ctx, rep, {"authenticator", "serializer", "roles"})
        start = {"label": "start", "config": config, "hello": None, "challenge": None, "calls": None, "welcome": None}
        counts = {}

        def roots(g):
            r = [obj]
            for k in ("hello", "challenge", "welcome"):
                if g[k] is not None:
                    r += [x for x in g[k].values() if isinstance(x, tuple)]
            for c in g["calls"] or ():
                r += [c[0], c[1]]
            return r

        def step(node):
            nxt = []
            for name in (classes or ALL):
                mark = ctx.eng.nfresh
                outs = []
                for s0, m, kw in anymsgs(ctx, node.st, name, node.depth):
                    outs += [((m, s0), *o) for o in self.send(s0, obj, m)]
                counts[f"{config}/{node.ghost['label']}: {name}"] = counts.get(f"{config}/{node.ghost['label']}: {name}", 0) + len(outs)
                for self.msg, s, k, cls, v, flag in outs:
                    g = self.advance(node.ghost, name, kw, s, k, cls, v)
                    if check:
                        check(node, name, kw, s, k, cls, v, flag, g, mark)
                    nxt.append((s, g))
            return nxt

        nodes = ex.run(st, start, roots, step)
        for o, n in sorted(counts.items()):
            rep.op(o, n)
        rep.op(f"{config}: abstract handshake states", len(nodes))
        return nodes

    def advance(self, g, name, kw, s, k, cls, v):
        """What the other side can know after this step."""
        if k == "x":
            return g
        n = dict(g)
        calls = tuple((e[7][-1], e[5]) for e in opens(s, "authenticate") if succeeded(s, e) and e[7])
        if name == "Hello" and cls in ("Challenge", "Welcome", "Abort"):
            n["hello"], n["calls"] = kw, calls
        elif calls:
            n["calls"] = (g["calls"] or ()) + calls
        if cls == "Challenge":
            n["label"] = "challenged"
            ex = self.read(s, v, "extra")
            n["challenge"] = {"method": self.read(s, v, "authmethod"), "extra": ex}
        elif cls == "Welcome":
            n["label"] = "welcomed" if g["label"] != "aborted" else "aborted"
            n["welcome"] = {a: self.read(s, v, a) for a in ("session_id", "authid", "authrole", "authmethod")}
        elif cls == "Abort" or name == "Abort":
            n["label"] = "aborted"
        return n

    def read(self, s, v, name):
        vs = [(s2, x) for s2, k, x in self.ctx.get(s, v, name) if k == "v"]
        return vs[0][1] if len(vs) == 1 else None

    def item(self, s, d, key):
        """Value of a dictionary at a constant key, None when it is not there or unknown."""
        if d is None:
            return None
        vs = [(s2, k, x) for s2, k, x in self.ctx.eng.call(s.copy(), ("bi", "dict.get"), [d, C(key)], {})] if False else None
        outs = self.ctx.method(s, d, "get", C(key))
        if len(outs) == 1 and outs[0][1] == "v" and outs[0][2] != NONE:
            return outs[0][2]
        return None

    # -------------------------------------------------------------- proofs
    def excused(self, node, name, kw, s, g, m):
        """Does the path that refuses this message carry a reason: credentials that are missing, malformed or wrong?"""
        hello = kw if name == "Hello" else g["hello"]
        key = T("item", hello["authextra"], C("pubkey"))
        if any(failed(s, e) for e in opens(s, "authenticate")):
            return True
        for a, val in s.facts.items():
            if a[0] != "t":
                continue
            if val is False and a[1] == "boolcall" and a[2][2] in ("ishex", "isb64", "len32", "sigok", "isascii"):
                return True
            if val is False and a[1] == "isinst" and a[2][0] == "s" and a[2][1].startswith("fresh:ret:authenticate"):
                return True
            if val is False and a[1] in ("eq", "cteq") and name == "Authenticate":
                if any(x[0] == "t" and x[1] in ("hmac", "signedmsg") for x in map(strip, a[2:4])):
                    return True
        if m == "cryptosign":
            s2 = s.copy()
            if not (restrict(s2, hello["authextra"], DICT) and s2.assume(T("in", C("pubkey"), hello["authextra"]), True)
                    and restrict(s2, key, STR)):
                return True  # no public key, or none that is a string
            for x in (C(""), C(b"")):
                if holds(s2, self.ctx.eng.mk_eq(s2, key, x)):
                    return True
        return False

    def asked(self, s, hello, m):
        """Did the client ask for this method (the first one it listed; anonymous when it listed none)?"""
        am = hello["authmethods"]
        e = self.ctx.eng
        if m == "anonymous" and (s.heads(am) <= {"none"} or s.interval(T("len", am))[1] == 0):
            return True
        return "none" not in s.heads(am) and holds(s, e.mk_eq(s, T("item", am, C(0)), C(m)))

    def request(self, s, req, cls, want):
        """Is the authenticator's request of this class with these fields?"""
        if kind_of(self.ctx, s, req) != cls:
            return False
        return all(self.same(s, self.read(s, req, a), w) for a, w in want.items())

    def same(self, s, a, b):
        return a is not None and b is not None and same(self.ctx, s, a, b)

    def mac_ok(self, s, secret, challenge, sig):
        """Does the path establish HMAC-SHA256(secret, challenge) == decoded signature?"""
        for a, val in s.facts.items():
            if not val or a[0] != "t" or a[1] not in ("cteq", "eq"):
                continue
            for x, y in ((a[2], a[3]), (a[3], a[2])):
                x, y = strip(x), strip(y)
                if (x[0] == "t" and x[1] == "hmac" and len(x) == 5 and x[4] == C("sha256") and self.eqv(s, x[2], secret)
                        and self.eqv(s, x[3], challenge) and y == strip(sig)):
                    return True
        return False

    def eqv(self, s, a, b):
        if a is None or b is None:
            return False
        a, b = strip(self.ctx.deep(s, a)), strip(self.ctx.deep(s, b))
        return a == b or self.ctx.eng.cn(s, a) == self.ctx.eng.cn(s, b) or self.empty(s, a) and self.empty(s, b)

    def empty(self, s, a):
        return a in (C(""), C(b"")) or a[0] in ("s", "t") and bool(s.heads(a)) and s.heads(a) <= {"str", "bytes"} and \
            s.interval(T("len", a))[1] == 0

    def sig_ok(self, s, pub, challenge, sig):
        """Does the path establish that sig verified under pub and signed exactly the challenge?"""
        for a, val in s.facts.items():
            if not val or a[0] != "t" or a[1] != "boolcall" or a[2] != C("sigok"):
                continue
            key, m, sg = a[3], a[4], a[5]
            if not (key[0] == "t" and key[1] == "vkey" and self.eqv(s, key[2], pub)):
                continue
            if sg == NONE:
                signed = T("signedmsg", m)
                if strip(m) != strip(sig):
                    continue
                if self.equal_facts(s, signed, challenge):
                    return True
            elif self.eqv(s, m, challenge) and contains(sg, strip(sig)):
                return True
        return False

    def equal_facts(self, s, signed, challenge):
        ch = strip(self.ctx.deep(s, challenge)) if challenge is not None else None
        if ch is None:
            return False
        for a, val in list(s.facts.items()):
            if val and a[0] == "t" and a[1] in ("eq", "cteq"):
                x, y = strip(a[2]), strip(a[3])
                if (x == signed and y == ch) or (y == signed and x == ch):
                    return True
        return holds(s, self.ctx.eng.mk_eq(s, signed, ch))

    def proofs(self, node, name, kw, s, g):
        """{method: authenticator response} for every method whose proof this path carries."""
        hello = kw if name == "Hello" else g["hello"]
        if hello is None:
            return {}
        base = {"realm": hello["realm"], "authid": hello["authid"], "auth_extra": hello["authextra"]}
        now = [(e[7][-1], e[5]) for e in opens(s, "authenticate") if succeeded(s, e) and e[7]]
        out = {}
        for req, r in now:
            if name == "Hello" and self.request(s, req, "AnonymousRequest", base):
                out.setdefault("anonymous", r)
            if name == "Authenticate" and self.request(s, req, "TicketRequest", dict(base, ticket=kw["signature"])):
                out.setdefault("ticket", r)
        if name == "Authenticate":
            ch = self.item(s, (g["challenge"] or {}).get("extra"), "challenge")
            for req, r in node.ghost["calls"] or ():
                if self.request(s, req, "WAMPCRARequest", base) and ch is not None:
                    sec = self.read(s, r, "secret")
                    if self.mac_ok(s, sec, ch, kw["signature"]):
                        out.setdefault("wampcra", r)
                if kind_of(self.ctx, s, req) == "CryptoSignRequest" and self.request(s, req, "CryptoSignRequest", base):
                    pub = self.read(s, req, "public_key")
                    if (self.same(s, pub, T("item", hello["authextra"], C("pubkey")))
                            and self.sig_ok(s, pub, ch, kw["signature"])):
                        out.setdefault("cryptosign", r)
        return out


def a01(rep, tier):
    rep.rule("on every path that answers WELCOME with an authenticator configured, the path establishes the proof of the method the "
             "client asked for; without one the identity is the constant 'anonymous'")
    R_ = Router(rep)

    def check(node, name, kw, s, k, cls, v, flag, g, mark):
        if k == "x" or cls != "Welcome":
            return
        if g["config"] == "open":
            rep.need(g["welcome"]["authid"] == C("anonymous"), "without authenticator only the anonymous identity is granted", s,
                     show(g["welcome"]["authid"])[:80] if g["welcome"]["authid"] else "?")
            return
        pr = R_.proofs(node, name, kw, s, g)
        good = [m for m in pr if R_.asked(s, kw if name == "Hello" else g["hello"], m)]
        rep.need(bool(good), f"WELCOME after {name} in state '{node.ghost['label']}' carries the proof of the requested method", s,
                 f"proofs on the path: {sorted(pr) or 'none'}; path {path_of(s)}")

    R_.explore("auth", check)
    R_.explore("open", check)


def a02(rep, tier):
    rep.rule("an authenticator failure or a failed verification is answered with ABORT authentication_failed; is_aborted holds exactly "
             "after an ABORT was sent or received; an aborted handshake never answers WELCOME or CHALLENGE")
    R_ = Router(rep)
    ctx = R_.ctx

    def check(node, name, kw, s, k, cls, v, flag, g, mark):
        lab = node.ghost["label"]
        for s2, k2, b in ctx.method(s, R_.obj, "is_aborted"):
            want = g["label"] == "aborted"
            for s3, bb in (ctx.eng.truth(s2, b) if k2 == "v" else []):
                rep.need(bb is want, f"aborted is reported exactly after ABORT ({lab}, {name} -> {cls})", s3,
                         f"reports {bb} after {name} in state '{lab}' was answered with {cls}; path {path_of(s)}")
        if lab == "aborted":
            rep.need(cls not in ("Welcome", "Challenge"), f"no answer to {name} after ABORT", s, f"answers {cls}; path {path_of(s)}")
        bad = [e for e in opens(s, "authenticate") if failed(s, e)]
        denied = name == "Authenticate" and any(
            a[0] == "t" and (a[1] in ("eq", "cteq") or a[1] == "boolcall" and a[2][2] in ("sigok", "ishex", "isb64", "isascii"))
            and val is False and contains(a, kw["signature"]) and node.st.facts.get(a) is None for a, val in s.facts.items())
        if bad or denied:
            rep.need(cls == "Abort", f"a refused authentication ({name}) is answered with ABORT", s,
                     f"answers {cls if k == 'v' else 'raise ' + ctx.exc(s, v)[:80]}; path {path_of(s)}")
        if cls == "Abort":
            rs = R_.read(s, v, "reason")
            rep.need(rs == C("wamp.error.authentication_failed"), "the ABORT reason is authentication_failed", s, show(rs) if rs else "?")

    R_.explore("auth", check)
    R_.explore("open", check)


ORDER = {("start", "Hello"): {"Welcome", "Challenge", "Abort"}, ("challenged", "Authenticate"): {"Welcome", "Abort"},
         ("start", "Abort"): {"none"}, ("challenged", "Abort"): {"none"}, ("aborted", "Abort"): {"none"}}


def a03(rep, tier):
    rep.rule("acceptance table of the router side over every abstract handshake state and message class, and completion of the "
             "handshake of each method")
    R_ = Router(rep)
    ctx = R_.ctx
    done = {}

    def check(node, name, kw, s, k, cls, v, flag, g, mark):
        lab = node.ghost["label"]
        ok = ORDER.get((lab, name), set())
        if ok and name in ("Hello", "Authenticate") and (k == "x" or cls == "Abort"):
            hello = kw if name == "Hello" else g["hello"]
            for m in METHODS if g["config"] == "auth" else ["anonymous"]:
                if g["config"] == "open" or R_.asked(s, hello, m):
                    rep.need(R_.excused(node, name, kw, s, g, m), f"{name} for {m} is refused only for its credentials", s,
                             f"answers {cls if k == 'v' else 'raise ' + ctx.exc(s, v)[:80]}; path {path_of(s)}")
        if k == "x":
            if not ok or name == "Abort":
                rep.need(ctx.is_exc(s, v, "ValueError"), f"{name} in state '{lab}' is refused with ValueError", s,
                         f"raises {ctx.exc(s, v)[:100]}; path {path_of(s)}")
            if name == "Abort" and lab in ("start", "challenged"):
                rep.need(False, f"the client's ABORT is accepted in state '{lab}'", s, f"raises {ctx.exc(s, v)[:80]}")
            return
        rep.need(cls in ok, f"{name} in state '{lab}' is answered only with {sorted(ok) or 'an exception'}", s,
                 f"answers {cls}; path {path_of(s)}")
        if name in ("Hello", "Authenticate"):
            hello = kw if name == "Hello" else g["hello"]
            for m in METHODS if g["config"] == "auth" else ["none"]:
                if m == "none" or (hello is not None and R_.asked(s, hello, m)):
                    done.setdefault((g["config"], m, lab), set()).add(cls)

    nodes = R_.explore("auth", check) + R_.explore("open", check)
    for m in METHODS:
        first = "Welcome" if m == "anonymous" else "Challenge"
        got = done.get(("auth", m, "start"), set())
        rep.need(first in got, f"HELLO asking for {m} can be answered with {first}", "-", f"answers {sorted(got)}")
        rep.need("Abort" in got or m == "ticket", f"HELLO asking for {m} can be refused", "-", f"answers {sorted(got)}")
        if m != "anonymous":
            got = done.get(("auth", m, "challenged"), set())
            rep.need(got == {"Welcome", "Abort"}, f"AUTHENTICATE for {m} is welcomed or refused", "-", f"answers {sorted(got)}")
    rep.need("Welcome" in done.get(("open", "none", "start"), set()), "without authenticator HELLO is welcomed", "-", str(done)[:200])
    completes(R_, rep, nodes)


def completes(R_, rep, nodes):
    """From every state that expects an answer, the right answer still leads to WELCOME (nothing refused has an effect)."""
    ctx = R_.ctx
    for config in ("auth", "open"):
        st, obj = R_.start(config)
        R_.obj = obj
        for node in nodes:
            if node.ghost["config"] != config or node.ghost["label"] not in ("start", "challenged"):
                continue
            lab = node.ghost["label"]
            if lab == "start":
                for m in METHODS if config == "auth" else ["anonymous"]:
                    for s0, ms, kw in anymsgs(ctx, node.st, "Hello", f"c{node.depth}"):
                        am = kw["authmethods"]
                        if not (restrict(s0, am, LIST) and s0.assume(T("lt", C(0), T("len", am)), True)
                                and s0.assume(ctx.eng.mk_eq(s0, T("item", am, C(0)), C(m)), True)):
                            continue
                        got = {o[2] for o in R_.send(s0, obj, ms)}
                        rep.need(bool(got & {"Welcome", "Challenge"}), f"a {m} HELLO is still served in every initial state", s0,
                                 f"answers {sorted(got)}")
            else:
                for s0, ms, kw in anymsgs(ctx, node.st, "Authenticate", f"c{node.depth}"):
                    key = T("item", node.ghost["hello"]["authextra"], C("pubkey"))
                    if any(val is False and a[0] == "t" and a[1] == "boolcall" and contains(a, key) for a, val in s0.facts.items()):
                        continue  # the client's public key is malformed
                    got = {o[2] for o in R_.send(s0, obj, ms)}
                    rep.need("Welcome" in got, "AUTHENTICATE is still served in every challenged state", s0, f"answers {sorted(got)}")


def a04(rep, tier):
    rep.rule("session details and WELCOME agree with each other, with the HELLO's realm and with the authenticator's response; details "
             "are available exactly after WELCOME")
    R_ = Router(rep)
    ctx = R_.ctx
    ids = []

    def check(node, name, kw, s, k, cls, v, flag, g, mark):
        got = ctx.method(s, R_.obj, "get_session_details")
        welcomed = g["welcome"] is not None
        for s2, k2, d in got:
            if not welcomed:
                rep.need(k2 == "x" and ctx.is_exc(s2, d, "ValueError"), "no session details before WELCOME", s2,
                         "details are available" if k2 == "v" else ctx.exc(s2, d)[:80])
                continue
            rep.need(k2 == "v", "session details are available after WELCOME", s2, f"raises {ctx.exc(s2, d)[:80]}" if k2 == "x" else "")
            if k2 == "x":
                continue
            w = g["welcome"]
            hello = g["hello"]
            for a, want in (("session_id", w["session_id"]), ("authid", w["authid"]), ("authrole", w["authrole"]),
                            ("realm", hello["realm"] if hello else None)):
                x = R_.read(s2, d, a)
                rep.need(R_.same(s2, x, want), f"session details: {a} is that of the {'HELLO' if a == 'realm' else 'WELCOME'}", s2,
                         f"is {show(x)[:80] if x else '?'}, expected {show(want)[:80] if want else '?'}; path {path_of(s)}")
        if cls != "Welcome" or k == "x":
            return
        w = g["welcome"]
        rep.need(R_.same(s, R_.read(s, v, "roles"), R_.roles), "WELCOME carries the configured roles", s, "")
        sid = w["session_id"]
        rep.need(sid is not None and not is_c(sid) and s.interval(sid)[0] >= 1 and s.interval(sid)[1] <= MAX_ID,
                 "the session id lies in 1..2^53", s, show(sid)[:80] if sid else "?")
        ids.append(sid)
        if g["config"] == "open":
            return
        pr = R_.proofs(node, name, kw, s, g)
        hello = kw if name == "Hello" else g["hello"]
        good = [m for m in pr if R_.asked(s, hello, m)]
        for m in good[:1]:
            r = pr[m]
            for a in ("authid", "authrole"):
                rep.need(R_.same(s, w[a], R_.read(s, r, a)), f"WELCOME {a} is the authenticator's ({m})", s,
                         f"is {show(w[a])[:80] if w[a] else '?'}")
            rep.need(w["authmethod"] is not None and holds(s, ctx.eng.mk_eq(s, w["authmethod"], C(m))),
                     f"WELCOME names the method that was used ({m})", s, f"is {show(w['authmethod'])[:80] if w['authmethod'] else '?'}")

    R_.explore("auth", check)
    R_.explore("open", check)
    keeps_values(ctx, rep, "Response", ["authid", "authrole"], [STR, STR])
    keeps_values(ctx, rep, "WAMPCRAResponse", ["authid", "authrole", "secret"], [STR, STR, STR])
    # another instance has an id of its own
    st, o1 = R_.start("open")
    s, o2 = ctx.new(st, "acceptor.Acceptor", R_.ser, R_.auth, R_.roles)
    got = []
    for o in (o1, o2):
        s, m, kw = anymsgs(ctx, s, "Hello", f"two{len(got)}")[0]
        outs = [(s2, v) for s2, k, v in ctx.method(s, o, "receive_message", m) if k == "v"]
        if len(outs) != 1:
            raise Incomplete("two acceptors: HELLO has several outcomes")
        s, v = outs[0]
        got.append(R_.read(s, v, "session_id"))
    rep.need(got[0] != got[1], "every handshake draws a session id of its own", s, f"both are {show(got[0])}")


LOSSLESS = {"encode", "decode", "hexenc", "b64enc", "b64u_enc", "json_dumps", "dict", "kv", "concat", "fstr", "str", "list", "obj", "fld"}


def entropy(t, s, acc):
    """Fresh CSPRNG symbols that survive in t through invertible operations."""
    if isinstance(t, tuple) and len(t) == 2 and t[0] == "s":
        if t[1].startswith("fresh:csprng."):
            acc.append(t)
    elif isinstance(t, tuple) and t and t[0] == "t" and t[1] in LOSSLESS:
        for x in t[2:]:
            entropy(x, s, acc)
    return acc


def a05(rep, tier):
    rep.rule("each CHALLENGE that is verified later contains >= 16 bytes drawn in this step from a CSPRNG, and a WELCOME for it rests "
             "on a verification of exactly that challenge")
    R_ = Router(rep)
    ctx = R_.ctx
    seen = set()

    def check(node, name, kw, s, k, cls, v, flag, g, mark):
        if k == "x":
            return
        if cls == "Challenge":
            for m in METHODS[2:]:
                if not R_.asked(s, kw, m):
                    continue
                seen.add(m)
                ch = R_.item(s, R_.read(s, v, "extra"), "challenge")
                rep.need(ch is not None, f"the {m} CHALLENGE has a challenge", s, "no challenge string")
                if ch is None:
                    continue
                syms = entropy(ctx.deep(s, ch), s, [])
                new = [x for x in syms if int(x[1].rsplit("#", 1)[1]) > mark]
                bits = sum(s.interval(T("len", x))[0] * 8 if "bytes" in s.heads(x) else
                           (max(0, s.interval(x)[1].bit_length() - 1) if s.interval(x)[1] not in (INF, None) else 0) for x in set(new))
                rep.need(bool(new), f"the {m} challenge is drawn from a secure source for this handshake", s,
                         f"challenge {show(ctx.deep(s, ch))[:200]}")
                if new:
                    rep.need(bits >= 128, f"the {m} challenge carries at least 128 random bits", s, f"{bits} bits")
        if cls == "Welcome" and node.ghost["label"] == "challenged" and name == "Authenticate":
            hello = g["hello"]
            for m in METHODS[2:]:
                if hello is None or not R_.asked(s, hello, m):
                    continue
                ok = m in R_.proofs(node, name, kw, s, g)
                rep.need(ok, f"the {m} answer is verified against the issued challenge", s, f"path {path_of(s)}")

    R_.explore("auth", check)
    for m in METHODS[2:]:
        rep.need(m in seen, f"a {m} challenge is issued", "-", "no path")


def a06(rep, tier):
    rep.rule("receive(data) answers with serialise(answer) of the deserialised message, and its flag is set exactly for WELCOME, ABORT "
             "and a received ABORT")
    R_ = Router(rep, "receive")
    ctx = R_.ctx

    def check(node, name, kw, s, k, cls, v, flag, g, mark):
        lab = node.ghost["label"]
        ok = ORDER.get((lab, name), set())
        if k == "x":
            rep.need(name in ("Hello", "Authenticate") and bool(ok) or ctx.is_exc(s, v, "ValueError"),
                     f"receive: {name} in state '{lab}' raises ValueError", s, f"raises {ctx.exc(s, v)[:100]}; path {path_of(s)}")
            rep.need(not (name == "Abort" and lab in ("start", "challenged")), f"receive: ABORT is accepted in state '{lab}'", s,
                     f"raises {ctx.exc(s, v)[:100]}")
            return
        rep.need(cls in ok, f"receive: {name} in state '{lab}' is answered as receive_message does", s, f"answers {cls}; path {path_of(s)}")
        for s2, b in ctx.eng.truth(s, flag):
            rep.need(b is (cls in ("Welcome", "Abort", "none")), f"the final flag is set exactly at the end ({cls})", s2,
                     f"flag {b} for {cls}; path {path_of(s)}")

    R_.explore("auth", check)
    R_.explore("open", check)


def leaks(t, secret, under=False):
    """Does the secret occur in t outside a MAC, derivation or signature?"""
    if t == secret:
        return not under
    if isinstance(t, tuple) and t and t[0] == "t":
        u = under or t[1] in ("hmac", "pbkdf2", "signed", "sig", "pub", "digest", "sk")
        if t[1] == "keybytes" and t[2][0] == "t" and t[2][1] == "sk":
            return leaks_key(t[2], secret)
        return any(leaks(x, secret, u) for x in t[2:] if isinstance(x, tuple))
    if isinstance(t, tuple):
        return any(leaks(x, secret, under) for x in t[1:] if isinstance(x, tuple))
    return False


def leaks_key(sk, secret):
    return contains(sk, secret)


def a07(rep, tier):
    rep.rule("the secret of the authenticator's response, the client's secret and its private key occur in outgoing messages only below "
             "a MAC, key derivation or signature")
    R_ = Router(rep)
    ctx = R_.ctx

    def check(node, name, kw, s, k, cls, v, flag, g, mark):
        if k == "x":
            return
        out = ctx.deep(s, v)
        for req, r in tuple(g["calls"] or ()) + tuple((e[7][-1], e[5]) for e in opens(s, "authenticate") if e[7]):
            for a in ("secret", "salt"):
                if a == "salt":
                    continue
                sec = secret_of(R_, s, r)
                if sec is not None:
                    rep.need(not leaks(out, sec), f"no secret in {cls}", s, f"{show(out)[:200]}")
        if name == "Authenticate" and cls in ("Welcome", "Abort", "Challenge"):
            rep.need(not leaks(out, kw["signature"]), f"the client's answer is not echoed in {cls}", s, show(out)[:200])

    R_.explore("auth", check)
    client_secrets(ctx, rep)


def secret_of(R_, s, r):
    s2 = s.copy()
    k = R_.ctx.attr(s2, "auth.WAMPCRAResponse")
    if k is None:
        return None
    if not restrict_cls(R_.ctx, s2, r, k[1]):
        return None
    return R_.read(s2, r, "secret")


def restrict_cls(ctx, s, r, cls):
    s.types[r] = frozenset({("inst", cls)})
    return True


def client_secrets(ctx, rep):
    st = ctx.eng.start()
    for cls, args, sec in (("WAMPCRAAuthenticator", ("authid", "secret"), "secret"),
                           ("CryptoSignAuthenticator", ("authid", "private_key"), "private_key")):
        syms = [ctx.sym(f"client.{a}", STR) for a in args]
        secret = syms[args.index(sec)]
        for s, k, au in ctx.run(st, ctx.need_attr(st, f"auth.{cls}"), *syms):
            if k == "x":
                continue
            for s1, k1, j in ctx.run(s, ctx.need_attr(s, "joiner.Joiner"), ctx.sym("realm", STR), ctx.sym(
                    "serializer", frozenset({("inst", ctx.need_attr(s, "serializers.serializer.Serializer")[1])})), au):
                if k1 == "x":
                    continue
                for s2, k2, v in ctx.method(s1, j, "send_hello"):
                    for e in opens(s2, "serialize"):
                        rep.need(not leaks(e[4][-1], secret), f"{cls}: no secret in HELLO", s2, show(e[4][-1])[:200])
            s3, ch, kw = anymsgs(ctx, s, "Challenge", cls)[0]
            outs = ctx.method(s3, au, "authenticate", ch)
            rep.op(f"{cls}.authenticate", len(outs))
            for s4, k4, v in outs:
                if k4 == "v":
                    rep.need(not leaks(ctx.deep(s4, v), secret), f"{cls}: no secret in AUTHENTICATE", s4, show(ctx.deep(s4, v))[:200])
                else:
                    rep.need(not leaks(v, secret), f"{cls}: no secret in an exception", s4, show(v)[:200])


def keeps_values(ctx, rep, name, fields, types):
    """An instance reads back exactly what it was built with, positionally and by keyword."""
    st = ctx.eng.start()
    c = ctx.attr(st, f"auth.auth.{name}") or ctx.attr(st, f"auth.{name}")
    if c is None:
        rep.need(False, f"{name} is available", "-", "not found")
        return
    syms = [ctx.sym(f"{name}.{a}", t) for a, t in zip(fields, types)]
    for how, outs in (("positionally", ctx.run(st, c, *syms)), ("by keyword", ctx.eng.call(st, c, [], dict(zip(fields, syms))))):
        rep.op(f"{name}(...) {how}", len(outs))
        for s, k, o in outs:
            rep.need(k == "v", f"{name} can be built {how}", s, "raises " + ctx.exc(s, o)[:80] if k == "x" else "")
            if k == "x":
                continue
            for a, x in zip(fields, syms):
                got = [(s2, k2, y) for s2, k2, y in ctx.get(s, o, a)]
                rep.need(all(k2 == "v" and same(ctx, s2, y, x) for s2, k2, y in got), f"{name}.{a} is what it was built with", s,
                         "; ".join(show(y)[:60] for s2, k2, y in got))


def a09(rep, tier):
    rep.rule("the extra of a WAMP-CRA CHALLENGE carries salt, iterations and keylen of a salted response, and no salt otherwise")
    R_ = Router(rep)
    ctx = R_.ctx
    cls_ = ctx.attr(ctx.eng.start(), "auth.auth.WAMPCRASaltedResponse") or ctx.attr(ctx.eng.start(), "auth.WAMPCRASaltedResponse")
    if cls_ is None:
        rep.need(False, "a response with a salted secret exists", "-", "no WAMPCRASaltedResponse")
        return
    seen = set()

    def check(node, name, kw, s, k, cls, v, flag, g, mark):
        if k == "x" or cls != "Challenge" or name != "Hello" or not R_.asked(s, kw, "wampcra") or not g["calls"]:
            return
        r = g["calls"][-1][1]
        extra = R_.read(s, v, "extra")
        for s1, k1, b in ctx.eng.call(s.copy(), ("bi", "isinstance"), [r, cls_], {}):
            for s2, salted in ctx.eng.truth(s1, b):
                if salted:
                    s2.types[r] = frozenset({("inst", cls_[1])})
                seen.add(salted)
                for a in ("salt", "iterations", "keylen"):
                    x = R_.item(s2, extra, a)
                    if salted:
                        want = R_.read(s2, r, a)
                        rep.need(x is not None and R_.same(s2, x, want), f"the CHALLENGE for a salted secret carries its {a}", s2,
                                 f"is {show(x)[:80] if x else 'absent'}, expected {show(want)[:80] if want else '?'}; path {path_of(s)}")
                    elif a == "salt":
                        outs = ctx.method(s2, extra, "get", C(a))
                        rep.need(all(k3 == "v" and y == NONE for s3, k3, y in outs), "the CHALLENGE for a plain secret carries no salt", s2,
                                 "; ".join(show(y)[:60] for s3, k3, y in outs))

    keeps_values(ctx, rep, "WAMPCRASaltedResponse", ["authid", "authrole", "secret", "salt", "iterations", "keylen"],
                 [STR, STR, STR, STR, INT, INT])
    R_.explore("auth", check)
    for b in (True, False):
        rep.need(b in seen, f"a WAMP-CRA challenge is issued for a {'salted' if b else 'plain'} secret", "-", "no path")


ASKS = {("Hello", "anonymous"): "AnonymousRequest", ("Hello", "wampcra"): "WAMPCRARequest", ("Hello", "cryptosign"): "CryptoSignRequest",
        ("Authenticate", "ticket"): "TicketRequest"}


def a11(rep, tier):
    rep.rule("every call of the authenticator happens while a HELLO (an AUTHENTICATE for ticket) is accepted in order, at most once, on "
             "the request class of the asked method, whose attributes are the realm, authid and extra of the HELLO, the method, and the "
             "public key or ticket presented")
    R_ = Router(rep)
    ctx = R_.ctx
    seen = set()

    def check(node, name, kw, s, k, cls, v, flag, g, mark):
        calls = opens(s, "authenticate")
        lab = node.ghost["label"]
        due = (name, lab) in (("Hello", "start"), ("Authenticate", "challenged"))
        rep.need(len(calls) <= int(due), f"{name} in state '{lab}' asks the authenticator {'at most once' if due else 'nothing'}", s,
                 f"{len(calls)} calls; path {path_of(s)}")
        hello = kw if name == "Hello" else node.ghost["hello"]
        if not due or hello is None:
            return
        for e in calls:
            ms = [m for m in METHODS if R_.asked(s, hello, m) and (name, m) in ASKS]
            rep.need(len(ms) == 1, f"{name} asks the authenticator only for a method that is decided then", s,
                     f"methods {ms}; path {path_of(s)}")
            if len(ms) != 1 or not e[7]:
                continue
            m, req = ms[0], e[7][-1]
            seen.add(m)
            rep.need(e[1] == R_.auth, "the configured authenticator is asked", s, show(e[1])[:80])
            cls_ = kind_of(ctx, s, req)
            rep.need(cls_ == ASKS[name, m], f"the request for {m} is of its class", s, cls_)
            want = {"realm": hello["realm"], "authid": hello["authid"], "auth_extra": hello["authextra"], "method": C(m)}
            if m == "ticket":
                want["ticket"] = kw["signature"]
            if m == "cryptosign":
                want["public_key"] = T("item", hello["authextra"], C("pubkey"))
            for a, w in want.items():
                x = R_.read(s, req, a)
                rep.need(R_.same(s, x, w), f"the request for {m} carries the client's {a}", s,
                         f"is {show(x)[:80] if x else '?'}, expected {show(w)[:80]}; path {path_of(s)}")

    R_.explore("auth", check)
    for m in METHODS:
        rep.need(m in seen, f"the authenticator is asked for {m}", "-", "never")


def members(t):
    """{key: value} of a JSON object text whose keys are known, None when the text is not of that form."""
    t = strip(t)
    if t[0] != "t" or t[1] != "json_dumps" or t[2][0] != "t" or t[2][1] != "dict" or t[2][2] != NONE:
        return None
    out = {}
    for e in t[2][3:]:
        if e[0] != "t" or e[1] != "kv" or not is_c(e[2]) or e[4] != NONE:
            return None
        out[cv(e[2])] = e[3]
    return out


def a10(rep, tier):
    rep.rule("the challenge string of a WAMP-CRA CHALLENGE is the JSON text of an object whose authid and authrole are the response's, "
             "whose authmethod is wampcra, whose session is the id of a later WELCOME, with nonce, timestamp and authprovider")
    R_ = Router(rep)
    ctx = R_.ctx
    seen = []

    def check(node, name, kw, s, k, cls, v, flag, g, mark):
        if k == "x":
            return
        if cls == "Challenge" and name == "Hello" and R_.asked(s, kw, "wampcra") and g["calls"]:
            ch = R_.item(s, R_.read(s, v, "extra"), "challenge")
            if ch is None:
                return
            mem = members(ctx.deep(s, ch))
            seen.append(mem is not None)
            rep.need(mem is not None, "the challenge string is a JSON object", s, show(ctx.deep(s, ch))[:200],
                     imprecise=strip(ctx.deep(s, ch))[0] == "t")
            if mem is None:
                return
            r = g["calls"][-1][1]
            for a, want in (("authid", R_.read(s, r, "authid")), ("authrole", R_.read(s, r, "authrole")), ("authmethod", C("wampcra"))):
                x = mem.get(a)
                rep.need(x is not None and want is not None and R_.eqv(s, x, want), f"the challenge names the {a} it was issued for", s,
                         f"is {show(x)[:80] if x else 'absent'}, expected {show(want)[:80] if want else '?'}; path {path_of(s)}")
            for a in ("nonce", "timestamp", "authprovider", "session"):
                rep.need(a in mem, f"the challenge has a {a}", s, f"members {sorted(map(str, mem))}")
        if cls == "Welcome" and name == "Authenticate" and g["hello"] is not None and R_.asked(s, g["hello"], "wampcra"):
            ch = R_.item(s, (node.ghost["challenge"] or {}).get("extra"), "challenge")
            mem = members(ctx.deep(s, ch)) if ch is not None else None
            if mem and "session" in mem:
                sid = g["welcome"]["session_id"]
                rep.need(sid is not None and R_.eqv(s, mem["session"], sid), "the challenge names the session it was issued for", s,
                         f"is {show(mem['session'])[:80]}, welcomed as {show(sid)[:80] if sid else '?'}")

    R_.explore("auth", check)
    rep.need(bool(seen), "a WAMP-CRA challenge is issued", "-", "no path")


RULES = {"A11": a11, "A10": a10, "A09": a09, "A01": a01, "A02": a02, "A03": a03, "A04": a04, "A05": a05, "A06": a06, "A07": a07}
