"""Handling rule (H01): whoever handles a message leaves it as it was.

Every operation that takes a message is run on a message with arbitrary contents; on every outcome, accepting or refusing, each
accessor must still give what was put in.  Values inside are compared as terms, so a write to the message's fields, to its options
or details or to its arguments is seen wherever it happens, while a copy that is changed is not.
"""

from .common import *  # noqa: F403
from .common import C, DICT, NONE, STR, holds, is_c, path_of, show
from . import rules_auth, rules_broker, rules_dealer, rules_join, rules_session
from .rules_wire import ALL, alpha


def contents(ctx, s, m, kw):
    """{accessor: term} of a message, for the accessors named like the values it was built from."""
    out = {}
    for a in kw:
        vs = [(s2, v) for s2, k, v in ctx.get(s, m, a) if k == "v"]
        if len(vs) == 1:
            out[a] = alpha(ctx.deep(*vs[0]))
    return out


def unchanged(ctx, rep, s, m, kw, before, what):
    now = contents(ctx, s, m, kw)
    for a, was in before.items():
        same = now.get(a) == was
        if not same and a in now and is_c(now[a]):
            same = holds(s, ctx.eng.mk_eq(s, was, now[a]))  # the path fixes the value
        rep.need(same, f"{what} leaves the message's {a} as it was", s,
                 f"{show(now[a])[:140] if a in now else 'unreadable'}, was {show(was)[:100]}; path {path_of(s)}")


def given(ctx, rep, s, sym, what):
    """A container the application configured is still the same."""
    r = ctx.eng.force(s, sym)
    if r[0] == "r":
        rep.need(ctx.eng.norm(s, r) == sym, what, s, f"{show(ctx.deep(s, r))[:140]}; path {path_of(s)}")


def session(rep):
    S_ = rules_session.Sess(rep)
    ctx = S_.ctx
    for name in ALL:
        for verb in ("send_message", "receive_message"):
            cases = [("", {})]
            if name == "Error":
                cases = [(f" of type {c}", {"message_type": C(c)}) for c in (8, 16, 32, 34, 48, 64, 66, 68)]
            for lab, fix in cases:
                s, m, kw = S_.msg(S_.any.copy(), name, "h", **fix)
                before = contents(ctx, s, m, kw)
                outs = S_.do(s, verb, m)
                rep.op(f"session {verb} {name}{lab}", len(outs))
                for s2, k, v in outs:
                    unchanged(ctx, rep, s2, m, kw, before, f"session {verb} of {name.upper()}")


def routed(rep, d, label, s, name, y, verb="receive_message", **fix):
    s, m, kw = d.msg(s, name, "h", **fix)
    before = contents(d.ctx, s, m, kw)
    outs = d.ctx.method(s, d.obj, verb, y, m)
    rep.op(label, len(outs))
    for s2, k, v in outs:
        unchanged(d.ctx, rep, s2, m, kw, before, f"{type(d).__name__.lower()} handling of {name.upper()}")


def dealer(rep):
    d = rules_dealer.Dealer(rep)
    for w in rules_dealer.worlds(d, 3):
        for s, ln, y in rules_dealer.sessions_of(w, w.st):
            at = f"[{w.label}] {ln}: "
            for s2, lp, p in rules_dealer.names_of(w, s, "p"):
                routed(rep, d, at + f"CALL {lp}", s2, "Call", y, procedure=p)
                routed(rep, d, at + f"REGISTER {lp}", s2, "Register", y, procedure=p)
            for s2, lr, r in rules_dealer.names_of(w, s, "r"):
                routed(rep, d, at + f"UNREGISTER {lr}", s2, "Unregister", y, registration_id=r)
            for s2, li, i in rules_dealer.names_of(w, s, "i"):
                routed(rep, d, at + f"YIELD {li}", s2, "Yield", y, request_id=i)
                routed(rep, d, at + f"ERROR {li}", s2, "Error", y, request_id=i, message_type=C(rules_dealer.INVOCATION))
    for name in ALL:
        routed(rep, d, f"[any] {name}", w.st.copy(), name, w.A)


def broker(rep):
    b = rules_broker.Broker(rep)
    w = None
    for w in rules_broker.worlds(b, 2):
        for s, ln, y, up in rules_broker.sessions_of(w):
            at = f"[{w.label}] {ln}: "
            routed(rep, b, at + "SUBSCRIBE", s, "Subscribe", y, topic=w.t)
            routed(rep, b, at + "PUBLISH", s, "Publish", y, "receive_publish", topic=w.t)
            if w.sid is not None:
                routed(rep, b, at + "UNSUBSCRIBE", s, "Unsubscribe", y, subscription_id=w.sid)
    for name in ALL:
        routed(rep, b, f"[any] {name}", w.st.copy(), name, w.A)


def handshakes(rep):
    R_ = rules_auth.Router(rep)

    def rcheck(node, name, kw, s, k, cls, v, flag, g, mark):
        m, s0 = R_.msg
        unchanged(R_.ctx, rep, s, m, kw, contents(R_.ctx, s0, m, kw), f"acceptor handling of {name.upper()}")
        given(R_.ctx, rep, s, R_.roles, "the configured roles of the acceptor stay as they were")

    for config in ("auth", "open"):
        R_.explore(config, rcheck)
    C_ = rules_join.Client(rep, "receive_message")

    def jcheck(node, name, kw, s, k, cls, v, g):
        if name == "send_hello":
            if kw["roles"] is not None:
                given(C_.ctx, rep, s, kw["roles"], "the roles given to send_hello stay as they were")
            return
        m, s0 = C_.msg
        unchanged(C_.ctx, rep, s, m, kw, contents(C_.ctx, s0, m, kw), f"joiner handling of {name.upper()}")

    for config in ("given", "default"):
        C_.explore(config, jcheck)


def answering(rep):
    """The supplied client authenticators answer a challenge without touching it or their extra data."""
    C_ = rules_join.Client(rep, "receive_message")
    ctx = C_.ctx
    st, _ = C_.start("given")
    for cls, method in rules_join.METHODS.items():
        au = ctx.attr(st, f"auth.{cls}")
        if au is None:
            continue
        authid, cred, extra = ctx.sym("authid", STR), ctx.sym("credential", STR), ctx.sym("extra", DICT)
        for s, k, o in ctx.run(st, au, *([authid] if method == "anonymous" else [authid, cred]), extra):
            given(ctx, rep, s, extra, f"the extra data given to {cls} stays as it was")
            if k == "x":
                continue
            for s2, ch, kw in rules_auth.anymsgs(ctx, s, "Challenge", "h"):
                outs = ctx.method(s2, o, "authenticate", ch)
                rep.op(f"{cls}.authenticate", len(outs))
                for s3, k3, v in outs:
                    unchanged(ctx, rep, s3, ch, kw, contents(ctx, s2, ch, kw), f"{cls}.authenticate")
                    given(ctx, rep, s3, extra, f"the extra data given to {cls} stays as it was")


# ------------------------------------------------------------------------------------------------ H02
def later(d, rep, w, ops, more, first):
    """Every answer of every operation, looked at again after every further operation."""
    ctx = d.ctx
    for label, st, run, eff in ops:
        if not first(label):
            continue
        for s, k, v in run(st.copy()):
            if k != "v" or v == NONE:
                continue
            was = ctx.deep(s, v)
            n = 0
            for lab2, run2 in more:
                for s2, k2, v2 in run2(s.copy()):
                    n += 1
                    now = ctx.deep(s2, v)
                    rep.need(now == was, f"the answer to {label.split('(')[0]} stays as it was after {lab2}", s2,
                             f"{show(now)[:200]}, was {show(was)[:200]}; path {path_of(s2)}")
            rep.op(f"[{w.label}] {label}, then any operation", n)


def dealer_later(rep, tier):
    d = rules_dealer.Dealer(rep)
    ws = rules_dealer.worlds(d, 3) if tier == "thorough" else rules_dealer.worlds(d, 3, recvs=(True,), callers=("other",))[-1:]
    for w in ws:
        more = []
        for s, ln, y in rules_dealer.sessions_of(w, w.st):
            def send(st, name, y=y, verb="receive_message", **fix):
                st, m, kw = d.msg(st, name, "then", **fix)
                return d.ctx.method(st, d.obj, verb, y, m)
            more.append((f"removal of {ln}", lambda st, y=y: d.remove_session(st, y)))
            more.append((f"REGISTER({ln})", lambda st, send=send: send(st, "Register", procedure=w.p)))
            more.append((f"UNREGISTER({ln})", lambda st, send=send: send(st, "Unregister", registration_id=w.rid)))
            more.append((f"CALL({ln})", lambda st, send=send: send(st, "Call", procedure=w.p, request_id=w.q)))
            more.append((f"CALL({ln}, any)", lambda st, send=send: send(st, "Call", procedure=w.p)))
            more.append((f"YIELD({ln})", lambda st, send=send: send(st, "Yield", request_id=w.inv)))
            more.append((f"ERROR({ln})", lambda st, send=send: send(st, "Error", request_id=w.inv, message_type=C(rules_dealer.INVOCATION))))
        later(d, rep, w, rules_dealer.operations(w), more,
              lambda l: l.startswith(("REG", "UNREG", "CALL", "YIELD", "ERROR")) and ("same" in l or l.startswith("REG")))


def broker_later(rep, tier):
    b = rules_broker.Broker(rep)
    ws = rules_broker.worlds(b, 2)
    for w in ws:
        more = []
        for s, ln, y, up in rules_broker.sessions_of(w):
            def send(st, name, y=y, verb="receive_message", **fix):
                st, m, kw = b.msg(st, name, "then", **fix)
                return b.ctx.method(st, b.obj, verb, y, m)
            more.append((f"removal of {ln}", lambda st, y=y: b.remove_session(st, y)))
            more.append((f"SUBSCRIBE({ln})", lambda st, send=send: send(st, "Subscribe", topic=w.t)))
            if w.sid is not None:
                more.append((f"UNSUBSCRIBE({ln})", lambda st, send=send: send(st, "Unsubscribe", subscription_id=w.sid)))
            more.append((f"PUBLISH({ln})", lambda st, send=send: send(st, "Publish", verb="receive_publish", topic=w.t)))
        later(b, rep, w, rules_broker.operations(w), more, lambda l: l.startswith(("SUB", "PUB", "UNSUB")))


def acceptor_later(rep):
    R_ = rules_auth.Router(rep)
    seen = []

    def check(node, name, kw, s, k, cls, v, flag, g, mark):
        for part in ("challenge", "welcome"):
            for a, x in (node.ghost[part] or {}).items():
                if isinstance(x, tuple):
                    was, now = R_.ctx.deep(node.st, x), R_.ctx.deep(s, x)
                    seen.append(part)
                    rep.need(was == now, f"the {part.upper()}'s {a} stays as it was sent after {name.upper()}", s,
                             f"{show(now)[:160]}, was {show(was)[:160]}; path {path_of(s)}")

    for config in ("auth", "open"):
        R_.explore(config, check)
    for part in ("challenge", "welcome"):
        rep.need(part in seen, f"a {part.upper()} is sent", "-", "never")


def h02(rep, tier):
    rep.rule("the term of every message, publication and envelope that an operation handed out is the same after every further operation")
    dealer_later(rep, tier)
    broker_later(rep, tier)
    acceptor_later(rep)


def h01(rep, tier):
    rep.rule("on every outcome of every operation that takes a message, each accessor of the message gives the term it gave before; "
             "role dictionaries that were configured keep their term")
    session(rep)
    dealer(rep)
    broker(rep)
    handshakes(rep)
    answering(rep)


RULES = {"H01": h01, "H02": h02}
