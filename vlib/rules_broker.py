"""Broker rules (B*): the broker simulates a reference model of sessions and subscriptions."""

from .common import *  # noqa: F403
from .common import (ANY, C, DICT, Incomplete, INT, LIST, MAX_ID, NONE, STR, S, T, TRUE, FALSE, cv, holds, loc_of, path_of,
                     refuted, rewind, show, split, subst)
from .rules_dealer import Router
from .rules_wire import ALL


class Broker(Router):
    dotted = "broker.Broker"
    n_obs = 0

    def examples(self):
        A, B, t = self.name("eA"), self.name("eB"), self.name("et", STR)

        def session(st):
            outs = self.go(self.add_session(st, A, "eA"), "add_session")
            if len(outs) != 1:
                raise Incomplete("population: adding a session has several outcomes")
            return outs[0][0], [A], [], []

        def subscription(st):
            s, m, kw = self.msg(st, "Subscribe", "esub", topic=t)
            s, f = self.only(self.recv(s, A, m), "Subscribed", ["subscription_id"])
            return s, [t, f["subscription_id"]], [f["subscription_id"]], []

        def other(st):
            st = st.copy()
            self.distinct(st, B, [A])
            outs = self.go(self.add_session(st, B, "eB"), "add_session")
            if len(outs) != 1:
                raise Incomplete("population: adding a session has several outcomes")
            return outs[0][0]

        def member(st):
            s, m, kw = self.msg(st, "Subscribe", "emem", topic=t)
            s, f = self.only(self.recv(s, B, m), "Subscribed", ["subscription_id"])
            return s, [B], [], ["subscription", ("session", {A: B})]

        return [("session", session), (None, other), ("subscription", subscription), ("member", member)]

    # ------------------------------------------------------------- observations
    def label(self, kind):
        self.n_obs += 1
        return f"{kind}{self.n_obs}"

    def publish(self, st, sid, topic, label, ack=None, **fix):
        """[(state, kind, Publication fields or exception, message fields)]"""
        s, m, kw = self.msg(st, "Publish", label, topic=topic, flags={("options", "acknowledge"): ack}, **fix)
        out = []
        for s2, k, v in self.ctx.method(s, self.obj, "receive_publish", sid, m):
            if k == "x":
                out.append((s2, k, v, kw))
                continue
            for s3, f in self.fields(s2, v, ["event", "recipients", "ack"]):
                f["event"] = self.eng.force(s3, f["event"])
                f["ack"] = self.eng.force(s3, f["ack"])
                out.append((s3, "v", f, kw))
        return out

    def post(self, st, topic):
        """Publications of a session that was not there before."""
        lab = self.label("obs-publish")
        s = st.copy()
        p = self.name(lab + ".publisher", INT, s)
        self.outsiders(s, [p])
        out = []
        for s1, k, v in self.add_session(s, p, lab):
            if k == "x":
                raise Incomplete("a new session is not accepted")
            out += [x[:3] for x in self.publish(s1, p, topic, lab)]
        return out

    def outsiders(self, st, syms):
        for x in syms:
            self.eng.outsiders.add(x)
            if self.frame is not None:
                self.frame.minted(st, x)

    def count(self, st, recipients, z):
        """[(state, how often z is among the recipients | None unknown)]"""
        e = self.eng
        out = []
        for tag, s, segs in e.segs_of(st.copy(), e.force(st, recipients)):
            if tag == "x":
                out.append((s, None))
                continue
            cur = [(s, 0)]
            for g in segs:
                nxt = []
                for s1, n in cur:
                    if g[0] == "e":
                        for s2, b in e.branch_bool(s1, e.mk_eq(s1, g[1], z)):
                            nxt.append((s2, n + b))
                        continue
                    _, src, ev, guard, val = g
                    if val == ev:
                        conds = [e.in_atom(s1, z, src)]
                        for x in guard[1:]:
                            a = e.simp(s1, subst(x[2], {ev: z}))
                            conds.append(a if x[3] == TRUE else e.mk_not(a))
                        atom = e.mk_and(conds)
                    else:
                        k = e.frame.solve(s1, src, val, z, ev, src, guard) if e.frame else None
                        if k is None:
                            nxt.append((s1, None))
                            continue
                        atom = e.mk_and([e.in_atom(s1, k, src)])
                    for s2, b in e.branch_bool(s1, atom):
                        nxt.append((s2, None if n is None else n + b))
                cur = nxt
            out += cur
        return out

    def gets(self, st, topic, z):
        """[(state, how often z receives a publication of topic | None | text, event)]"""
        out = []
        for s, k, f in self.post(st, topic):
            if k == "x":
                out.append((s, "publication rejected: " + self.ctx.exc(s, f)[:80], NONE))
                continue
            for s2, n in self.count(s, f["recipients"], z):
                out.append((s2, n, f["event"]))
        return out

    def live(self, st, s_):
        return self.accepted(self.remove_session(st, s_), "removal of a session")

    def addable(self, st, s_):
        return self.accepted(self.add_session(st, s_, self.label("obs-details")), "addition of a session")

    def has(self, st, t):
        out = []
        for s, k, v in self.ctx.method(st, self.obj, "has_subscription", t):
            if k == "x":
                out.append((s, None))
            else:
                out += self.eng.truth(s, v)
        return out

    def owns(self, st, s_, sid):
        """[(state, bool)]: would the session be allowed to unsubscribe."""
        s, m, kw = self.msg(st, "Unsubscribe", self.label("obs-unsubscribe"), subscription_id=sid)
        return self.accepted(self.recv(s, s_, m), "UNSUBSCRIBE")

    def subscribe(self, st, y, t, label):
        """[(state, subscription id | None, request id)]"""
        s, m, kw = self.msg(st, "Subscribe", label, topic=t)
        out = []
        for s2, k, v in self.recv(s, y, m):
            if k == "x":
                out.append((s2, None, v))
                continue
            for s3, c, to, msg in self.envelope(s2, v):
                if c != "Subscribed":
                    out.append((s3, None, c))
                    continue
                for s4, f in self.fields(s3, msg, ["subscription_id"]):
                    out.append((s4, f["subscription_id"], kw["request_id"]))
        return out


class World:
    """A pre-state: session A subscribed to topic t; z: any other session, subscribed (m) and present (zl) or not."""

    def __init__(self, b, st, label, A, t=None, sid=None, z=None, m=None, zl=None):
        self.b, self.st, self.label = b, st, label
        self.A, self.t, self.sid, self.z, self.m, self.zl = A, t, sid, z, m, zl


def starts(b):
    st = b.base.copy()
    A = b.name("A", INT, st)
    out = []
    for s, k, v in b.add_session(st, A, "A"):
        if k == "v":
            out.append((s, "new session"))
    if b.frame is not None:
        s = st.copy()
        for s2, ok in b.live(s, A):
            if ok:
                out.append((rewind(s, s2), "any session"))
    if not out:
        raise Incomplete("a session cannot be added")
    return A, out


def worlds(b, level=2):
    A, ss = starts(b)
    out = []
    for s, lab in ss:
        t = b.name("t", STR)
        if level == 1:
            out += with_z(b, World(b, s, lab, A, t))
            continue
        if b.frame is None:
            # named second subscriber instead of a population
            s0 = s.copy()
            B = b.name("z", INT, s0)
            b.distinct(s0, B, [A])
            for s1, k, v in b.add_session(s0, B, "z"):
                if k == "v":
                    for s2, sid, rq in b.subscribe(s1, B, t, "subz"):
                        if sid is not None:
                            out += joined(b, s2, lab + ", after z", A, t, B)
        out += joined(b, s, lab, A, t, None)
    return out


def joined(b, s, lab, A, t, z):
    out = []
    for s2, sid, rq in b.subscribe(s, A, t, "sub"):
        if sid is None:
            continue
        out += with_z(b, World(b, s2, lab + ", subscribed", A, t, sid, z))
    return out


def with_z(b, w):
    """The world refined by what is known of an arbitrary other session."""
    st = w.st.copy()
    z = w.z or b.name("z", INT, st)
    if w.z is None:
        b.distinct(st, z, [w.A])
    out = []
    for s, ok in b.live(st, z):
        s1 = rewind(st, s)
        for s2, n, ev in b.gets(s1, w.t, z):
            if n not in (0, 1):
                b.rep.need(False, "a publication is delivered at most once to each session", s2, f"{n}; path {path_of(s2)}")
                continue
            s3 = rewind(s1, s2)
            out.append(World(b, s3, f"{w.label}, z {'present' if ok else 'absent'}{', subscribed' if n else ''}", w.A, w.t, w.sid, z,
                             bool(n), ok))
    return out


def sessions_of(w):
    out = [(w.st.copy(), "A", w.A, True), (w.st.copy(), "z", w.z, w.zl)]
    s = w.st.copy()
    y = w.b.name("y", INT, s)
    w.b.distinct(s, y, [w.A, w.z])
    return out + [(s, "other", y, None)]


def operations(w, rejects=False):
    """[(label, state, run, effect)]; effect: A / z subscribed afterwards (absent: unchanged), live_A / live_z, must."""
    b = w.b
    ops = []
    for s, ln, y, up in sessions_of(w):
        ops.append((f"add_session({ln})", s, lambda st, y=y: b.add_session(st, y, "again"),
                    {"must": None if up is None else not up, "live_z": True} if ln == "z" else
                    {"must": None if up is None else not up}))
        ops.append((f"remove_session({ln})", s, lambda st, y=y: b.remove_session(st, y),
                    {"must": up, **({ln: False, "live_" + ln: False} if ln != "other" else {})}))
        topics = [(s, "same", w.t)]
        s2 = s.copy()
        t2 = b.name("t2", STR)
        b.distinct(s2, t2, [w.t])
        topics.append((s2, "other", t2))
        for s3, lt, t in topics:
            def sub(st, y=y, t=t):
                st, m, kw = b.msg(st, "Subscribe", "op", topic=t)
                return b.recv(st, y, m)
            eff = {"must": up}
            if lt == "same" and ln != "other":
                eff[ln] = True
            ops.append((f"SUBSCRIBE({ln}, {lt} topic)", s3, sub, eff))
            for ack in (None, True):
                def pub(st, y=y, t=t, ack=ack):
                    st, m, kw = b.msg(st, "Publish", "op", topic=t, flags={("options", "acknowledge"): ack})
                    return b.ctx.method(st, b.obj, "receive_publish", y, m)
                ops.append((f"PUBLISH({ln}, {lt} topic, acknowledge={ack})", s3, pub, {"must": up}))
        ids = [(s, "same", w.sid)] if w.sid is not None else []
        s4 = s.copy()
        r2 = b.name("sid2", INT, s4)
        if w.sid is not None:
            b.distinct(s4, r2, [w.sid])
        ids.append((s4, "other", r2))
        for s5, li, r in ids:
            def uns(st, y=y, r=r):
                st, m, kw = b.msg(st, "Unsubscribe", "op", subscription_id=r)
                return b.recv(st, y, m)
            eff = {"must": False if up is False else None}
            if li == "same" and ln != "other":
                eff = {"must": True if ln == "A" else w.m, ln: False}
            if li == "other" and w.sid is None and ln == "z":
                eff["z"] = "skip"
            ops.append((f"UNSUBSCRIBE({ln}, {li} subscription)", s5, uns, eff))
    return ops


def observe(w, rep, label, st, eff, which=("deliver", "owns", "live", "has")):
    b = w.b
    n = 0
    subs = {}
    for who, sess, before in (("A", w.A, w.sid is not None), ("z", w.z, w.m)):
        subs[who] = eff.get(who, before)
        if subs[who] == "skip":
            continue
        if who == "A" and w.sid is None:
            continue
        live = eff.get("live_" + who, True if who == "A" else w.zl)
        if "deliver" in which:
            for s, c, ev in b.gets(st, w.t, sess):
                n += 1
                want = 1 if subs[who] else 0
                rep.need(c == want, f"after {label}: a publication is delivered exactly to the subscribers, once", s,
                         f"delivered {c} times to {who}, expected {want}; path {path_of(s)}")
                if c == 1 and want:
                    cls = s.heap[ev[1]].cls.rsplit(".", 1)[-1] if ev[0] == "r" and s.heap[ev[1]].kind == "inst" else None
                    rep.need(cls == "Event", f"after {label}: recipients get an event", s, f"{cls}")
                    if cls == "Event" and w.sid is not None:
                        for s2, f in b.fields(s, ev, ["subscription_id"]):
                            rep.need(b.eq(s2, f["subscription_id"], w.sid),
                                     f"after {label}: the event names the subscription the subscriber was told", s2,
                                     f"{show(f['subscription_id'])}, expected {show(w.sid)}; path {path_of(s2)}")
        if "owns" in which and w.sid is not None:
            for s, ok in b.owns(st, sess, w.sid):
                n += 1
                rep.need(ok == bool(subs[who]), f"after {label}: exactly a subscriber can unsubscribe", s,
                         f"{who}: {'accepted' if ok else 'rejected'}, expected {bool(subs[who])}; path {path_of(s)}")
        if "live" in which and live is not None:
            for s, ok in b.live(st, sess):
                n += 1
                rep.need(ok == live, f"after {label}: a session can be removed exactly while it is present", s,
                         f"{who}: {'accepted' if ok else 'rejected'}, expected {live}; path {path_of(s)}")
            for s, ok in b.addable(st, sess):
                n += 1
                rep.need(ok != live, f"after {label}: a session can be added exactly while it is absent", s,
                         f"{who}: {'accepted' if ok else 'rejected'}; path {path_of(s)}")
    if "has" in which and (subs["A"] is True and w.sid is not None or subs["z"] is True):
        for s, ok in b.has(st, w.t):
            n += 1
            rep.need(ok is True, f"after {label}: a topic with a subscriber has a subscription", s, f"{ok}; path {path_of(s)}")
    rep.op(f"{label}; observations", n)


def transitions(b, rep, level, which, only_rejected=False, select=None):
    for w in worlds(b, level):
        for label, st, run, eff in operations(w):
            if select is not None and not select(label):
                continue
            outs = run(st)
            rep.op(f"[{w.label}] {label}", len(outs))
            for s, k, v in outs:
                if k == "x":
                    rep.need(eff.get("must") is not True, f"{label}: accepted", s, f"raises {b.ctx.exc(s, v)[:120]}; path {path_of(s)}")
                    if rep.pid == "B05":
                        rep.need(b.ctx.is_exc(s, v, "ValueError"), f"{label}: a rejection is a ValueError", s,
                                 b.ctx.exc(s, v)[:120] + f"; path {path_of(s)}")
                    observe(w, rep, label + " rejected", s, {}, which)
                elif not only_rejected:
                    rep.need(eff.get("must") is not False, f"{label}: rejected", s, f"accepted; path {path_of(s)}")
                    observe(w, rep, label, s, eff, which)


def publications(b, w):
    """(label, state, publisher, subscribed topic?, topic) of every kind of publication in a world."""
    for s, ln, y, up in sessions_of(w):
        if up is False:
            continue
        if up is None:
            # any other session that is present
            ss = [rewind(s, s2) for s2, ok in b.live(s, y) if ok]
        else:
            ss = [s]
        t2 = b.name("t2", STR)
        for s1 in ss:
            yield ln, s1, y, True, w.t
            s2 = s1.copy()
            b.distinct(s2, t2, [w.t])
            yield ln + " (other topic)", s2, y, False, t2


def b01(rep, tier):
    rep.rule("after every operation a publication is delivered exactly once to each session subscribed to its topic and to nobody "
             "else, as an EVENT with the subscription's id and the publication's arguments")
    b = Broker(rep)
    transitions(b, rep, 2, ("deliver",))
    transitions(b, rep, 1, ("deliver",))
    for w in worlds(b, 2):
        for ln, st, y, mine, t in publications(b, w):
            for ack in (None, True):
                for s, k, f, kw in b.publish(st, y, t, "pub", ack):
                    rep.op(f"[{w.label}] PUBLISH by {ln}", 1)
                    if k == "x":
                        rep.fail("PUBLISH of a present session is accepted", loc_of(s), b.ctx.exc(s, f)[:160])
                        continue
                    for who, sess, sub in (("A", w.A, mine), ("z", w.z, mine and w.m)):
                        for s2, n in b.count(s, f["recipients"], sess):
                            if not mine and n == 0:
                                rep.ok("a publication of another topic is not delivered because of this subscription", loc_of(s2))
                                continue
                            if not mine:
                                # an own subscription of the other topic: told apart by the subscription id
                                for s3, e in b.fields(s2, f["event"], ["subscription_id"]):
                                    rep.need(n == 1 and s3.keq(e["subscription_id"], w.sid) is False,
                                             "an event of another topic names another subscription", s3, f"{n}; {path_of(s3)}")
                                continue
                            rep.need(n == int(sub), "a publication reaches exactly the subscribers, whoever publishes", s2,
                                     f"{n} times to {who}, expected {int(sub)}; path {path_of(s2)}")
                    if not mine:
                        continue
                    ev = f["event"]
                    cls = s.heap[ev[1]].cls.rsplit(".", 1)[-1] if ev[0] == "r" and s.heap[ev[1]].kind == "inst" else None
                    rep.need(cls == "Event", "recipients get an EVENT", s, str(cls))
                    if cls != "Event":
                        continue
                    want = {"subscription_id": w.sid, "args": kw["args"], "kwargs": kw["kwargs"]}
                    for s2, e in b.fields(s, ev, list(want)):
                        for n_, x in want.items():
                            rep.need(b.eq(s2, e[n_], x), f"EVENT.{n_}", s2,
                                     f"{show(b.ctx.deep(s2, e[n_]))[:120]}, expected {show(x)}; path {path_of(s2)}")


def b02(rep, tier):
    rep.rule("PUBLISHED goes to the publisher, with the request id of its PUBLISH and the publication id of the EVENT, exactly when "
             "the PUBLISH asked for it; the publication id is new for each publication")
    b = Broker(rep)
    for level in (1, 2):
        for w in worlds(b, level):
            for ln, st, y, mine, t in publications(b, w):
                for ack in (None, False, True):
                    for s, k, f, kw in b.publish(st, y, t, "pub", ack):
                        rep.op(f"[{w.label}] PUBLISH by {ln}, acknowledge={ack}", 1)
                        if k == "x":
                            rep.fail("PUBLISH of a present session is accepted", loc_of(s), b.ctx.exc(s, f)[:160])
                            continue
                        for s1, has in b.eng.branch_bool(s, b.eng.mk_not(b.eng.mk_eq(s, f["ack"], NONE))):
                            rep.need(has is bool(ack), "PUBLISHED is sent exactly when asked for", s1,
                                     f"{'sent' if has else 'not sent'} with acknowledge={ack}; path {path_of(s1)}")
                            if not (has and ack):
                                continue
                            for s2, c, to, msg in b.envelope(s1, f["ack"]):
                                rep.need(c == "Published" and b.eq(s2, to, y), "PUBLISHED goes to the publisher", s2,
                                         f"{c} to {show(to) if to else to}; path {path_of(s2)}")
                                if c != "Published":
                                    continue
                                for s3, m in b.fields(s2, msg, ["request_id", "publication_id"]):
                                    rep.need(b.eq(s3, m["request_id"], kw["request_id"]), "PUBLISHED.request_id is that of the PUBLISH",
                                             s3, f"{show(m['request_id'])}; path {path_of(s3)}")
                                    pid = m["publication_id"]
                                    rep.need(pid in b.fresh_ids, "publication ids are new", s3, show(pid))
                                    lo, hi = s3.interval(pid)
                                    rep.need(1 <= lo and hi <= MAX_ID, "publication id is a WAMP id", s3, f"{lo}..{hi}")
                                    ev = f["event"]
                                    if ev[0] == "r":
                                        for s4, e in b.fields(s3, ev, ["publication_id"]):
                                            rep.need(b.eq(s4, e["publication_id"], pid), "EVENT and PUBLISHED name the same publication",
                                                     s4, f"{show(e['publication_id'])} / {show(pid)}; path {path_of(s4)}")
                                    # the next publication has another id
                                    for s5, k5, f5, kw5 in b.publish(s3, y, t, "pub2", True):
                                        if k5 == "x":
                                            continue
                                        for s6, c6, to6, m6 in b.envelope(s5, f5["ack"]):
                                            if c6 != "Published":
                                                continue
                                            for s7, g in b.fields(s6, m6, ["publication_id"]):
                                                rep.need(s7.keq(g["publication_id"], pid) is False, "publication ids differ", s7,
                                                         f"{show(g['publication_id'])} / {show(pid)}")


def answers(b, rep):
    """SUBSCRIBED and UNSUBSCRIBED go back to the subscriber under its request id."""
    for w in worlds(b, 2):
        for s, ln, y, up in sessions_of(w):
            for name, kws, cls in (("Subscribe", {"topic": w.t}, "Subscribed"), ("Subscribe", {}, "Subscribed"),
                                   ("Unsubscribe", {"subscription_id": w.sid}, "Unsubscribed"), ("Unsubscribe", {}, "Unsubscribed")):
                s1, m, kw = b.msg(s, name, "ans", **kws)
                for s2, k, v in b.recv(s1, y, m):
                    rep.op(f"[{w.label}] {name} of {ln}", 1)
                    if k == "x":
                        continue
                    for s3, c, to, msg in b.envelope(s2, v):
                        rep.need(c == cls and b.eq(s3, to, y), f"{name.upper()} is answered with {cls.upper()} to its sender", s3,
                                 f"{c} to {show(to) if to else to}; path {path_of(s3)}")
                        if c == cls:
                            for s4, f in b.fields(s3, msg, ["request_id"]):
                                rep.need(b.eq(s4, f["request_id"], kw["request_id"]), f"{cls.upper()}.request_id", s4,
                                         f"{show(f['request_id'])}; path {path_of(s4)}")


def b03(rep, tier):
    rep.rule("after every operation the answers about sessions and subscriptions agree with one model: leaving (UNSUBSCRIBE or "
             "session removal) removes exactly that session's subscription, and the last one to leave frees the topic")
    b = Broker(rep)
    transitions(b, rep, 2, ("owns", "live", "has"))
    transitions(b, rep, 1, ("live", "has"))
    answers(b, rep)
    # two subscribers and two topics on a broker without other subscriptions: the last one to leave ends the subscription
    leave = {"UNSUBSCRIBE": None, "remove_session": None}
    A, B, t, u = b.name("cA"), b.name("cB"), b.name("ct", STR), b.name("cu", STR)
    st = b.fresh.copy()
    st.iv[A] = st.iv[B] = (1, MAX_ID)
    b.distinct(st, B, [A])
    b.distinct(st, u, [t])
    sts = [st]
    for y in (A, B):
        sts = [s2 for s in sts for s2, v in b.go(b.add_session(s, y, "c"), "add")]
    cur = [(s, ()) for s in sts]
    for y, topic in ((A, t), (A, u), (B, t)):
        cur = [(s2, ids + (sid,)) for s, ids in cur for s2, sid, rq in b.subscribe(s, y, topic, "csub") if sid is not None]
    if not cur:
        raise Incomplete("no subscription can be made")
    for s, (at, au, bt) in cur:
        rep.need(b.eq(s, at, bt), "subscribers of one topic share its subscription", s, f"{show(at)} / {show(bt)}")
        rep.need(s.keq(at, au) is False, "subscriptions of different topics differ", s, f"{show(at)} / {show(au)}")

        def left(st, who, how):
            if how == "remove_session":
                return [(s2, k, v) for s2, k, v in b.remove_session(st, who)]
            s2, m, kw = b.msg(st, "Unsubscribe", "cuns", subscription_id=at)
            return b.recv(s2, who, m)

        for first, second in ((A, B), (B, A)):
            for how1 in leave:
                for s1, k1, v1 in left(s, first, how1):
                    rep.op(f"two subscribers; {how1}", 1)
                    rep.need(k1 == "v", f"{how1} of one of two subscribers", s1, b.ctx.exc(s1, v1)[:160] if k1 == "x" else "")
                    if k1 == "x":
                        continue
                    check_topic(b, rep, s1, t, {second: 1, first: 0}, f"{how1} of one of two subscribers")
                    check_topic(b, rep, s1, u, {A: int(not (first == A and how1 == "remove_session"))},
                                f"{how1} of one of two subscribers (other topic)")
                    for how2 in leave:
                        for s2, k2, v2 in left(s1, second, how2):
                            rep.op(f"two subscribers; {how1}; {how2}", 1)
                            rep.need(k2 == "v", f"{how2} of the last subscriber", s2, b.ctx.exc(s2, v2)[:160] if k2 == "x" else "")
                            if k2 == "x":
                                continue
                            check_topic(b, rep, s2, t, {second: 0, first: 0}, f"{how2} of the last subscriber")
                            gone = first == A and how1 == "remove_session" or second == A and how2 == "remove_session"
                            check_topic(b, rep, s2, u, {A: int(not gone)}, f"{how2} of the last subscriber (other topic)")
                            # a session that left can subscribe again
                            for y, how in ((first, how1), (second, how2)):
                                s3s = [s2] if how == "UNSUBSCRIBE" else [x for x, v in b.go(b.add_session(s2, y, "cback"), "add")]
                                for s3 in s3s:
                                    for s4, sid, rq in b.subscribe(s3, y, t, "cagain"):
                                        rep.need(sid is not None, "a topic can be subscribed again", s4, str(rq)[:120])
                                        if sid is not None:
                                            check_topic(b, rep, s4, t, {y: 1}, "subscribing again", sid)


def check_topic(b, rep, st, t, want, label, sid=None):
    for s, ok in b.has(st, t):
        rep.need(ok is any(want.values()), f"{label}: a topic has a subscription exactly while somebody is subscribed", s,
                 f"{ok}; path {path_of(s)}")
    for who, n in want.items():
        for s, c, ev in b.gets(st, t, who):
            rep.need(c == n, f"{label}: delivered exactly to those still subscribed", s, f"{c}, expected {n}; path {path_of(s)}")
            if n and sid is not None and ev[0] == "r":
                for s2, f in b.fields(s, ev, ["subscription_id"]):
                    rep.need(b.eq(s2, f["subscription_id"], sid), f"{label}: the event names the new subscription", s2,
                             f"{show(f['subscription_id'])}")


def b04(rep, tier):
    rep.rule("subscribing again to the same topic answers with the same subscription id and changes nothing: events still arrive "
             "once, and one UNSUBSCRIBE ends it")
    b = Broker(rep)
    for w in worlds(b, 2):
        for s, sid, rq in b.subscribe(w.st, w.A, w.t, "again"):
            rep.op(f"[{w.label}] SUBSCRIBE again", 1)
            rep.need(sid is not None, "SUBSCRIBE again is accepted", s, str(rq)[:120])
            if sid is None:
                continue
            rep.need(b.eq(s, sid, w.sid), "SUBSCRIBE again names the same subscription", s, f"{show(sid)} / {show(w.sid)}; {path_of(s)}")
            observe(w, rep, "SUBSCRIBE again", s, {})
            s1, m, kw = b.msg(s, "Unsubscribe", "once", subscription_id=w.sid)
            for s2, k, v in b.recv(s1, w.A, m):
                rep.need(k == "v", "one UNSUBSCRIBE ends it", s2, b.ctx.exc(s2, v)[:120] if k == "x" else "")
                if k == "v":
                    observe(w, rep, "SUBSCRIBE again, UNSUBSCRIBE", s2, {"A": False})
        if not w.zl:
            continue
        for s, sid, rq in b.subscribe(w.st, w.z, w.t, "joins"):
            rep.op(f"[{w.label}] SUBSCRIBE of another session", 1)
            rep.need(sid is not None and b.eq(s, sid, w.sid), "subscribers of one topic share its subscription", s,
                     f"{show(sid) if sid else sid} / {show(w.sid)}; {path_of(s)}")
        t2 = b.name("t2", STR)
        s0 = b.distinct(w.st.copy(), t2, [w.t])
        for s, sid, rq in b.subscribe(s0, w.A, t2, "more"):
            rep.op(f"[{w.label}] SUBSCRIBE of another topic", 1)
            rep.need(sid is not None and s.keq(sid, w.sid) is False, "subscriptions of different topics differ", s,
                     f"{show(sid) if sid else sid} / {show(w.sid)}; {path_of(s)}")


def b05(rep, tier):
    rep.rule("sessions that are not present cannot subscribe, unsubscribe or publish, only own subscriptions can be left, other "
             "message types are refused; every refusal is a ValueError and changes nothing")
    b = Broker(rep)
    transitions(b, rep, 2, ("deliver", "owns", "live", "has"), only_rejected=True)
    transitions(b, rep, 1, ("live",), only_rejected=True)
    transitions(b, rep, 2, ("owns", "live"))  # refusals after each kind of operation
    for w in worlds(b, 2):
        s = w.st.copy()
        y = b.name("stranger")
        b.outsiders(s, [y])
        gone = [(s2, "removed", w.A) for s2, k, v in b.remove_session(w.st, w.A) if k == "v"]
        for st, ln, who in [(s, "never added", y)] + gone:
            outs = []
            for name, kws in (("Subscribe", {}), ("Subscribe", {"topic": w.t}), ("Unsubscribe", {}),
                              ("Unsubscribe", {"subscription_id": w.sid})):
                s1, m, kw = b.msg(st, name, "str", **kws)
                outs += [(name, o) for o in b.recv(s1, who, m)]
            for t in (w.t, b.name("t9", STR)):
                outs += [("Publish", x[:3]) for x in b.publish(st, who, t, "str", True)]
            outs += [("remove_session", o) for o in b.remove_session(st, who)]
            for name, (s2, k, v) in outs:
                rep.op(f"[{w.label}] {name} of a session {ln}", 1)
                rep.need(k == "x" and b.ctx.is_exc(s2, v, "ValueError"), f"{name} of a session {ln} raises ValueError", s2,
                         "accepted" if k == "v" else b.ctx.exc(s2, v)[:120])
                if ln == "never added":
                    observe(w, rep, f"{name} of a session {ln}", s2, {}, ("deliver", "owns", "live", "has"))
    for w in worlds(b, 2):
        for name in ALL:
            if name in ("Subscribe", "Unsubscribe", "Publish"):
                continue
            for s, ln, y, up in sessions_of(w)[:2]:
                s1, m, kw = b.msg(s, name, "odd")
                for s2, k, v in b.recv(s1, y, m):
                    rep.op(f"[{w.label}] {name} from {ln}", 1)
                    rep.need(k == "x" and b.ctx.is_exc(s2, v, "ValueError"), f"{name} is rejected with ValueError", s2,
                             "accepted" if k == "v" else b.ctx.exc(s2, v)[:120])
                    observe(w, rep, f"a rejected {name}", s2, {}, ("deliver", "owns"))


RULES = {"B01": b01, "B02": b02, "B03": b03, "B04": b04, "B05": b05}
