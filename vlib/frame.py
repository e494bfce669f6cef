"""Arbitrary populations: the inductive pre-states of the router rules.

The analysed object's own operations are run abstractly once on an empty object.  The entries each operation adds to its
containers form the footprint of one kind of entity (a session, a registration, a pending call ...): under which keys, in
which containers, holding what.  A population is then an arbitrary family of instances of those footprints: every container
gets a symbolic base, and membership and contents of the base are related by the footprints only -- an entry of a secondary
container exists iff the entity it belongs to does.  Nothing here depends on the names of fields or classes.
"""

from .common import generalise
from .engine import Incomplete
from .state import ANY, DictO, InstO, ListO, SetO, ts
from .terms import C, FALSE, NONE, S, T, TRUE, contains, cv, is_c, show, subst

INT = ts("int")


def walk(st, root, skip):
    """{address: description} of everything reachable; an object reachable twice lives at its least nested address."""
    out, seen, todo = {}, {}, [((0, 0, ()), root, ())]
    while todo:
        todo.sort(key=lambda x: x[0], reverse=True)
        _, v, addr = todo.pop()

        def push(x, step):
            a = addr + (step,)
            todo.append(((sum(t == "item" for t, _ in a), len(a), a), x, a))

        if v[0] != "r" or v[1] not in st.heap:
            out[addr] = ("val", v)
            continue
        o = st.heap[v[1]]
        if v[1] in seen:
            out[addr] = ("alias", seen[v[1]])
        elif o.kind == "inst":
            if o.cls in skip:
                continue
            if o.base is not None:
                out[addr] = ("val", o.base)
                continue
            seen[v[1]] = addr
            out[addr] = ("inst", o.cls)
            for f, x in sorted(o.fields.items()):
                push(x, ("attr", f))
        elif o.kind in ("dict", "set"):
            seen[v[1]] = addr
            if o.base is not None or any(e[3] is not None for e in o.ov):
                raise Incomplete("population: container of unknown contents")
            out[addr] = (o.kind,) + ((o.default,) if o.kind == "dict" else ())
            for e in o.ov:
                if e[1] != ("del",):
                    push(TRUE if o.kind == "set" else e[1], ("item", e[0]))
        elif o.kind == "list":
            seen[v[1]] = addr
            if o.base is not None or any(g[0] != "e" for g in o.segs):
                raise Incomplete("population: list of unknown contents")
            out[addr] = ("list", tuple(g[1] for g in o.segs))
        else:
            raise Incomplete(f"population: {o.kind} object")
    return out


class Kind:
    def __init__(self, name, params, ids, refs):
        self.name, self.params, self.ids, self.refs = name, params, ids, refs
        self.roots = []  # [(container address, key, full address)]
        self.values = {}


class Frame:
    def __init__(self, router):
        self.r = router
        self.eng = router.eng
        self.kinds = []
        self.depth = 0
        self.skip = {router.ctx.need_attr(router.fresh, "idgen.SessionScopeIDGenerator")[1]}
        self.efn = {}
        self.fresh = set()
        self.params = {}  # example symbol -> parameter name
        self.owner = {}  # example symbol -> kind it was introduced by
        self.derive()
        self.install()

    # ------------------------------------------------------------- derivation
    def snap(self, st):
        return walk(st, self.r.obj, self.skip)

    def derive(self):
        st = self.r.fresh
        before = self.snap(st)
        self.initial = before
        for name, run in self.r.examples():
            if name is None:
                # another instance of a known kind, only there to be referred to
                st = run(st)
                before = self.snap(st)
                continue
            st, intro, ids, refs = run(st)
            refs = [(n, None) if isinstance(n, str) else n for n in refs]
            after = self.snap(st)
            if set(before) - set(after):
                raise Incomplete(f"population: {name} removes entries")
            k = Kind(name, [s for s in intro], ids, refs)
            new = {a: v for a, v in after.items() if a not in before}
            for a, v in before.items():
                if after[a] != v and not (len(a) and a[-1][0] == "attr" and v[0] == "val"):
                    raise Incomplete(f"population: {name} changes {a}")
            for a in sorted(new, key=len):
                if a[:-1] in before:
                    if a[-1][0] != "item":
                        raise Incomplete(f"population: {name} adds an attribute")
                    k.roots.append((a[:-1], a[-1][1], a))
            k.values = new
            for s in intro:
                self.owner.setdefault(s, k)
            if not k.roots:
                raise Incomplete(f"population: {name} leaves no trace")
            self.kinds.append(k)
            before = after
        self.split()
        self.choose()

    def syms(self, t):
        out = []

        def go(x):
            if isinstance(x, tuple):
                if x and x[0] == "s" and x in self.owner:
                    if x not in out:
                        out.append(x)
                    return
                for y in x[1:] if x else ():
                    go(y)
        go(t)
        return out

    def addr_syms(self, a):
        out = []
        for t, x in a:
            if t == "item":
                out += [s for s in self.syms(x) if s not in out]
        return out

    def split(self):
        """When a later kind fills a container inside an earlier kind's entity, the earlier footprint holds an instance of it."""
        self.inner = {}
        for k in self.kinds:
            for c, key, a in k.roots:
                for e in self.kinds:
                    if e is k:
                        break
                    if c in e.values:
                        self.inner[self.pattern(c)] = (k, e)
        for e in self.kinds:
            drop = set()
            for a in e.values:
                for i in range(1, len(a)):
                    if self.pattern(a[:i]) in self.inner and self.inner[self.pattern(a[:i])][1] is e and a[:i] in e.values:
                        drop.add(a)
            roots = []
            for c, key, a in e.roots:
                # a root entry in a container that belongs to a later kind is part of the inner instance
                k2 = [k for k in self.kinds if k is not e and any(self.pattern(c2) == self.pattern(c) for c2, _, _ in k.roots)]
                later = [k for k in k2 if self.kinds.index(k) > self.kinds.index(e) and any(
                    i[0] is k and i[1] is e for i in self.inner.values())]
                if later:
                    drop |= {b for b in e.values if b[:len(a)] == a}
                    continue
                if k2:
                    raise Incomplete("population: two kinds of entity in one container")
                roots.append((c, key, a))
            e.roots = roots
            e.values = {a: v for a, v in e.values.items() if a not in drop}

    def pattern(self, a):
        return tuple((t, x) if t == "attr" else (t, "*") for t, x in a)

    def choose(self):
        """Primary root of each kind: the least nested one with the smallest key that holds the entity itself."""
        self.by_container = {}
        for k in self.kinds:
            def rank(r):
                c, key, a = r
                v = k.values[a]
                ks = self.syms(key)
                return (v[0] == "alias", v[0] != "inst", sum(t == "item" for t, _ in c) if not any(
                    self.pattern(c) == p and i[0] is k for p, i in self.inner.items()) else -1, len(ks), len(a), a)
            rs = sorted(k.roots, key=rank)
            for c, key, a in rs:
                if key[0] == "s" and key in self.owner:
                    k.primary = (c, key, a)
                    break
            else:
                raise Incomplete(f"population: no primary key of {k.name}")
            k.pk = self.addr_syms(k.primary[2])
            for c, key, a in k.roots:
                p = self.pattern(c)
                if p in self.by_container:
                    raise Incomplete("population: two kinds of entity in one container")
                self.by_container[p] = (k, (c, key, a))

    # ------------------------------------------------------------- symbolic population
    def install(self):
        st = self.r.fresh.copy()
        generalise(self.r.ctx, st, self.r.obj, "counter", keep=self.container_fields())
        self.bases = {}
        for a, v in self.initial.items():
            if v[0] in ("dict", "set") and self.pattern(a) in self.by_container:
                ref = self.resolve(st, a)
                b = S("pop:" + "/".join(str(x) for _, x in a))
                self.bases[b] = a
                self.eng.symtypes[b] = ts(v[0])
                o = st.heap[ref[1]]
                st.heap[ref[1]] = DictO(b, (), ANY, ANY, o.default) if v[0] == "dict" else SetO(b, (), ANY)
        self.state = st
        self.eng.frame = self
        self.eng.axiom_item = self.item

    def container_fields(self):
        return {a[0][1] for a in self.initial if len(a) >= 1 and a[0][0] == "attr" and self.initial[a][0] != "val"}

    def resolve(self, st, a):
        v = self.r.obj
        for t, x in a:
            o = st.heap[v[1]]
            if t == "attr":
                v = o.fields[x]
            else:
                v = next(e[1] for e in o.ov if e[0] == x)
        return v

    def describe(self):
        return "; ".join(f"{k.name}: {len(k.roots)} entries" for k in self.kinds)

    # base term of a container -> (pattern, prefix keys)
    def locate(self, base):
        if base in self.bases:
            return self.pattern(self.bases[base]), ()
        if base[0] == "t" and base[1] == "item" and len(base) == 4:
            r = self.locate(base[2])
            return None if r is None else (r[0] + (("item", "*"),), r[1] + (base[3],))
        if base[0] == "t" and base[1] == "attr" and len(base) == 4:
            r = self.locate(base[2])
            return None if r is None else (r[0] + (("attr", cv(base[3])),), r[1])
        return None

    def base_of(self, addr, m):
        """Base term of the container at this example address under a substitution of the parameters."""
        for i in range(len(addr), -1, -1):
            b = next((b for b, a in self.bases.items() if a == addr[:i]), None)
            if b is not None:
                break
        else:
            return None
        t = b
        for kd, x in addr[i:]:
            t = T("attr", t, C(x)) if kd == "attr" else T("item", t, self.put(x, m))
        return t

    def put(self, x, m):
        if x in m:
            return m[x]
        if isinstance(x, tuple):
            return tuple(self.put(y, m) if isinstance(y, tuple) else y for y in x)
        return x

    def param(self, k, s, m):
        """Term of parameter s of an entity of kind k whose primary key is m (example symbol -> term)."""
        if s in m:
            return m[s]
        own = self.owner.get(s)
        if own is not None and own is not k and own in [self.kind(n) for n, _ in k.refs] and all(x in m for x in own.pk):
            return self.param(own, s, {x: m[x] for x in own.pk})
        name = f"{k.name}.{s[1]}"
        if name not in self.efn:
            self.efn[name] = (k, s)
        return T("efn", name, *(m[x] for x in k.pk))

    def kind(self, name):
        return next(k for k in self.kinds if k.name == name)

    def full(self, k, m):
        """Substitution of every parameter appearing in the footprint of k."""
        out = dict(m)
        for c, key, a in k.roots:
            for s in self.addr_syms(a):
                out[s] = self.param(k, s, m)
        for a, v in k.values.items():
            for s in self.addr_syms(a) + self.syms(v[1] if len(v) > 1 and isinstance(v[1], tuple) else ()):
                if s not in out:
                    out[s] = self.param(k, s, m)
        return out

    # ------------------------------------------------------------- membership
    def isfresh(self, st, t):
        if t in self.fresh:
            return True
        if t[0] == "tp":
            return any(self.isfresh(st, x) for x in t[1:])
        r = self.eng.find(st, t)
        return r in self.fresh or any(f in self.fresh and self.eng.find(st, f) == r for f in st.rep)

    def minted(self, st, s):
        self.fresh.add(s)

    def in_atom(self, st, key, base):
        loc = self.locate(base)
        if loc is None:
            return None
        e = self.by_container.get(loc[0])
        if e is None:
            return FALSE if self.known(loc[0]) else None
        k, root = e
        if self.isfresh(st, key) or any(self.isfresh(st, x) for x in loc[1]):
            return FALSE
        key = self.eng.cn(st, key)
        m = self.invert(st, k, root, loc[1], key)
        if m is None:
            return FALSE
        pm, conds = m
        return self.eng.mk_and([self.exists(st, k, pm)] + conds)

    def known(self, pat):
        """Is the container part of an entity's own structure (cloned, so never symbolic)?"""
        for k in self.kinds:
            for a, v in k.values.items():
                if self.pattern(a) == pat and v[0] in ("dict", "set"):
                    return True
        return False

    def exists(self, st, k, pm):
        c, key, a = k.primary
        pm = {x: self.eng.cn(st, v) for x, v in pm.items()}
        base = self.base_of(c, self.full_prefix(k, c, pm))
        atom = T("in", self.eng.cn(st, pm[key]), base)
        if any(self.isfresh(st, x) for x in pm.values()):
            return FALSE
        parents = []
        for s in self.addr_syms(c):
            o = self.owner[s]
            if o is not k and o.pk == [s]:
                parents.append(self.exists(st, o, {s: pm[s]}))
        if self.depth < 3:  # a refinement only: deeper chains of references are left undecided
            self.depth += 1
            try:
                for n, via in k.refs:
                    o = self.kind(n)
                    if st.decide(self.exists(st, o, {x: self.param(k, via[x] if via else x, pm) for x in o.pk})) is False:
                        return FALSE
            finally:
                self.depth -= 1
        return self.eng.mk_and(parents + [atom])

    def full_prefix(self, k, c, pm):
        return {s: pm[s] for s in self.addr_syms(c)}

    def invert(self, st, k, root, prefix, key):
        """({pk symbol: term}, remaining conditions) of the entity of kind k whose entry in root has these keys; None: none."""
        c, rkey, a = root
        m = {}
        pk_items = [x for t, x in c if t == "item"]
        for x, v in zip(pk_items, prefix):
            if x[0] != "s":
                raise Incomplete("population: composite prefix")
            m[x] = v
        comps = [(rkey, key)]
        if rkey[0] == "tp":
            if key[0] != "tp" or len(key) != len(rkey):
                return None
            comps = list(zip(rkey[1:], key[1:]))
        for x, v in comps:
            if x in self.owner:
                m[x] = self.eng.cn(st, v)
            elif is_c(x):
                if st.keq(x, v) is False:
                    return None
        if all(x in m for x in k.pk):
            pm = {x: m[x] for x in k.pk}
        else:
            # the missing part of the primary key is a function of an id among the keys, or of all of them
            pm = {x: m[x] for x in k.pk if x in m}
            miss = [x for x in k.pk if x not in m]
            for x in miss:
                own = self.owner[x]
                ids = [s for s in m if s in own.ids or s in k.ids]
                det = ids[:1] if ids else [s for s in m]
                if not ids and k.values[a][0] in ("dict", "set") and any(
                        b[:len(a)] == a and b[-1][0] == "item" and self.addr_syms(b[len(a):]) for b in k.values):
                    # an entry that several entities share (created with the first, perhaps removed with the last)
                    st.note("imprecise", "an entry shared by several entities", st.loc)
                pm[x] = self.inverse(st, own if own.pk == [x] else k, x, det, m)
        conds = []
        fm = {s: self.param(k, s, pm) for s in m}
        for s, v in m.items():
            if s in pm:
                continue
            t = fm[s]
            if self.eng.cn(st, t) == self.eng.cn(st, v):
                continue
            conds.append(self.eng.mk_eq(st, self.eng.cn(st, t), v))
        return pm, conds

    def primary_of(self, st, base, key):
        """(kind, primary key terms) of the entity that has this key in this container of the population."""
        loc = self.locate(base)
        e = self.by_container.get(loc[0]) if loc else None
        if e is None:
            return None
        m = self.invert(st, e[0], e[1], loc[1], self.eng.cn(st, key))
        return None if m is None else (e[0], tuple(m[0][x] for x in e[0].pk))

    def same_key(self, st, base, a, b):
        """Equality of two keys of the population's part of a container: that of the entities they belong to."""
        if st.decide(self.eng.in_atom(st, a, base)) is not True or st.decide(self.eng.in_atom(st, b, base)) is not True:
            return None
        x, y = self.primary_of(st, base, a), self.primary_of(st, base, b)
        if x is None or y is None:
            return None
        return self.eng.mk_and([self.eng.mk_eq(st, u, v) for u, v in zip(x[1], y[1])])

    def solve(self, st, base, pat, key, evar, src, guard):
        """The only value of evar for which the key pattern is this key (None: unknown)."""
        if self.locate(base) is None:
            return None
        s2 = st.copy()
        if not self.eng.assume_elem(s2, evar, src, guard):
            return None
        x, y = self.primary_of(s2, base, pat), self.primary_of(st, base, key)
        if x is None or y is None:
            return None
        for u, v in zip(x[1], y[1]):
            if u == evar:
                return v
            if u[0] == "t" and u[1] == "efn" and "~" in u[2] and len(u) == 4 and u[3] == evar:
                kn, rest = u[2].split("~", 1)
                k = self.kind(kn)
                det = rest.split("<", 1)[1]
                if len(k.pk) == 1 and "," not in det and ("s", det) in k.ids:
                    return self.eng.cn(st, self.param(k, ("s", det), {k.pk[0]: v}))
        return None

    def inverse(self, st, k, x, det, m):
        """The x of the entity whose parameters det have the values m: simplified when they are that entity's parameters."""
        cands = []
        for s in det:
            v = m[s]
            names = {f"{kk.name}.{s[1]}" for kk in self.kinds}
            ts_ = [v] + [y for y, z in st.rep.items() if self.eng.find(st, y) == self.eng.find(st, v)]
            ts_ += [z for y, z in st.rep.items() if y == v]
            cand = [t[3 + k.pk.index(x)] for t in ts_ if t[0] == "t" and t[1] == "efn" and t[2] == f"{k.name}.{s[1]}" and x in k.pk]
            cands.append(cand)
        if cands and all(cands):
            for p in cands[0]:
                if all(any(self.eng.cn(st, q) == self.eng.cn(st, p) for q in cs) for cs in cands[1:]):
                    return self.eng.cn(st, p)
        name = f"{k.name}~{x[1]}<" + ",".join(s[1] for s in det)
        if name not in self.efn:
            self.efn[name] = (k, x)
        return T("efn", name, *(self.eng.cn(st, m[s]) for s in det))

    def on_in(self, st, atom):
        """Consequences of an entity's existence (in place): its references, and the keys it was looked up with."""
        loc = self.locate(atom[3])
        if loc is None:
            return True
        e = self.by_container.get(loc[0])
        if e is None or e[1] is not e[0].primary and e[1] != e[0].primary:
            return True
        k, (c, key, a) = e
        pm = {s: v for s, v in zip([x for t, x in c if t == "item"], loc[1])}
        pm[key] = atom[2]
        for s, v in pm.items():
            # looked up by an inverse: the determining parameters have the looked-up values
            if v[0] == "t" and v[1] == "efn" and "~" in v[2]:
                kn, rest = v[2].split("~", 1)
                own = self.kind(kn)
                det = rest.split("<", 1)[1].split(",")
                ppm = {x: (v if x == s else pm.get(x)) for x in own.pk}
                if any(x is None for x in ppm.values()):
                    continue
                for d, val in zip(det, v[3:]):
                    t = self.param(own, ("s", d), ppm)
                    at = self.eng.mk_eq(st, t, val)
                    if not st.assume(at, True):
                        return False
        for n, via in k.refs:
            o = self.kind(n)
            m = {x: self.param(k, via[x] if via else x, pm) for x in o.pk}
            if not st.assume(self.exists(st, o, m), True):
                return False
        return True

    # ------------------------------------------------------------- contents
    def item(self, st, base, key):
        loc = self.locate(base)
        if loc is None:
            return None
        e = self.by_container.get(loc[0])
        if e is None:
            return None
        k, root = e
        m = self.invert(st, k, root, loc[1], self.eng.cn(st, key))
        if m is None:
            return None
        pm = m[0]
        return self.value(st, k, root, pm)

    def value(self, st, k, root, pm):
        c, key, a = root
        full = self.full(k, pm)
        v = k.values[a]
        if v[0] == "alias":
            return self.at(st, v[1], full)
        if v[0] == "val":
            return self.conv(st, k, v[1], pm, full)
        t = T("item", self.base_of(c, full), self.eng.cn(st, self.put(key, full)))
        return self.build(st, k, a, t, pm, full)

    # ------------------------------------------------------------- entities already changed in place
    def changed(self, st):
        """[(kind, primary key terms)] of the entities whose own containers were modified on this path."""
        out = []
        for a, p in st.pristine.items():
            o = st.heap.get(a)
            if o is None or o is p or o.kind not in ("dict", "set", "list", "inst") or o.base is None:
                continue
            if o.kind != "inst" and self.eng._same(o, p):
                continue
            if o.kind == "inst" and all(o.fields.get(f) == v for f, v in p.fields.items()) and len(o.fields) == len(p.fields):
                continue
            loc = self.locate(self.eng.cn(st, o.base))
            if loc is None:
                continue
            best = None
            for k in self.kinds:
                pat = self.pattern(k.primary[2])
                if loc[0][:len(pat)] == pat and (best is None or len(pat) > len(best[1])):
                    best = (k, pat)
            if best is None:
                continue
            k = best[0]
            items = [x for t, x in k.primary[2] if t == "item"]
            m = dict(zip(items, loc[1]))
            if all(x in m for x in k.pk) and not any(self.unbound(st, m[x]) for x in k.pk):
                e = (k, tuple(self.eng.cn(st, m[x]) for x in k.pk))
                if e not in out:
                    out.append(e)
        return out

    def unbound(self, st, t):
        """Does the term mention the generic element of a loop that is over?"""
        if not isinstance(t, tuple) or not t:
            return False
        if t[0] == "s":
            return (t[1].startswith("fresh:k#") or t[1].startswith("fresh:e#")) and not any(
                f[0] == "t" and f[1] in ("rawin", "in") and f[2] == t for f in st.facts)
        return any(self.unbound(st, x) for x in t[1:])

    def target(self, st, base, key):
        """[(kind, primary key terms)] of the entities an entry of the population gives access to."""
        loc = self.locate(base)
        e = self.by_container.get(loc[0]) if loc else None
        if e is None:
            return []
        k, root = e
        m = self.invert(st, k, root, loc[1], self.eng.cn(st, key))
        if m is None:
            return []
        out = [(k, tuple(m[0][x] for x in k.pk))]
        v = k.values[root[2]]
        if v[0] == "alias":
            full = self.full(k, m[0])
            for k2 in self.kinds:
                if k2.primary[2] == v[1][:len(k2.primary[2])] and k2 is not k:
                    out.append((k2, tuple(self.eng.cn(st, full[x]) for x in k2.pk)))
        return out

    def settle(self, st, base, key):
        """States in which an entity about to be looked up is known to be, or not to be, each of the changed ones."""
        cur = [st]
        ch = self.changed(st)
        if not ch:
            return cur
        for k, pk in ch:
            nxt = []
            for s in cur:
                for k2, pk2 in self.target(s, base, key):
                    if k2 is k:
                        a = self.eng.mk_and([self.eng.mk_eq(s, x, y) for x, y in zip(pk, pk2)])
                        nxt += [s2 for s2, b in self.eng.branch_bool(s, a)]
                        break
                else:
                    nxt.append(s)
            cur = nxt
        for q in st.qeff:
            nxt = []
            for s in cur:
                atoms = []
                for k, pk in self.target(s, base, key):
                    a = self.effect_on(s, q, k, pk)
                    if a is not None and s.decide(a[0]) is None:
                        atoms.append(a[0])
                states = [s]
                for a in atoms:
                    states = [s3 for s2 in states for s3, b in self.eng.branch_bool(s2, a)]
                nxt += states
            cur = nxt
        return cur

    def effect_on(self, st, eff, k, pk):
        """(condition, element) under which a quantified effect of a finished loop reached this entity; None: it cannot."""
        _, q, base, delta = eff
        loc = self.locate(base)
        if loc is None:
            return None
        pat = self.pattern(k.primary[2])
        if loc[0][:len(pat)] != pat:
            return None
        items = [x for t, x in k.primary[2] if t == "item"]
        m = dict(zip(items, loc[1]))
        if not all(x in m for x in k.pk):
            return None
        return self.reach(st, q, [(m[x], v) for x, v in zip(k.pk, pk)])

    def reach(self, st, q, pairs):
        _, src, evar, guard = q
        b = None
        conds = []
        for u, v in pairs:
            if not contains(u, evar):
                conds.append(self.eng.mk_eq(st, u, v))
                continue
            w = self.solve1(st, u, v, evar)
            if w is None:
                w = self.eng.unify(u, v, evar)
                if w is True:
                    w = None
            if w is None:
                return (T("eq", u, v), None)
            if b is None:
                b = w
            else:
                conds.append(self.eng.mk_eq(st, b, w))
        if b is None:
            return (self.eng.mk_and(conds + [self.eng.exists_atom(src, evar, guard, [])]), None)
        conds.append(self.eng.in_atom(st, b, src))
        for g in guard[1:]:
            conds.append(self.eng.simp(st, self.eng.guard_atom(subst(g, {evar: b}))))
        return (self.eng.mk_and(conds), b)

    def solve1(self, st, u, v, evar):
        """The value of evar for which u is v."""
        if u == evar:
            return v
        if u[0] == "t" and u[1] == "efn" and "~" in u[2] and len(u) == 4 and u[3] == evar:
            kn, rest = u[2].split("~", 1)
            k = self.kind(kn)
            det = rest.split("<", 1)[1]
            if len(k.pk) == 1 and "," not in det and ("s", det) in k.ids:
                return self.eng.cn(st, self.param(k, ("s", det), {k.pk[0]: v}))
        return None

    def seen(self, st, t):
        """The object already created for this entity (or part of one), brought up to date; None: none yet."""
        ref = st.lazy.get(t)
        if ref is None and st.rep:
            for t2, r2 in st.lazy.items():
                if t2[0] == "t" and t2[1] == t[1] and self.eng.cn(st, t2) == t:
                    ref = r2
                    break
        if ref is not None and st.qeff:
            self.refresh(st, ref)
        return ref

    def refresh(self, st, ref):
        n = st.qdone.get(ref[1], 0)
        o = st.heap.get(ref[1])
        if o is None:
            return
        if n < len(st.qeff):
            st.qdone[ref[1]] = len(st.qeff)
            if o.kind in ("dict", "set", "inst"):
                o = st.heap[ref[1]] = self.effects(st, o, n)
        if o.kind == "inst":
            for f, v in o.fields.items():
                if v[0] == "r" and v[1] in st.pristine:
                    self.refresh(st, v)

    def effects(self, st, o, start=0):
        """The object with the quantified effects of finished loops on it."""
        loc = self.locate(self.eng.cn(st, o.base)) if o.base is not None else None
        if loc is None:
            return o
        for eff in st.qeff[start:]:
            _, q, base, delta = eff
            l2 = self.locate(base)
            if l2 is None or l2[0] != loc[0]:
                continue
            r = self.reach(st, q, list(zip(l2[1], loc[1])))
            if r is None:
                continue
            d = st.decide(r[0])
            if d is False:
                continue
            if d is None:
                st.note("imprecise", "loop effect on an entity", st.loc)
                continue
            sub = {q[2]: r[1]} if r[1] is not None else {}
            for x in delta:
                if x[0] == "set" and o.kind == "inst":
                    o = o.rep(fields={**o.fields, x[1]: subst(x[2], sub)})
                elif x[0] == "put" and o.kind in ("dict", "set"):
                    o = o.rep(ov=o.ov + ((subst(x[1], sub), x[2] if x[2] == ("del",) else subst(x[2], sub), st.loc,
                                          subst(x[3], sub) if x[3] else None),))
                else:
                    st.note("imprecise", "loop effect on an entity", st.loc)
        return o

    def touched(self, st, base):
        """Keys of this container of the population that lead to entities changed on this path."""
        loc = self.locate(base)
        e = self.by_container.get(loc[0]) if loc else None
        if e is None:
            return []
        k, (c, rkey, a) = e
        out = []
        v = k.values[a]
        kinds = [k] + [k2 for k2 in self.kinds if v[0] == "alias" and k2 is not k and k2.primary[2] == v[1][:len(k2.primary[2])]]
        for kk, pk in self.changed(st):
            if kk not in kinds:
                continue
            m = dict(zip(kk.pk, pk))
            full = {}
            for s in self.syms(rkey):
                own = self.owner[s]
                if s in m:
                    full[s] = m[s]
                elif own is kk:
                    full[s] = self.param(kk, s, m)
            if all(s in full for s in self.syms(rkey)):
                key = self.eng.cn(st, self.put(rkey, full))
                if key not in out:
                    out.append(key)
        return out

    def at(self, st, addr, full):
        """The object at an example address: an entity of some kind, or a part of it."""
        for k in self.kinds:
            for root in k.roots:
                if root[2] == addr[:len(root[2])]:
                    pm = {x: full[x] for x in k.pk}
                    v = self.value(st, k, root, pm)
                    for t, x in addr[len(root[2]):]:
                        if t != "attr":
                            raise Incomplete("population: alias into a container")
                        v = next(z for s, kk, z in self.eng.getattr(st, v, x) if kk == "v")
                    return v
        raise Incomplete("population: alias of unknown object")

    def conv(self, st, k, v, pm, full):
        if v in full:
            return full[v]
        if v[0] == "tp":
            return ("tp",) + tuple(self.conv(st, k, x, pm, full) for x in v[1:])
        if v == NONE or v[0] in ("k", "f", "en", "bi", "x"):
            return v
        if is_c(v) and v[1] != "bool":
            return v
        name = f"{k.name}:{show(v)}"
        if name not in self.efn:
            self.efn[name] = (k, None)
            self.eng.efn_types[name] = ts("bool") if is_c(v) else st.types_of(v)
        return T("efn", name, *(pm[x] for x in k.pk))

    def build(self, st, k, a, t, pm, full):
        ref = self.seen(st, t)
        if ref is not None:
            return ref
        v = k.values[a]
        if v[0] == "inst":
            ref = st.alloc(InstO(v[1], {}, t), "L")
            st.lazy[t] = ref
            f = {}
            for b, w in k.values.items():
                if len(b) == len(a) + 1 and b[:len(a)] == a and b[-1][0] == "attr":
                    f[b[-1][1]] = self.part(st, k, b, T("attr", t, C(b[-1][1])), pm, full)
            o = InstO(v[1], f, t)
            st.pristine[ref[1]] = o
            st.heap[ref[1]] = self.effects(st, o) if st.qeff else o
            st.qdone[ref[1]] = len(st.qeff)
            return ref
        return self.part(st, k, a, t, pm, full)

    def part(self, st, k, a, t, pm, full):
        v = k.values[a]
        if v[0] == "val":
            return self.conv(st, k, v[1], pm, full)
        if v[0] == "alias":
            return self.at(st, v[1], full)
        if v[0] == "inst":
            return self.build(st, k, a, t, pm, full)
        ref = self.seen(st, t)
        if ref is not None:
            return ref
        if v[0] == "list":
            o = ListO(None, tuple(("e", self.conv(st, k, x, pm, full)) for x in v[1]))
            ref = st.alloc(o, "L")
            st.lazy[t] = ref
            return ref
        ref = st.alloc(None, "L")
        st.lazy[t] = ref
        ov = ()
        if self.pattern(a) not in self.by_container:
            for b, w in k.values.items():
                if len(b) == len(a) + 1 and b[:len(a)] == a:
                    kk = self.put(b[-1][1], full)
                    x = TRUE if v[0] == "set" else self.part(st, k, b, T("item", t, kk), pm, full)
                    ov += ((kk, x, None, None),)
        o = DictO(t, ov, ANY, ANY, v[1]) if v[0] == "dict" else SetO(t, ov, ANY)
        st.pristine[ref[1]] = o
        st.heap[ref[1]] = self.effects(st, o) if st.qeff else o
        st.qdone[ref[1]] = len(st.qeff)
        return ref

    # ------------------------------------------------------------- equalities
    def eq(self, st, x, y):
        """Disequalities the footprints imply (None: unknown)."""
        if x[0] == y[0] == "t" and x[1] == y[1] == "efn" and x[2] == y[2] and len(x) == len(y) and x != y and self.id_iv(x[2]):
            # ids are unique: the same id means the same entity
            if any(st.keq(u, v) is False for u, v in zip(x[3:], y[3:])):
                return False
        for a, b in ((x, y), (y, x)):
            if a[0] == "t" and a[1] == "efn":
                if b in self.fresh:
                    return False
                if "~" in a[2] and len(a) == 4:
                    # the entity with id e is b  <=>  e is the id of b
                    kn, rest = a[2].split("~", 1)
                    k = self.kind(kn)
                    xs, det = rest.split("<", 1)
                    if len(k.pk) == 1 and "," not in det and ("s", det) in k.ids:
                        t = self.param(k, ("s", det), {k.pk[0]: b})
                        if t != a[3]:
                            return st.keq(a[3], t)
        for a, b in ((x, y), (y, x)):
            for f, v in st.facts.items():
                if v is True and f[0] == "t" and f[1] == "rawin" and f[2] == a:
                    at = self.eng.in_atom(st, b, f[3])
                    if st.decide(at) is False:
                        return False
        return None

    def len_lo(self, st, coll, but=()):
        """A lower bound of a container's size: its known members that are pairwise distinct."""
        if self.locate(coll) is None:
            return 0
        ms = []
        coll = self.eng.cn(st, coll)
        for f, v in list(st.facts.items()):
            if v is True and f[0] == "t" and f[1] == "in" and (f[3] == coll or self.eng.cn(st, f[3]) == coll):
                if all(st.keq(f[2], m) is False for m in ms) and all(st.keq(f[2], m) is False for m in but):
                    ms.append(f[2])
        return len(ms)

    def reduce(self, t):
        """The entity whose id is the id of x is x."""
        if "~" in t[2]:
            kn, rest = t[2].split("~", 1)
            k = self.kind(kn)
            xs, det = rest.split("<", 1)
            det = det.split(",")
            if ("s", xs) in k.pk and len(det) == len(t) - 3 and all(
                    v[0] == "t" and v[1] == "efn" and v[2] == f"{kn}.{d}" and v[3:] == t[3][3:] for d, v in zip(det, t[3:])):
                return t[3][3 + k.pk.index(("s", xs))]
        return None

    def id_iv(self, name):
        k, s = self.efn.get(name, (None, None))
        return s is not None and ("~" not in name) and s[1] and (s in (k.ids or ()))

    def types(self, name):
        k, s = self.efn.get(name, (None, None))
        if name in self.eng.efn_types:
            return self.eng.efn_types[name]
        if s is not None:
            return self.eng.symtypes.get(s, ANY)
        return ANY
