"""Abstract state of the analysis: heap, environments and path facts.

A state is one partition of the trace-partitioned abstract interpretation.  Facts are kept in four
finite domains -- type sets, integer intervals, (dis)equalities with constants, and a table of boolean
atoms -- and are only ever refined; there is no solver.
"""

from .terms import *  # noqa: F403
from .terms import C, T, NONE, contains, cv, is_c, is_int, is_num, subst

INF = float("inf")

HEADS_SIZED = ("str", "bytes", "list", "dict", "tuple", "set")
ANY = frozenset({("any",)})


def ts(*heads):
    return frozenset((h,) if isinstance(h, str) else h for h in heads)


WIRE_TS = frozenset(
    {("none",), ("bool",), ("int",), ("float",), ("str",), ("bytes",), ("list", "WIRE"), ("dict", "WIREK", "WIRE")}
)
WIREK_TS = frozenset({("str",), ("int",), ("bytes",)})


def spec(x):
    if x == "WIRE":
        return WIRE_TS
    if x == "WIREK":
        return WIREK_TS
    return x


class Obj:
    __slots__ = ()

    def rep(self, **kw):
        n = self.__class__.__new__(self.__class__)
        for s in self.__slots__:
            setattr(n, s, kw[s] if s in kw else getattr(self, s))
        return n


class InstO(Obj):
    __slots__ = ("cls", "fields", "base")
    kind = "inst"

    def __init__(self, cls, fields=None, base=None):
        self.cls, self.fields, self.base = cls, fields or {}, base


class DictO(Obj):
    # ov: tuple of (key, value|DEL, loc, quant)   later entries shadow earlier ones and the base
    __slots__ = ("base", "ov", "kts", "vts", "default")
    kind = "dict"

    def __init__(self, base=None, ov=(), kts=ANY, vts=ANY, default=None):
        self.base, self.ov, self.kts, self.vts, self.default = base, ov, kts, vts, default


class SetO(Obj):
    __slots__ = ("base", "ov", "kts", "frozen")
    kind = "set"

    def __init__(self, base=None, ov=(), kts=ANY, frozen=False):
        self.base, self.ov, self.kts, self.frozen = base, ov, kts, frozen


class ListO(Obj):
    # segs: ('e', v) | ('q', src, evar, guard, val)
    __slots__ = ("base", "segs", "ets")
    kind = "list"

    def __init__(self, base=None, segs=(), ets=ANY):
        self.base, self.segs, self.ets = base, segs, ets


class IterO(Obj):
    # src: (ref, "keys"|"values"|"items") for a live view of a dict, None for a one-shot iterator
    __slots__ = ("segs", "src")
    kind = "iter"

    def __init__(self, segs, src=None):
        self.segs, self.src = segs, src


class NsO(Obj):
    __slots__ = ("vars",)
    kind = "ns"

    def __init__(self, vars=None):
        self.vars = vars or {}


class LibO(Obj):
    """A mutable object of a modelled library (a running hash): the term is its current contents."""
    __slots__ = ("cls", "term")
    kind = "lib"

    def __init__(self, cls, term):
        self.cls, self.term = cls, term


class St:
    __slots__ = (
        "heap", "envs", "types", "iv", "ne", "eqc", "facts", "lazy", "pristine", "events", "qeff",
        "nfresh", "nframe", "naddr", "loc", "depth", "notes", "trail", "eng", "rep", "stack", "comp", "qdone",
    )

    def __init__(self, eng):
        self.eng = eng
        self.heap, self.envs = {}, {}
        self.types, self.iv, self.ne, self.eqc, self.facts = {}, {}, {}, {}, {}
        self.lazy, self.pristine, self.rep = {}, {}, {}
        self.stack = ()
        self.qdone = {}  # how many of the quantified effects an object of the population has seen
        self.comp = ()  # negated conjunctions / disjunctions that are not settled yet
        self.events, self.qeff, self.notes, self.trail = (), (), (), ()
        self.nfresh = self.nframe = self.naddr = self.depth = 0
        self.loc = None

    def copy(self):
        self.eng.nstates += 1
        if self.eng.nstates > self.eng.max_states:
            raise self.eng.Budget("state budget exhausted")
        n = St.__new__(St)
        n.eng = self.eng
        for a in ("heap", "envs", "types", "iv", "ne", "eqc", "facts", "lazy", "pristine", "rep", "qdone"):
            setattr(n, a, dict(getattr(self, a)))
        for a in ("events", "qeff", "nfresh", "nframe", "naddr", "loc", "depth", "notes", "trail", "stack", "comp"):
            setattr(n, a, getattr(self, a))
        return n

    # ------------------------------------------------------------------ heap
    def alloc(self, obj, tag="o"):
        self.naddr += 1
        a = f"{tag}{self.naddr}"
        self.heap[a] = obj
        return ("r", a)

    def obj(self, ref):
        return self.heap[ref[1]]

    def put(self, ref, obj):
        a = ref[1]
        if a in self.eng.shared:
            self.notes += (("sharedwrite", a, self.loc),)
            self.eng.sharedwrites.add((a, self.loc))
        self.heap[a] = obj

    def note(self, *n):
        if n not in self.notes:
            self.notes += (n,)

    def fresh(self, label):
        self.eng.nfresh += 1
        return ("s", f"fresh:{label}#{self.eng.nfresh}")

    # ------------------------------------------------------------------ types
    def types_of(self, v):
        r = self.types.get(v)
        if r is not None:
            return r
        return self.eng.base_types(self, v)

    def heads(self, v):
        return {s[0] for s in self.types_of(v)}

    def interval(self, v):
        """[lo, hi] of a numeric term, by the interval domain."""
        if is_num(v):
            return (cv(v), cv(v))
        if self.eng.frame is not None and v[0] == "t" and v[1] == "len":
            v = T("len", self.eng.cn(self, v[2]))
        r = self.iv.get(v)
        b = self.eng.base_iv(self, v)
        if r is None:
            return b
        return (max(r[0], b[0]), min(r[1], b[1]))

    # ------------------------------------------------------------------ decide / assume
    def decide(self, a):
        k = a[0]
        if k == "c":
            return bool(cv(a))
        if k != "t":
            if k == "s" and a in self.facts:
                return self.facts[a]
            return self.facts.get(a)
        op = a[1]
        if op == "not":
            d = self.decide(a[2])
            return None if d is None else not d
        if op == "and":
            ds = [self.decide(x) for x in a[2:]]
            return False if False in ds else True if all(d is True for d in ds) else False if (a, False) in self.comp else None
        if op == "or":
            ds = [self.decide(x) for x in a[2:]]
            return True if True in ds else False if all(d is False for d in ds) else True if (a, True) in self.comp else None
        if op == "isnone":
            h = self.heads(a[2])
            if h == {"none"}:
                return True
            if "none" not in h and "any" not in h:
                return False
            return self.facts.get(a)
        if op == "truthy":
            c = self.eqc.get(a[2])
            if c is not None and is_c(c):
                return bool(cv(c))
            return self.facts.get(a)
        if op == "isinst":
            return self.eng.decide_isinst(self, a)
        if op == "eq":
            return self._decide_eq(a)
        if op == "lt":
            lo1, hi1 = self.interval(a[2])
            lo2, hi2 = self.interval(a[3])
            if hi1 < lo2:
                return True
            if lo1 >= hi2:
                return False
            return self.facts.get(a)
        if op == "in":
            f = self.facts.get(a)
            if f is not None:
                return f
            f = self.eng.axiom_in(self, a[2], a[3])
            if f is not None:
                return f
            coll = a[3]
            lo, hi = self.interval(T("len", coll)) if coll[0] != "tp" else (1, 1)
            if hi == 0:
                return False
            if coll[0] == "tp":
                ds = [self.keq(a[2], x) for x in coll[1:]]
                if True in ds:
                    return True
                if all(d is False for d in ds):
                    return False
            return None
        return self.facts.get(a)

    def keq(self, x, y):
        """Definite (dis)equality of two values, or None."""
        if x == y:
            return True
        e = self.eng.mk_eq(self, x, y)
        return self.decide(e)

    def _decide_eq(self, a):
        x, y = a[2], a[3]
        if x == y:
            return True
        f = self.facts.get(a)
        if f is not None:
            return f
        if self.eng.frame is not None:
            f = self.eng.frame.eq(self, x, y)
            if f is not None:
                return f
        if is_c(y):
            if x in self.eqc:
                return self.eng.const_eq(self.eqc[x], y)
            for n in self.ne.get(x, ()):
                if self.eng.const_eq(n, y):
                    return False
            t = self.facts.get(T("truthy", x))
            if t is not None and t != bool(cv(y)):
                return False
            if is_num(y):
                lo, hi = self.interval(x)
                if cv(y) < lo or cv(y) > hi:
                    return False
                if lo == hi == cv(y):
                    return True
        else:
            cx, cy = self.eqc.get(x), self.eqc.get(y)
            if cx is not None and cy is not None:
                return self.eng.const_eq(cx, cy)
            if cx is not None:
                d = self.decide(self.eng.mk_eq(self, y, cx))
                if d is not None:
                    return d
            if cy is not None:
                d = self.decide(self.eng.mk_eq(self, x, cy))
                if d is not None:
                    return d
            lo1, hi1 = self.interval(x)
            lo2, hi2 = self.interval(y)
            if hi1 < lo2 or hi2 < lo1:
                return False
        return None

    def assume(self, a, val):
        """Refine the state by atom == val; False when contradictory."""
        if not self.assume1(a, val):
            return False
        return not self.comp or self.propagate()

    def propagate(self):
        """Unit propagation over the unsettled compound facts (in place)."""
        n = 0
        while n < 50:
            n += 1
            progress = False
            for a, val in self.comp:
                # and(...) is False: some conjunct is False; or(...) is True: some disjunct is True
                want = a[1] == "or"
                ds = [self.decide(x) for x in a[2:]]
                if want in ds:
                    self.comp = tuple(c for c in self.comp if c[0] != a)
                    continue
                open_ = [x for x, d in zip(a[2:], ds) if d is None]
                if not open_:
                    return False
                if len(open_) == 1:
                    self.comp = tuple(c for c in self.comp if c[0] != a)
                    if not self.assume1(open_[0], want):
                        return False
                    progress = True
                    break
            if not progress:
                break
        return True

    def assume1(self, a, val):
        d = self.decide(a)
        if d is not None:
            return d == val
        op = a[1] if a[0] == "t" else None
        if op == "not":
            return self.assume(a[2], not val)
        if op == "and" and val:
            return all(self.assume(x, True) for x in a[2:])
        if op == "or" and not val:
            return all(self.assume(x, False) for x in a[2:])
        if op in ("and", "or"):
            if (a, val) not in self.comp:
                self.comp += ((a, val),)
            return self.propagate()
        self.facts[a] = val
        if op == "isnone":
            t = self.types_of(a[2])
            if ("any",) in t:
                if val:
                    self.types[a[2]] = ts("none")
            else:
                self.types[a[2]] = frozenset(s for s in t if (s[0] == "none") == val)
                return bool(self.types[a[2]])
        elif op == "isinst":
            return self.eng.assume_isinst(self, a, val)
        elif op == "truthy":
            if val and ("any",) not in self.types_of(a[2]):
                self.types[a[2]] = frozenset(t for t in self.types_of(a[2]) if t[0] != "none")
                return bool(self.types[a[2]])
        elif op == "eq":
            x, y = a[2], a[3]
            if is_c(y):
                if val:
                    self.eqc[x] = y
                    if is_num(y):
                        return self.eng.set_iv(self, x, cv(y), cv(y))
                else:
                    self.ne[x] = self.ne.get(x, ()) + (y,)
                    if is_int(y):
                        lo, hi = self.interval(x)
                        if lo == cv(y):
                            return self.eng.set_iv(self, x, lo + 1, hi)
                        if hi == cv(y):
                            return self.eng.set_iv(self, x, lo, hi - 1)
            elif val:
                x, y = self.eng.find(self, x), self.eng.find(self, y)
                if x == y:
                    return True
                if self.eng.mentions(x, y):
                    x, y = y, x
                self.rep[y] = x
                if not self._merge(x, y):
                    return False
                if y in self.eqc and x not in self.eqc:
                    self.eqc[x] = self.eqc[y]
                elif x in self.eqc and y not in self.eqc:
                    self.eqc[y] = self.eqc[x]
                lo1, hi1 = self.interval(x)
                lo2, hi2 = self.interval(y)
                if (lo1, hi1) != (-INF, INF) or (lo2, hi2) != (-INF, INF):
                    lo, hi = max(lo1, lo2), min(hi1, hi2)
                    return self.eng.set_iv(self, x, lo, hi) and self.eng.set_iv(self, y, lo, hi)
        elif op == "lt":
            x, y = a[2], a[3]
            lx, hx = self.interval(x)
            ly, hy = self.interval(y)
            xi, yi = self.eng.is_integral(self, x), self.eng.is_integral(self, y)
            step = 1 if xi and yi else 0
            if val:  # x < y
                ok = True
                if not is_c(x):
                    ok = self.eng.set_iv(self, x, lx, min(hx, hy - step))
                if ok and not is_c(y):
                    ok = self.eng.set_iv(self, y, max(ly, lx + step), hy)
                return ok
            ok = True  # y <= x
            if not is_c(x):
                ok = self.eng.set_iv(self, x, max(lx, ly), hx)
            if ok and not is_c(y):
                ok = self.eng.set_iv(self, y, ly, min(hy, hx))
            return ok
        elif op == "in":
            coll = a[3]
            if coll[0] == "tp":
                if not val:
                    return all(self.assume(self.eng.mk_eq(self, a[2], x), False) for x in coll[1:])
                live = [x for x in coll[1:] if self.keq(a[2], x) is not False]
                if not live:
                    return False
                if len(live) == 1:
                    return self.assume(self.eng.mk_eq(self, a[2], live[0]), True)
            elif val and coll[0] in ("s", "t"):
                ln = T("len", coll)
                lo, hi = self.interval(ln)
                if not self.eng.set_iv(self, ln, max(lo, 1), hi):
                    return False
                if self.eng.frame is not None:
                    return self.eng.frame.on_in(self, a)
        return True

    def _merge(self, x, y):
        """Facts about y also hold of x; False when they contradict what is known of x."""
        ty = self.types.get(y)
        if ty is not None and ("any",) not in ty:
            tx = self.types_of(x)
            if ("any",) in tx:
                self.types[x] = ty
            else:
                hs = {t[0] for t in ty}
                nt = frozenset(t for t in tx if t[0] in hs)
                if not nt:
                    return False
                self.types[x] = nt
        for n in self.ne.get(y, ()):
            if n not in self.ne.get(x, ()):
                self.ne[x] = self.ne.get(x, ()) + (n,)
        m = {y: x}
        if any(contains(a, y) for a, _ in self.comp):
            self.comp = tuple((self.eng.simp(self, subst(a, m)) if contains(a, y) else a, val) for a, val in self.comp)
            cs = self.comp
            self.comp = tuple(c for c in cs if c[0][0] == "t" and c[0][1] in ("and", "or"))
            for a, val in cs:
                if is_c(a):
                    if bool(cv(a)) != val:
                        return False
                elif a[1] not in ("and", "or") and not self.assume1(a, val):
                    return False
        for a, val in list(self.facts.items()):
            if a[0] == "t" and contains(a, y):
                na = subst(a, m)
                if na[1] == "eq":
                    na = self.eng.mk_eq(self, na[2], na[3])
                    if is_c(na):
                        if bool(cv(na)) != val:
                            return False
                        continue
                    if na[0] == "t" and na[1] == "not":
                        na, val = na[2], not val
                d = self.facts.get(na)
                if d is not None and d != val:
                    return False
                self.facts[na] = val
        if self.eng.frame is not None:
            for t, (lo, hi) in list(self.iv.items()):
                if t[0] == "t" and t[1] == "len" and contains(t, y):
                    l2, h2 = self.interval(t)
                    if not self.eng.set_iv(self, t, max(lo, l2), min(hi, h2)):
                        return False
        return True

    def branch(self, a):
        """[(state, bool)] for a boolean atom."""
        d = self.decide(a)
        if d is not None:
            return [(self, d)]
        o = self.copy()
        res = []
        if self.assume(a, True):
            self.trail += ((self.loc, a, True),)
            res.append((self, True))
        if o.assume(a, False):
            o.trail += ((o.loc, a, False),)
            res.append((o, False))
        return res

    def delta(self, old):
        """Facts of self that old does not have, as a canonical frozenset."""
        d = set()
        for k, v in self.facts.items():
            if old.facts.get(k) is not v:
                d.add((k, v))
        for k, v in self.types.items():
            if old.types.get(k) != v:
                d.add((T("types", k), v))
        for c in self.comp:
            if c not in old.comp:
                d.add(c)
        return frozenset(d)
