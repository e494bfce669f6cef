"""Shared helpers of the rules: running operations, reading results, reporting obligations."""

import json
import os

from .engine import Engine, Incomplete
from .loader import Sources
from .models import Models
from .state import *  # noqa: F403
from .state import ANY, INF, WIRE_TS, DictO, InstO, ListO, SetO, ts
from .terms import *  # noqa: F403
from .terms import C, DEL, FALSE, NONE, R, S, T, TRUE, contains, cv, is_c, show, subst

REPO = os.environ.get("VERIF_REPO", "/repo")
PKG = "wampproto"

INT = ts("int")
STR = ts("str")
BOOL = ts("bool")
BYTES = ts("bytes")
DICT = frozenset({("dict", ts("str"), ANY)})
LIST = frozenset({("list", ANY)})
NONE_T = ts("none")
MAX_ID = 2**53


class Report:
    """Obligations of one property: every one is discharged, violated or left open."""

    def __init__(self, pid):
        self.pid = pid
        self.obs = []
        self.seen = {}
        self.paths = 0
        self.ops = []
        self.rules = []
        self.engines = []

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def op(self, name, n):
        self.ops.append((name, n))
        self.paths += n

    def add(self, status, name, where, detail=""):
        key = (status, name, where)
        if key in self.seen:
            self.seen[key]["n"] += 1
            return
        o = {"status": status, "name": name, "where": where, "detail": detail, "n": 1}
        self.seen[key] = o
        self.obs.append(o)

    def ok(self, name, where="-"):
        self.add("ok", name, where)

    def fail(self, name, where, detail):
        self.add("violated", name, where, detail)

    def open(self, name, where, detail):
        self.add("open", name, where, detail)

    def need(self, cond, name, st=None, detail="", imprecise=False):
        """cond True: discharged; False: violated (open when the path carries an imprecision)."""
        where = loc_of(st) if st is not None else "-"
        if cond:
            self.ok(name, where)
            return True
        if imprecise or (st is not None and not isinstance(st, str) and is_imprecise(st)):
            self.open(name, where, detail + (" [imprecise: %s]" % (imprecision(st),) if st is not None else ""))
        else:
            self.fail(name, where, detail)
        return False

    def count(self, status):
        return sum(o["n"] for o in self.obs if o["status"] == status)


def loc_of(st):
    if isinstance(st, str):
        return st
    return f"{st.loc[0]}:{st.loc[1]}" if st.loc else "-"


def is_imprecise(st):
    return bool(imprecision(st))


def imprecision(st):
    return [n for n in st.notes if n[0] in ("imprecise", "unk")]


def path_of(st, n=8):
    out = []
    for l, a, b in st.trail[-n:]:
        out.append(f"{l[0].rsplit('/', 1)[-1]}:{l[1]} {'' if b else 'not '}{show(a)}"[:200] if l else show(a)[:160])
    return out


class Ctx:
    def __init__(self, rep, max_states=900000):
        self.rep = rep
        self.eng = Engine(Sources(REPO, PKG), Models(), max_states=max_states)
        self.eng.load()
        rep.engines.append(self.eng)
        self.n = 0

    # ------------------------------------------------------------- symbols
    def sym(self, name, types=None):
        s = S(name)
        if types is not None:
            self.eng.symtypes[s] = types
        return s

    def idsym(self, st, name):
        s = self.sym(name, INT)
        st.iv[s] = (1, MAX_ID)
        return s

    # ------------------------------------------------------------- lookups
    def attr(self, st, dotted):
        """A public name of the package, e.g. messages.Call (None when it is gone)."""
        mod, _, name = (PKG + "." + dotted).rpartition(".")
        if mod not in self.eng.src.mods:
            return None
        return self.eng.mod_attr(st, mod, name)

    def need_attr(self, st, dotted):
        v = self.attr(st, dotted)
        if v is None:
            raise Incomplete(f"anchor {PKG}.{dotted} not found")
        return v

    def where(self, v):
        """Definition site of a class or function."""
        e = self.eng
        if v is not None and v[0] == "k":
            ci = e.classes[v[1]]
            return f"{e.src.mods[ci.mod].path}:{ci.node.lineno}" if hasattr(e.src.mods[ci.mod], "path") else v[1]
        if v is not None and v[0] in ("f", "bm", "cm", "sm"):
            f = v
            while f[0] != "f":
                f = f[1]
            fi = e.funcs[f[1]]
            return fi.qual
        return show(v) if v else "-"

    # ------------------------------------------------------------- running
    def run(self, st, fv, *args, **kw):
        """Outcomes of calling fv, from a copy of st: [(state, 'v'|'x', value)]."""
        s = st.copy()
        s.trail = ()
        return self.eng.call(s, fv, list(args), dict(kw))

    def method(self, st, obj, name, *args, **kw):
        """Outcomes of obj.name(...)."""
        res = []
        s = st.copy()
        s.trail = ()
        for s2, k, f in self.eng.getattr(s, obj, name):
            if k == "x":
                res.append((s2, k, f))
            else:
                res += self.eng.call(s2, f, list(args), dict(kw))
        return res

    def get(self, st, obj, name):
        return self.eng.getattr(st.copy(), obj, name)

    def one(self, outs, what):
        """The only outcome of a set-up step."""
        vs = [(s, v) for s, k, v in outs if k == "v"]
        if len(outs) != 1 or len(vs) != 1:
            raise Incomplete(f"{what}: expected one normal outcome, got " + "; ".join(
                (f"raise {self.eng.show_exc(s, v)}" if k == "x" else "return") + f" at {s.loc}" for s, k, v in outs[:4]))
        return vs[0]

    def new(self, st, dotted, *args, **kw):
        """(state, object) of a constructor call that has one outcome."""
        return self.one(self.run(st, self.need_attr(st, dotted), *args, **kw), f"constructing {dotted}")

    def message(self, st, name, **kw):
        """(state, message object) built through the public constructors."""
        s, f = self.new(st, f"messages.{name}Fields", **kw)
        return self.new(s, f"messages.{name}", f)

    def value(self, st, obj, name):
        """(state, value) of a plain attribute read."""
        return self.one(self.get(st, obj, name), f"reading .{name}")

    def deep(self, st, v):
        return self.eng.deep(st, v)

    def exc(self, st, v):
        return self.eng.show_exc(st, v)

    def is_exc(self, st, v, *names):
        return any(self.eng.exc_match(st, v, ("bi", n)) for n in names)


# ------------------------------------------------------------------ logic on states
def holds(st, atom):
    """Does atom hold on every concrete state this path stands for?"""
    s = st.copy()
    return not s.assume(atom, False)


def refuted(st, atom):
    s = st.copy()
    return not s.assume(atom, True)


def restrict(st, v, types):
    """Assume that v is of one of the given types; False when impossible on this path."""
    cur = st.types_of(v)
    if ("any",) in cur:
        st.types[v] = types
        return True
    heads = {t[0] for t in types}
    new = frozenset(t for t in cur if t[0] in heads)
    if not new:
        return False
    st.types[v] = new
    c = st.eqc.get(v)
    if c is not None and is_c(c):
        h = {"NoneType": "none"}.get(c[1], c[1])
        if h not in heads:
            return False
    for a, val in list(st.facts.items()):
        if a[0] == "t" and a[1] in ("isinst", "isnone") and a[2] == v:
            s2 = st.copy()
            del s2.facts[a]
            if s2.decide(a) is (not val):
                return False
    return True


def same(ctx, st, got, want):
    """Equality of two values on this path: structurally, or by the equalities known on the path."""
    e = ctx.eng
    g, w = uncopy(st, e.deep(st, got)), uncopy(st, e.deep(st, want) if want[0] in ("r", "s", "t", "tp") else want)
    if g == w:
        return True
    if e.cn(st, g) == e.cn(st, w):
        return True
    if g[0] == "t" and g[1] in ("list", "dict", "obj", "set") or w[0] == "t" and w[1] in ("list", "dict", "obj", "set"):
        if g[0] == "t" and w[0] == "t" and g[1] == w[1] and len(g) == len(w):
            return all(same_t(ctx, st, a, b) for a, b in zip(g[2:], w[2:]))
        # an unmodified view of an empty container equals an empty literal
        return empty_like(st, g) and empty_like(st, w) and kind_of(st, g) == kind_of(st, w) is not None
    return st.keq(g, w) is True


def uncopy(st, t):
    """A list or dict that is an unmodified copy of another one has the value of that one."""
    if not (isinstance(t, tuple) and t and t[0] in ("t", "tp")):
        return t
    t = tuple(uncopy(st, x) if isinstance(x, tuple) else x for x in t)
    if t[0] == "t" and t[1] == "list" and len(t) == 4 and t[2] == NONE and t[3][0] == "t" and t[3][1] == "q":
        src, el, guard, out = t[3][2:6]
        if el == out and guard == ("gd",) and src[0] in ("s", "t") and kind_of(st, src) == "list":
            return src
    if t[0] == "t" and t[1] in ("dict", "set", "list") and len(t) == 3 and t[2] != NONE and kind_of(st, t[2]) == t[1]:
        return t[2]
    return t


def same_t(ctx, st, a, b):
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b:
        if a[0] == "t" and b[0] == "t" and a[1] == b[1] and len(a) == len(b) and a[1] in (
                "list", "dict", "obj", "kv", "fld", "set"):
            return all(same_t(ctx, st, x, y) for x, y in zip(a[2:], b[2:]))
        if a[0] in ("s", "t", "c", "tp") and b[0] in ("s", "t", "c", "tp"):
            if empty_like(st, a) and empty_like(st, b) and kind_of(st, a) == kind_of(st, b) is not None:
                return True
            return st.keq(a, b) is True
    return False


def kind_of(st, v):
    if v[0] == "t" and v[1] in ("list", "dict", "set") and len(v) > 2:
        return v[1]
    h = {x[0] for x in st.types_of(v)}
    return next(iter(h)) if len(h) == 1 else None


def empty_like(st, v):
    if v[0] == "t" and v[1] in ("list", "dict", "set") and len(v) == 3:
        return v[2] == NONE or st.interval(T("len", v[2]))[1] == 0
    if v[0] in ("s", "t"):
        return st.interval(T("len", v))[1] == 0
    return False


def witness(ctx, st, src, body, types=None):
    """States in which a fresh element of src satisfies the guard body (list of g-terms over the dot symbol)."""
    w = st.fresh("w")
    if types is not None:
        ctx.eng.symtypes[w] = types
    s = st.copy()
    s.facts[T("in", w, src)] = True
    for g in body:
        a = ctx.eng.simp(s, subst(g[2], {S("•"): w}))
        if not s.assume(a, g[3] == TRUE):
            return w, None
    return w, s


def universal(ctx, st, src, types=None):
    """(w, states): an arbitrary element w of src under every universally quantified fact of the path."""
    w = st.fresh("w")
    if types is not None:
        ctx.eng.symtypes[w] = types
    s = st.copy()
    s.facts[T("in", w, src)] = True
    cur = [s]
    for a, val in st.facts.items():
        if a[0] == "t" and a[1] == "exists" and val is False and a[2] == src:
            nxt = []
            for s in cur:
                for i, g in enumerate(a[3][1:]):
                    s2 = s.copy()
                    ok = True
                    for j, h in enumerate(a[3][1:i + 2]):
                        at = ctx.eng.simp(s2, subst(h[2], {S("•"): w}))
                        want = (h[3] == TRUE) if j < i else (h[3] != TRUE)
                        if not s2.assume(at, want):
                            ok = False
                            break
                    if ok:
                        nxt.append(s2)
            cur = nxt
    return w, cur


def deep_has_unk(t):
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] == "t" and t[1] == "unk":
            return True
        return any(deep_has_unk(x) for x in t[1:])
    return False


# ------------------------------------------------------------------ observational rules
def generalise(ctx, st, ref, prefix, keep=(), depth=0):
    """Replace the initial contents of an object by arbitrary contents of the same shape (in place).

    Empty containers become symbolic containers, counters become arbitrary integers; containers that already have
    constant keys keep them and their values are generalised instead.
    """
    o = st.heap[ref[1]]
    eng = ctx.eng
    if o.kind == "inst":
        f = dict(o.fields)
        for n, v in sorted(f.items()):
            if n in keep:
                continue
            f[n] = gen_value(ctx, st, v, f"{prefix}.{n}", eng.field_types(o.cls, n), depth)
        st.heap[ref[1]] = o.rep(fields=f)
    elif o.kind == "dict":
        st.heap[ref[1]] = o.rep(ov=tuple((k, gen_value(ctx, st, v, f"{prefix}[{show(k)}]", ANY, depth) if v != DEL else v, l, q)
                                         for k, v, l, q in o.ov))
    return ref


def gen_value(ctx, st, v, name, types, depth):
    if v[0] == "r" and v[1] in st.heap:
        o = st.heap[v[1]]
        if o.kind == "set" and not o.ov and o.base is None:
            k = elem(types, "set", 1)
            st.heap[v[1]] = SetO(ctx.sym(name, frozenset({("set", k)})), (), k)
        elif o.kind == "dict" and not o.ov and o.base is None:
            k, w = elem(types, "dict", 1), elem(types, "dict", 2)
            st.heap[v[1]] = DictO(ctx.sym(name, frozenset({("dict", k, w)})), (), k, w, o.default)
        elif o.kind == "list" and not o.segs and o.base is None:
            k = elem(types, "list", 1)
            st.heap[v[1]] = ListO(ctx.sym(name, frozenset({("list", k)})), (), k)
        elif depth < 4 and o.kind in ("dict", "inst") and not (o.kind == "inst" and o.base is not None):
            generalise(ctx, st, v, name, (), depth + 1)
        return v
    if v[0] == "c" and v[1] == "int":
        return ctx.sym(name, INT)
    if v[0] == "c" and v[1] == "bool":
        return ctx.sym(name, BOOL)
    return v


def elem(types, head, i):
    for t in types:
        if t[0] == head and len(t) > i:
            return spec(t[i])
    return ANY


def rewind(pre, obs):
    """The heap of pre under the path facts that obs learnt."""
    n = obs.copy()
    heap = {a: o for a, o in obs.pristine.items()}
    heap.update(pre.heap)
    n.heap = heap
    n.events, n.qeff = pre.events, pre.qeff
    if n.qeff and n.eng.frame is not None:
        for a, o in obs.pristine.items():
            if a not in pre.heap and o.kind in ("dict", "set", "inst"):
                heap[a] = n.eng.frame.effects(n, o)
                n.qdone[a] = len(n.qeff)
    n.notes = pre.notes + tuple(x for x in obs.notes if x not in pre.notes)
    n.trail = ()
    return n


def option(ctx, st, sym, key, val):
    """Assume that the dictionary symbol has key with this constant value (None: does not have it)."""
    a = ctx.eng.in_atom(st, C(key), sym)
    if val is None:
        return st.assume(a, False)
    it = T("item", sym, C(key))
    ok = st.assume(a, True)
    st.types[it] = ctx.eng.base_types(st, C(val))
    return ok and st.assume(ctx.eng.mk_eq(st, it, C(val)), True)


def split(ctx, states, atom):
    out = []
    for s in states:
        out += ctx.eng.branch_bool(s.copy(), atom)
    return out
