"""Models of the Python builtins, the standard library and the third-party calls the package makes.

A model maps a call that leaves the analysed package to its abstract effect.  Nothing is executed except
constant folding of pure str/bytes/int operations on literals.
"""

import ast
import re
import base64 as _b64
import ast as _ast
import binascii as _ba
import math as _math

from .engine import BOOL_OPS, BUILTIN_EXC, EXT_EXC, NUM, Incomplete
from .state import ANY, INF, WIRE_TS, DictO, InstO, IterO, LibO, ListO, SetO, spec, ts
from .terms import C, DEL, FALSE, NONE, R, S, T, TRUE, contains, cv, is_c, is_int, is_num, subst

PYT = {"str": str, "bytes": bytes, "int": int, "bool": bool, "float": float, "list": list, "dict": dict, "set": set,
       "tuple": tuple, "none": type(None)}
ITER_M = {"__next__", "__iter__", "close", "send", "throw"}
VIEW_M = {"__iter__", "__len__", "__contains__", "isdisjoint"}
PURE_STR = {"lower", "upper", "strip", "lstrip", "rstrip", "title", "capitalize", "replace", "zfill", "ljust", "rjust", "casefold",
            "removeprefix", "removesuffix", "center", "swapcase", "expandtabs", "translate"}
NORAISE = ("datetime.", "time.", "logging.", "random.", "secrets.", "math.", "uuid.", "typing.", "abc.", "enum.", "functools.",
           "collections.", "threading.", "dataclasses.", "warnings.", "string.", "sys.", "itertools.", "operator.", "types.",
           "weakref.", "re.")

PURE = ("collections.", "itertools.", "operator.", "functools.", "dataclasses.", "copy.", "string.", "types.", "json.", "struct.",
        "textwrap.", "re.", "contextlib.", "inspect.", "enum.", "hashlib.", "hmac.", "base64.", "binascii.", "weakref.", "pprint.",
        "bisect.", "heapq.", "decimal.", "fractions.", "codecs.", "unicodedata.", "io.", "array.", "zlib.")


class Models:
    class_hooks = {}

    # ------------------------------------------------------------------ attribute tables
    def has_method(self, head, name):
        if head == "iter":
            return name in ITER_M or name in VIEW_M
        t = PYT.get(head)
        return t is not None and name in dir(t)

    def exc_attr(self, name):
        return name in ("args", "with_traceback", "__traceback__", "__cause__", "__context__", "add_note")

    def term_attr(self, eng, st, v, name):
        """Attributes of terms that stand for third-party objects."""
        op = v[1]
        if op == "signed":
            _, _, sk, msg, enc = v
            f = (lambda x: T("hexenc", x)) if enc == C("hex") else (lambda x: x)
            if name == "signature":
                return f(T("sig", sk, msg))
            if name == "message":
                return f(msg)
        if op == "sk" and name == "verify_key":
            return T("vkey", T("pub", v))
        if op == "ext" and v[2] == C("struct.Struct"):
            import struct
            if name in ("pack", "unpack", "unpack_from"):
                return ("partial", ("x", "struct." + name), (v[3],), ())
            if name in ("size", "format"):
                return C(struct.calcsize(cv(v[3]))) if name == "size" else v[3]
        if op == "dcf" and name == "name":
            return v[2]
        return None

    # ------------------------------------------------------------------ helpers
    def ok(self, st, v):
        return [(st, "v", v)]

    def deepargs(self, eng, st, args, kw):
        return tuple(eng.deep(st, a) if a[0] != "star" else T("star", eng.deep(st, a[1])) for a in args) + tuple(
            T("kw", C(k), eng.deep(st, v)) for k, v in sorted(kw.items()))

    def typecheck(self, eng, st, v, heads, what):
        """Split a state on 'v has one of these heads': [(st, True)...]; the rest raises TypeError."""
        v = eng.plain(st, v)
        h = st.heads(v)
        if "any" in h or h <= heads:
            return [(st, "v", v)]
        if v[0] not in ("s", "t") or not h & heads:
            return eng.raise_(st, "TypeError", C(what))
        o = st.copy()
        o.types[v] = frozenset(s for s in st.types_of(v) if s[0] not in heads)
        st.types[v] = frozenset(s for s in st.types_of(v) if s[0] in heads)
        return [(st, "v", v), (o, "x", ("e", ("bi", "TypeError"), C(what)))]

    def split(self, st, atom, val, exc):
        outs = []
        for s, b in st.branch(atom):
            outs.append((s, "v", val(s) if callable(val) else val) if b else (s, "x", exc))
        return outs

    def ext_event(self, eng, st, dotted, args, kw):
        st.events += (("ext", dotted, self.deepargs(eng, st, args, kw), st.loc),)

    def each(self, eng, st, args, f):
        """f(st, seglists) over the segments of every argument."""
        outs = [(st, "v", ())]
        for a in args:
            nxt = []
            for s, k, acc in outs:
                if k != "v":
                    nxt.append((s, k, acc))
                    continue
                for tag, s2, segs in eng.segs_of(s, a):
                    nxt.append((s2, "x", segs) if tag == "x" else (s2, "v", acc + (segs,)))
            outs = nxt
        return eng.bind(outs, f)

    # ------------------------------------------------------------------ containers
    def view(self, eng, st, ref, mode):
        return st.alloc(IterO((), (ref, mode)))

    def dict_segs(self, eng, st, ref, mode):
        """Segments of a dict's keys/values/items."""
        o = st.heap[ref[1]]
        (tag, s, ks), = eng.segs_of(st, ref, fork=False)
        if mode == "keys":
            return ks
        out = []
        for g in ks:
            if g[0] == "e":
                key = g[1]
                val = None
                for e in o.ov:
                    if e[3] is None and e[0] == eng.cn(st, key):
                        val = e[1]
                if val is None:
                    val = eng.mk_item(st, o.base, key) if o.base is not None else T("unk", key)
                out.append(("e", val if mode == "values" else ("tp", key, val)))
            else:
                val = None
                for e in o.ov:
                    if e[3] is not None and e[3][1] == g[1] and e[1] != DEL and subst(e[0], {e[3][2]: g[2]}) == g[4]:
                        val = eng.rebound(st, e[1], {e[3][2]: g[2]})
                if val is None:
                    val = eng.mk_item(st, g[1], g[2])
                    if val[0] == "t" and val not in st.types and o.vts != ANY:
                        st.types[val] = spec(o.vts)
                out.append(g[:4] + (val if mode == "values" else ("tp", g[4], val),))
        return tuple(out)

    def dict_update(self, eng, st, ref, other):
        other = eng.force(st, other)
        if other[0] == "r" and st.heap[other[1]].kind == "dict":
            oo, o = st.heap[other[1]], st.heap[ref[1]]
            if not o.ov and o.base is None:
                st.put(ref, o.rep(base=oo.base, ov=oo.ov, kts=oo.kts if oo.base is not None else o.kts,
                                  vts=oo.vts if oo.base is not None else o.vts))
                return self.ok(st, NONE)
            if oo.base is not None:
                ev = st.fresh("k")
                eng.symtypes[ev] = spec(oo.kts)
                o = st.heap[ref[1]]
                gd = ("gd",) + tuple(T("g", eng.mk_eq(st, ev, e[0]), FALSE) for e in oo.ov if e[3] is None)
                st.put(ref, o.rep(ov=o.ov + ((ev, eng.mk_item(st, oo.base, ev), st.loc, ("q", oo.base, ev, gd)),)))
            for e in oo.ov:
                if e[3] is None:
                    if e[1] != DEL:
                        eng.ov_put(st, ref, e[0], e[1])
                else:
                    o = st.heap[ref[1]]
                    st.put(ref, o.rep(ov=o.ov + (e,)))
            return self.ok(st, NONE)
        if other == NONE:
            return eng.raise_(st, "TypeError", C("not iterable"))
        if other[0] in ("s", "t") and st.heads(other) != {"any"}:
            outs = []
            for s, k, v in self.typecheck(eng, st, other, {"dict"}, "update"):
                outs += self.dict_update(eng, s, ref, other) if k == "v" else [(s, k, v)]
            return outs
        outs = []
        for tag, s, segs in eng.segs_of(st, other):
            if tag == "x":
                outs.append((s, "x", segs))
                continue
            for g in segs:
                kv = g[1] if g[0] == "e" else g[4]
                if kv[0] != "tp" or len(kv) != 3:
                    s.note("unk", "dict from unknown pairs", s.loc)
                    continue
                if g[0] == "e":
                    eng.ov_put(s, ref, kv[1], kv[2])
                else:
                    o = s.heap[ref[1]]
                    s.put(ref, o.rep(ov=o.ov + ((kv[1], kv[2], s.loc, ("q",) + g[1:4]),)))
            outs.append((s, "v", NONE))
        return outs

    def list_extend(self, eng, st, ref, other):
        outs = []
        for tag, s, segs in eng.segs_of(st, eng.force(st, other)):
            if tag == "x":
                outs.append((s, "x", segs))
            else:
                o = s.heap[ref[1]]
                s.put(ref, ListO(o.base, o.segs + segs, o.ets))
                outs.append((s, "v", NONE))
        return outs

    def set_of(self, eng, st, v):
        """[(st,k,ref of a new SetO)] from any iterable."""
        v = eng.force(st, v)
        if v[0] == "r" and st.heap[v[1]].kind in ("set", "dict"):
            o = st.heap[v[1]]
            return self.ok(st, st.alloc(SetO(o.base, tuple((e[0], e[1] if e[1] == DEL else TRUE, e[2], e[3]) for e in o.ov), o.kts)))
        return [(s, "x", g) if tag == "x" else (s, "v", eng.set_from_segs(s, g)) for tag, s, g in eng.segs_of(st, v)]

    def set_update(self, eng, st, op, ref, b):
        outs = []
        for s, k, v in self.set_op(eng, st, op, ref, b):
            if k == "v":
                o = s.heap[v[1]]
                s.put(ref, SetO(o.base, o.ov, o.kts))
                outs.append((s, "v", NONE))
            else:
                outs.append((s, k, v))
        return outs

    def set_op(self, eng, st, op, ra, rb):
        def f(s, rb2):
            a, b = s.heap[ra[1]], s.heap[rb2[1]]
            if op == "bitor":
                ref = s.alloc(SetO(a.base, a.ov, a.kts))
                if b.base is not None:
                    if a.base is None and not a.ov:
                        s.heap[ref[1]] = SetO(b.base, b.ov, b.kts)
                        return self.ok(s, ref)
                    ev = s.fresh("k")
                    eng.symtypes[ev] = spec(b.kts)
                    o = s.heap[ref[1]]
                    gd = ("gd",) + tuple(T("g", eng.mk_eq(s, ev, e[0]), FALSE) for e in b.ov if e[3] is None)
                    s.heap[ref[1]] = o.rep(ov=o.ov + ((ev, TRUE, s.loc, ("q", b.base, ev, gd)),))
                for e in b.ov:
                    if e[3] is None and e[1] != DEL:
                        eng.ov_put(s, ref, e[0], TRUE)
                    elif e[3] is not None:
                        o = s.heap[ref[1]]
                        s.heap[ref[1]] = o.rep(ov=o.ov + (e,))
                return self.ok(s, ref)
            if op == "sub" and b.base is None and all(e[3] is None for e in b.ov):
                ref = s.alloc(SetO(a.base, a.ov, a.kts))
                for e in b.ov:
                    if e[1] != DEL:
                        eng.ov_put(s, ref, e[0], DEL)
                return self.ok(s, ref)
            # element-wise filter of a (sub / intersection)
            (tag, s, segs), = eng.segs_of(s, ra)
            outs = [(s, "v", ())]
            for g in segs:
                nxt = []
                for s2, k2, acc in outs:
                    x = g[1] if g[0] == "e" else g[4]
                    if g[0] == "e":
                        for s3, inb in eng.contains_atom(s2, x, rb2):
                            nxt.append((s3, "v", acc + (g,) if inb == (op == "bitand") else acc))
                    elif b.base is not None and not b.ov:
                        gd = g[3] + (T("g", eng.in_atom(s2, x, b.base), TRUE if op == "bitand" else FALSE),)
                        nxt.append((s2, "v", acc + (g[:3] + (gd, x),)))
                    elif b.base is None and all(e[3] is None for e in b.ov):
                        at = eng.in_const(s2, x, [e[0] for e in b.ov if e[1] != DEL])
                        gd = g[3] + (T("g", at, TRUE if op == "bitand" else FALSE),)
                        nxt.append((s2, "v", acc + (g[:3] + (gd, x),)))
                    else:
                        s2.note("unk", "set operation", s2.loc)
                        nxt.append((s2, "v", acc))
                outs = nxt
            if op == "bitxor":
                s.note("unk", "set xor", s.loc)
            return eng.bind(outs, lambda s2, sg: self.ok(s2, eng.set_from_segs(s2, sg)))

        return eng.bind(self.set_of(eng, st, rb), f)

    def subset(self, eng, st, a, b):
        """Boolean term of a <= b."""
        outs = []
        for tag, s, segs in eng.segs_of(st, eng.force(st, a)):
            if tag == "x":
                outs.append((s, "x", segs))
                continue
            cur = [(s, TRUE)]
            for g in segs:
                nxt = []
                for s2, acc in cur:
                    if acc == FALSE:
                        nxt.append((s2, acc))
                    elif g[0] == "e":
                        for s3, k3, r in eng.member(s2, g[1], b):
                            nxt.append((s3, eng.mk_and([acc, r])))
                    else:
                        for s3, k3, r in eng.member(s2, g[4], b):
                            ex = eng.exists_atom(g[1], g[2], g[3], [T("g", r, FALSE)])
                            nxt.append((s3, eng.mk_and([acc, eng.mk_not(ex)])))
                cur = nxt
            outs += [(s2, "v", acc) for s2, acc in cur]
        return outs

    # ------------------------------------------------------------------ methods of builtin types
    def method(self, eng, st, name, self_, args, kw):
        head, m = name.split(".", 1)
        args = [eng.plain(st, x) for x in args]
        f = getattr(self, f"m_{head}_{m}", None)
        if f is not None:
            return f(eng, st, self_, list(args), kw)
        if head in ("str", "bytes", "int", "float", "bool") and is_c(self_) and all(is_c(a) for a in args) and not kw:
            try:
                r = getattr(cv(self_), m)(*[cv(a) for a in args])
            except Exception as e:  # constant folding of the operation itself
                return eng.raise_(st, type(e).__name__, C(str(e)))
            return self.ok(st, self.lift(st, r))
        if head == "str" and m in PURE_STR or head == "bytes" and m in PURE_STR:
            t = T("strm" if head == "str" else "bytesm", C(m), self_, *self.deepargs(eng, st, args, kw))
            st.types[t] = ts(head)
            return self.ok(st, t)
        if m.startswith("__") and m.endswith("__"):
            r = self.dunder(eng, st, m, self_, args)
            if r is not None:
                return r
        if head in ("dict", "set", "list", "iter"):
            st.note("imprecise", f"unmodelled {name}()", st.loc)
            eng.unsupported.add(name)
        t = T("mcall", self_ if self_[0] != "r" else eng.deep(st, self_), C(m), *self.deepargs(eng, st, args, kw))
        if m.startswith("is") or m in ("startswith", "endswith"):
            st.types[t] = ts("bool")
            t = T("boolcall", *t[2:])
        elif m in ("find", "rfind", "count", "index", "rindex"):
            st.types[t] = ts("int")
        elif m in ("split", "rsplit", "splitlines"):
            st.types[t] = frozenset({("list", ts(head))})
        return self.ok(st, t)

    def lift(self, st, r):
        if isinstance(r, tuple):
            return ("tp",) + tuple(self.lift(st, x) for x in r)
        if isinstance(r, list):
            return st.alloc(ListO(None, tuple(("e", self.lift(st, x)) for x in r)))
        return C(r)

    def dunder(self, eng, st, m, self_, args):
        cmp = {"__eq__": ast.Eq, "__ne__": ast.NotEq, "__lt__": ast.Lt, "__le__": ast.LtE, "__gt__": ast.Gt, "__ge__": ast.GtE}
        if m in cmp:
            return eng.compare(st, cmp[m](), self_, args[0])
        if m == "__contains__":
            return eng.member(st, args[0], self_)
        if m == "__getitem__":
            return eng.getitem(st, self_, args[0])
        if m == "__setitem__":
            return [(s, "v", NONE) if k == "n" else (s, k, v) for s, k, v in eng.setitem(st, self_, args[0], args[1])]
        if m == "__delitem__":
            return [(s, "v", NONE) if k == "n" else (s, k, v) for s, k, v in eng.delitem(st, self_, args[0])]
        if m == "__len__":
            return self.b_len(eng, st, [self_], {})
        if m == "__iter__":
            return self.b_iter(eng, st, [self_], {})
        if m == "__next__":
            return self.b_next(eng, st, [self_], {})
        if m in ("__str__", "__repr__"):
            return self.b_str(eng, st, [self_], {})
        if m == "__bool__":
            return self.b_bool(eng, st, [self_], {})
        if m == "__init__":
            return self.ok(st, NONE)
        if m == "__hash__":
            return self.ok(st, T("hash", self_))
        b = {"__add__": "add", "__sub__": "sub", "__or__": "bitor", "__and__": "bitand", "__xor__": "bitxor", "__lshift__": "shl",
             "__rshift__": "shr", "__mul__": "mul"}.get(m)
        if b:
            return eng.binop(st, b, self_, args[0])
        return None

    # dict ------------------------------------------------------------------------------------------
    def m_dict_get(self, eng, st, d, a, kw):
        dfl = a[1] if len(a) > 1 else kw.get("default", NONE)
        return [(s, "v", dfl if x is None else x) for s, x in eng.dict_find(st, d, a[0])]

    def m_dict_pop(self, eng, st, d, a, kw):
        outs = []
        for s, x in eng.dict_find(st, d, a[0]):
            if x is not None:
                eng.ov_put(s, d, a[0], DEL)
                outs.append((s, "v", x))
            elif len(a) > 1:
                outs.append((s, "v", a[1]))
            else:
                outs.append((s, "x", ("e", ("bi", "KeyError"), a[0])))
        return outs

    def m_dict_setdefault(self, eng, st, d, a, kw):
        outs = []
        for s, x in eng.dict_find(st, d, a[0]):
            if x is None:
                x = a[1] if len(a) > 1 else NONE
                eng.ov_put(s, d, a[0], x)
            outs.append((s, "v", x))
        return outs

    def m_dict_keys(self, eng, st, d, a, kw):
        return self.ok(st, self.view(eng, st, d, "keys"))

    def m_dict_values(self, eng, st, d, a, kw):
        return self.ok(st, self.view(eng, st, d, "values"))

    def m_dict_items(self, eng, st, d, a, kw):
        return self.ok(st, self.view(eng, st, d, "items"))

    def m_dict_update(self, eng, st, d, a, kw):
        outs = self.ok(st, NONE)
        for o in a:
            outs = eng.bind(outs, lambda s, _: self.dict_update(eng, s, d, o))

        def g(s, _):
            for k, v in kw.items():
                if k != "**":
                    eng.ov_put(s, d, C(k), v)
            return self.dict_update(eng, s, d, kw["**"]) if "**" in kw else self.ok(s, NONE)

        return eng.bind(outs, g)

    def m_dict_copy(self, eng, st, d, a, kw):
        o = st.heap[d[1]]
        return self.ok(st, st.alloc(o.rep()))

    def m_dict_clear(self, eng, st, d, a, kw):
        o = st.heap[d[1]]
        st.put(d, o.rep(base=None, ov=()))
        return self.ok(st, NONE)

    def m_dict_popitem(self, eng, st, d, a, kw):
        o = st.heap[d[1]]
        if o.base is None and o.ov and all(e[3] is None and e[1] != DEL for e in o.ov):
            e = o.ov[-1]
            st.put(d, o.rep(ov=o.ov[:-1]))
            return self.ok(st, ("tp", e[0], e[1]))
        st.note("maybe", "popitem", st.loc)
        outs = []
        for s, b in eng.branch_bool(st, eng.mk_lt(st, C(0), eng.len_term(st, d))):
            if not b:
                outs.append((s, "x", ("e", ("bi", "KeyError"), C("popitem"))))
                continue
            k = s.fresh("k")
            eng.symtypes[k] = spec(o.kts)
            if o.base is not None and not eng.assume_elem(s, k, o.base, ("gd",)):
                continue
            v = eng.mk_item(s, o.base or S("?"), k)
            eng.ov_put(s, d, k, DEL)
            outs.append((s, "v", ("tp", k, v)))
        return outs

    # set -------------------------------------------------------------------------------------------
    def m_set_add(self, eng, st, d, a, kw):
        eng.ov_put(st, d, a[0], TRUE)
        return self.ok(st, NONE)

    def m_set_discard(self, eng, st, d, a, kw):
        eng.ov_put(st, d, a[0], DEL)
        return self.ok(st, NONE)

    def m_set_remove(self, eng, st, d, a, kw):
        outs = []
        for s, b in eng.contains_atom(st, a[0], d):
            if b:
                eng.ov_put(s, d, a[0], DEL)
                outs.append((s, "v", NONE))
            else:
                outs.append((s, "x", ("e", ("bi", "KeyError"), a[0])))
        return outs

    def m_set_pop(self, eng, st, d, a, kw):
        o = st.heap[d[1]]
        outs = []
        for s, k, v in self.next_of(eng, st, d):
            if k == "v":
                eng.ov_put(s, d, v, DEL)
            outs.append((s, k, v) if k == "v" else (s, "x", ("e", ("bi", "KeyError"), C("pop"))))
        return outs

    m_set_clear = m_dict_clear
    m_set_copy = m_dict_copy

    def _setop(op, upd=False):
        def f(self, eng, st, d, a, kw):
            outs = self.ok(st, d)
            for b in a:
                if upd:
                    outs = eng.bind(outs, lambda s, _: self.set_update(eng, s, op, d, b))
                else:
                    outs = eng.bind(outs, lambda s, r: self.set_op(eng, s, op, r, b))
            return [(s, k, NONE if upd and k == "v" else v) for s, k, v in outs]

        return f

    m_set_union, m_set_update = _setop("bitor"), _setop("bitor", True)
    m_set_difference, m_set_difference_update = _setop("sub"), _setop("sub", True)
    m_set_intersection, m_set_intersection_update = _setop("bitand"), _setop("bitand", True)

    def m_set_issubset(self, eng, st, d, a, kw):
        return self.subset(eng, st, d, a[0])

    def m_set_issuperset(self, eng, st, d, a, kw):
        return self.subset(eng, st, a[0], d)

    def m_set_isdisjoint(self, eng, st, d, a, kw):
        return eng.bind(self.set_op(eng, st, "bitand", d, a[0]), lambda s, r: self.ok(
            s, eng.mk_not(eng.mk_lt(s, C(0), eng.len_term(s, r)))))

    # list ------------------------------------------------------------------------------------------
    def m_list_append(self, eng, st, d, a, kw):
        o = st.heap[d[1]]
        st.put(d, ListO(o.base, o.segs + (("e", a[0]),), o.ets))
        return self.ok(st, NONE)

    def m_list_extend(self, eng, st, d, a, kw):
        return self.list_extend(eng, st, d, a[0])

    def m_list_insert(self, eng, st, d, a, kw):
        if len(a) != 2 or kw:
            return eng.raise_(st, "TypeError", C("insert expected 2 arguments"))
        o = st.heap[d[1]]
        if is_int(a[0]) and o.base is None and (cv(a[0]) == 0 or all(s[0] == "e" for s in o.segs)):
            segs = list(o.segs)
            segs.insert(cv(a[0]), ("e", a[1]))
            st.put(d, ListO(None, tuple(segs)))
        else:
            st.put(d, ListO(T("unk", eng.deep(st, d)), ()))
            st.note("unk", "list insert", st.loc)
        return self.ok(st, NONE)

    def m_list_pop(self, eng, st, d, a, kw):
        o = st.heap[d[1]]
        i = a[0] if a else C(-1)
        if o.base is None and all(s[0] == "e" for s in o.segs) and is_int(i):
            segs = list(o.segs)
            try:
                x = segs.pop(cv(i))
            except IndexError:
                return eng.raise_(st, "IndexError", C("pop"))
            st.put(d, ListO(None, tuple(segs)))
            return self.ok(st, x[1])
        if i == C(-1) and o.segs and o.segs[-1][0] == "e":
            st.put(d, ListO(o.base, o.segs[:-1], o.ets))
            return self.ok(st, o.segs[-1][1])
        outs = []
        for s, k, v in eng.getitem(st, d, i):
            if k == "v":
                old = eng.deep(s, d)
                if is_int(i) and cv(i) == 0 and o.base is not None and not o.segs:
                    t = T("slice", o.base, C(1), NONE)
                    s.types[t] = s.types_of(o.base)
                    s.put(d, ListO(t, (), o.ets))
                elif is_int(i) and cv(i) == -1 and o.base is not None and not o.segs:
                    t = T("slice", o.base, NONE, C(-1))
                    s.types[t] = s.types_of(o.base)
                    s.put(d, ListO(t, (), o.ets))
                else:
                    s.put(d, ListO(T("unk", old, C("pop")), ()))
                    s.note("unk", "list pop", s.loc)
            outs.append((s, k, v))
        return outs

    def m_list_remove(self, eng, st, d, a, kw):
        o = st.heap[d[1]]
        if o.base is None and all(s[0] == "e" for s in o.segs):
            outs, cur = [], [st]
            for i, g in enumerate(o.segs):
                nxt = []
                for s in cur:
                    for s2, b in eng.branch_bool(s, eng.mk_eq(s, g[1], a[0])):
                        if b:
                            s2.put(d, ListO(None, o.segs[:i] + o.segs[i + 1:]))
                            outs.append((s2, "v", NONE))
                        else:
                            nxt.append(s2)
                cur = nxt
            return outs + [(s, "x", ("e", ("bi", "ValueError"), C("list.remove"))) for s in cur]
        st.put(d, ListO(T("unk", eng.deep(st, d), C("remove")), ()))
        st.note("unk", "list remove", st.loc)
        return self.ok(st, NONE)

    def m_list_clear(self, eng, st, d, a, kw):
        st.put(d, ListO(None, ()))
        return self.ok(st, NONE)

    def m_list_copy(self, eng, st, d, a, kw):
        return self.ok(st, st.alloc(st.heap[d[1]].rep()))

    def m_list_reverse(self, eng, st, d, a, kw):
        o = st.heap[d[1]]
        if o.base is None and all(s[0] == "e" for s in o.segs):
            st.put(d, ListO(None, tuple(reversed(o.segs))))
        else:
            st.note("unk", "list reverse", st.loc)
        return self.ok(st, NONE)

    def m_list_sort(self, eng, st, d, a, kw):
        st.note("order", "list sort", st.loc)
        return self.ok(st, NONE)

    def m_list_appendleft(self, eng, st, d, a, kw):
        return self.m_list_insert(eng, st, d, [C(0), a[0]], kw)

    # iterators -------------------------------------------------------------------------------------
    def m_iter___contains__(self, eng, st, d, a, kw):
        return eng.member(st, a[0], d)

    # str / bytes -----------------------------------------------------------------------------------
    def enc_name(self, a, kw):
        e = a[0] if a else kw.get("encoding", C("utf-8"))
        return cv(e).lower().replace("_", "-").replace("utf8", "utf-8") if is_c(e) and isinstance(cv(e), str) else "?"

    def m_str_encode(self, eng, st, v, a, kw):
        e = self.enc_name(a, kw)
        if is_c(v):
            try:
                return self.ok(st, C(cv(v).encode(e)))
            except Exception as ex:
                return eng.raise_(st, "UnicodeEncodeError", C(str(ex)))
        if v[0] == "t" and v[1] == "decode" and len(v) == 3 and e in ("utf-8", "ascii"):
            return self.ok(st, v[2])
        t = T("encode", v) if e == "utf-8" else T("encode", v, C(e))
        if e not in ("utf-8",):
            return self.split(st, T("boolcall", C("encodable"), v, C(e)), t, ("e", ("bi", "UnicodeEncodeError"), v))
        return self.ok(st, t)

    def m_bytes_decode(self, eng, st, v, a, kw):
        e = self.enc_name(a, kw)
        if is_c(v):
            try:
                return self.ok(st, C(cv(v).decode(e)))
            except Exception as ex:
                return eng.raise_(st, "UnicodeDecodeError", C(str(ex)))
        if v[0] == "t" and v[1] == "encode" and len(v) == 3 and e in ("utf-8",):
            return self.ok(st, v[2])
        safe = v[0] == "t" and v[1] in ("b64enc", "hexenc", "b64u_enc")
        t = T("decode", v) if e == "utf-8" or safe else T("decode", v, C(e))
        if safe or e in ("latin-1", "iso-8859-1"):
            return self.ok(st, t)
        return self.split(st, T("boolcall", C("decodable"), v, C(e)), t, ("e", ("bi", "UnicodeDecodeError"), v))

    def m_bytes_hex(self, eng, st, v, a, kw):
        if is_c(v):
            return self.ok(st, C(cv(v).hex()))
        return self.ok(st, T("decode", T("hexenc", v)))

    def m_str_format(self, eng, st, v, a, kw):
        if is_c(v) and not any(x[0] == "star" for x in a) and "{{" not in cv(v) and "}}" not in cv(v):
            pieces = re.split(r"\{(\d*|[A-Za-z_]\w*)\}", cv(v))
            if not any(c in x for x in pieces[::2] for c in "{}"):
                auto, out = 0, []
                for i, x in enumerate(pieces):
                    if i % 2 == 0:
                        out.append(C(x))
                        continue
                    if x == "":
                        x, auto = str(auto), auto + 1
                    w = kw.get(x) if not x.isdigit() else a[int(x)] if int(x) < len(a) else None
                    if w is None:
                        return eng.raise_(st, "IndexError" if x.isdigit() else "KeyError", C(x))
                    out.append(eng.shown(st, w))
                return self.ok(st, eng.concat(out))
        return self.ok(st, T("fmt", v, *self.deepargs(eng, st, a, kw)))

    def m_str_join(self, eng, st, v, a, kw):
        outs = []
        for tag, s, segs in eng.segs_of(st, eng.force(st, a[0])):
            if tag == "x":
                outs.append((s, "x", segs))
            elif all(g[0] == "e" for g in segs):
                parts = []
                for i, g in enumerate(segs):
                    if i:
                        parts.append(v)
                    parts.append(g[1])
                if v[1:2] == ("bytes",) and not parts:
                    outs.append((s, "v", C(b"")))
                else:
                    r = eng.concat(parts) if parts else v if v in (C(""), C(b"")) else C("")
                    outs.append((s, "v", r))
            else:
                outs.append((s, "v", T("join", v, *(eng.deep(s, g[1]) if g[0] == "e" else T("q", g[1], g[2], g[3], eng.deep(
                    s, g[4])) for g in segs))))
        return outs

    m_bytes_join = m_str_join

    def m_str_startswith(self, eng, st, v, a, kw):
        if is_c(v) and is_c(a[0]):
            return self.ok(st, C(cv(v).startswith(cv(a[0]))))
        return self.ok(st, T("startswith", v, *a))

    m_bytes_startswith = m_str_startswith

    def m_str_endswith(self, eng, st, v, a, kw):
        if is_c(v) and is_c(a[0]):
            return self.ok(st, C(cv(v).endswith(cv(a[0]))))
        return self.ok(st, T("endswith", v, *a))

    m_bytes_endswith = m_str_endswith

    # int -------------------------------------------------------------------------------------------
    def m_int_bit_length(self, eng, st, v, a, kw):
        if is_int(v):
            return self.ok(st, C(int(cv(v)).bit_length()))
        if v[0] == "t" and v[1] == "shl" and v[2] == C(1):
            return self.ok(st, eng.arith(st, "add", v[3], C(1)))
        return self.ok(st, T("bitlen", v))

    def m_int_to_bytes(self, eng, st, v, a, kw):
        n = a[0] if a else kw.get("length", C(1))
        o = a[1] if len(a) > 1 else kw.get("byteorder", C("big"))
        if is_c(v) and is_c(n) and is_c(o):
            try:
                return self.ok(st, C(int(cv(v)).to_bytes(cv(n), cv(o))))
            except OverflowError:
                return eng.raise_(st, "OverflowError", C("int too big"))
        if not is_int(n):
            return self.ok(st, T("tobytes", v, n, o))
        outs = []
        for s, k, x in self.typecheck(eng, st, v, NUM, "to_bytes"):
            if k != "v":
                outs.append((s, k, x))
                continue
            cond = eng.mk_and([eng.mk_not(eng.mk_lt(s, v, C(0))), eng.mk_lt(s, v, C(1 << (8 * cv(n))))])
            for s2, b in eng.branch_bool(s, cond):
                if b and cv(n) <= 8 and is_c(o) and not kw.get("signed"):
                    bs = [C(x) for x in cv(v).to_bytes(n, "big")] if is_int(v) else [eng.index_term(s2, T("tobytes", v, n, C("big")), i) for i in range(cv(n))]
                    outs += self.ok(s2, T("bytesof", *(bs if cv(o) == "big" else reversed(bs))))
                    continue
                outs += self.ok(s2, T("tobytes", v, n, o)) if b else eng.raise_(s2, "OverflowError", C("int too big"))
        return outs

    m_bool_to_bytes = m_int_to_bytes

    # ------------------------------------------------------------------ builtins
    def builtin(self, eng, st, name, args, kw):
        f = getattr(self, "b_" + name.replace(".", "_"), None)
        if name not in ("type", "id", "callable", "hash"):
            args = [eng.plain(st, x) for x in args]
        if name == "singledispatch.register":
            return eng.register(st, args[0], list(args[1:]))
        if f is not None:
            try:
                return f(eng, st, list(args), kw)
            except IndexError:
                if args:
                    raise
                return eng.raise_(st, "TypeError", C(name + "() needs an argument"))
        if name in BUILTIN_EXC:
            return self.ok(st, ("e", ("bi", name)) + tuple(a for a in args if a[0] != "star"))
        if "." in name:  # unbound method of a builtin type
            head, m = name.split(".", 1)
            if args and self.has_method(head, m):
                return self.method(eng, st, name, args[0], args[1:], kw)
        if name in ("open", "input", "eval", "exec", "compile", "__import__", "breakpoint", "print", "exit", "quit"):
            self.ext_event(eng, st, "builtins." + name, args, kw)
            return self.ok(st, NONE if name == "print" else T("ext", C(name), st.fresh("ext")))
        st.note("imprecise", "unmodelled builtin " + name, st.loc)
        eng.unsupported.add(name)
        return self.ok(st, T("ext", C(name), *self.deepargs(eng, st, args, kw)))

    def b_len(self, eng, st, a, kw):
        v = eng.force(st, a[0])
        if v[0] == "r":
            o = st.heap[v[1]]
            if o.kind == "inst":
                f, _ = eng.class_lookup(st, o.cls, "__len__")
                if f is not None:
                    return eng.call(st, ("bm", f, v), [], {})
                if not eng.classes[o.cls].namedtuple:
                    return eng.raise_(st, "TypeError", C("no len()"))
            if o.kind == "iter":
                if getattr(o, "src", None) is None:
                    return eng.raise_(st, "TypeError", C("no len()"))
                return self.ok(st, eng.len_term(st, o.src[0]))
            return self.ok(st, eng.len_term(st, v))
        if v[0] == "k" and eng.classes[v[1]].enum:
            return self.ok(st, C(len({m[2] for m in eng.classes[v[1]].members.values()})))
        if v[0] in ("tp",) or is_c(v) and v[1] in ("str", "bytes"):
            return self.ok(st, eng.len_term(st, v))
        outs = []
        for s, k, x in self.typecheck(eng, st, v, {"str", "bytes", "list", "dict", "tuple", "set"}, "object has no len()"):
            outs.append((s, k, eng.len_term(s, eng.force(s, v)) if k == "v" else x))
        return outs

    def b_isinstance(self, eng, st, a, kw):
        return self.ok(st, eng.isinstance_atom(st, a[0], a[1]))

    def b_issubclass(self, eng, st, a, kw):
        cl = list(a[1][1:]) if a[1][0] == "tp" else [a[1]]
        if a[0][0] == "k":
            return self.ok(st, C(any((c[1] if c[0] == "k" else c[0] + ":" + c[1]) in eng.mro(a[0][1]) or c == ("bi", "object") for c in cl)))
        return self.ok(st, T("boolcall", C("issubclass"), a[0], a[1]))

    def b_type(self, eng, st, a, kw):
        if len(a) != 1:
            st.note("imprecise", "type()", st.loc)
            return self.ok(st, T("ext", C("type")))
        v = eng.force(st, a[0])
        if v[0] == "r" and st.heap[v[1]].kind == "inst" and st.heap[v[1]].base is None:
            return self.ok(st, ("k", st.heap[v[1]].cls))
        if v[0] == "r":
            if st.heap[v[1]].kind != "inst":
                return self.ok(st, ("bi", {"iter": "generator"}.get(st.heap[v[1]].kind, st.heap[v[1]].kind)))
            return self.ok(st, ("ty", v))
        if is_c(v):
            return self.ok(st, ("bi", v[1]))
        if v[0] == "tp":
            return self.ok(st, ("bi", "tuple"))
        if v[0] == "en":
            return self.ok(st, ("k", v[1]))
        if v[0] == "e":
            return self.ok(st, v[1])
        return self.ok(st, ("ty", v))

    def quant_bool(self, eng, st, a, want):
        """any()/all()."""
        outs = []
        for tag, s, segs in eng.segs_of(st, eng.force(st, a[0])):
            if tag == "x":
                outs.append((s, "x", segs))
                continue
            cur = [(s, [])]
            for g in segs:
                nxt = []
                for s2, acc in cur:
                    x = g[1] if g[0] == "e" else g[4]
                    at = eng.truth_atom(s2, x)
                    if at is None:
                        at = T("truthy", x)
                    if g[0] == "q":
                        if want:  # all: no element fails
                            at = eng.mk_not(eng.exists_atom(g[1], g[2], g[3], [T("g", at, FALSE)]))
                        else:
                            at = eng.exists_atom(g[1], g[2], g[3], [T("g", at, TRUE)])
                    nxt.append((s2, acc + [at]))
                cur = nxt
            outs += [(s2, "v", eng.mk_and(acc) if want else eng.mk_or(acc)) for s2, acc in cur]
        return outs

    def b_any(self, eng, st, a, kw):
        return self.quant_bool(eng, st, a, False)

    def b_all(self, eng, st, a, kw):
        return self.quant_bool(eng, st, a, True)

    def b_bool(self, eng, st, a, kw):
        if not a:
            return self.ok(st, FALSE)
        v = a[0]
        if v[0] in ("s", "t") and st.heads(v) == {"bool"}:
            return self.ok(st, v)
        return [(s, "v", C(b)) for s, b in eng.truth(st, v)]

    def b_int(self, eng, st, a, kw):
        if not a:
            return self.ok(st, C(0))
        v = a[0]
        if is_c(v):
            try:
                return self.ok(st, C(int(cv(v), *[cv(x) for x in a[1:]])))
            except Exception as e:
                return eng.raise_(st, type(e).__name__, C(str(e)))
        if v[0] == "en" and eng.classes[v[1]].enum == "int":
            return self.ok(st, v[3])
        h = st.heads(v)
        if h <= {"int"} and len(a) == 1:
            return self.ok(st, v)
        t = T("int", v, *a[1:])
        if h <= NUM:
            return self.ok(st, t if h != {"bool"} else v)
        if "any" in h or h & {"str", "bytes"}:
            outs = self.split(st, T("boolcall", C("int_ok"), v, *a[1:]), t, ("e", ("bi", "ValueError"), C("invalid literal")))
            bad = h - NUM - {"str", "bytes", "any"}
            if bad:
                o = outs[0][0].copy()
                outs.append((o, "x", ("e", ("bi", "TypeError"), C("int()"))))
            return outs
        return eng.raise_(st, "TypeError", C("int()"))

    def b_float(self, eng, st, a, kw):
        return self.ok(st, C(float(cv(a[0]))) if a and is_num(a[0]) else T("float", *a))

    def b_str(self, eng, st, a, kw):
        if not a:
            return self.ok(st, C(""))
        v = a[0]
        if is_c(v):
            return self.ok(st, C(str(cv(v))) if len(a) == 1 else T("decode", *a))
        if len(a) > 1:
            return self.m_bytes_decode(eng, st, v, a[1:], kw)
        if v[0] in ("s", "t") and st.heads(v) == {"str"}:
            return self.ok(st, v)
        if v[0] == "r" and st.heap[v[1]].kind == "inst":
            f, _ = eng.class_lookup(st, st.heap[v[1]].cls, "__str__")
            if f is not None and f[0] == "f":
                return eng.call(st, ("bm", f, v), [], {})
        return self.ok(st, T("str", eng.deep(st, v)))

    def b_repr(self, eng, st, a, kw):
        return self.ok(st, T("repr", eng.deep(st, a[0])))

    b_ascii = b_repr

    def b_format(self, eng, st, a, kw):
        return self.ok(st, T("fmt", *self.deepargs(eng, st, a, kw)))

    def b_bytes(self, eng, st, a, kw):
        if not a:
            return self.ok(st, C(b""))
        v = eng.force(st, a[0])
        if is_c(v) and v[1] == "bytes":
            return self.ok(st, v)
        if v[0] in ("s", "t") and st.heads(v) == {"bytes"}:
            return self.ok(st, v)
        if v[0] == "t" and v[1] in ("vkey", "sk"):
            return self.ok(st, T("keybytes", v))
        if is_int(v):
            return self.ok(st, C(bytes(cv(v))))
        if len(a) > 1:
            return self.m_str_encode(eng, st, v, a[1:], kw)
        outs = []
        for tag, s, segs in eng.segs_of(st, v):
            if tag == "x":
                outs.append((s, "x", segs))
                continue
            if not all(g[0] == "e" for g in segs):
                outs.append((s, "v", T("bytesq", *(T("q", *g[1:]) if g[0] == "q" else g[1] for g in segs))))
                continue
            cur = [s]
            for g in segs:
                nxt = []
                for s2 in cur:
                    for s3, k3, x in self.typecheck(eng, s2, g[1], NUM - {"float"}, "bytes item"):
                        if k3 != "v":
                            outs.append((s3, k3, x))
                            continue
                        ok = eng.mk_and([eng.mk_not(eng.mk_lt(s3, g[1], C(0))), eng.mk_lt(s3, g[1], C(256))])
                        for s4, b in eng.branch_bool(s3, ok):
                            if b:
                                nxt.append(s4)
                            else:
                                outs += eng.raise_(s4, "ValueError", C("bytes must be in range(0, 256)"))
                cur = nxt
            for s2 in cur:
                vs = [g[1] for g in segs]
                if all(is_c(x) for x in vs):
                    outs.append((s2, "v", C(bytes(int(cv(x)) for x in vs))))
                else:
                    outs.append((s2, "v", T("bytesof", *vs)))
        return outs

    def b_bytearray(self, eng, st, a, kw):
        if a and is_int(a[0]) and cv(a[0]) < 0:
            return eng.raise_(st, "ValueError", C("negative count"))
        return eng.bind(self.b_bytes(eng, st, a, kw), lambda s, v: self.ok(s, s.alloc(LibO("bytearray", v))))

    def b_memoryview(self, eng, st, a, kw):
        return self.ok(st, a[0])

    def b_bytes_fromhex(self, eng, st, a, kw):
        return self.hexdec(eng, st, a[0], ("e", ("bi", "ValueError"), C("fromhex")))

    def b_int_from_bytes(self, eng, st, a, kw):
        order = a[1] if len(a) > 1 else kw.get("byteorder", C("big"))
        v = a[0]
        if is_c(v) and is_c(order):
            return self.ok(st, C(int.from_bytes(cv(v), cv(order))))
        n = eng.const_len(st, v) if v[0] == "t" else None
        if n is not None and n <= 8 and v[1] != "bytesof" and st.heads(v) == {"bytes"}:
            v = T("bytesof", *(eng.index_term(st, v, i) for i in range(n)))
        return self.ok(st, T("frombytes", v, order))

    def b_int_to_bytes(self, eng, st, a, kw):
        return self.m_int_to_bytes(eng, st, a[0], a[1:], kw)

    def b_dict_fromkeys(self, eng, st, a, kw):
        v = a[1] if len(a) > 1 else NONE
        return [(s, "x", g) if tag == "x" else (s, "v", eng.dict_from_pairs(s, tuple(
            ("e", ("tp", x[1], v)) if x[0] == "e" else x[:4] + (("tp", x[4], v),) for x in g))) for tag, s, g in eng.segs_of(
                st, eng.force(st, a[0]))]

    def b_list(self, eng, st, a, kw):
        if not a:
            return self.ok(st, st.alloc(ListO()))
        v = eng.force(st, a[0])
        if v[0] == "r" and st.heap[v[1]].kind == "list":
            return self.ok(st, st.alloc(st.heap[v[1]].rep()))
        if v[0] == "t" and v[1] == "excargs":
            t = T("listof", v)
            st.types[t] = frozenset({("list", ANY)})
            return self.ok(st, t)
        return [(s, "x", g) if tag == "x" else (s, "v", s.alloc(ListO(None, g))) for tag, s, g in eng.segs_of(st, v)]

    def b_tuple(self, eng, st, a, kw):
        if not a:
            return self.ok(st, ("tp",))
        v = eng.force(st, a[0])
        if v[0] == "tp":
            return self.ok(st, v)
        outs = []
        for tag, s, g in eng.segs_of(st, v):
            if tag == "x":
                outs.append((s, "x", g))
            elif all(x[0] == "e" for x in g):
                outs.append((s, "v", ("tp",) + tuple(x[1] for x in g)))
            else:
                outs.append((s, "v", s.alloc(ListO(None, g))))
        return outs

    def b_set(self, eng, st, a, kw):
        return self.set_of(eng, st, a[0]) if a else self.ok(st, st.alloc(SetO()))

    b_frozenset = b_set

    def b_dict(self, eng, st, a, kw):
        ref = st.alloc(DictO())
        outs = self.dict_update(eng, st, ref, a[0]) if a else self.ok(st, NONE)

        def f(s, _):
            for k, v in kw.items():
                if k != "**":
                    eng.ov_put(s, ref, C(k), v)
            if "**" in kw:
                return [(s2, k2, ref if k2 == "v" else v2) for s2, k2, v2 in self.dict_update(eng, s, ref, kw["**"])]
            return self.ok(s, ref)

        return eng.bind(outs, f)

    def b_object(self, eng, st, a, kw):
        return self.ok(st, T("object", st.fresh("obj")))

    def b_iter(self, eng, st, a, kw):
        v = eng.force(st, a[0])
        if v[0] == "r" and (st.heap[v[1]].kind == "iter" and st.heap[v[1]].src is None or st.heap[v[1]].kind == "lib" and st.heap[v[1]].cls == "unpacker"):
            return self.ok(st, v)
        return [(s, "x", g) if tag == "x" else (s, "v", s.alloc(IterO(g))) for tag, s, g in eng.segs_of(st, v)]

    def next_of(self, eng, st, v):
        """First element: [(st,'v',elem)|(st,'x',None)] ; consumes it from an iterator object."""
        ref = v if v[0] == "r" and st.heap[v[1]].kind == "iter" else None
        if ref is not None:
            segs = st.heap[ref[1]].segs
            starts = [("ok", st, segs)]
        else:
            starts = eng.segs_of(st, v)
        outs = []
        for tag, s, segs in starts:
            if tag == "x":
                outs.append((s, "x", segs))
                continue
            cur = s
            done = False
            for i, g in enumerate(segs):
                if g[0] == "e":
                    if ref is not None:
                        cur.put(ref, IterO(segs[i + 1:]))
                    outs.append((cur, "v", g[1]))
                    done = True
                    break
                a = eng.exists_atom(g[1], g[2], g[3], [])
                nxt = None
                for s2, b in eng.branch_bool(cur, a):
                    if not b:
                        nxt = s2
                        continue
                    if g[3] == ("gd",) and g[1][0] in ("s", "t") and s2.heads(g[1]) == {"list"}:
                        e = T("item", g[1], C(0))
                    else:
                        e = s2.fresh("e")
                        eng.symtypes[e] = s2.types_of(g[2])
                    if not eng.assume_elem(s2, e, g[1], ("gd",)):
                        continue
                    s2.facts[T("firstof", g[1], subst(("gd",) + g[3][1:], {g[2]: S("•")}), e)] = True
                    for x in g[3][1:]:
                        s2.assume(eng.simp(s2, subst(eng.guard_atom(x), {g[2]: e})), True)
                    if ref is not None:
                        s2.put(ref, IterO((("q", g[1], g[2], g[3] + (T("g", T("eq", g[2], e), FALSE),), g[4]),) + segs[i + 1:]))
                    outs.append((s2, "v", subst(g[4], {g[2]: e})))
                if nxt is None:
                    done = True
                    break
                cur = nxt
            if not done:
                outs.append((cur, "x", ("e", ("bi", "StopIteration"))))
        return outs

    def b_next(self, eng, st, a, kw):
        v = eng.force(st, a[0])
        if v[0] == "r" and st.heap[v[1]].kind == "inst":
            f, _ = eng.class_lookup(st, st.heap[v[1]].cls, "__next__")
            outs = eng.call(st, ("bm", f, v), [], {}) if f is not None else eng.raise_(st, "TypeError", C("not an iterator"))
        elif v[0] == "r" and st.heap[v[1]].kind == "iter":
            outs = self.next_of(eng, st, v)
        elif v[0] == "r" and st.heap[v[1]].kind == "lib" and st.heap[v[1]].cls == "unpacker":
            outs = self.m_lib___next__(eng, st, v, [], {})
        elif v[0] == "t" and v[1] == "ext":
            return self.ok(st, T("ext", C("next"), v, st.fresh("next")))
        else:
            outs = eng.raise_(st, "TypeError", C("not an iterator"))
        if len(a) > 1:
            outs = [(s, "v", a[1]) if k == "x" and eng.exc_match(s, x, ("bi", "StopIteration")) else (s, k, x) for s, k, x in outs]
        return outs

    def b_enumerate(self, eng, st, a, kw):
        start = a[1] if len(a) > 1 else kw.get("start", C(0))
        outs = []
        for tag, s, segs in eng.segs_of(st, eng.force(st, a[0])):
            if tag == "x":
                outs.append((s, "x", segs))
                continue
            res, exact = [], True
            for i, g in enumerate(segs):
                if g[0] == "e" and exact and is_int(start):
                    res.append(("e", ("tp", C(cv(start) + i), g[1])))
                elif g[0] == "e":
                    res.append(("e", ("tp", T("idx", g[1]), g[1])))
                else:
                    exact = False
                    ix = T("idx", g[2])
                    s.types[ix] = ts("int")
                    res.append(g[:4] + (("tp", ix, g[4]),))
            outs.append((s, "v", s.alloc(IterO(tuple(res)))))
        return outs

    def b_zip(self, eng, st, a, kw):
        def f(s, sls):
            if all(all(g[0] == "e" for g in sl) for sl in sls):
                n = min((len(sl) for sl in sls), default=0)
                return self.ok(s, s.alloc(IterO(tuple(("e", ("tp",) + tuple(sl[i][1] for sl in sls)) for i in range(n)))))
            s.note("unk", "zip of unknown sequences", s.loc)
            ev = s.fresh("zip")
            return self.ok(s, s.alloc(IterO((("q", T("unk", ev), ev, ("gd",), ("tp",) + tuple(T("unk", ev, C(i)) for i in range(
                len(sls)))),))))

        return self.each(eng, st, [eng.force(st, x) for x in a], f)

    def b_map(self, eng, st, a, kw):
        fn = a[0]

        def f(s, sls):
            outs = [(s, "v", ())]
            if len(sls) == 1:
                rows = [(g, (g[1] if g[0] == "e" else g[4],)) for g in sls[0]]
            elif all(all(g[0] == "e" for g in sl) for sl in sls):
                rows = [(("e", NONE), tuple(sl[i][1] for sl in sls)) for i in range(min(len(sl) for sl in sls))]
            else:
                s.note("unk", "map over several sequences", s.loc)
                rows = []
            for g, vals in rows:
                nxt = []
                for s2, k, acc in outs:
                    if k != "v":
                        nxt.append((s2, k, acc))
                        continue
                    if g[0] == "e":
                        nxt += [(s3, k3, acc + (("e", r),) if k3 == "v" else r) for s3, k3, r in eng.call(s2, fn, list(vals), {})]
                        continue
                    b = s2.copy()
                    eng.assume_elem(b, g[2], g[1], g[3])
                    b0 = b.copy()
                    rs = eng.call(b, fn, list(vals), {})
                    vs = [(s3, r) for s3, k3, r in rs if k3 == "v"]
                    new = tuple(g[:3] + (eng.guard_of(s3, b0, g[2], g[1], g[3]), eng.deep(s3, r)) for s3, r in vs)
                    for s3, k3, r in rs:
                        if k3 != "v":
                            s3.note("maybe", "exception in map()", s3.loc)
                            nxt.append((s3, k3, r))
                    nxt.append((s2, "v", acc + new))
                outs = nxt
            return eng.bind(outs, lambda s2, sg: self.ok(s2, s2.alloc(IterO(eng.merge_q(sg)))))

        return self.each(eng, st, [eng.force(st, x) for x in a[1:]], f)

    def b_filter(self, eng, st, a, kw):
        fn = a[0]

        def f(s, sls):
            outs = [(s, "v", ())]
            for g in sls[0]:
                nxt = []
                for s2, k, acc in outs:
                    if k != "v":
                        nxt.append((s2, k, acc))
                        continue
                    x = g[1] if g[0] == "e" else g[4]
                    b = s2 if g[0] == "e" else s2.copy()
                    b0 = b.copy()
                    rs = [(b, "v", x)] if fn == NONE else eng.call(b, fn, [x], {})
                    for s3, k3, r in rs:
                        if k3 != "v":
                            nxt.append((s3, k3, r))
                            continue
                        if g[0] == "e":
                            for s4, t in eng.truth(s3, r):
                                nxt.append((s4, "v", acc + (g,) if t else acc))
                        else:
                            at = eng.truth_atom(s3, r)
                            gd = eng.guard_of(s3, b0, g[2], g[1], g[3])
                            acc = acc + (g[:3] + (gd + (T("g", at, TRUE),), x),)
                    if g[0] == "q":
                        nxt.append((s2, "v", acc))
                outs = nxt
            return eng.bind(outs, lambda s2, sg: self.ok(s2, s2.alloc(IterO(eng.merge_q(sg)))))

        return self.each(eng, st, [eng.force(st, a[1])], f)

    def b_range(self, eng, st, a, kw):
        if all(is_int(x) for x in a):
            r = range(*[cv(x) for x in a])
            if len(r) <= 300:
                return self.ok(st, st.alloc(IterO(tuple(("e", C(i)) for i in r))))
        lo, hi = (C(0), a[0]) if len(a) == 1 else (a[0], a[1])
        src = T("range", *a)
        ev = st.fresh("i")
        eng.symtypes[ev] = ts("int")
        return self.ok(st, st.alloc(IterO((("q", src, ev, ("gd",), ev),))))

    def b_reversed(self, eng, st, a, kw):
        return [(s, "x", g) if tag == "x" else (s, "v", s.alloc(IterO(tuple(reversed(g))))) for tag, s, g in eng.segs_of(
            st, eng.force(st, a[0]))]

    def b_sorted(self, eng, st, a, kw):
        outs = []
        for tag, s, g in eng.segs_of(st, eng.force(st, a[0])):
            if tag == "x":
                outs.append((s, "x", g))
                continue
            if all(x[0] == "e" and is_c(x[1]) for x in g) and not kw:
                g = tuple(sorted(g, key=lambda x: cv(x[1])))
            outs.append((s, "v", s.alloc(ListO(None, g))))
        return outs

    def minmax(self, eng, st, a, kw, name):
        vals = a
        if len(a) == 1:
            outs = []
            for tag, s, g in eng.segs_of(st, eng.force(st, a[0])):
                if tag == "x":
                    outs.append((s, "x", g))
                elif all(x[0] == "e" for x in g) and g:
                    outs += self.minmax(eng, s, [x[1] for x in g], kw, name) if len(g) > 1 else self.ok(s, g[0][1])
                else:
                    outs.append((s, "v", T("unk", C(name), s.fresh(name))))
            return outs
        if all(is_c(x) for x in vals):
            return self.ok(st, C((min if name == "min" else max)(cv(x) for x in vals)))
        cur = [(st, vals[0])]
        for x in vals[1:]:
            nxt = []
            for s, m in cur:
                for s2, b in eng.branch_bool(s, eng.mk_lt(s, x, m) if name == "min" else eng.mk_lt(s, m, x)):
                    nxt.append((s2, x if b else m))
            cur = nxt
        return [(s, "v", m) for s, m in cur]

    def b_min(self, eng, st, a, kw):
        return self.minmax(eng, st, a, kw, "min")

    def b_max(self, eng, st, a, kw):
        return self.minmax(eng, st, a, kw, "max")

    def b_sum(self, eng, st, a, kw):
        outs = []
        for tag, s, g in eng.segs_of(st, eng.force(st, a[0])):
            if tag == "x":
                outs.append((s, "x", g))
                continue
            if not all(x[0] == "e" for x in g):
                outs.append((s, "v", T("sum", *(T("q", *x[1:]) if x[0] == "q" else x[1] for x in g))))
                continue
            acc = a[1] if len(a) > 1 else kw.get("start", C(0))
            cur = [(s, "v", acc)]
            for x in g:
                cur = eng.bind(cur, lambda s2, t: eng.binop(s2, "add", t, x[1]))
            outs += cur
        return outs

    def b_abs(self, eng, st, a, kw):
        return self.ok(st, C(abs(cv(a[0]))) if is_num(a[0]) else T("abs", a[0]))

    def b_round(self, eng, st, a, kw):
        if all(is_num(x) for x in a):
            return self.ok(st, C(round(*[cv(x) for x in a])))
        return self.ok(st, a[0] if self_int(eng, st, a[0]) else T("int", *a))

    def b_divmod(self, eng, st, a, kw):
        return eng.bind(eng.binop(st, "floordiv", a[0], a[1]), lambda s, q: eng.bind(
            eng.binop(s, "mod", a[0], a[1]), lambda s2, r: self.ok(s2, ("tp", q, r))))

    def b_pow(self, eng, st, a, kw):
        return eng.binop(st, "pow", a[0], a[1])

    def b_ord(self, eng, st, a, kw):
        return self.ok(st, C(ord(cv(a[0]))) if is_c(a[0]) else T("ord", a[0]))

    def b_chr(self, eng, st, a, kw):
        return self.ok(st, C(chr(cv(a[0]))) if is_c(a[0]) else T("chr", a[0]))

    def b_hex(self, eng, st, a, kw):
        return self.ok(st, C(hex(cv(a[0]))) if is_c(a[0]) else T("hexstr", a[0]))

    def b_id(self, eng, st, a, kw):
        return self.ok(st, T("id", a[0]))

    def b_hash(self, eng, st, a, kw):
        return self.ok(st, T("hash", eng.deep(st, a[0])))

    def b_callable(self, eng, st, a, kw):
        if a[0][0] in ("f", "bm", "k", "bi", "partial"):
            return self.ok(st, TRUE)
        return self.ok(st, T("boolcall", C("callable"), a[0]))

    def b_getattr(self, eng, st, a, kw):
        if not is_c(a[1]):
            st.note("unk", "dynamic getattr", st.loc)
            return self.ok(st, T("unk", T("getattr", eng.deep(st, a[0]), a[1])))
        outs = eng.getattr(st, a[0], cv(a[1]))
        if len(a) > 2:
            outs = [(s, "v", a[2]) if k == "x" and eng.exc_match(s, v, ("bi", "AttributeError")) else (s, k, v) for s, k, v in outs]
        return outs

    def b_hasattr(self, eng, st, a, kw):
        if not is_c(a[1]):
            return self.ok(st, T("boolcall", C("hasattr"), *a))
        return [(s, "v", C(k == "v")) if k == "v" or eng.exc_match(s, v, ("bi", "AttributeError")) else (s, k, v)
                for s, k, v in eng.getattr(st, a[0], cv(a[1]))]

    def b_setattr(self, eng, st, a, kw):
        if not is_c(a[1]):
            st.note("imprecise", "dynamic setattr", st.loc)
            return self.ok(st, NONE)
        return [(s, "v", NONE) if k == "n" else (s, k, v) for s, k, v in eng.setattr(st, a[0], cv(a[1]), a[2])]

    def b_vars(self, eng, st, a, kw):
        return eng.getattr(st, a[0], "__dict__")

    def b_super(self, eng, st, a, kw):
        if len(a) == 2 and a[0][0] == "k":
            return self.ok(st, ("super", a[0][1], a[1]))
        return eng.raise_(st, "RuntimeError", C("super()"))

    def b_property(self, eng, st, a, kw):
        return self.ok(st, ("prop", a[0] if a else kw.get("fget", NONE), a[1] if len(a) > 1 else kw.get("fset")))

    def b_classmethod(self, eng, st, a, kw):
        return self.ok(st, ("cm", a[0]))

    def b_staticmethod(self, eng, st, a, kw):
        return self.ok(st, ("sm", a[0]))

    def b_property_setter(self, eng, st, a, kw):
        return self.ok(st, ("prop", a[0][1], a[1]))

    def b_object___init__(self, eng, st, a, kw):
        return self.ok(st, NONE)

    def b_object___new__(self, eng, st, a, kw):
        if a and a[0][0] == "k":
            return self.ok(st, st.alloc(InstO(a[0][1], {}, None)))
        return self.ok(st, T("object", st.fresh("obj")))

    def b___attrgetter__(self, eng, st, a, kw):
        return eng.getattr(st, a[1], cv(a[0]))

    def b___itemgetter__(self, eng, st, a, kw):
        return eng.getitem(st, a[1], a[0])

    def m_object___init__(self, eng, st, v, a, kw):
        return self.ok(st, NONE)

    def m_object___setattr__(self, eng, st, v, a, kw):
        ob = st.heap[v[1]] if v[0] == "r" else None
        if ob is None or not is_c(a[0]):
            st.note("imprecise", "object.__setattr__", st.loc)
            return self.ok(st, NONE)
        st.put(v, InstO(ob.cls, {**ob.fields, cv(a[0]): a[1]}, ob.base))
        return self.ok(st, NONE)

    def b_object___setattr__(self, eng, st, a, kw):
        return self.m_object___setattr__(eng, st, a[0], a[1:], kw)

    def m_object___str__(self, eng, st, v, a, kw):
        return self.ok(st, T("str", eng.deep(st, v)))

    def m_object___eq__(self, eng, st, v, a, kw):
        return self.ok(st, eng.is_atom(st, v, a[0]))

    def m_exc___init__(self, eng, st, v, a, kw):
        o = st.heap[v[1]]
        args = eng.mk_list(st, a) if any(x[0] == "star" for x in a) else ("tp",) + tuple(a)
        st.put(v, InstO(o.cls, {**o.fields, "args": args}, o.base))
        return self.ok(st, NONE)

    def m_nt__replace(self, eng, st, v, a, kw):
        o = st.heap[v[1]]
        return self.ok(st, st.alloc(InstO(o.cls, {**o.fields, **kw}, None)))

    # ------------------------------------------------------------------ outside the package
    def external(self, eng, st, dotted, args, kw):
        f = getattr(self, "x_" + dotted.replace(".", "_"), None)
        a = [eng.plain(st, x) for x in args]
        kw = {k: eng.plain(st, x) if isinstance(x, tuple) else x for k, x in kw.items()}
        if f is not None:
            return f(eng, st, a, kw)
        if dotted.startswith("secrets.SystemRandom()."):
            return self._sysrand(eng, st, dotted, a, kw)
        if dotted in EXT_EXC or (dotted.split(".")[-1].endswith(("Error", "Exception")) and dotted[0] != "_"):
            return self.ok(st, ("e", ("x", dotted)) + tuple(a))
        if dotted in ("typing.cast",):
            return self.ok(st, a[1])
        self.ext_event(eng, st, dotted, a, kw)
        if dotted.startswith(("random.", "time.", "datetime.", "uuid.", "secrets.", "os.urandom")):
            return self.ok(st, T("ext", C(dotted), st.fresh(dotted), *self.deepargs(eng, st, a, kw)))
        t = T("ext", C(dotted), *self.deepargs(eng, st, a, kw))
        if dotted.startswith(PURE):
            # a deterministic library function this analysis has no model of: its result is not known
            st.note("unk", "unmodelled " + dotted, st.loc)
        if dotted.startswith(NORAISE):
            return self.ok(st, t)
        o = st.copy()
        st.note("ext", dotted, st.loc)
        o.facts[T("extraise", C(dotted), C(str(st.loc)))] = True
        return [(st, "v", t), (o, "x", ("e", ("x", "?any"), C(dotted)))]

    def x_contextlib_suppress(self, eng, st, a, kw):
        return self.ok(st, ("suppress",) + tuple(a))

    def x_contextlib_nullcontext(self, eng, st, a, kw):
        return self.ok(st, T("ext", C("nullcontext")))

    def x_functools_partial(self, eng, st, a, kw):
        return self.ok(st, ("partial", a[0], tuple(a[1:]), tuple(kw.items())))

    def x_functools_partialmethod(self, eng, st, a, kw):
        return self.ok(st, ("partialmethod", a[0], tuple(a[1:]), tuple(kw.items())))

    def x_functools_wraps(self, eng, st, a, kw):
        return self.ok(st, ("bi", "__identity__"))

    def b___identity__(self, eng, st, a, kw):
        return self.ok(st, a[0])

    def x_functools_lru_cache(self, eng, st, a, kw):
        return self.ok(st, a[0] if a and a[0][0] == "f" else ("bi", "__identity__"))

    x_functools_cache = x_functools_lru_cache

    def x_functools_reduce(self, eng, st, a, kw):
        def f(s, sls):
            segs = sls[0]
            if not all(g[0] == "e" for g in segs):
                s.note("unk", "reduce", s.loc)
                return self.ok(s, T("unk", s.fresh("reduce")))
            vals = [g[1] for g in segs]
            if len(a) > 2:
                acc = a[2]
            elif vals:
                acc = vals.pop(0)
            else:
                return eng.raise_(s, "TypeError", C("reduce"))
            outs = [(s, "v", acc)]
            for x in vals:
                outs = eng.bind(outs, lambda s2, t: eng.call(s2, a[0], [t, x], {}))
            return outs

        return self.each(eng, st, [eng.force(st, a[1])], f)

    def x_itertools_chain(self, eng, st, a, kw):
        return self.each(eng, st, [eng.force(st, x) for x in a], lambda s, sls: self.ok(s, s.alloc(IterO(sum(sls, ())))))

    def x_operator_attrgetter(self, eng, st, a, kw):
        return self.ok(st, ("partial", ("bi", "__attrgetter__"), (a[0],), ()))

    def x_operator_itemgetter(self, eng, st, a, kw):
        return self.ok(st, ("partial", ("bi", "__itemgetter__"), (a[0],), ()))

    def _opf(op):
        def f(self, eng, st, a, kw):
            return eng.binop(st, op, a[0], a[1])

        return f

    x_operator_or_, x_operator_and_, x_operator_add, x_operator_lshift, x_operator_rshift, x_operator_sub, x_operator_mul = map(
        _opf, ("bitor", "bitand", "add", "shl", "shr", "sub", "mul"))
    x_operator_floordiv, x_operator_mod, x_operator_xor, x_operator_truediv, x_operator_pow = map(
        _opf, ("floordiv", "mod", "bitxor", "div", "pow"))

    def _cmp(op):
        def f(self, eng, st, a, kw):
            return eng.compare(st, op(), a[0], a[1])

        return f

    x_operator_ne, x_operator_lt, x_operator_le, x_operator_gt, x_operator_ge, x_operator_is_, x_operator_is_not = map(
        _cmp, (_ast.NotEq, _ast.Lt, _ast.LtE, _ast.Gt, _ast.GtE, _ast.Is, _ast.IsNot))

    def x_operator_contains(self, eng, st, a, kw):
        return eng.compare(st, _ast.In(), a[1], a[0])

    def x_operator_getitem(self, eng, st, a, kw):
        return eng.getitem(st, a[0], a[1])

    def x_operator_not_(self, eng, st, a, kw):
        return [(s, "v", C(not b)) for s, b in eng.truth(st, a[0])]

    def x_operator_truth(self, eng, st, a, kw):
        return [(s, "v", C(b)) for s, b in eng.truth(st, a[0])]

    def x_operator_eq(self, eng, st, a, kw):
        return eng.equals(st, a[0], a[1])

    def x_dataclasses_field(self, eng, st, a, kw):
        return self.ok(st, ("dcfield", kw.get("default"), kw.get("default_factory")))

    def x_dataclasses_dataclass(self, eng, st, a, kw):
        return self.ok(st, a[0] if a else ("x", "dataclasses.dataclass"))

    def x_dataclasses_replace(self, eng, st, a, kw):
        v = eng.force(st, a[0])
        o = st.heap[v[1]]
        fl = {}
        for f in eng.classes[o.cls].fields:
            (s, k, x), = eng.getattr(st, v, f)
            fl[f] = x
        return self.ok(st, st.alloc(InstO(o.cls, {**fl, **kw}, None)))

    def x_dataclasses_fields(self, eng, st, a, kw):
        c = self.dc_class(eng, st, a[0])
        if c is None:
            return eng.raise_(st, "TypeError", C("not a dataclass"))
        return self.ok(st, ("tp",) + tuple(T("dcf", C(f)) for f in eng.classes[c].fields))

    def dc_class(self, eng, st, v):
        v = eng.force(st, v)
        c = v[1] if v[0] == "k" else st.heap[v[1]].cls if v[0] == "r" and st.heap[v[1]].kind == "inst" else None
        return c if c in eng.classes and eng.classes[c].dataclass else None

    def dc_fields(self, eng, st, v, make, depth=0):
        """dataclasses.asdict and astuple: the fields by name, nested dataclasses and containers converted too."""
        c = self.dc_class(eng, st, v) if v[0] != "k" else None
        if c is None:
            if depth == 0:
                return eng.raise_(st, "TypeError", C("asdict() should be called on dataclass instances"))
            v = eng.force(st, v)
            o = st.heap[v[1]] if v[0] == "r" else None
            if o is not None and o.kind in ("list", "dict", "set"):
                items = [g[1] if g[0] == "e" else g[4] for g in o.segs] if o.kind == "list" else [e[1] for e in o.ov if e[1] != DEL]
                if any(self.dc_class(eng, st, x) for x in items):
                    st.note("unk", "nested dataclasses in a container", st.loc)
                return self.ok(st, st.alloc(o.rep()))
            return self.ok(st, v)
        names = list(eng.classes[c].fields)
        outs, cur = [], [(st, ())]
        for f in names:
            nxt = []
            for s, vals in cur:
                for s2, k, x in eng.bind(eng.getattr(s, v, f), lambda s3, y: self.dc_fields(eng, s3, y, make, depth + 1)):
                    if k == "v":
                        nxt.append((s2, vals + (x,)))
                    else:
                        outs.append((s2, k, x))
            cur = nxt
        return outs + [(s, "v", make(s, names, vals)) for s, vals in cur]

    def x_dataclasses_asdict(self, eng, st, a, kw):
        def make(s, names, vals):
            return s.alloc(DictO(None, tuple((C(n), x, s.loc, None) for n, x in zip(names, vals))))

        if "dict_factory" in kw or len(a) > 1:
            st.note("unk", "dict_factory", st.loc)
        return self.dc_fields(eng, st, a[0], make)

    def x_dataclasses_astuple(self, eng, st, a, kw):
        return self.dc_fields(eng, st, a[0], lambda s, names, vals: ("tp",) + tuple(vals))

    def x_dataclasses_is_dataclass(self, eng, st, a, kw):
        return self.ok(st, C(self.dc_class(eng, st, a[0]) is not None))

    def x_enum_auto(self, eng, st, a, kw):
        return self.ok(st, ("x", "enum.auto()"))

    def x_copy_copy(self, eng, st, a, kw):
        v = eng.force(st, a[0])
        if v[0] == "r":
            o = st.heap[v[1]]
            if o.kind == "inst":
                if o.base is not None:
                    for n in eng.classes[o.cls].attr_types:
                        eng.getattr(st, v, n)
                    o = st.heap[v[1]]
            return self.ok(st, st.alloc(o.rep()))
        return self.ok(st, v)

    x_copy_deepcopy = x_copy_copy

    def x_collections_defaultdict(self, eng, st, a, kw):
        return self.ok(st, st.alloc(DictO(default=a[0] if a and a[0] != NONE else None)))

    def x_collections_OrderedDict(self, eng, st, a, kw):
        return self.b_dict(eng, st, a, kw)

    def x_collections_deque(self, eng, st, a, kw):
        return self.b_list(eng, st, a[:1], {})

    def x_types_MappingProxyType(self, eng, st, a, kw):
        return self.ok(st, a[0])

    def x_typing_TypeVar(self, eng, st, a, kw):
        return self.ok(st, ("x", "typing.Any"))

    x_typing_NewType = x_typing_TypeVar

    # math ------------------------------------------------------------------------------------------
    def x_math_log2(self, eng, st, a, kw):
        v = a[0]
        if is_num(v):
            try:
                return self.ok(st, C(_math.log2(cv(v))))
            except ValueError:
                return eng.raise_(st, "ValueError", C("math domain error"))
        if v[0] == "t" and v[1] == "shl" and v[2] == C(1):
            return self.ok(st, v[3])
        if v[0] == "t" and v[1] == "pow" and v[2] == C(2):
            return self.ok(st, v[3])
        outs = []
        for s, b in eng.branch_bool(st, eng.mk_lt(st, C(0), v)):
            outs += self.ok(s, T("log2f", v)) if b else eng.raise_(s, "ValueError", C("math domain error"))
        return outs

    def x_math_floor(self, eng, st, a, kw):
        return self.b_int(eng, st, a, kw)

    x_math_ceil = x_math_trunc = x_math_floor

    def x_math_log(self, eng, st, a, kw):
        if len(a) > 1 and a[1] == C(2):
            return self.x_math_log2(eng, st, a[:1], kw)
        return self.ok(st, T("ext", C("math.log"), *a))

    # randomness ------------------------------------------------------------------------------------
    def fresh_int(self, eng, st, src, lo, hi):
        v = st.fresh(src)
        eng.symtypes[v] = ts("int")
        if is_c(lo) and is_c(hi):
            st.iv[v] = (cv(lo), cv(hi))
        return v

    def fresh_bytes(self, eng, st, src, n):
        v = st.fresh(src)
        eng.symtypes[v] = ts("bytes")
        if is_int(n):
            st.iv[T("len", v)] = (cv(n), cv(n))
        return v

    def x_random_randint(self, eng, st, a, kw):
        return self.ok(st, self.fresh_int(eng, st, "random.randint", a[0], a[1]))

    def x_random_randrange(self, eng, st, a, kw):
        lo, hi = (C(0), a[0]) if len(a) == 1 else (a[0], a[1])
        return self.ok(st, self.fresh_int(eng, st, "random.randrange", lo, C(cv(hi) - 1) if is_c(hi) else hi))

    def x_random_getrandbits(self, eng, st, a, kw):
        return self.ok(st, self.fresh_int(eng, st, "random.getrandbits", C(0), C((1 << cv(a[0])) - 1) if is_int(a[0]) else a[0]))

    def x_random_SystemRandom(self, eng, st, a, kw):
        return self.ok(st, ("x", "secrets.SystemRandom()"))

    x_secrets_SystemRandom = x_random_SystemRandom

    def _sysrand(self, eng, st, dotted, a, kw):
        m = dotted.rsplit(".", 1)[1]
        if m == "randint":
            return self.ok(st, self.fresh_int(eng, st, "csprng.randint", a[0], a[1]))
        if m == "randbytes":
            return self.ok(st, self.fresh_bytes(eng, st, "csprng.randbytes", a[0]))
        if m == "getrandbits":
            return self.ok(st, self.fresh_int(eng, st, "csprng.getrandbits", C(0), C((1 << cv(a[0])) - 1)))
        if m == "randrange":
            lo, hi = (C(0), a[0]) if len(a) == 1 else (a[0], a[1])
            return self.ok(st, self.fresh_int(eng, st, "csprng.randrange", lo, C(cv(hi) - 1) if is_c(hi) else hi))
        return self.ok(st, T("ext", C(dotted), st.fresh("csprng." + m)))

    def x_random_randbytes(self, eng, st, a, kw):
        return self.ok(st, self.fresh_bytes(eng, st, "random.randbytes", a[0]))

    def x_secrets_token_bytes(self, eng, st, a, kw):
        return self.ok(st, self.fresh_bytes(eng, st, "csprng.token_bytes", a[0] if a and a[0] != NONE else C(32)))

    def x_os_urandom(self, eng, st, a, kw):
        return self.ok(st, self.fresh_bytes(eng, st, "csprng.urandom", a[0]))

    def x_secrets_token_hex(self, eng, st, a, kw):
        return self.ok(st, T("decode", T("hexenc", self.fresh_bytes(eng, st, "csprng.token_hex", a[0] if a and a[0] != NONE else C(32)))))

    def x_secrets_token_urlsafe(self, eng, st, a, kw):
        return self.ok(st, T("decode", T("b64u_enc", self.fresh_bytes(eng, st, "csprng.token_urlsafe", a[0] if a else C(32)))))

    def x_secrets_randbelow(self, eng, st, a, kw):
        return self.ok(st, self.fresh_int(eng, st, "csprng.randbelow", C(0), C(cv(a[0]) - 1) if is_c(a[0]) else a[0]))

    def x_secrets_randbits(self, eng, st, a, kw):
        return self.ok(st, self.fresh_int(eng, st, "csprng.randbits", C(0), C((1 << cv(a[0])) - 1) if is_c(a[0]) else a[0]))

    def x_nacl_utils_random(self, eng, st, a, kw):
        return self.ok(st, self.fresh_bytes(eng, st, "csprng.nacl", a[0] if a else C(32)))

    def x_nacl_public_random(self, eng, st, a, kw):
        return self.x_nacl_utils_random(eng, st, a, kw)

    # encodings -------------------------------------------------------------------------------------
    def str_or_bytes(self, eng, st, v, f, heads=frozenset({"str", "bytes"}), what="argument type"):
        return eng.bind(self.typecheck(eng, st, v, set(heads), what), f)

    def x_binascii_hexlify(self, eng, st, a, kw):
        def f(s, v):
            return self.ok(s, C(_ba.hexlify(cv(v))) if is_c(v) else T("hexenc", v))

        return self.str_or_bytes(eng, st, a[0], f, {"bytes"})

    x_binascii_b2a_hex = x_binascii_hexlify

    def ascii(self, st, v, f):
        """A str argument of the decoders has to be ASCII."""
        if st.heads(v) != {"str"}:
            return f(st)
        outs = []
        for s, b in st.branch(T("boolcall", C("isascii"), v)):
            outs += f(s) if b else [(s, "x", ("e", ("bi", "ValueError"), C("string argument should contain only ASCII characters")))]
        return outs

    def hexdec(self, eng, st, v, exc):
        def f(s, v):
            if is_c(v):
                try:
                    return self.ok(s, C(_ba.unhexlify(cv(v))))
                except Exception:
                    return [(s, "x", exc)]
            w = v
            if w[0] == "t" and w[1] in ("decode", "encode") and len(w) == 3:
                w = w[2]
            if w[0] == "t" and w[1] == "hexenc":
                return self.ok(s, w[2])
            return self.ascii(s, v, lambda s2: self.split(s2, T("boolcall", C("ishex"), w), T("hexdec", w), exc))

        return self.str_or_bytes(eng, st, v, f)

    def x_binascii_unhexlify(self, eng, st, a, kw):
        return self.hexdec(eng, st, a[0], ("e", ("x", "binascii.Error"), C("non-hexadecimal")))

    x_binascii_a2b_hex = x_binascii_unhexlify

    def x_base64_b64encode(self, eng, st, a, kw):
        def f(s, v):
            return self.ok(s, C(_b64.b64encode(cv(v))) if is_c(v) else T("b64enc", v))

        return self.str_or_bytes(eng, st, a[0], f, {"bytes"})

    x_base64_standard_b64encode = x_base64_b64encode

    def x_binascii_b2a_base64(self, eng, st, a, kw):
        def f(s, v):
            return self.ok(s, T("b64enc", v) if kw.get("newline") == FALSE else eng.concat([T("b64enc", v), C(b"\n")]))

        return self.str_or_bytes(eng, st, a[0], f, {"bytes"})

    def x_base64_b64decode(self, eng, st, a, kw):
        val = a[2] if len(a) > 2 else kw.get("validate", FALSE)

        def f(s, v):
            w = v
            if w[0] == "t" and w[1] in ("decode", "encode") and len(w) == 3:
                w = w[2]
            if w[0] == "t" and w[1] == "b64enc":
                return self.ok(s, w[2])
            if is_c(w):
                try:
                    return self.ok(s, C(_b64.b64decode(cv(w))))
                except Exception:
                    return [(s, "x", ("e", ("x", "binascii.Error"), C("base64")))]
            return self.ascii(s, v, lambda s2: self.split(
                s2, T("boolcall", C("isb64"), w, val), T("b64dec", w), ("e", ("x", "binascii.Error"), C("base64"))))

        return self.str_or_bytes(eng, st, a[0], f)

    x_base64_standard_b64decode = x_base64_b64decode
    x_binascii_a2b_base64 = x_base64_b64decode

    # hashes ----------------------------------------------------------------------------------------
    def digestname(self, eng, v):
        if is_c(v) and isinstance(cv(v), str):
            return C(cv(v).lower().replace("-", ""))
        if v[0] == "x" and v[1].startswith("hashlib."):
            return C(v[1].split(".", 1)[1].lower())
        return v

    def x_hmac_new(self, eng, st, a, kw):
        key = a[0] if a else kw["key"]
        msg = a[1] if len(a) > 1 else kw.get("msg", C(b""))
        dg = a[2] if len(a) > 2 else kw.get("digestmod", NONE)
        if msg == NONE:
            msg = C(b"")
        if dg == NONE or dg == C(""):
            return eng.raise_(st, "TypeError", C("digestmod"))

        def f(s, k):
            return eng.bind(self.typecheck(eng, s, msg, {"bytes"}, "hmac message"), lambda s2, m: self.ok(
                s2, s2.alloc(LibO("hmac", T("hmacobj", k, m, self.digestname(eng, dg))))))

        return eng.bind(self.typecheck(eng, st, key, {"bytes"}, "hmac key"), f)

    LIBSIZE = {"sha256": 32, "sha1": 20, "sha512": 64, "md5": 16, "sha384": 48, "sha224": 28}

    def lib_attr(self, eng, st, v, o, name):
        """Attributes of hmac, hashlib and bytearray objects."""
        if o.cls == "bytearray":
            if name in ("append", "extend", "clear", "reverse", "insert", "pop", "remove", "copy", "__setitem__", "__iadd__"):
                return [(st, "v", ("bm", ("bi", f"lib.{name}"), v))]
            return eng.getattr(st, o.term, name)
        if o.cls in self.CODECS:
            if name in self.CODECS[o.cls]:
                return [(st, "v", ("bm", ("bi", f"lib.{name}"), v))]
            st.note("unk", f"{name} of {o.cls}", st.loc)
            return self.ok(st, T("ext", C(f"{o.cls}.{name}"), st.fresh(name)))
        dg = o.term[4] if o.term[0] == "t" and o.term[1] == "hmacobj" else o.term[2] if o.term[1] == "hashobj" else NONE
        if name in ("update", "digest", "hexdigest", "copy"):
            return [(st, "v", ("bm", ("bi", f"lib.{name}"), v))]
        if name == "digest_size" and is_c(dg) and cv(dg) in self.LIBSIZE:
            return self.ok(st, C(self.LIBSIZE[cv(dg)]))
        if name == "name" and is_c(dg):
            return self.ok(st, C(("hmac-" if o.cls == "hmac" else "") + cv(dg)))
        if name == "block_size":
            return self.ok(st, T("attr", o.term, C(name)))
        return eng.raise_(st, "AttributeError", C(name))

    CODECS = {"unpacker": ("feed", "unpack", "__next__"), "packer": ("pack",), "jsonenc": ("encode",), "jsondec": ("decode", "raw_decode"),
              "cbordec": ("decode",), "bytesio": ("read", "getvalue", "write", "getbuffer", "close", "__enter__", "__exit__")}

    def x_msgpack_Packer(self, eng, st, a, kw):
        return self.ok(st, st.alloc(LibO("packer", self.options(eng, st, a, kw))))

    def x_json_JSONEncoder(self, eng, st, a, kw):
        return self.ok(st, st.alloc(LibO("jsonenc", self.options(eng, st, a, kw))))

    def x_json_JSONDecoder(self, eng, st, a, kw):
        return self.ok(st, st.alloc(LibO("jsondec", self.options(eng, st, a, kw))))

    def options(self, eng, st, a, kw):
        """The options of a codec object, as the deep arguments that follow the value in a dumps / loads term."""
        return T("opts", *self.deepargs(eng, st, a, kw))

    def x_msgpack_Unpacker(self, eng, st, a, kw):
        if a or "file_like" in kw:
            st.note("unk", "msgpack.Unpacker of a file", st.loc)
        return self.ok(st, st.alloc(LibO("unpacker", T("opts", C(b""), *self.deepargs(eng, st, [], kw)))))

    def x_io_BytesIO(self, eng, st, a, kw):
        return eng.bind(self.typecheck(eng, st, a[0] if a else C(b""), {"bytes"}, "initial bytes"),
                        lambda s, v: self.ok(s, s.alloc(LibO("bytesio", v))))

    def stream(self, st, v):
        return st.heap[v[1]].term if v[0] == "r" and st.heap[v[1]].kind == "lib" and st.heap[v[1]].cls == "bytesio" else None

    def x_cbor2_load(self, eng, st, a, kw):
        data = self.stream(st, a[0])
        if data is None:
            st.note("unk", "cbor2.load of a file", st.loc)
            return self.ok(st, T("ext", C("cbor2.load"), st.fresh("load")))
        st.put(a[0], st.heap[a[0][1]].rep(term=T("ext", C("rest"), data)))
        return self.x_cbor2_loads(eng, st, [data] + list(a[1:]), kw)

    def x_cbor2_CBORDecoder(self, eng, st, a, kw):
        data = self.stream(st, a[0])
        if data is None:
            st.note("unk", "cbor2.CBORDecoder of a file", st.loc)
            data = T("ext", C("read"), st.fresh("read"))
        return self.ok(st, st.alloc(LibO("cbordec", T("opts", data, *self.deepargs(eng, st, a[1:], kw)))))

    def x_cbor2_dump(self, eng, st, a, kw):
        old = self.stream(st, a[1])
        if old is None:
            st.note("unk", "cbor2.dump to a file", st.loc)
            return self.ok(st, NONE)
        new = T("cbor_dumps", *self.deepargs(eng, st, [a[0]] + list(a[2:]), kw))
        st.put(a[1], st.heap[a[1][1]].rep(term=new if old == C(b"") else eng.concat([old, new])))
        return self.ok(st, NONE)

    def m_lib_pack(self, eng, st, d, a, kw):
        return self.ok(st, T("msgpack_dumps", *self.deepargs(eng, st, a, kw), *st.heap[d[1]].term[2:]))

    def m_lib_encode(self, eng, st, d, a, kw):
        return self.ok(st, T("json_dumps", *self.deepargs(eng, st, a, kw), *st.heap[d[1]].term[2:]))

    def m_lib_feed(self, eng, st, d, a, kw):
        def f(s, m):
            t = s.heap[d[1]].term
            s.put(d, s.heap[d[1]].rep(term=t[:2] + (m if t[2] == C(b"") else eng.concat([t[2], m]),) + t[3:]))
            return self.ok(s, NONE)

        return eng.bind(self.typecheck(eng, st, a[0], {"bytes"}, "data"), f)

    def first(self, eng, st, op, data, more, exc):
        """The first value of a stream: what follows it is not looked at."""
        t = T(op, data, *more)
        st.types[t] = WIRE_TS
        return self.split(st, T("boolcall", C(op + "_ok"), data), t, exc)

    def m_lib_unpack(self, eng, st, d, a, kw):
        o = st.heap[d[1]]
        st.put(d, o.rep(term=o.term[:2] + (T("ext", C("rest"), o.term[2]),) + o.term[3:]))
        return self.first(eng, st, "msgpack_first", o.term[2], o.term[3:], ("e", ("x", "?decode"), C("msgpack")))

    def m_lib___next__(self, eng, st, d, a, kw):
        o = st.heap[d[1]]
        st.put(d, o.rep(term=o.term[:2] + (T("ext", C("rest"), o.term[2]),) + o.term[3:]))
        return self.first(eng, st, "msgpack_first", o.term[2], o.term[3:], ("e", ("bi", "StopIteration")))

    def m_lib_decode(self, eng, st, d, a, kw):
        o = st.heap[d[1]]
        if o.cls == "cbordec":
            st.put(d, o.rep(term=o.term[:2] + (T("ext", C("rest"), o.term[2]),) + o.term[3:]))
            if o.term[2][0] == "t" and o.term[2][1] == "ext":
                st.note("unk", "reading on from a CBOR stream", st.loc)
            t = T("cbor_loads", *o.term[2:])
            st.types[t] = WIRE_TS
            return self.split(st, T("boolcall", C("cbor_loads_ok"), o.term[2]), t, ("e", ("x", "?decode"), C("cbor2")))

        def f(s, v):
            if v[0] == "t" and v[1] == "decode" and len(v) == 3:
                v = v[2]
            t = T("json_loads", v, *o.term[2:])
            s.types[t] = WIRE_TS
            return self.split(s, T("boolcall", C("json_loads_ok"), v), t, ("e", ("x", "json.JSONDecodeError")))

        return eng.bind(self.typecheck(eng, st, a[0], {"str"}, "JSON text"), f)

    def m_lib_raw_decode(self, eng, st, d, a, kw):
        o = st.heap[d[1]]
        return eng.bind(self.typecheck(eng, st, a[0], {"str"}, "JSON text"), lambda s, v: eng.bind(
            self.first(eng, s, "json_first", v, (*self.deepargs(eng, s, a[1:], kw), *o.term[2:]), ("e", ("x", "json.JSONDecodeError"))),
            lambda s2, t: self.ok(s2, ("tp", t, T("ext", C("end of"), t)))))

    def m_lib_getvalue(self, eng, st, d, a, kw):
        return self.ok(st, st.heap[d[1]].term)

    m_lib_getbuffer = m_lib_getvalue

    def m_lib_close(self, eng, st, d, a, kw):
        return self.ok(st, NONE)

    def m_lib___enter__(self, eng, st, d, a, kw):
        return self.ok(st, d)

    def m_lib___exit__(self, eng, st, d, a, kw):
        return self.ok(st, FALSE)

    def m_lib_read(self, eng, st, d, a, kw):
        o = st.heap[d[1]]
        if a:
            st.note("unk", "BytesIO.read(n)", st.loc)
            return self.ok(st, T("ext", C("read"), st.fresh("read")))
        st.put(d, o.rep(term=C(b"")))
        return self.ok(st, o.term)

    def m_lib_write(self, eng, st, d, a, kw):
        o = st.heap[d[1]]
        st.put(d, o.rep(term=a[0] if o.term == C(b"") else eng.concat([o.term, a[0]])))
        return self.ok(st, eng.len_term(st, a[0]))

    def m_lib_update(self, eng, st, d, a, kw):
        o = st.heap[d[1]]
        if not a and "msg" not in kw:
            return eng.raise_(st, "TypeError", C("update"))

        def f(s, m):
            t = s.heap[d[1]].term
            i = {"hmacobj": 3, "hashobj": 3}.get(t[1])
            if i is not None:
                new = eng.concat([t[i], m])
                new = C(b"") if new == C("") else new
                t = t[:i] + (new,) + t[i + 1:]
            s.put(d, o.rep(term=t))
            return self.ok(s, NONE)

        return eng.bind(self.typecheck(eng, st, a[0] if a else kw["msg"], {"bytes"}, "message to hash"), f)

    def m_lib_append(self, eng, st, d, a, kw):
        return eng.bind(self.b_bytes(eng, st, [("tp", a[0])], {}), lambda s, b: self.m_lib_extend(eng, s, d, [b], {}))

    def m_lib_extend(self, eng, st, d, a, kw):
        def f(s, b):
            o = s.heap[d[1]]
            t = eng.concat([o.term, b])
            s.put(d, o.rep(term=C(b"") if t == C("") else t))
            return self.ok(s, NONE)

        if is_int(a[0]):
            return eng.raise_(st, "TypeError", C("can't concat int to bytearray"))
        return eng.bind(self.b_bytes(eng, st, [a[0]], {}), f)

    m_lib___iadd__ = m_lib_extend

    def m_lib_clear(self, eng, st, d, a, kw):
        st.put(d, st.heap[d[1]].rep(term=C(b"")))
        return self.ok(st, NONE)

    def lib_other(self, eng, st, d, a, name):
        """A change to a bytearray that is not modelled: its contents are unknown from here on."""
        o = st.heap[d[1]]
        v = T("mcall", o.term, C(name), *self.deepargs(eng, st, a, {}))
        st.put(d, o.rep(term=T("unk", S(f"bytearray.{name}"), v)))
        st.types[st.heap[d[1]].term] = ts("bytes")
        st.note("unk", f"bytearray.{name}()", st.loc)
        return self.ok(st, NONE)

    def m_lib_insert(self, eng, st, d, a, kw):
        return self.lib_other(eng, st, d, a, "insert")

    def m_lib_pop(self, eng, st, d, a, kw):
        return self.lib_other(eng, st, d, a, "pop")

    def m_lib_remove(self, eng, st, d, a, kw):
        return self.lib_other(eng, st, d, a, "remove")

    def m_lib_reverse(self, eng, st, d, a, kw):
        return self.lib_other(eng, st, d, a, "reverse")

    def m_lib___setitem__(self, eng, st, d, a, kw):
        o = st.heap[d[1]]
        if o.cls != "bytearray":
            return eng.raise_(st, "TypeError", C("item assignment"))
        t = o.term
        xs = [C(b) for b in cv(t)] if is_c(t) else list(t[2:]) if t[0] == "t" and t[1] == "bytesof" else None
        if xs is None or not is_int(a[0]):
            return self.lib_other(eng, st, d, a, "setitem")
        if not -len(xs) <= cv(a[0]) < len(xs):
            return eng.raise_(st, "IndexError", C("bytearray index out of range"))

        def f(s, b):
            xs[cv(a[0])] = C(cv(b)[0]) if is_c(b) else b[2]
            return eng.bind(self.b_bytes(eng, s, [("tp",) + tuple(xs)], {}), lambda s2, t2: (
                s2.put(d, o.rep(term=t2)), self.ok(s2, NONE))[1])

        return eng.bind(self.b_bytes(eng, st, [("tp", a[1])], {}), f)

    def m_lib_copy(self, eng, st, d, a, kw):
        return self.ok(st, st.alloc(st.heap[d[1]].rep()))

    def m_lib_digest(self, eng, st, d, a, kw):
        t = st.heap[d[1]].term
        if t[1] == "unk":
            return self.ok(st, t)
        return self.ok(st, T("hmac" if t[1] == "hmacobj" else "digest", *t[2:]))

    def m_lib_hexdigest(self, eng, st, d, a, kw):
        return eng.bind(self.m_lib_digest(eng, st, d, a, kw), lambda s, v: self.ok(s, T("decode", T("hexenc", v))))

    x_hmac_HMAC = x_hmac_new

    def x_hmac_digest(self, eng, st, a, kw):
        g = lambda i, n: a[i] if len(a) > i else kw[n]
        return self.ok(st, T("hmac", g(0, "key"), g(1, "msg"), self.digestname(eng, g(2, "digest"))))

    def x_hmac_compare_digest(self, eng, st, a, kw):
        x, y = a[0], a[1]
        if x == y:
            return self.ok(st, TRUE)
        if repr(x) > repr(y):
            x, y = y, x
        st.events += (("cteq", x, y, st.loc),)
        return self.ok(st, T("cteq", x, y))

    x_secrets_compare_digest = x_hmac_compare_digest

    def x_hashlib_pbkdf2_hmac(self, eng, st, a, kw):
        g = lambda i, n: a[i] if len(a) > i else kw.get(n, NONE)
        n = self.digestname(eng, g(0, "hash_name"))
        return self.ok(st, T("pbkdf2", n, g(1, "password"), g(2, "salt"), g(3, "iterations"), g(4, "dklen")))

    def hashobj(self, eng, st, name, a):
        return eng.bind(self.typecheck(eng, st, a[0] if a else C(b""), {"bytes"}, "message to hash"), lambda s, m: self.ok(
            s, s.alloc(LibO("hash", T("hashobj", C(name), m)))))

    def x_hashlib_sha256(self, eng, st, a, kw):
        return self.hashobj(eng, st, "sha256", a)

    def x_hashlib_new(self, eng, st, a, kw):
        return self.hashobj(eng, st, cv(self.digestname(eng, a[0])), a[1:])

    # codecs ----------------------------------------------------------------------------------------
    def dumps(self, eng, st, op, a, kw):
        return self.ok(st, T(op, *self.deepargs(eng, st, a, kw)))

    def loads(self, eng, st, op, a, kw, exc, heads):
        def f(s, v):
            if op == "json_loads" and v[0] == "t" and v[1] in ("decode", "encode") and len(v) == 3:
                v = v[2]  # JSON reads a text and its UTF-8 bytes alike
            t = T(op, v, *self.deepargs(eng, s, a[1:], kw))
            s.types[t] = WIRE_TS
            return self.split(s, T("boolcall", C(op + "_ok"), v), t, exc)

        return self.str_or_bytes(eng, st, a[0], f, heads)

    def x_json_dumps(self, eng, st, a, kw):
        return self.dumps(eng, st, "json_dumps", a, kw)

    def x_json_loads(self, eng, st, a, kw):
        return self.loads(eng, st, "json_loads", a, kw, ("e", ("x", "json.JSONDecodeError")), {"str", "bytes"})

    def x_cbor2_dumps(self, eng, st, a, kw):
        return self.dumps(eng, st, "cbor_dumps", a, kw)

    def x_cbor2_loads(self, eng, st, a, kw):
        return self.loads(eng, st, "cbor_loads", a, kw, ("e", ("x", "?decode"), C("cbor2")), {"bytes"})

    def x_msgpack_dumps(self, eng, st, a, kw):
        return self.dumps(eng, st, "msgpack_dumps", a, kw)

    x_msgpack_packb = x_msgpack_dumps

    def x_msgpack_loads(self, eng, st, a, kw):
        return self.loads(eng, st, "msgpack_loads", a, kw, ("e", ("x", "?decode"), C("msgpack")), {"bytes"})

    x_msgpack_unpackb = x_msgpack_loads

    # struct ----------------------------------------------------------------------------------------
    SFMT = {"B": 1, "H": 2, "I": 4, "L": 4, "Q": 8}

    def x_struct_pack(self, eng, st, a, kw):
        f = cv(a[0]) if is_c(a[0]) else "?"
        body = f.lstrip("@=<>!")
        order = "little" if f[:1] == "<" else "big"
        if any(c not in self.SFMT for c in body) or (f[:1] not in "<>!" and any(self.SFMT[c] > 1 for c in body)):
            st.note("unk", "struct.pack " + f, st.loc)
            return self.ok(st, T("ext", C("struct.pack"), *a))
        outs = [(st, ())]
        res = []
        for c, v in zip(body, a[1:]):
            n = self.SFMT[c]
            nxt = []
            for s, acc in outs:
                cond = eng.mk_and([eng.mk_not(eng.mk_lt(s, v, C(0))), eng.mk_lt(s, v, C(1 << (8 * n)))])
                for s2, b in eng.branch_bool(s, cond):
                    if not b:
                        res.append((s2, "x", ("e", ("x", "struct.error"), C("range"))))
                        continue
                    bs = [C(x) for x in cv(v).to_bytes(n, "big")] if is_int(v) else [eng.index_term(s2, T("tobytes", v, C(n), C("big")), i) if n > 1 else v for i in range(n)]
                    nxt.append((s2, acc + tuple(bs if order == "big" else reversed(bs))))
            outs = nxt
        return res + [(s, "v", T("bytesof", *acc)) for s, acc in outs]

    def x_struct_Struct(self, eng, st, a, kw):
        if is_c(a[0]):
            return self.ok(st, T("ext", C("struct.Struct"), a[0]))
        st.note("unk", "struct.Struct", st.loc)
        return self.ok(st, T("ext", C("struct.Struct?"), *a))

    def x_struct_calcsize(self, eng, st, a, kw):
        import struct
        return self.ok(st, C(struct.calcsize(cv(a[0]))) if is_c(a[0]) else T("ext", C("struct.calcsize"), a[0]))

    def x_struct_unpack_from(self, eng, st, a, kw):
        f = cv(a[0]) if is_c(a[0]) else "?"
        off = a[2] if len(a) > 2 else kw.get("offset", C(0))
        body = f.lstrip("@=<>!")
        if any(c not in self.SFMT for c in body) or not is_int(off):
            st.note("unk", "struct.unpack_from " + f, st.loc)
            return self.ok(st, T("ext", C("struct.unpack_from"), *a))
        n, o = sum(self.SFMT[c] for c in body), cv(off)
        outs = []
        for s, b in eng.branch_bool(st, eng.mk_not(eng.mk_lt(st, eng.len_term(st, a[1]), C(n + o)))):
            if not b:
                outs.append((s, "x", ("e", ("x", "struct.error"), C("size"))))
                continue
            part = T("bytesof", *(eng.index_term(s, a[1], i) for i in range(o, o + n)))
            outs += self.x_struct_unpack(eng, s, [a[0], part], {})
        return outs

    def x_struct_unpack(self, eng, st, a, kw):
        f = cv(a[0]) if is_c(a[0]) else "?"
        body = f.lstrip("@=<>!")
        if any(c not in self.SFMT for c in body):
            return self.ok(st, T("ext", C("struct.unpack"), *a))
        total = sum(self.SFMT[c] for c in body)
        outs = []
        for s, b in eng.branch_bool(st, eng.mk_eq(st, eng.len_term(st, a[1]), C(total))):
            if not b:
                outs.append((s, "x", ("e", ("x", "struct.error"), C("size"))))
                continue
            vals, i = [], 0
            for c in body:
                n = self.SFMT[c]
                bs = [eng.index_term(s, a[1], i + j) for j in range(n)]
                vals.append(bs[0] if n == 1 else T("frombytes", T("bytesof", *bs), C("little" if f[:1] == "<" else "big")))
                i += n
            outs.append((s, "v", ("tp",) + tuple(vals)))
        return outs

    # nacl ------------------------------------------------------------------------------------------
    def nacl_encoder(self, v):
        if v is None or v == NONE:
            return "raw"
        n = v[1].rsplit(".", 1)[-1] if v[0] == "x" else "?"
        return {"HexEncoder": "hex", "RawEncoder": "raw"}.get(n, n)

    def naclkey(self, eng, st, op, a, kw):
        enc = self.nacl_encoder(a[1] if len(a) > 1 else kw.get("encoder"))

        def f(s, v):
            def g(s2, raw):
                if raw[0] == "t" and raw[1] == "keybytes" and raw[2][0] == "t" and raw[2][1] == "sk" and op == "sk":
                    raw = raw[2][2]  # the private key made of some bytes has those bytes
                if eng.const_len(s2, raw) == 32:
                    return self.ok(s2, T(op, raw))
                return self.split(s2, T("boolcall", C("len32"), raw), T(op, raw), ("e", ("x", "nacl.exceptions.ValueError"), C("key")))

            if enc == "hex":
                return eng.bind(self.hexdec(eng, s, v, ("e", ("x", "binascii.Error"))), g)
            return g(s, v if enc == "raw" else T("dec", C(enc), v))

        heads = {"bytes"} if enc == "raw" else {"str", "bytes"}
        outs = []
        for s, k, v in self.typecheck(eng, st, a[0], heads, "key"):
            outs += f(s, v) if k == "v" else [(s, "x", ("e", ("x", "nacl.exceptions.TypeError"), C("key")))]
        return outs

    def x_nacl_signing_SigningKey(self, eng, st, a, kw):
        return self.naclkey(eng, st, "sk", a, kw)

    def x_nacl_signing_VerifyKey(self, eng, st, a, kw):
        return self.naclkey(eng, st, "vkey", a, kw)

    def x_nacl_signing_SigningKey_generate(self, eng, st, a, kw):
        return self.ok(st, T("sk", self.fresh_bytes(eng, st, "csprng.nacl_generate", C(32))))

    # ------------------------------------------------------------------ unknown receivers
    def unknown_method(self, eng, st, base, name, args, kw):
        a = list(args)
        if base[0] == "t":
            op = base[1]
            if op in ("sk", "vkey"):
                if name == "encode":
                    enc = self.nacl_encoder(a[0] if a else kw.get("encoder"))
                    kb = T("keybytes", base)
                    return self.ok(st, kb if enc == "raw" else T("hexenc", kb) if enc == "hex" else T("enc", C(enc), kb))
                if op == "sk" and name == "sign":
                    enc = self.nacl_encoder(a[1] if len(a) > 1 else kw.get("encoder"))
                    return self.ok(st, T("signed", base, a[0], C(enc)))
                if op == "vkey" and name == "verify":
                    sm = a[0]
                    sig = a[1] if len(a) > 1 else kw.get("signature", NONE)
                    enc = self.nacl_encoder(a[2] if len(a) > 2 else kw.get("encoder"))
                    def g(s, m):
                        at = T("boolcall", C("sigok"), base, m, sig)
                        val = m if sig != NONE else T("signedmsg", m)
                        s.types.setdefault(val, ts("bytes"))
                        return self.split(s, at, val, ("e", ("x", "nacl.exceptions.BadSignatureError"), C("forged")))
                    if enc == "hex":
                        return eng.bind(self.hexdec(eng, st, sm, ("e", ("x", "binascii.Error"))), g)
                    return g(st, sm)
        if base[0] == "x" and base[1].startswith("secrets.SystemRandom()"):
            return self._sysrand(eng, st, base[1] + "." + name, a, kw)
        t = T("mcall", base, C(name), *self.deepargs(eng, st, a, kw))
        root = base
        while root[0] == "t" and root[1] in ("attr", "mcall", "item"):
            root = root[2]
        if root[0] == "t" and root[1] == "ext":
            st.events += (("ext", cv(root[2]) + "()." + name, self.deepargs(eng, st, a, kw), st.loc),)
            if (cv(root[2]) + ".").startswith(NORAISE) or cv(root[2]).startswith(NORAISE):
                return self.ok(st, t)
        else:
            st.events += (("unkcall", base, name, self.deepargs(eng, st, a, kw), st.loc),)
        st.note("unkcall", name, st.loc)
        if root[0] == "t" and root[1] not in ("ucall", "attr", "item", "mcall"):
            st.note("unk", f"unmodelled method {name}() of {root[1]}", st.loc)
        o = st.copy()
        o.facts[T("extraise", C(name), C(str(st.loc)))] = True
        return [(st, "v", t), (o, "x", ("e", ("x", "?any"), C(name)))]

    def unknown_call(self, eng, st, fv, args, kw):
        st.events += (("unkcall", fv, "()", self.deepargs(eng, st, args, kw), st.loc),)
        st.note("unkcall", "()", st.loc)
        o = st.copy()
        o.facts[T("extraise", C("()"), C(str(st.loc)))] = True
        return [(st, "v", T("ucall", fv, st.fresh("call"), *self.deepargs(eng, st, args, kw))), (o, "x", ("e", ("x", "?any"), C("()")))]

    def open_call(self, eng, st, base, cls, name, args, kw):
        """A method the package declares but leaves to the user to implement, called on a user object."""
        da = self.deepargs(eng, st, args, kw)
        f, _ = eng.class_lookup(st, cls, name)
        r = st.fresh(f"ret:{name}")
        if f is not None and f[0] == "f":
            fi = eng.funcs[f[1]]
            eng.symtypes[r] = eng.ann_types(st, fi.node.returns, "Fmod:" + fi.mod)
            bad = eng.bind_args(st, fi, f, [base] + list(args), kw)
            if isinstance(bad, str) and bad != "star":
                return eng.raise_(st, "TypeError", C(bad))
        hook = eng.open_hooks.get(name)
        if hook is not None:
            res = hook(eng, st, base, args, kw)
            if res is not None:
                return res
        ev = ("open", base, cls, name, da, r, st.loc, tuple(args))
        st.events += (ev,)
        o = st.copy()
        exc = ("e", ("x", "?any"), C(name), r)
        o.facts[T("openraise", r)] = True
        st.facts[T("openraise", r)] = False
        return [(st, "v", r), (o, "x", exc)]


def self_int(eng, st, v):
    return st.heads(v) <= {"int"}
