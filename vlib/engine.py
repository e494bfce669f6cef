"""Path-sensitive abstract interpreter over the Python syntax tree of the analysed package.

One run of `call` computes the effect summary of an operation from an abstract pre-state: a list of
outcomes (state, 'v'|'x', value) where each state carries the path facts that lead to that outcome, the
abstract heap after it, and the program points passed.  Loops over collections of unknown size are
summarised from one generic element (quantified effects); calls inside the package are inlined through
the resolved callee; calls that leave the package go through the models in models.py.
"""

import ast
import builtins as pybuiltins
import re

from .loader import assigned_names
from .state import *  # noqa: F403
from .state import ANY, INF, DictO, InstO, IterO, ListO, NsO, SetO, St, spec, ts
from .terms import *  # noqa: F403
from .terms import C, DEL, FALSE, NONE, R, S, T, TRUE, contains, cv, is_c, is_int, is_num, show, subst


class Incomplete(Exception):
    """The analysis cannot give an answer (unsupported construct, vanished anchor, budget)."""


class Budget(Incomplete):
    pass


class FuncInfo:
    __slots__ = ("fid", "node", "name", "qual", "mod", "cls", "locals", "globals", "nonlocals", "gen", "nested")


class ClassInfo:
    __slots__ = ("qual", "name", "bases", "mod", "node", "attr_types", "dataclass", "frozen", "enum", "namedtuple",
                 "members", "fields", "slots", "mro_cache")


BUILTIN_EXC = {n: o for n, o in vars(pybuiltins).items() if isinstance(o, type) and issubclass(o, BaseException)}
EXT_EXC = {  # external exception -> bases
    "binascii.Error": ("bi", "ValueError"),
    "binascii.Incomplete": ("bi", "Exception"),
    "json.JSONDecodeError": ("bi", "ValueError"),
    "json.decoder.JSONDecodeError": ("bi", "ValueError"),
    "nacl.exceptions.BadSignatureError": ("x", "nacl.exceptions.CryptoError"),
    "nacl.exceptions.CryptoError": ("bi", "Exception"),
    "nacl.exceptions.ValueError": ("bi", "ValueError"),
    "nacl.exceptions.TypeError": ("bi", "TypeError"),
    "cbor2.CBORDecodeError": ("bi", "Exception"),
    "cbor2.CBOREncodeError": ("bi", "Exception"),
    "cbor2.CBORError": ("bi", "Exception"),
    "struct.error": ("bi", "Exception"),
    "msgpack.UnpackException": ("bi", "Exception"),
    "?any": ("bi", "Exception"),
    "?decode": ("bi", "ValueError"),
}

NUM = {"int", "bool", "float"}
BOOL_OPS = {"eq", "lt", "in", "isnone", "not", "and", "or", "truthy", "isinst", "exists", "contains", "is", "startswith",
            "endswith", "boolcall", "cteq"}
INT_OPS = {"len", "add", "sub", "mul", "bitand", "bitor", "bitxor", "shl", "shr", "floordiv", "mod", "neg", "invert", "int",
           "sum", "log2", "bitlen", "frombytes", "ord", "pow"}
STR_OPS = {"fstr", "fmt", "str", "decode", "join", "lower", "upper", "strip", "hexstr", "json_dumps", "concat", "repr",
           "replace", "typename", "chr"}
BYTES_OPS = {"encode", "b64enc", "b64dec", "hexenc", "hexdec", "hmac", "pbkdf2", "tobytes", "bytesof", "digest",
             "cbor_dumps", "msgpack_dumps", "sig", "signedmsg", "keybytes", "pub"}

MAXDEPTH = 40


class Engine:
    Budget = Budget

    def __init__(self, sources, models, max_states=400000):
        self.src = sources
        self.funcs = []
        self.classes = {}
        self.func_cache = {}
        self.dispatchers, self.cms, self.cm_next = [], {}, None
        self.nstates = 0
        self.nfresh = 0
        self.max_states = max_states
        self.shared = set()
        self.sharedwrites = set()
        self.open_hooks = {}  # method name -> handler of calls on objects the application supplies
        self.visited = {}
        self.callsites = set()
        self.models = models
        self.ann_cache = {}
        self.symtypes = {}
        self.axiom_in = lambda st, k, b: None
        self.axiom_item = lambda st, b, k: None
        self.axiom_attr = lambda st, b, n: None
        self.frame = None  # an arbitrary population (frame.py)
        self.efn_types = {}
        self.unique = set()  # symbols with pairwise different values
        self.outsiders = set()  # symbols different from every other value
        self.intercepts = {}  # qual of function -> handler(eng, st, args, kwargs, loc)
        self.open_calls = True
        self.order = []
        self.base = None
        self.unsupported = set()

    # ================================================================ modules
    def load(self):
        st = St(self)
        for name in sorted(self.src.mods):
            self.import_module(st, name)
        self.base = st
        self.shared = set(st.heap)
        return st

    def start(self):
        """A fresh pre-state for analysing an operation."""
        return self.base.copy()

    def settled(self, st, outs):
        """The outcome of code that runs once, while the package is imported: the path without exceptions (the package is importable)."""
        ok = [o for o in outs if o[1] != "x"]
        return (ok or outs)[0]

    def import_module(self, st, name):
        if name not in self.src.mods:
            return None
        addr = "mod:" + name
        if addr in st.heap:
            return ("m", name)
        if "." in name:
            self.import_module(st, name.rsplit(".", 1)[0])
            if addr in st.heap:
                return ("m", name)
        m = self.src.mods[name]
        st.heap[addr] = NsO({"__name__": C(name)})
        fid = "F" + addr
        st.envs[fid] = {"__ns__": addr, "__mod__": name}
        s2, k, v = st, "n", None
        for n in m.tree.body:
            notes = s2.notes
            s2, k, v = self.settled(s2, self.exec_block(s2, [n], fid))
            if k != "n":
                break
            if s2.notes != notes and any(x[0] in ("imprecise", "unk") for x in s2.notes[len(notes):]) and isinstance(n, (ast.Assign, ast.AnnAssign)):
                # a constant whose definition is not understood is unknown, which only concerns the code that uses it
                ns = s2.heap[addr]
                names = {x.id for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) for x in ast.walk(t) if isinstance(x, ast.Name)}
                s2.heap[addr] = NsO({**ns.vars, **{x: T("unk", s2.fresh("module:" + x)) for x in names & set(ns.vars)}})
                s2.notes = notes
        if k == "x":
            raise Incomplete(f"module {name}: initialisation raises {self.show_exc(s2, v)} at {s2.loc}")
        if s2 is not st:
            for a in St.__slots__:
                setattr(st, a, getattr(s2, a))
        if "." in name:
            par, leaf = name.rsplit(".", 1)
            pa = "mod:" + par
            ns = st.heap[pa]
            v = dict(ns.vars)
            v[leaf] = ("m", name)
            st.heap[pa] = NsO(v)
        return ("m", name)

    def mod_attr(self, st, name, attr):
        ns = st.heap.get("mod:" + name)
        if ns is not None and attr in ns.vars:
            return ns.vars[attr]
        sub = name + "." + attr
        if sub in self.src.mods:
            return self.import_module(st, sub)
        return None

    # ================================================================ types
    def base_types(self, st, v):
        k = v[0]
        if k == "c":
            t = v[1]
            if t == "NoneType":
                return ts("none")
            return ts(t if t in ("bool", "int", "float", "str", "bytes") else "any")
        if k == "r":
            o = st.heap[v[1]]
            if o.kind == "inst":
                return frozenset({("inst", o.cls)})
            return ts({"dict": "dict", "set": "set", "list": "list", "iter": "iter", "ns": "any", "lib": "any"}[o.kind])
        if k == "tp":
            return ts("tuple")
        if k == "en":
            ci = self.classes[v[1]]
            return frozenset({("inst", v[1])} | ({("str",)} if ci.enum == "str" else {("int",)} if ci.enum == "int" else set()))
        if k == "s":
            return self.symtypes.get(v, ANY)
        if k in ("f", "bm", "partial"):
            return ts("fn")
        if k in ("k", "m", "x", "bi"):
            return ts("obj")
        if k == "e":
            return ts("exc")
        if k != "t":
            return ANY
        op = v[1]
        if op in BOOL_OPS:
            return ts("bool")
        if op in INT_OPS:
            return ts("int")
        if op in STR_OPS:
            return ts("str")
        if op in BYTES_OPS:
            return ts("bytes")
        if op == "attr":
            res = set()
            for s in st.types_of(v[2]):
                if s[0] == "inst":
                    res |= self.field_types(s[1], cv(v[3]))
                else:
                    res |= ANY
            return frozenset(res) or ANY
        if op == "item":
            res = set()
            for s in st.types_of(v[2]):
                if s[0] == "dict" and len(s) > 2:
                    res |= spec(s[2])
                elif s[0] == "list" and len(s) > 1:
                    res |= spec(s[1])
                elif s[0] == "bytes":
                    res |= {("int",)}
                elif s[0] == "str":
                    res |= {("str",)}
                elif s[0] == "tuple" and len(s) > 1 and is_int(v[3]) and 0 <= cv(v[3]) < len(s) - 1:
                    res |= s[1 + cv(v[3])]
                else:
                    res |= ANY
            return frozenset(res) or ANY
        if op == "slice":
            return st.types_of(v[2])
        if op == "efn":
            return self.frame.types(v[2]) if self.frame is not None else ANY
        return ANY

    def field_types(self, qual, name):
        for c in self.mro(qual):
            if c in self.classes:
                r = self.classes[c].attr_types.get(name)
                if r is not None:
                    return r
        return ANY

    def elem_types(self, st, v, head):
        """(key spec, value spec) of a container-typed term."""
        for s in st.types_of(v):
            if s[0] == head and len(s) > 1:
                return tuple(spec(x) for x in s[1:])
        return (ANY, ANY)

    def is_integral(self, st, v):
        return st.heads(v) <= {"int", "bool"}

    def base_iv(self, st, v):
        if v[0] == "t":
            op = v[1]
            if op in ("len", "bitlen"):
                if v[2][0] == "t" and v[2][1] in ("slice", "tobytes", "digest", "bytesof", "keybytes", "hmac", "sig"):
                    n = self.known_len_term(st, v[2])
                    if n is not None:
                        return (n, n)
                if self.frame is not None and op == "len":
                    return (self.frame.len_lo(st, v[2]), INF)
                return (0, INF)
            if op == "item" and ("bytes",) in st.types_of(v[2]) and len(st.types_of(v[2])) == 1:
                return (0, 255)
            if op == "bitand" and is_int(v[3]) and cv(v[3]) >= 0:
                return (0, cv(v[3]))
            if op == "add" and is_num(v[3]):
                lo, hi = st.interval(v[2])
                return (lo + cv(v[3]), hi + cv(v[3]))
            if op == "add":
                a, b = st.interval(v[2]), st.interval(v[3])
                return (a[0] + b[0], a[1] + b[1])
            if op == "shr" and is_int(v[3]):
                lo, hi = st.interval(v[2])
                return (lo if lo == -INF else int(lo) >> cv(v[3]), hi if hi == INF else int(hi) >> cv(v[3]))
            if op == "shl" and is_int(v[3]):
                lo, hi = st.interval(v[2])
                return (lo if lo == -INF else int(lo) << cv(v[3]), hi if hi == INF else int(hi) << cv(v[3]))
            if op == "shl" and is_int(v[2]) and cv(v[2]) > 0:
                lo, hi = st.interval(v[3])
                if 0 <= lo and hi < 128:
                    return (cv(v[2]) << int(lo), cv(v[2]) << int(hi))
            if op == "bitor":
                a, b = st.interval(v[2]), st.interval(v[3])
                if a[0] >= 0 and b[0] >= 0:
                    hi = max(a[1], b[1])
                    if hi < INF:
                        return (max(a[0], b[0]), (1 << int(hi).bit_length()) - 1)
                    return (max(a[0], b[0]), INF)
            if op == "mod" and is_int(v[3]) and cv(v[3]) > 0:
                return (0, cv(v[3]) - 1)
            if op == "mul" and is_num(v[3]) and cv(v[3]) > 0:
                lo, hi = st.interval(v[2])
                return (lo * cv(v[3]), hi * cv(v[3]))
            if op == "floordiv" and is_int(v[3]) and cv(v[3]) > 0:
                lo, hi = st.interval(v[2])
                return (lo if lo == -INF else int(lo) // cv(v[3]), hi if hi == INF else int(hi) // cv(v[3]))
            if op == "bitxor":
                a, b = st.interval(v[2]), st.interval(v[3])
                if a[0] >= 0 and b[0] >= 0 and max(a[1], b[1]) < INF:
                    return (0, (1 << int(max(a[1], b[1])).bit_length()) - 1)
            if op == "frombytes":
                return (0, INF)
            if op == "efn":
                return (1, 2**53) if self.frame is not None and self.frame.id_iv(v[2]) else (-INF, INF)
            if op in BOOL_OPS:
                return (0, 1)
            if op == "neg":
                lo, hi = st.interval(v[2])
                return (-hi, -lo)
        h = st.types.get(v)
        if h is not None and h == ts("bool"):
            return (0, 1)
        return (-INF, INF)

    def set_iv(self, st, x, lo, hi):
        if lo > hi:
            return False
        if is_c(x):
            return True
        st.iv[x] = (lo, hi)
        if self.frame is not None and x[0] == "t" and x[1] == "len":
            y = T("len", self.cn(st, x[2]))
            if y != x:
                return self.set_iv(st, y, lo, hi)
        if x[0] == "t" and x[1] == "add" and is_num(x[3]):
            c = cv(x[3])
            l0, h0 = st.interval(x[2])
            return self.set_iv(st, x[2], max(l0, lo - c), min(h0, hi - c))
        if lo == hi and lo not in (INF, -INF) and x not in st.eqc:
            st.eqc[x] = C(int(lo)) if self.is_integral(st, x) else C(lo)
        return True

    # ---------------------------------------------------------------- annotations
    def ann_types(self, st, node, fr, depth=0):
        if node is None or depth > 6:
            return ANY
        if isinstance(node, ast.Constant):
            if node.value is None:
                return ts("none")
            if isinstance(node.value, str):
                try:
                    return self.ann_types(st, ast.parse(node.value, mode="eval").body, fr, depth + 1)
                except SyntaxError:
                    return ANY
            return ANY
        if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
            a, b = self.ann_types(st, node.left, fr, depth + 1), self.ann_types(st, node.right, fr, depth + 1)
            return ANY if ANY in (a, b) else a | b
        if isinstance(node, (ast.Tuple, ast.List)):
            return ANY
        if isinstance(node, ast.Subscript):
            head = self.ann_name(st, node.value, fr)
            args = node.slice.elts if isinstance(node.slice, ast.Tuple) else [node.slice]
            at = [self.ann_types(st, a, fr, depth + 1) for a in args]
            if head in ("dict", "Dict", "Mapping", "MutableMapping", "defaultdict", "OrderedDict") and len(at) == 2:
                return frozenset({("dict", at[0], at[1])})
            if head in ("list", "List", "Sequence", "Iterable"):
                return frozenset({("list", at[0])})
            if head in ("set", "Set", "frozenset", "FrozenSet"):
                return frozenset({("set", at[0])})
            if head in ("tuple", "Tuple"):
                return frozenset({("tuple",) + tuple(at)})
            if head == "Optional":
                return ANY if at[0] == ANY else at[0] | ts("none")
            if head == "Union":
                r = frozenset()
                for a in at:
                    if a == ANY:
                        return ANY
                    r |= a
                return r
            if head in ("Final", "ClassVar", "Annotated"):
                return at[0]
            return ANY
        nm = self.ann_name(st, node, fr)
        if nm in ("int", "str", "bytes", "bool", "float"):
            return ts(nm)
        if nm in ("dict", "Dict", "Mapping"):
            return frozenset({("dict", ANY, ANY)})
        if nm in ("list", "List", "Sequence"):
            return frozenset({("list", ANY)})
        if nm in ("set", "Set", "frozenset"):
            return frozenset({("set", ANY)})
        if nm in ("tuple", "Tuple"):
            return ts("tuple")
        if nm == "None":
            return ts("none")
        if nm == "Any":
            return ANY
        v = self.ann_lookup(st, node, fr)
        if v is not None and v[0] == "k":
            return frozenset({("inst", v[1])})
        return ANY

    def ann_name(self, st, node, fr):
        if isinstance(node, ast.Name):
            return node.id
        if isinstance(node, ast.Attribute):
            return node.attr
        return None

    def ann_lookup(self, st, node, fr):
        if isinstance(node, ast.Name):
            return self.lookup(st, node.id, fr)
        if isinstance(node, ast.Attribute):
            b = self.ann_lookup(st, node.value, fr)
            if b is not None and b[0] == "m":
                return self.mod_attr(st, b[1], node.attr)
            if b is not None and b[0] == "k":
                return self.class_lookup(st, b[1], node.attr)[0]
        return None

    # ================================================================ classes
    def mro(self, qual):
        ci = self.classes.get(qual)
        if ci is None:
            return [qual]
        if ci.mro_cache:
            return ci.mro_cache

        def merge(seqs):
            res = []
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    return res
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    return res + [x for s in seqs for x in s]
                res.append(c)
                seqs = [[x for x in s if x != c] for s in seqs]

        bl = []
        for b in ci.bases:
            bl.append(self.mro(b[1]) if b[0] == "k" else [b[0] + ":" + b[1]])
        names = [b[1] if b[0] == "k" else b[0] + ":" + b[1] for b in ci.bases]
        ci.mro_cache = [qual] + merge([list(x) for x in bl] + [names])
        return ci.mro_cache

    def class_lookup(self, st, qual, name):
        """(value, defining class) through the MRO."""
        for c in self.mro(qual):
            ns = st.heap.get("cls:" + c)
            if ns is not None and name in ns.vars:
                return ns.vars[name], c
        return None, None

    def issub(self, qual, other):
        """Subclass test between package classes / builtin classes by value."""
        return other in self.mro(qual)

    def is_exc_class(self, qual):
        for c in self.mro(qual):
            if c.startswith("bi:") and c[3:] in BUILTIN_EXC:
                return True
            if c.startswith("x:") and c[2:] in EXT_EXC:
                return True
        return False

    def is_abstract(self, st, fval):
        """The function body only raises NotImplementedError / is abstract / '...'."""
        if fval is None:
            return False
        if fval[0] == "prop":
            fval = fval[1]
        if fval[0] in ("cm", "sm"):
            fval = fval[1]
        if fval[0] != "f":
            return False
        node = self.funcs[fval[1]].node
        if isinstance(node, ast.Lambda):
            return False
        body = [b for b in node.body if not self.idle(b)]
        if not body:
            return True
        if len(body) == 1 and isinstance(body[0], ast.Raise) and body[0].exc is not None:
            e = body[0].exc
            e = e.func if isinstance(e, ast.Call) else e
            return isinstance(e, ast.Name) and e.id == "NotImplementedError"
        return False

    # operations of an implementation handed in from outside: never entered on a symbolic instance of a class
    # some of whose methods are left to subclasses (a template method there only arranges calls of those)
    interface = ("serialize", "deserialize", "authenticate")

    def is_open_class(self, st, cls):
        for c in self.mro(cls):
            ci = self.classes.get(c)
            if ci is None:
                continue
            for b in ci.node.body:
                if isinstance(b, ast.FunctionDef):
                    v, owner = self.class_lookup(st, cls, b.name)
                    if v is not None and v[0] in ("f", "prop") and self.is_abstract(st, v):
                        return True
        return False

    def idle(self, b):
        """A statement without effect outside the function's local variables."""
        if isinstance(b, ast.Pass):
            return True
        if isinstance(b, ast.Expr):
            return isinstance(b.value, (ast.Constant, ast.Name))
        if isinstance(b, (ast.Assign, ast.AnnAssign)):
            tg = b.targets if isinstance(b, ast.Assign) else [b.target]
            return all(isinstance(t, ast.Name) for t in tg) and (b.value is None or isinstance(b.value, (ast.Constant, ast.Name)))
        if isinstance(b, ast.Delete):
            return all(isinstance(t, ast.Name) for t in b.targets)
        if isinstance(b, ast.Assert):
            return isinstance(b.test, ast.Constant) and bool(b.test.value)
        if isinstance(b, ast.If) and isinstance(b.test, ast.Constant):
            return all(self.idle(x) for x in (b.body if b.test.value else b.orelse))
        return False

    def define_class(self, st, node, fr):
        mod = self.frame_mod(st, fr)
        prefix = st.envs[fr].get("__qual__", "")
        qual = f"{mod}.{prefix}{node.name}"
        outs = [(st, "v", ())]
        outs = self.eval_list(st, node.bases, fr)
        if len(outs) != 1 or outs[0][1] != "v":
            raise Incomplete(f"class {qual}: bases not resolved")
        st, _, bases = outs[0]
        ci = ClassInfo()
        ci.qual, ci.name, ci.mod, ci.node = qual, node.name, mod, node
        ci.bases = [b for b in bases if b[0] in ("k", "bi", "x")]
        ci.attr_types, ci.dataclass, ci.frozen, ci.enum, ci.namedtuple = {}, False, False, None, False
        ci.members, ci.fields, ci.slots, ci.mro_cache = {}, [], None, None
        self.classes[qual] = ci
        st.nframe += 1
        cfr = f"C{st.nframe}"
        addr = "cls:" + qual
        st.heap[addr] = NsO({"__name__": C(node.name), "__qualname__": C(node.name), "__module__": C(mod)})
        st.envs[cfr] = {"__ns__": addr, "__parent__": fr, "__mod__": mod, "__class__": qual,
                        "__qual__": prefix + node.name + "."}
        for b in ci.mro_bases if hasattr(ci, "mro_bases") else ():
            pass
        st, k, _ = self.settled(st, self.exec_block(st, node.body, cfr))
        if k != "n":
            raise Incomplete(f"class {qual}: body does not complete")
        mro = self.mro(qual)
        if any(c in ("x:enum.Enum", "x:enum.IntEnum", "x:enum.StrEnum", "x:enum.IntFlag") for c in mro):
            ci.enum = "str" if ("bi:str" in mro or "x:enum.StrEnum" in mro) else "int" if (
                "bi:int" in mro or "x:enum.IntEnum" in mro or "x:enum.IntFlag" in mro) else "plain"
            ns = st.heap[addr]
            nv = dict(ns.vars)
            last = 0
            for n, v in ns.vars.items():
                if n.startswith("_") or v[0] in ("f", "cm", "sm", "prop", "k", "sdm", "cmf"):
                    continue
                if v == ("x", "enum.auto()"):
                    v = C(last + 1) if ci.enum != "str" else C(n.lower())
                if is_int(v):
                    last = cv(v)
                dup = next((m for m in ci.members.values() if m[3] == v), None)
                m = dup or ("en", qual, n, v)
                ci.members[n] = m
                nv[n] = m
            st.heap[addr] = NsO(nv)
        # annotated fields
        own = []
        for b in node.body:
            if isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                t = self.ann_types(st, b.annotation, cfr)
                if isinstance(b.value, ast.Constant) and b.value.value is None and t != ANY:
                    t = t | ts("none")
                ci.attr_types[b.target.id] = t
                own.append(b.target.id)
        if "x:typing.NamedTuple" in mro:
            ci.namedtuple = True
        inherited = []
        for c in reversed(mro[1:]):
            if c in self.classes:
                inherited += [f for f in self.classes[c].fields if f not in inherited]
        ci.fields = inherited + [f for f in own if f not in inherited]
        self.infer_attr_types(st, ci, cfr)
        for d in reversed(node.decorator_list):
            dn = d.func if isinstance(d, ast.Call) else d
            outs = self.ev(st, dn, fr)
            dv = outs[0][2]
            if dv in (("x", "dataclasses.dataclass"),):
                ci.dataclass = True
                if isinstance(d, ast.Call):
                    for kw in d.keywords:
                        if kw.arg == "frozen" and isinstance(kw.value, ast.Constant):
                            ci.frozen = bool(kw.value.value)
        if not ci.dataclass and not ci.namedtuple:
            pass
        return st, ("k", qual)

    def infer_attr_types(self, st, ci, cfr):
        """Types of self.<name> from annotations and from constructor parameters."""
        for b in ci.node.body:
            if not isinstance(b, ast.FunctionDef) or not b.args.args:
                continue
            selfn = b.args.args[0].arg
            params = {}
            pos = b.args.posonlyargs + b.args.args
            dfl = [None] * (len(pos) - len(b.args.defaults)) + list(b.args.defaults)
            for a, d in list(zip(pos, dfl)) + list(zip(b.args.kwonlyargs, b.args.kw_defaults)):
                t = self.ann_types(st, a.annotation, cfr)
                if isinstance(d, ast.Constant) and d.value is None and t != ANY:
                    t = t | ts("none")
                params[a.arg] = t
            for n in ast.walk(b):
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and isinstance(
                        n.target.value, ast.Name) and n.target.value.id == selfn:
                    t = self.ann_types(st, n.annotation, cfr)
                    if isinstance(n.value, ast.Constant) and n.value.value is None and t != ANY:
                        t = t | ts("none")
                    ci.attr_types[n.target.attr] = t
                elif isinstance(n, ast.Assign) and b.name == "__init__":
                    for tg in n.targets:
                        if isinstance(tg, ast.Attribute) and isinstance(tg.value, ast.Name) and tg.value.id == selfn:
                            if tg.attr in ci.attr_types:
                                continue
                            v = n.value
                            t = None
                            if isinstance(v, ast.Name) and v.id in params:
                                t = params[v.id]
                            elif isinstance(v, (ast.Dict, ast.DictComp)):
                                t = frozenset({("dict", ANY, ANY)})
                            elif isinstance(v, (ast.List, ast.ListComp)):
                                t = frozenset({("list", ANY)})
                            elif isinstance(v, ast.Constant):
                                t = self.base_types(st, C(v.value)) if v.value is not None else None
                            elif isinstance(v, ast.Call):
                                nm = self.ann_name(st, v.func, cfr)
                                if nm in ("dict", "set", "list"):
                                    t = frozenset({("dict", ANY, ANY) if nm == "dict" else (nm, ANY)})
                                elif nm in ("defaultdict", "OrderedDict"):
                                    t = frozenset({("dict", ANY, ANY)})
                                else:
                                    cvv = self.ann_lookup(st, v.func, cfr)
                                    if cvv is not None and cvv[0] == "k":
                                        t = frozenset({("inst", cvv[1])})
                            if t is not None:
                                ci.attr_types[tg.attr] = t

    # ================================================================ frames / names
    def frame_mod(self, st, fr):
        while fr is not None:
            e = st.envs[fr]
            if "__mod__" in e:
                return e["__mod__"]
            fr = e.get("__parent__")
        return "?"

    def setvar(self, st, fr, name, v):
        e = st.envs[fr]
        fi = e.get("__fi__")
        if fi is not None:
            f = self.funcs[fi]
            if name in f.globals:
                self.setns(st, "mod:" + f.mod, name, v)
                return
            if name in f.nonlocals:
                p = e.get("__parent__")
                while p is not None:
                    if name in st.envs[p] and "__ns__" not in st.envs[p]:
                        pe = dict(st.envs[p])
                        pe[name] = v
                        st.envs[p] = pe
                        return
                    p = st.envs[p].get("__parent__")
        ns = e.get("__ns__")
        if ns is not None:
            self.setns(st, ns, name, v)
            return
        e = dict(e)
        e[name] = v
        st.envs[fr] = e

    def setns(self, st, addr, name, v):
        ns = st.heap[addr]
        nv = dict(ns.vars)
        nv[name] = v
        st.put(("r", addr), NsO(nv))

    def lookup(self, st, name, fr):
        f = fr
        first = True
        while f is not None:
            e = st.envs[f]
            ns = e.get("__ns__")
            if ns is not None:
                if first or not ns.startswith("cls:"):
                    v = st.heap[ns].vars.get(name)
                    if v is not None:
                        return v
            elif name in e:
                return e[name]
            first = False
            f = e.get("__parent__")
        if hasattr(pybuiltins, name):
            if name in ("True", "False", "None"):
                return C(getattr(pybuiltins, name))
            return ("bi", name)
        return None

    def raise_(self, st, cls, *args):
        return [(st, "x", ("e", ("bi", cls)) + args)]

    # ================================================================ heap views
    def plain(self, st, v):
        """A bytearray read as a value is its current contents."""
        if v[0] == "r":
            o = st.heap.get(v[1])
            if o is not None and o.kind == "lib" and o.cls == "bytearray":
                return o.term
        return v

    def force(self, st, v):
        """A term of one container/object type becomes a lazily created abstract heap object."""
        if v[0] not in ("s", "t"):
            return self.plain(st, v)
        r = st.lazy.get(v)
        if r is not None:
            return r
        t = st.types_of(v)
        if len(t) != 1:
            return v
        (h,) = t
        if h[0] == "inst" and h[1] in self.classes:
            ci = self.classes[h[1]]
            if ci.enum:
                return v
            o = InstO(h[1], {}, v)
        elif h[0] == "dict":
            k, vv = (h[1], h[2]) if len(h) > 2 else (ANY, ANY)
            o = DictO(v, (), k, vv)
        elif h[0] == "set":
            o = SetO(v, (), h[1] if len(h) > 1 else ANY)
        elif h[0] == "list":
            o = ListO(v, (), h[1] if len(h) > 1 else ANY)
        else:
            return v
        r = st.alloc(o, "L")
        st.lazy[v] = r
        st.pristine[r[1]] = o
        return r

    def norm(self, st, v):
        """A reference to an unmodified lazily created object is the term itself."""
        if v[0] == "r" and v[1] in st.pristine:
            o = st.heap[v[1]]
            if o.base is not None and self.deep_clean(st, v):
                return o.base
        return self.plain(st, v)

    def deep_clean(self, st, ref):
        o, p = st.heap[ref[1]], st.pristine.get(ref[1])
        if p is None:
            return False
        if o.kind == "inst":
            for f, v in o.fields.items():
                t = T("attr", o.base, C(f))
                if v == t:
                    continue
                if v[0] == "r" and v[1] in st.pristine and st.heap[v[1]].base == t and self.deep_clean(st, v):
                    continue
                if o is p and v[0] != "r":
                    continue
                return False
            return True
        return o is p or (o.kind not in ("inst", "lib") and self._same(o, p))

    def _same(self, o, p):
        if o.kind == "list":
            return o.base == p.base and o.segs == p.segs
        return o.base == p.base and o.ov == p.ov

    def deep(self, st, v, depth=0):
        """Structural snapshot of a value in this state (unmodified symbolic objects stay opaque)."""
        k = v[0]
        if k == "tp":
            return ("tp",) + tuple(self.deep(st, x, depth + 1) for x in v[1:])
        if k in ("s", "t"):
            r = st.lazy.get(v)
            if r is None:
                c = st.eqc.get(v)
                return c if c is not None and v[0] == "s" and False else v
            return self.deep(st, r, depth)
        if k != "r" or depth > 12:
            return v
        o = st.heap.get(v[1])
        if o is None:
            return v
        n = self.norm(st, v)
        if n[0] != "r":
            return n
        if o.kind == "inst":
            return T("obj", C(o.cls), *(T("fld", C(f), self.deep(st, x, depth + 1)) for f, x in sorted(o.fields.items())))
        if o.kind == "dict":
            return T("dict", o.base or NONE, *(
                T("kv", self.deep(st, e[0], depth + 1), e[1] if e[1] == DEL else self.deep(st, e[1], depth + 1),
                  e[3] or NONE) for e in o.ov))
        if o.kind == "set":
            return T("set", o.base or NONE, *(T("kv", self.deep(st, e[0], depth + 1), e[1], e[3] or NONE) for e in o.ov))
        if o.kind == "iter" and o.src is not None:
            return T("view", C(o.src[1]), self.deep(st, o.src[0], depth + 1))
        if o.kind in ("list", "iter"):
            segs = []
            for s in o.segs:
                if s[0] == "e":
                    segs.append(self.deep(st, s[1], depth + 1))
                else:
                    segs.append(T("q", s[1], s[2], s[3], self.deep(st, s[4], depth + 1)))
            return T("list", (o.base if o.kind == "list" else None) or NONE, *segs)
        if o.kind == "lib":
            return o.term
        return v

    def mentions(self, y, x):
        """Would rep[y] = x be circular (x a proper subterm position of y the other way round)?"""
        if contains(y, x) and y != x:
            return True
        return y[0] == "t" and (x[0] == "s" or (y[1] == "efn" and x[0] == "t" and len(repr(y)) > len(repr(x))))

    def find(self, st, v):
        """Representative of a term under the equalities between terms known on this path."""
        if v[0] not in ("s", "t") or not st.rep:
            return v
        n = 0
        while v in st.rep and n < 20:
            v = st.rep[v]
            n += 1
        if v[0] == "t" and v[1] in ("attr", "item") and len(v) == 4:
            b, i = self.find(st, v[2]), self.find(st, v[3])
            if b != v[2] or i != v[3]:
                return self.find(st, T(v[1], b, i))
        if v[0] == "t" and v[1] == "efn":
            xs = tuple(self.find(st, x) for x in v[3:])
            if xs != v[3:]:
                return self.find(st, v[:3] + xs)
            if self.frame is not None:
                r = self.frame.reduce(v)
                if r is not None:
                    return self.find(st, r)
        return v

    def cn(self, st, v):
        """Canonical form of a key under the equalities known on this path."""
        k = v[0]
        if k in ("s", "t"):
            c = st.eqc.get(v)
            if c is not None:
                return c
            n = 0
            while v in st.rep and n < 20:
                v = st.rep[v]
                n += 1
            c = st.eqc.get(v)
            if c is not None:
                return c
            if v[0] == "t" and v[1] in ("attr", "item") and len(v) == 4:
                b = self.cn(st, v[2])
                i = self.cn(st, v[3]) if v[1] == "item" else v[3]
                if b != v[2] or i != v[3]:
                    return T(v[1], b, i)
            if v[0] == "t" and v[1] == "efn":
                xs = tuple(self.cn(st, x) for x in v[3:])
                if xs != v[3:]:
                    return self.cn(st, ("t", "efn", v[2]) + xs)
                if self.frame is not None:
                    r = self.frame.reduce(v)
                    if r is not None:
                        return self.cn(st, r)
            return v
        if k == "tp":
            return ("tp",) + tuple(self.cn(st, x) for x in v[1:])
        if k == "r":
            return self.norm(st, v)
        if k == "en":
            ci = self.classes.get(v[1])
            return v[3] if ci is not None and ci.enum in ("str", "int") else v
        if k == "c" and v[1] == "bool":
            return C(int(v[2]))
        return v

    # ================================================================ equality / order atoms
    def const_eq(self, a, b):
        if not (is_c(a) and is_c(b)):
            return a == b
        try:
            return bool(cv(a) == cv(b))
        except Exception:
            return False

    def mk_eq(self, st, x, y):
        if x[0] == "en":
            ci = self.classes[x[1]]
            if ci.enum != "plain" and not (y[0] == "en"):
                x = x[3]
        if y[0] == "en":
            ci = self.classes[y[1]]
            if ci.enum != "plain" and not (x[0] == "en"):
                y = y[3]
        if x == y:
            return TRUE
        x, y = self.find(st, self.norm(st, x)), self.find(st, self.norm(st, y))
        if x == y:
            return TRUE
        if is_c(x) and is_c(y):
            return C(self.const_eq(x, y))
        if x in self.outsiders or y in self.outsiders or x in self.unique and y in self.unique:
            return FALSE
        if x[0] == "en" and y[0] == "en":
            return C(x == y)
        for a, b in ((x, y), (y, x)):
            if a[0] == "t" and a[1] == "frombytes" and a[2][0] == "t" and a[2][1] == "bytesof" and is_int(b):
                n = len(a[2]) - 2
                if not 0 <= cv(b) < 1 << (8 * n):
                    return FALSE
                bs = cv(b).to_bytes(n, cv(a[3]))
                return self.mk_and([self.mk_eq(st, u, C(w)) for u, w in zip(a[2][2:], bs)])
        if x[0] == "tp" and y[0] == "tp":
            if len(x) != len(y):
                return FALSE
            return self.mk_and([self.mk_eq(st, a, b) for a, b in zip(x[1:], y[1:])])
        if x[0] == "r" and y[0] == "r":
            ox, oy = st.heap[x[1]], st.heap[y[1]]
            if ox.kind != oy.kind:
                return FALSE
            dx, dy = self.deep(st, x), self.deep(st, y)
            if dx == dy:
                return TRUE
            if ox.kind == "list" and not ox.base and not oy.base and all(s[0] == "e" for s in ox.segs + oy.segs):
                if len(ox.segs) != len(oy.segs):
                    return FALSE
                return self.mk_and([self.mk_eq(st, a[1], b[1]) for a, b in zip(ox.segs, oy.segs)])
            x, y = dx, dy
        hx, hy = st.heads(x), st.heads(y)
        for a, b in ((x, y), (y, x)):
            if a[0] == "t" and a[1] in ("bytesof", "slice") and hx == hy == {"bytes"} and (
                    is_c(b) or b[0] == "t" and b[1] == "bytesof"):
                n, m = self.known_len_term(st, a), len(cv(b)) if is_c(b) else len(b) - 2
                if n is not None and n != m:
                    return FALSE
                if n is not None and n <= 64:
                    return self.mk_and([self.mk_eq(st, self.index_term(st, a, i), self.index_term(st, b, i)) for i in range(n)])
        if "any" not in hx and "any" not in hy:
            gx = {"num" if h in NUM else h for h in hx}
            gy = {"num" if h in NUM else h for h in hy}
            if not gx & gy:
                return FALSE
        if is_c(x) or (not is_c(y) and repr(x) > repr(y)):
            x, y = y, x
        if is_c(y):
            if y[1] == "NoneType":
                return T("isnone", x)
            if st.heads(x) == {"bool"} and is_num(y):
                b = x if x[0] == "s" or (x[0] == "t" and x[1] in BOOL_OPS) else T("truthy", x)
                if cv(y) == 1:
                    return b
                if cv(y) == 0:
                    return self.mk_not(b)
                return FALSE
            if x[0] == "t" and x[1] == "add" and is_num(x[3]) and is_num(y):
                return self.mk_eq(st, x[2], C(cv(y) - cv(x[3])))
            if x[0] == "t" and x[1] in ("len",) and is_num(y):
                if cv(y) < 0 or cv(y) != int(cv(y)):
                    return FALSE
                if cv(y) == 0:
                    return self.mk_not(T("lt", C(0), x))
            if y[1] == "bool":
                y = C(int(cv(y)))
            if x[0] in ("r", "tp", "m", "k", "f", "bm", "bi", "x"):
                return FALSE if x[0] != "r" or st.heap[x[1]].kind != "iter" else T("eq", x, y)
            if is_c(y) and y[1] in ("str", "bytes") and len(cv(y)) == 0:
                return self.mk_not(T("lt", C(0), T("len", x))) if st.heads(x) <= {"str", "bytes"} else T("eq", x, y)
        if x[0] in ("k", "bi", "f", "m", "en", "x") and y[0] in ("k", "bi", "f", "m", "en", "x"):
            return FALSE
        return T("eq", x, y)

    def mk_and(self, xs):
        out = []
        for x in xs:
            if x == FALSE:
                return FALSE
            if x != TRUE:
                out.append(x)
        return TRUE if not out else out[0] if len(out) == 1 else T("and", *out)

    def mk_or(self, xs):
        out = []
        for x in xs:
            if x == TRUE:
                return TRUE
            if x != FALSE:
                out.append(x)
        return FALSE if not out else out[0] if len(out) == 1 else T("or", *out)

    def mk_not(self, x):
        if is_c(x):
            return C(not cv(x))
        if x[0] == "t" and x[1] == "not":
            return x[2]
        return T("not", x)

    def mk_lt(self, st, a, b):
        if is_c(a) and is_c(b):
            try:
                return C(bool(cv(a) < cv(b)))
            except TypeError:
                return FALSE
        if a == b:
            return FALSE
        if a[0] == "t" and a[1] == "add" and is_num(a[3]) and is_num(b):
            return self.mk_lt(st, a[2], C(cv(b) - cv(a[3])))
        if b[0] == "t" and b[1] == "add" and is_num(b[3]) and is_num(a):
            return self.mk_lt(st, C(cv(a) - cv(b[3])), b[2])
        # integral: a < c  <=>  not (c-1 < a)
        if is_int(b) and not is_c(a) and self.is_integral(st, a):
            return self.mk_not(T("lt", C(int(cv(b)) - 1), a))
        return T("lt", a, b)

    # ================================================================ isinstance
    def cls_heads(self, st, c):
        """Type heads an isinstance() test against class value c accepts: set of heads / ('inst',qual), or None."""
        if c[0] == "bi":
            n = c[1]
            if n == "int":
                return {"int", "bool"}
            if n in ("str", "bytes", "list", "dict", "tuple", "bool", "float", "set"):
                return {n}
            if n == "object":
                return {"*"}
            if n == "NoneType":
                return {"none"}
            return {"bi:" + n}
        if c[0] == "x" and c[1] in ("collections.abc.Mapping", "typing.Mapping", "collections.abc.MutableMapping"):
            return {"dict"}
        if c[0] == "x" and c[1] in ("collections.abc.Sequence",):
            return {"list", "tuple", "str", "bytes"}
        if c[0] == "x" and c[1] in ("numbers.Integral", "numbers.Number"):
            return {"int", "bool"}
        if c[0] == "x" and c[1] == "types.NoneType":
            return {"none"}
        if c[0] == "k":
            return {("inst", c[1])}
        return set()

    def spec_match(self, s, heads):
        """True / False / None for one type spec against accepted heads."""
        if "*" in heads:
            return True
        if s[0] == "any":
            return None
        if s[0] == "inst":
            mro = self.mro(s[1])
            for h in heads:
                if isinstance(h, tuple) and h[0] == "inst":
                    if h[1] in mro:
                        return True
                elif isinstance(h, str) and ("bi:" + h) in mro:
                    return True
            for h in heads:
                if isinstance(h, tuple) and h[0] == "inst" and s[1] in self.mro(h[1]):
                    return None  # may be the subclass
            return False
        return s[0] in heads

    def decide_isinst(self, st, a):
        v, heads = a[2], set(a[3][1:])
        if v[0] == "r":
            o = st.heap[v[1]]
            if o.kind == "inst" and o.base is None:
                return self.spec_match(("inst", o.cls), heads) is True
            if o.kind != "inst":
                return self.spec_match((o.kind,), heads) is True
            v = o.base
        if v[0] == "en":
            return any(self.spec_match(s, heads) is True for s in st.types_of(v))
        f = st.facts.get(T("isinst", v, a[3]))
        if f is not None:
            return f
        ms = {self.spec_match(s, heads) for s in st.types_of(v)}
        if v[0] not in ("s", "t"):
            return True in ms
        if ms == {True}:
            return True
        if ms == {False}:
            return False
        return None

    def assume_isinst(self, st, a, val):
        v, heads = a[2], set(a[3][1:])
        if v[0] == "r":
            v = st.heap[v[1]].base or v
        new = set()
        for s in st.types_of(v):
            m = self.spec_match(s, heads)
            if val:
                if m is True:
                    new.add(s)
                elif m is None:
                    for h in heads:
                        if isinstance(h, tuple):
                            new.add(h)
                        elif h == "dict":
                            new.add(("dict", ANY, ANY))
                        elif h in ("list", "set"):
                            new.add((h, ANY))
                        else:
                            new.add((h,))
            elif m is not True:
                new.add(s)
        st.facts[T("isinst", v, a[3])] = val
        st.types[v] = frozenset(new)
        r = st.lazy.get(v)
        if r is not None and val:
            o = st.heap[r[1]]
            insts = [s for s in new if s[0] == "inst"]
            if o.kind == "inst" and len(insts) == 1:
                clean = st.pristine.get(r[1]) is o
                o2 = InstO(insts[0][1], o.fields, o.base)
                st.heap[r[1]] = o2
                if clean:
                    st.pristine[r[1]] = o2
        return bool(new)

    def isinstance_atom(self, st, v, cls):
        """Boolean term of isinstance(v, cls) (cls: class value or tuple of them)."""
        cl = []

        def flat(c):
            if c[0] == "tp":
                for x in c[1:]:
                    flat(x)
            elif c[0] == "t" and c[1] == "union":
                for x in c[2:]:
                    flat(x)
            else:
                cl.append(c)

        flat(cls)
        v0 = self.norm(st, v)
        if v0[0] == "e" or (v0[0] == "r" and st.heap[v0[1]].kind == "inst" and self.is_exc_class(st.heap[v0[1]].cls)):
            ms = [self.exc_match(st, v0, c) for c in cl]
            if True in ms:
                return TRUE
            return FALSE if None not in ms else st.fresh("isinst")
        heads = set()
        for c in cl:
            if c == NONE:
                heads |= {"none"}
                continue
            h = self.cls_heads(st, c)
            heads |= h
        if v0[0] in ("f", "bm", "k", "m", "bi", "x", "partial"):
            return C("*" in heads)
        a = T("isinst", v0, ("hd",) + tuple(sorted(heads, key=repr)))
        d = self.decide_isinst(st, a)
        return a if d is None else C(d)

    # ================================================================ exceptions
    def exc_cls(self, st, e):
        if e[0] == "e":
            return e[1]
        if e[0] == "r":
            return ("k", st.heap[e[1]].cls)
        return ("x", "?any")

    def exc_supers(self, c):
        res = []
        todo = [c]
        while todo:
            c = todo.pop()
            if c in res:
                continue
            res.append(c)
            if c[0] == "bi" and c[1] in BUILTIN_EXC:
                todo += [("bi", b.__name__) for b in BUILTIN_EXC[c[1]].__bases__]
            elif c[0] == "x":
                b = EXT_EXC.get(c[1])
                todo.append(b if b else ("bi", "Exception"))
            elif c[0] == "k" and c[1] in self.classes:
                todo += self.classes[c[1]].bases
        return res

    def exc_match(self, st, e, c):
        """Does exception value e match handler class c: True / False / None (unknown)."""
        ec = self.exc_cls(st, e)
        if c in self.exc_supers(ec):
            return True
        if ec[0] == "x" and ec[1].startswith("?") and ec in self.exc_supers(c) or (
                ec == ("x", "?any") and c[0] in ("bi", "x", "k")):
            return None
        if ec == ("x", "?decode") and ("bi", "ValueError") in self.exc_supers(c):
            return None
        return False

    def show_exc(self, st, e):
        c = self.exc_cls(st, e)
        return f"{c[1]}" + ("(" + ", ".join(show(x) for x in e[2:]) + ")" if e[0] == "e" and len(e) > 2 else "")

    # ================================================================ truth
    def truth_atom(self, st, v):
        """A boolean term for the truth of v, or None when v must first be split by type."""
        v = self.plain(st, v)
        k = v[0]
        if k == "c":
            return C(bool(cv(v)))
        if k == "tp":
            return C(len(v) > 1)
        if k == "en":
            ci = self.classes[v[1]]
            return C(bool(cv(v[3]))) if ci.enum in ("str", "int") and is_c(v[3]) else TRUE
        if k in ("f", "bm", "k", "m", "bi", "x", "e", "partial", "ty"):
            return TRUE
        if k == "r":
            o = st.heap[v[1]]
            if o.kind in ("dict", "set", "list"):
                return self.mk_lt(st, C(0), self.len_term(st, v))
            if o.kind == "inst" and self.classes.get(o.cls) is not None and self.classes[o.cls].namedtuple:
                return C(bool(self.classes[o.cls].fields))
            return TRUE
        if k == "t" and v[1] in BOOL_OPS:
            return v
        if k in ("s", "t"):
            c = st.eqc.get(v)
            if c is not None and is_c(c):
                return C(bool(cv(c)))
            h = st.heads(v)
            if h == {"bool"}:
                return v if k == "s" or v[1] in BOOL_OPS else T("truthy", v)
            if h == {"none"}:
                return FALSE
            if h <= {"int", "bool", "float"}:
                return self.mk_not(self.mk_eq(st, v, C(0)))
            if k == "t" and v[1] == "concat":
                return self.mk_or([self.truth_atom(st, x) for x in v[2:]])
            if k == "t" and v[1] == "str" and len(v) == 3 and st.heads(v[2]) <= {"int", "bool", "float", "none", "list", "dict", "tuple", "set"}:
                return TRUE
            if h <= {"str", "bytes", "list", "dict", "tuple", "set"}:
                return self.mk_lt(st, C(0), self.len_term(st, v))
            if h <= {"inst", "fn", "obj", "exc"}:
                return TRUE
            return T("truthy", v)
        return T("truthy", v)

    def truth(self, st, v):
        """[(st, bool)]"""
        v = self.plain(st, v)
        if v[0] == "r":
            o = st.heap[v[1]]
            if o.kind == "inst" and o.cls in self.classes:
                for m in ("__bool__", "__len__"):
                    f, _ = self.class_lookup(st, o.cls, m)
                    if f is not None:
                        res = []
                        for s2, k2, r in self.call(st, ("bm", f, v), [], {}):
                            if k2 == "v":
                                res += self.truth(s2, r)
                        return res
        if v[0] in ("s", "t") and not (v[0] == "t" and v[1] in BOOL_OPS):
            h = st.heads(v)
            if "none" in h and "any" not in h and len(h) > 1:
                res = []
                for s2, b in st.branch(T("isnone", v)):
                    res += [(s2, False)] if b else self.truth(s2, v)
                return res
        a = self.truth_atom(st, v)
        return self.branch_bool(st, a)

    def branch_bool(self, st, a):
        """Split a state on a boolean term, one atom at a time."""
        if is_c(a):
            return [(st, bool(cv(a)))]
        if a[0] == "t":
            if a[1] == "not":
                return [(s, not b) for s, b in self.branch_bool(st, a[2])]
            if a[1] == "and":
                res = []
                cur = [st]
                for x in a[2:]:
                    nxt = []
                    for s in cur:
                        for s2, b in self.branch_bool(s, x):
                            (nxt.append(s2) if b else res.append((s2, False)))
                    cur = nxt
                return res + [(s, True) for s in cur]
            if a[1] == "or":
                res = []
                cur = [st]
                for x in a[2:]:
                    nxt = []
                    for s in cur:
                        for s2, b in self.branch_bool(s, x):
                            (res.append((s2, True)) if b else nxt.append(s2))
                    cur = nxt
                return res + [(s, False) for s in cur]
        return st.branch(a)

    # ================================================================ lengths
    def known_len_term(self, st, v):
        if v[0] == "t":
            if v[1] == "slice":
                n = self.const_len(st, v[2])
                if n is None:
                    return None
                lo = cv(v[3]) if is_c(v[3]) and v[3] != NONE else 0
                hi = cv(v[4]) if is_c(v[4]) and v[4] != NONE else n
                return len(range(*slice(lo, hi).indices(n)))
            if v[1] == "tobytes" and is_int(v[3]):
                return cv(v[3])
            if v[1] == "bytesof":
                return len(v) - 2
            if v[1] == "keybytes":
                return 32
            if v[1] in ("hmac", "digest"):
                return self.models.LIBSIZE.get(cv(v[-1]) if v[1] == "hmac" else cv(v[2])) if is_c(v[-1] if v[1] == "hmac" else v[2]) \
                    else None
            if v[1] == "sig":
                return 64
            if v[1] == "hexenc":
                n = self.const_len(st, v[2])
                return None if n is None else 2 * n
        return None

    def const_len(self, st, v):
        t = self.len_term(st, v)
        if is_int(t):
            return cv(t)
        lo, hi = st.interval(t)
        return int(lo) if lo == hi and hi != INF else None

    def len_term(self, st, v):
        v = self.plain(st, v)
        if is_c(v) and v[1] in ("str", "bytes"):
            return C(len(cv(v)))
        if v[0] == "tp":
            return C(len(v) - 1)
        if v[0] in ("s", "t"):
            r = st.lazy.get(v)
            if r is None:
                n = self.known_len_term(st, v)
                if n is not None:
                    return C(n)
                if v[0] == "t" and v[1] == "str" and False:
                    pass
                return T("len", v)
            v = r
        if v[0] == "r":
            o = st.heap[v[1]]
            if o.kind in ("list", "iter"):
                base = o.base if o.kind == "list" else None
                if any(s[0] != "e" for s in o.segs):
                    if base is None and len(o.segs) == 1:
                        s = o.segs[0]
                        if s[3] == ("gd",):
                            return T("len", s[1])
                    return T("len", self.deep(st, v))
                n = len(o.segs)
                if base is None:
                    return C(n)
                return T("len", base) if n == 0 else T("add", T("len", base), C(n))
            if o.kind in ("dict", "set"):
                n, unsure = 0, False
                seen = []
                for e in o.ov:
                    if e[3] is not None:
                        unsure = True
                        break
                eff = self.eff_entries(st, o) if not unsure else None
                if eff is None:
                    return T("len", self.deep(st, v))
                for key, val in eff:
                    inb = False if o.base is None else st.decide(self.in_atom(st, key, o.base))
                    if inb is None:
                        t = T("len", self.deep(st, v))
                        lo, hi = st.interval(t)
                        n_lo = sum(x != DEL for _, x in eff)
                        if self.frame is not None and o.base is not None:
                            n_lo += self.frame.len_lo(st, o.base, [y for y, _ in eff])
                        self.set_iv(st, t, max(lo, n_lo), hi)
                        return t
                    if val == DEL:
                        n -= 1 if inb else 0
                    else:
                        n += 0 if inb else 1
                if o.base is None:
                    return C(n)
                b = o.base if self.frame is None else self.cn(st, o.base)
                return T("len", b) if n == 0 else T("add", T("len", b), C(n))
            if o.kind == "inst" and self.classes[o.cls].namedtuple:
                return C(len(self.classes[o.cls].fields))
        return T("len", v)

    def eff_entries(self, st, o):
        """Last value per distinct overlay key, or None when two keys may or may not be equal."""
        out = []
        for e in o.ov:
            for i, (k, v) in enumerate(out):
                d = st.keq(k, e[0])
                if d is True:
                    out[i] = (k, e[1])
                    break
                if d is None:
                    return None
            else:
                out.append((e[0], e[1]))
        return out

    def alias_pair(self, st, o):
        """Two overlay keys of which it is not known whether they are equal."""
        ks = []
        for e in o.ov:
            if e[3] is not None:
                continue
            for k in ks:
                if st.keq(k, e[0]) is None and st.decide(self.mk_eq(st, k, e[0])) is None:
                    return k, e[0]
            ks.append(e[0])
        return None

    # ================================================================ membership / items
    def in_atom(self, st, key, base):
        if self.frame is not None:
            r = self.frame.in_atom(st, key, base)
            if r is not None:
                return r
        return T("in", self.cn(st, key), base)

    def mk_item(self, st, base, key):
        key = self.cn(st, key)
        r = self.axiom_item(st, base, key)
        if r is not None:
            return r
        return T("item", base, key)

    def unify(self, pat, val, evar, b=None):
        """One-way match of pattern pat (containing evar) against val; returns the binding of evar or None."""
        if pat == evar:
            if b is not None and b != val:
                return None
            return val
        if pat == val:
            return b if b is not None else True
        if isinstance(pat, tuple) and isinstance(val, tuple) and len(pat) == len(val):
            for p, v in zip(pat, val):
                if isinstance(p, tuple) and isinstance(v, tuple):
                    if not contains(p, evar):
                        if p != v:
                            return None
                        continue
                    r = self.unify(p, v, evar, b if b is not True else None)
                    if r is None:
                        return None
                    if r is not True:
                        b = r
                elif p != v:
                    return None
            return b if b is not None else True
        return None

    def ov_find(self, st, o, key):
        """Search overlay entries, newest first: [(st, value|DEL|None)] (None: fall through to the base)."""
        outs = []
        cur = [(st, len(o.ov) - 1)]
        while cur:
            s, i = cur.pop()
            if i < 0:
                outs.append((s, None))
                continue
            k, v, loc, q = o.ov[i]
            if self.frame is not None and o.base is not None and self.frame_apart(s, k, q, key, o.base):
                cur.append((s, i - 1))
                continue
            if q is None:
                a = self.mk_eq(s, self.cn(s, k), self.cn(s, key))
                if self.frame is not None and o.base is not None and s.decide(a) is None:
                    a2 = self.frame.same_key(s, o.base, k, key)
                    a = a if a2 is None else a2
                for s2, b in self.branch_bool(s, a):
                    if b:
                        outs.append((s2, v))
                    else:
                        cur.append((s2, i - 1))
                continue
            src, evar, guard = q[1], q[2], q[3]
            kk = self.cn(s, key)
            b = self.unify(k, kk, evar)
            if b is None and self.frame is not None and o.base is not None:
                b = self.frame.solve(s, o.base, k, kk, evar, src, guard)
            if b is not None and b is not True:
                conds = [self.in_atom(s, b, src)] + [self.guard_atom(subst(g, {evar: b})) for g in guard[1:]]
                for s2, t in self.branch_bool(s, self.mk_and([self.simp(s, c) for c in conds])):
                    if t:
                        outs.append((s2, subst(v, {evar: b}) if v != DEL else DEL))
                    else:
                        cur.append((s2, i - 1))
                continue
            dot = S("•")
            ke = self.mk_eq(s, subst(k, {evar: dot}), kk)
            if ke == FALSE:
                cur.append((s, i - 1))
                continue
            body = tuple(sorted([T("g", ke, TRUE)] +
                                [subst(g, {evar: dot}) for g in guard[1:]], key=repr))
            for s2, t in s.branch(T("exists", src, ("gd",) + body)):
                if t:
                    s2.note("maybe", "quantified entry", s2.loc)
                    outs.append((s2, v if v == DEL else T("unk", v)))
                else:
                    cur.append((s2, i - 1))
        return outs

    def frame_apart(self, s, k, q, key, base):
        """Can the overlay key not be the searched key because exactly one of them is in the population?"""
        if self.frame.locate(base) is None:
            return False
        inkey = s.decide(self.in_atom(s, key, base))
        if inkey is None:
            return False
        s2 = s
        if q is not None:
            s2 = s.copy()
            if not self.assume_elem(s2, q[2], q[1], q[3]):
                return False
        ink = s2.decide(self.in_atom(s2, k, base))
        return ink is not None and ink != inkey

    def assume_elem(self, b, evar, src, guard):
        """Assume that evar is an element of src satisfying the guard (in place)."""
        if self.frame is not None:
            b.facts[T("rawin", evar, src)] = True
            a = self.in_atom(b, evar, src)
            if is_c(a):
                if not cv(a):
                    return False
            elif not b.assume(a, True):
                return False
        b.facts[T("in", evar, src)] = True
        for g in guard[1:]:
            a = self.guard_atom(g)
            if is_c(a):
                if not cv(a):
                    return False
            elif not b.assume(a, True):
                return False
        return True

    def guard_atom(self, g):
        return g[2] if g[3] == TRUE else self.mk_not(g[2])

    def simp(self, st, a):
        """Re-simplify an atom after substitution."""
        if a[0] != "t":
            return a
        op = a[1]
        if op == "not":
            return self.mk_not(self.simp(st, a[2]))
        if op == "eq":
            return self.mk_eq(st, self.cn(st, a[2]), self.cn(st, a[3]))
        if op == "in":
            if a[3][0] == "tp":
                return self.in_const(st, a[2], list(a[3][1:]))
            return self.in_atom(st, a[2], a[3])
        if op in ("and", "or"):
            xs = [self.simp(st, x) for x in a[2:]]
            return self.mk_and(xs) if op == "and" else self.mk_or(xs)
        return a

    def in_const(self, st, x, items):
        items = [self.cn(st, i) for i in items]
        x = self.cn(st, x)
        if is_c(x) and all(is_c(i) for i in items):
            return C(any(self.const_eq(x, i) for i in items))
        if not items:
            return FALSE
        if all(is_c(i) for i in items):
            items = sorted(set(items), key=repr)
            if len(items) == 1:
                return self.mk_eq(st, x, items[0])
            hs = st.heads(x)
            return T("in", x, ("tp",) + tuple(items))
        return self.mk_or([self.mk_eq(st, x, i) for i in items])

    def dict_find(self, st, ref, key):
        """[(st, value | None)]"""
        o = st.heap[ref[1]]
        outs = []
        for s, v in self.ov_find(st, o, key):
            if v is None:
                if o.base is None:
                    outs.append((s, None))
                    continue
                for s2, b in self.branch_bool(s, self.in_atom(s, key, o.base)):
                    if b and self.frame is not None:
                        outs += [(s3, self.mk_item(s3, o.base, key)) for s3 in self.frame.settle(s2, o.base, key)]
                    else:
                        outs.append((s2, self.mk_item(s2, o.base, key) if b else None))
            else:
                outs.append((s, None if v == DEL else v))
        return outs

    def contains_atom(self, st, key, ref):
        """[(st, bool)] membership in a dict/set object."""
        return [(s, v is not None) for s, v in self.dict_find_any(st, ref, key)]

    def dict_find_any(self, st, ref, key):
        o = st.heap[ref[1]]
        if o.kind == "dict":
            return self.dict_find(st, ref, key)
        outs = []
        for s, v in self.ov_find(st, o, key):
            if v is None:
                if o.base is None:
                    outs.append((s, None))
                    continue
                for s2, b in self.branch_bool(s, self.in_atom(s, key, o.base)):
                    outs.append((s2, TRUE if b else None))
            else:
                outs.append((s, None if v == DEL else TRUE))
        return outs

    def ov_put(self, st, ref, key, val):
        o = st.heap[ref[1]]
        key = self.cn(st, key)
        ov = tuple(e for e in o.ov if not (e[3] is None and e[0] == key))
        ent = (key, val, st.loc, None)
        if val == DEL and o.base is None and not any(e[3] is None or True for e in ov):
            st.put(ref, o.rep(ov=ov))
            return
        if val == DEL and o.base is None and all(e[3] is None and st.keq(e[0], key) is False for e in ov):
            st.put(ref, o.rep(ov=ov))
            return
        if val == DEL and o.base is not None and st.decide(self.in_atom(st, key, o.base)) is False and all(
                e[3] is None and st.keq(e[0], key) is False for e in ov):
            st.put(ref, o.rep(ov=ov))
            return
        st.put(ref, o.rep(ov=ov + (ent,)))

    # ================================================================ iteration
    def segs_of(self, st, v, fork=True):
        """Iteration segments of a value: [('ok', st, segs)] | [('x', st, exc)]."""
        v = self.plain(st, v)
        k = v[0]
        if fork and k == "r" and self.frame is not None:
            o = st.heap[v[1]]
            if o.kind == "iter" and o.src is not None:
                o = st.heap[o.src[0][1]]
            if o.kind in ("dict", "set") and o.base is not None:
                for key in self.frame.touched(st, o.base):
                    a = self.in_atom(st, key, o.base)
                    if st.decide(a) is None:
                        return [x for s2, b in self.branch_bool(st, a) for x in self.segs_of(s2, v)]
        if fork and k == "r" and st.heap[v[1]].kind in ("dict", "set"):
            p = self.alias_pair(st, st.heap[v[1]])
            if p is not None:
                return [x for s2, b in self.branch_bool(st, self.mk_eq(st, *p)) for x in self.segs_of(s2, v)]
        if k == "tp":
            return [("ok", st, tuple(("e", x) for x in v[1:]))]
        if k == "c":
            if v[1] == "str":
                return [("ok", st, tuple(("e", C(x)) for x in cv(v)))]
            if v[1] == "bytes":
                return [("ok", st, tuple(("e", C(x)) for x in cv(v)))]
            return [("x", st, ("e", ("bi", "TypeError"), C("not iterable")))]
        if k == "k":
            ci = self.classes[v[1]]
            if ci.enum:
                return [("ok", st, tuple(("e", m) for n, m in ci.members.items() if m[2] == n))]
        if k in ("s", "t"):
            h = st.types_of(v)
            heads = {s[0] for s in h}
            if len(heads) == 1 and heads & {"dict", "set", "list"}:
                return self.segs_of(st, self.force(st, v))
            if heads <= {"bytes", "str", "tuple"} and heads:
                n = self.const_len(st, v)
                if n is not None and n <= 64:
                    return [("ok", st, tuple(("e", self.index_term(st, v, i)) for i in range(n)))]
                ev = st.fresh("e")
                if heads == {"bytes"}:
                    self.symtypes[ev] = ts("int")
                    st.iv[ev] = (0, 255)
                elif heads == {"str"}:
                    self.symtypes[ev] = ts("str")
                return [("ok", st, (("q", v, ev, ("gd",), ev),))]
            if "any" in heads:
                ev = st.fresh("e")
                return [("ok", st, (("q", v, ev, ("gd",), ev),))]
            itb = heads & {"dict", "set", "list", "bytes", "str", "tuple"}
            if not itb:
                return [("x", st, ("e", ("bi", "TypeError"), C("not iterable")))]
            res = []
            o = st.copy()
            st.types[v] = frozenset(s for s in h if s[0] in itb)
            o.types[v] = frozenset(s for s in h if s[0] not in itb)
            if o.types[v]:
                res.append(("x", o, ("e", ("bi", "TypeError"), C("not iterable"))))
            for hd in sorted(itb):
                s2 = st.copy()
                s2.types[v] = frozenset(s for s in h if s[0] == hd)
                res += self.segs_of(s2, v)
            return res
        if k == "r":
            o = st.heap[v[1]]
            if o.kind == "iter" and o.src is not None:
                return [("ok", st, self.models.dict_segs(self, st, *o.src))]
            if o.kind == "iter":
                st.put(v, IterO(()))
                return [("ok", st, self.renamed(st, o.segs))]
            if o.kind == "list":
                segs = ()
                if o.base is not None:
                    n = self.const_len(st, o.base) if o.base not in st.lazy else None
                    if n is None:
                        lo, hi = st.interval(T("len", o.base))
                        n = int(lo) if lo == hi and hi != INF else None
                    if n is not None and n <= 64:
                        segs = tuple(("e", self.index_term(st, o.base, i)) for i in range(n))
                    else:
                        ev = st.fresh("e")
                        self.symtypes[ev] = spec(o.ets)
                        segs = (("q", o.base, ev, ("gd",), ev),)
                return [("ok", st, segs + self.renamed(st, o.segs))]
            if o.kind in ("dict", "set"):
                segs = []
                ents = []
                for e in o.ov:
                    if e[3] is None:
                        ents.append(e)
                if o.base is not None:
                    ev = st.fresh("k")
                    self.symtypes[ev] = spec(o.kts)
                    g = [T("g", T("in", ev, o.base), TRUE)]
                    g = []
                    for e in ents:
                        g.append(T("g", self.mk_eq(st, ev, e[0]), FALSE))
                    peel = []
                    if self.frame is not None and all(e[3] is None for e in o.ov):
                        peel = [x for x in self.frame.touched(st, o.base) if st.decide(self.in_atom(st, x, o.base)) is True
                                and all(st.keq(x, e[0]) is False for e in ents)]
                        g += [T("g", self.mk_eq(st, ev, x), FALSE) for x in peel]
                        segs += [("e", x) for x in peel]
                    for e in o.ov:
                        if e[3] is not None and e[1] == DEL:
                            q = e[3]
                            b = self.unify(e[0], ev, q[2])
                            if b == ev and q[1] == o.base:
                                gg = [subst(x, {q[2]: ev}) for x in q[3][1:]]
                                if len(gg) == 1:
                                    g.append(T("g", gg[0][2], FALSE if gg[0][3] == TRUE else TRUE))
                                elif not gg:
                                    g.append(T("g", TRUE, FALSE))
                                else:
                                    g.append(T("g", self.mk_and([self.guard_atom(x) for x in gg]), FALSE))
                            else:
                                st.note("unk", "iteration over quantified dict", st.loc)
                    segs.append(("q", o.base, ev, ("gd",) + tuple(g), ev))
                eff = self.eff_entries(st, o.rep(ov=tuple(ents))) if ents else []
                if eff is None:
                    eff = [(e[0], e[1]) for e in ents]
                for kk, vv in eff:
                    if vv != DEL:
                        segs.append(("e", kk))
                for e in o.ov:
                    if e[3] is not None and e[1] != DEL:
                        q = e[3]
                        segs += self.renamed(st, [("q", q[1], q[2], q[3], e[0])])
                return [("ok", st, tuple(segs))]
            if o.kind == "inst":
                ci = self.classes.get(o.cls)
                if ci is not None and ci.namedtuple:
                    return [("ok", st, tuple(("e", o.fields.get(f, NONE)) for f in ci.fields))]
                f, _ = self.class_lookup(st, o.cls, "__iter__")
                if f is not None:
                    res = []
                    for s2, k2, r in self.call(st, ("bm", f, v), [], {}):
                        if k2 == "x":
                            res.append(("x", s2, r))
                        else:
                            res += self.segs_of(s2, r)
                    return res
            return [("x", st, ("e", ("bi", "TypeError"), C("not iterable")))]
        if k in ("x", "bi"):
            ev = st.fresh("e")
            return [("ok", st, (("q", v, ev, ("gd",), ev),))]
        return [("x", st, ("e", ("bi", "TypeError"), C("not iterable")))]

    def index_term(self, st, v, i):
        if v[0] == "tp":
            return v[1 + i]
        if is_c(v):
            return C(cv(v)[i])
        if v[0] == "t" and v[1] == "bytesof":
            return v[2 + i]
        if v[0] == "t" and v[1] == "slice":
            n = self.const_len(st, v[2])
            if n is not None:
                lo = cv(v[3]) if is_c(v[3]) and v[3] != NONE else 0
                hi = cv(v[4]) if is_c(v[4]) and v[4] != NONE else n
                step = cv(v[5]) if len(v) > 5 and v[5] != NONE else 1
                r = range(*slice(lo if v[3] != NONE else None, hi if v[4] != NONE else None, step).indices(n))
                if 0 <= i < len(r):
                    return self.index_term(st, v[2], r[i])
            elif is_int(v[3]) and cv(v[3]) >= 0 and (len(v) <= 5 or v[5] == NONE):
                return self.index_term(st, v[2], cv(v[3]) + i)
        if v[0] == "t" and v[1] == "tobytes" and is_int(v[3]) and v[4] == C("big"):
            n = cv(v[3])
            x = v[2]
            sh = 8 * (n - 1 - i)
            return T("bitand", T("shr", x, C(sh)) if sh else x, C(255))
        return T("item", v, C(i))

    # ================================================================ expressions
    def bind(self, outs, f):
        res = []
        for st, k, v in outs:
            if k == "v":
                res.extend(f(st, v))
            else:
                res.append((st, k, v))
        return res

    def eval_list(self, st, nodes, fr):
        """Evaluate expressions left to right: outcomes whose value is a tuple of values."""
        outs = [(st, "v", ())]
        for n in nodes:
            nxt = []
            for s, k, vs in outs:
                if k != "v":
                    nxt.append((s, k, vs))
                    continue
                if isinstance(n, ast.Starred):
                    for s2, k2, v in self.ev(s, n.value, fr):
                        if k2 != "v":
                            nxt.append((s2, k2, v))
                            continue
                        for tag, s3, segs in self.segs_of(s2, v):
                            if tag == "x":
                                nxt.append((s3, "x", segs))
                            elif all(g[0] == "e" for g in segs):
                                nxt.append((s3, "v", vs + tuple(g[1] for g in segs)))
                            else:
                                nxt.append((s3, "v", vs + (("star", v, segs),)))
                else:
                    for s2, k2, v in self.ev(s, n, fr):
                        nxt.append((s2, k2, vs + (v,) if k2 == "v" else v))
            outs = nxt
        return outs

    def ev(self, st, n, fr):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            st.note("imprecise", "unsupported expression " + type(n).__name__, self.where(st, fr, n))
            self.unsupported.add(type(n).__name__)
            return [(st, "v", T("unk", st.fresh("expr")))]
        return m(st, n, fr)

    def where(self, st, fr, n):
        mod = self.frame_mod(st, fr)
        m = self.src.mods.get(mod)
        return (m.path if m else mod, getattr(n, "lineno", 0))

    def ev_Constant(self, st, n, fr):
        return [(st, "v", C(n.value))]

    def ev_Name(self, st, n, fr):
        v = self.lookup(st, n.id, fr)
        if v is None:
            fi = st.envs[fr].get("__fi__")
            if fi is not None and n.id in self.funcs[fi].locals:
                return self.raise_(st, "UnboundLocalError", C(n.id))
            return self.raise_(st, "NameError", C(n.id))
        return [(st, "v", v)]

    def ev_NamedExpr(self, st, n, fr):
        def f(s, v):
            t = fr
            while st.envs[t].get("__comp__"):
                t = st.envs[t]["__parent__"]
            self.setvar(s, t, n.target.id, v)
            return [(s, "v", v)]

        return self.bind(self.ev(st, n.value, fr), f)

    def ev_Tuple(self, st, n, fr):
        def f(s, vs):
            if any(v[0] == "star" for v in vs):
                return [(s, "v", self.mk_list(s, vs))]
            return [(s, "v", ("tp",) + vs)]

        return self.bind(self.eval_list(st, n.elts, fr), f)

    def mk_list(self, st, vs):
        segs = []
        for v in vs:
            if v[0] == "star":
                segs += list(v[2])
            else:
                segs.append(("e", v))
        return st.alloc(ListO(None, tuple(segs)))

    def ev_List(self, st, n, fr):
        return self.bind(self.eval_list(st, n.elts, fr), lambda s, vs: [(s, "v", self.mk_list(s, vs))])

    def ev_Set(self, st, n, fr):
        def f(s, vs):
            ov = ()
            for v in vs:
                if v[0] == "star":
                    for g in v[2]:
                        ov += ((g[1], TRUE, s.loc, None),) if g[0] == "e" else (
                            (g[4], TRUE, s.loc, T("qq", g[1], g[2], g[3])[1:] and ("q", g[1], g[2], g[3])),)
                else:
                    ov += ((self.cn(s, v), TRUE, s.loc, None),)
            return [(s, "v", s.alloc(SetO(None, ov)))]

        return self.bind(self.eval_list(st, n.elts, fr), f)

    def ev_Dict(self, st, n, fr):
        ref = st.alloc(DictO())
        outs = [(st, "v", ref)]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for s, kd, x in outs:
                if kd != "v":
                    nxt.append((s, kd, x))
                elif k is None:
                    nxt += self.bind(self.ev(s, v, fr), lambda s2, d: self.models.dict_update(self, s2, ref, d))
                else:
                    def g(s2, kv):
                        self.ov_put(s2, ref, kv[0], kv[1])
                        return [(s2, "v", ref)]

                    nxt += self.bind(self.eval_list(s, [k, v], fr), g)
            outs = nxt
        return [(s, k, ref if k == "v" else x) for s, k, x in outs]

    def shown(self, st, v):
        """The text a plain replacement field shows for v."""
        if is_c(v):
            return C(str(cv(v)))
        return v if v[0] in ("s", "t") and st.heads(v) == {"str"} else T("str", self.deep(st, v))

    def percent(self, st, a, b):
        vals = list(b[1:]) if b[0] == "tp" else [b]
        if is_c(a) and (b[0] == "tp" or not st.heads(b) & {"any", "tuple", "dict"}):
            pieces = re.split(r"%([sd%])", cv(a))
            fields = pieces[1::2]
            if not any("%" in x for x in pieces[::2]) and sum(f != "%" for f in fields) == len(vals) and all(
                    f != "d" or st.heads(v) <= {"int"} for f, v in zip([f for f in fields if f != "%"], vals)):
                it = iter(vals)
                return self.concat([C(x) if i % 2 == 0 else C("%") if x == "%" else self.shown(st, next(it)) for i, x in enumerate(pieces)])
        return T("fmt", a, self.deep(st, b))

    def ev_JoinedStr(self, st, n, fr):
        parts = [p for p in n.values]
        nodes = []
        for p in parts:
            nodes.append(p.value if isinstance(p, ast.FormattedValue) else p)

        def f(s, vs):
            out = []
            for p, v in zip(parts, vs):
                if isinstance(p, ast.FormattedValue):
                    plain = p.format_spec is None and p.conversion in (-1, None)
                    if is_c(v) and plain:
                        v = C(str(cv(v)))
                    elif v[0] == "en":
                        v = T("str", v)
                    elif not (plain and s.heads(v) == {"str"}):
                        v = T("str", self.deep(s, v))
                        if p.format_spec is not None:
                            v = T("fmt", C(ast.dump(p.format_spec)), v)
                out.append(v)
            return [(s, "v", self.concat(out))]

        return self.bind(self.eval_list(st, nodes, fr), f)

    def concat(self, parts):
        flat = []
        for p in parts:
            if p[0] == "t" and p[1] in ("concat", "fstr"):
                flat += list(p[2:])
            else:
                flat.append(p)
        out = []
        for p in flat:
            last = out[-1] if out else None
            if last is not None and any(x[0] == "t" and x[1] == "bytesof" for x in (p, last)) and all(
                    x[0] == "t" and x[1] == "bytesof" or is_c(x) and isinstance(cv(x), bytes) for x in (p, last)):
                out[-1] = T("bytesof", *(y for x in (last, p) for y in ([C(b) for b in cv(x)] if is_c(x) else x[2:])))
            elif is_c(p) and out and is_c(out[-1]) and type(cv(p)) is type(cv(out[-1])):
                out[-1] = C(cv(out[-1]) + cv(p))
            elif not (is_c(p) and cv(p) in ("", b"")):
                out.append(p)
        if not out:
            return C("")
        if len(out) == 1:
            return out[0]
        return T("concat", *out)

    def ev_FormattedValue(self, st, n, fr):
        return self.ev(st, n.value, fr)

    def ev_Lambda(self, st, n, fr):
        return self.mk_func(st, n, fr, "<lambda>")

    def ev_IfExp(self, st, n, fr):
        res = []
        for s, k, v in self.ev_cond(st, n.test, fr):
            if k != "v":
                res.append((s, k, v))
            else:
                res += self.ev(s, n.body if v else n.orelse, fr)
        return res

    def ev_cond(self, st, n, fr):
        """Evaluate a condition: outcomes (st,'v',bool) | (st,'x',exc)."""
        if isinstance(n, ast.BoolOp):
            is_and = isinstance(n.op, ast.And)
            cur, res = [st], []
            for x in n.values:
                nxt = []
                for s in cur:
                    for s2, k, b in self.ev_cond(s, x, fr):
                        if k != "v":
                            res.append((s2, k, b))
                        elif b == is_and:
                            nxt.append(s2)
                        else:
                            res.append((s2, "v", b))
                cur = nxt
            return res + [(s, "v", is_and) for s in cur]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(s, k, (not b) if k == "v" else b) for s, k, b in self.ev_cond(st, n.operand, fr)]
        res = []
        for s, k, v in self.ev(st, n, fr):
            if k != "v":
                res.append((s, k, v))
            else:
                s.loc = self.where(s, fr, n)
                res += [(s2, "v", b) for s2, b in self.truth(s, v)]
        return res

    def ev_BoolOp(self, st, n, fr):
        is_and = isinstance(n.op, ast.And)
        cur, res = [st], []
        for i, x in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for s in cur:
                for s2, k, v in self.ev(s, x, fr):
                    if k != "v" or last:
                        res.append((s2, k, v))
                        continue
                    for s3, b in self.truth(s2, v):
                        if b == is_and:
                            nxt.append(s3)
                        else:
                            vv = v
                            if v[0] == "t" and v[1] in BOOL_OPS:
                                vv = C(b)
                            res.append((s3, "v", vv))
            cur = nxt
        return res

    def ev_UnaryOp(self, st, n, fr):
        if isinstance(n.op, ast.Not):
            return [(s, k, C(not b) if k == "v" else b) for s, k, b in self.ev_cond(st, n.operand, fr)]

        def f(s, v):
            if is_num(v):
                x = cv(v)
                return [(s, "v", C(-x if isinstance(n.op, ast.USub) else ~x if isinstance(n.op, ast.Invert) else +x))]
            return [(s, "v", T({ast.USub: "neg", ast.Invert: "invert", ast.UAdd: "pos"}[type(n.op)], v))]

        return self.bind(self.ev(st, n.operand, fr), f)

    BIN = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.FloorDiv: "floordiv", ast.Mod: "mod",
           ast.Pow: "pow", ast.LShift: "shl", ast.RShift: "shr", ast.BitOr: "bitor", ast.BitAnd: "bitand",
           ast.BitXor: "bitxor", ast.MatMult: "matmul"}

    def ev_BinOp(self, st, n, fr):
        return self.bind(self.eval_list(st, [n.left, n.right], fr),
                         lambda s, vs: self.binop(s, self.BIN[type(n.op)], vs[0], vs[1]))

    def binop(self, st, op, a, b):
        a, b = self.plain(st, a), self.plain(st, b)
        if a[0] == "en" and self.classes[a[1]].enum in ("str", "int"):
            a = a[3]
        if b[0] == "en" and self.classes[b[1]].enum in ("str", "int"):
            b = b[3]
        if is_c(a) and is_c(b):
            import operator as O
            fn = {"add": O.add, "sub": O.sub, "mul": O.mul, "div": O.truediv, "floordiv": O.floordiv, "mod": O.mod,
                  "pow": O.pow, "shl": O.lshift, "shr": O.rshift, "bitor": O.or_, "bitand": O.and_,
                  "bitxor": O.xor}.get(op)
            try:
                if op in ("pow", "shl") and is_num(b) and abs(cv(b)) > 4096:
                    raise Incomplete("constant too large")
                return [(st, "v", C(fn(cv(a), cv(b))))]
            except Exception as e:
                return self.raise_(st, type(e).__name__, C(str(e)))
        ha, hb = st.heads(a), st.heads(b)
        # containers
        ra, rb = self.force(st, a), self.force(st, b)
        ka = st.heap[ra[1]].kind if ra[0] == "r" else None
        kb = st.heap[rb[1]].kind if rb[0] == "r" else None
        if op == "bitor" and (a[0] in ("k", "bi") or b[0] in ("k", "bi")):
            return [(st, "v", T("union", a, b))]
        if op == "bitor" and ka == "dict" and kb == "dict":
            o = st.heap[ra[1]]
            new = st.alloc(DictO(o.base, o.ov, o.kts, o.vts))
            return self.bind(self.models.dict_update(self, st, new, rb), lambda s, _: [(s, "v", new)])
        if ka == "set" and kb == "set" and op in ("bitor", "bitand", "sub", "bitxor"):
            return self.models.set_op(self, st, op, ra, rb)
        if op == "add" and (ka == "list" or a[0] == "tp") and (kb == "list" or b[0] == "tp"):
            sa, sb = self.segs_of(st, ra if ka else a), None
            tag, st, sa = sa[0]
            tag, st, sb = self.segs_of(st, rb if kb else b)[0]
            if ka is None and kb is None:
                return [(st, "v", ("tp",) + tuple(x[1] for x in sa + sb))]
            oa = st.heap[ra[1]]
            if oa.base is not None:
                return [(st, "v", st.alloc(ListO(oa.base, oa.segs + sb, oa.ets)))]
            return [(st, "v", st.alloc(ListO(None, sa + sb)))]
        if op == "mul" and (ka == "list" or a[0] == "tp") and is_int(b):
            tag, st, sa = self.segs_of(st, ra if ka else a)[0]
            segs = sa * max(0, cv(b))
            return [(st, "v", ("tp",) + tuple(x[1] for x in segs) if a[0] == "tp" else st.alloc(ListO(None, segs)))]
        if op == "mod" and ha == {"str"}:
            return [(st, "v", self.percent(st, a, b))]
        if op == "add" and (ha == {"str"} or ha == {"bytes"}):
            if hb == ha:
                return [(st, "v", self.concat([a, b]))]
            if "any" not in hb and not (ha & hb):
                return self.raise_(st, "TypeError", C("cannot concatenate"))
            return [(st, "v", self.concat([a, b]))]
        for x, h in ((a, ha), (b, hb)):
            if "any" not in h and not (h & (NUM | {"str", "bytes", "list", "tuple", "set", "dict"})):
                if ra[0] == "r" and st.heap[ra[1]].kind == "inst":
                    m = {"add": "__add__", "sub": "__sub__", "bitor": "__or__", "mul": "__mul__"}.get(op)
                    f = m and self.class_lookup(st, st.heap[ra[1]].cls, m)[0]
                    if f:
                        return self.call(st, ("bm", f, ra), [b], {})
                return self.raise_(st, "TypeError", C("unsupported operand"))
        bad = [x for x, h in ((a, ha), (b, hb)) if "any" not in h and not h <= NUM and h & NUM]
        outs = []
        for x in bad:
            o = st.copy()
            o.types[x] = frozenset(s for s in st.types_of(x) if s[0] not in NUM)
            st.types[x] = frozenset(s for s in st.types_of(x) if s[0] in NUM)
            outs.append((o, "x", ("e", ("bi", "TypeError"), C("unsupported operand"))))
        if op == "mod" and is_int(b) and cv(b) > 0 and self.is_integral(st, a):
            lo, hi = st.interval(a)
            n = cv(b)
            if n > 64 and 0 <= lo and n <= hi < 2 * n:  # at most one wrap: case split
                for s2, low in self.branch_bool(st, self.mk_lt(st, a, b)):
                    outs.append((s2, "v", a if low else self.simp_sum(s2, self.arith(s2, "sub", a, b))))
                return outs
        outs.append((st, "v", self.arith(st, op, a, b)))
        return outs

    def simp_sum(self, st, t):
        lo, hi = st.interval(t)
        return C(int(lo)) if lo == hi and abs(lo) != INF else t

    def arith(self, st, op, a, b):
        if op == "sub" and is_num(b):
            op, b = "add", C(-cv(b))
        if op in ("add", "mul", "bitor", "bitand", "bitxor"):
            if is_c(a) or (not is_c(b) and repr(a) > repr(b)):
                a, b = b, a
            if op == "add" and is_num(b):
                if cv(b) == 0:
                    return a
                if a[0] == "t" and a[1] == "add" and is_num(a[3]):
                    return self.arith(st, "add", a[2], C(cv(a[3]) + cv(b)))
            if op == "add" and not is_c(b):
                for x, y in ((a, b), (b, a)):
                    if x[0] == "t" and x[1] == "add" and is_num(x[3]):
                        return self.arith(st, "add", self.arith(st, "add", x[2], y), x[3])
            if op in ("bitor", "bitxor") and is_int(b) and cv(b) == 0:
                return a
            if op == "mul" and is_int(b) and cv(b) == 1:
                return a
            if op == "bitand" and is_int(b) and cv(b) >= 0:
                lo, hi = st.interval(a)
                m = cv(b)
                if 0 <= lo and hi <= m and (m & (m + 1)) == 0:
                    return a
            if op == "bitand" and a == b:
                return a
        if op in ("shl", "shr") and is_int(b) and cv(b) == 0:
            return a
        if op == "sub" and a == b:
            return C(0)
        if op == "pow" and a == C(2) and self.is_integral(st, b) and st.interval(b)[0] >= 0:
            return self.arith(st, "shl", C(1), b)
        if op == "mod" and is_int(b) and self.is_integral(st, a):
            lo, hi = st.interval(a)
            if 0 <= lo and hi < cv(b):
                return a
        return T(op, a, b)

    def ev_Compare(self, st, n, fr):
        if len(n.ops) == 1:
            return self.bind(self.eval_list(st, [n.left, n.comparators[0]], fr),
                             lambda s, vs: self.compare(s, n.ops[0], vs[0], vs[1], n, fr))
        outs = self.ev(st, n.left, fr)
        cur = [(s, k, v) for s, k, v in outs if k == "v"]
        res = [(s, k, v) for s, k, v in outs if k != "v"]
        for op, c in zip(n.ops, n.comparators):
            nxt = []
            for s, _, left in cur:
                for s2, k2, right in self.ev(s, c, fr):
                    if k2 != "v":
                        res.append((s2, k2, right))
                        continue
                    for s3, k3, r in self.compare(s2, op, left, right, n, fr):
                        if k3 != "v":
                            res.append((s3, k3, r))
                            continue
                        for s4, b in self.truth(s3, r):
                            if b:
                                nxt.append((s4, "v", right))
                            else:
                                res.append((s4, "v", FALSE))
            cur = nxt
        return res + [(s, "v", TRUE) for s, _, _ in cur]

    def compare(self, st, op, a, b, n=None, fr=None):
        if n is not None:
            st.loc = self.where(st, fr, n)
        t = type(op)
        if t in (ast.Is, ast.IsNot):
            r = self.is_atom(st, a, b)
            return [(st, "v", r if t is ast.Is else self.mk_not(r))]
        a, b = self.plain(st, a), self.plain(st, b)
        if t in (ast.Eq, ast.NotEq):
            outs = self.equals(st, a, b)
            return [(s, k, (v if t is ast.Eq else self.mk_not(v)) if k == "v" else v) for s, k, v in outs]
        if t in (ast.In, ast.NotIn):
            outs = self.member(st, a, b)
            return [(s, k, (v if t is ast.In else self.mk_not(v)) if k == "v" else v) for s, k, v in outs]
        if t in (ast.Gt, ast.LtE):
            neg, x, y = t is ast.LtE, b, a
        else:
            neg, x, y = t is ast.GtE, a, b
        # x < y (negated for <=, >=)
        rx, ry = self.force(st, x), self.force(st, y)
        if rx[0] == "r" and ry[0] == "r" and st.heap[rx[1]].kind == "set" and st.heap[ry[1]].kind == "set":
            outs = self.models.subset(self, st, a if t in (ast.LtE, ast.Lt) else b, b if t in (ast.LtE, ast.Lt) else a)
            if t in (ast.Lt, ast.Gt):
                st.note("imprecise", "proper subset", st.loc)
            return outs
        outs = []
        for v in (x, y):
            h = st.heads(v)
            if "any" in h or is_c(v):
                continue
            other = st.heads(y if v is x else x)
            ok = NUM if other & NUM else other
            if "any" in other:
                ok = NUM | {"str", "bytes"}
            if not h <= ok:
                if not h & ok:
                    return outs + self.raise_(st, "TypeError", C("not ordered"))
                o = st.copy()
                o.types[v] = frozenset(s for s in st.types_of(v) if s[0] not in ok)
                st.types[v] = frozenset(s for s in st.types_of(v) if s[0] in ok)
                outs.append((o, "x", ("e", ("bi", "TypeError"), C("not ordered"))))
        if x[0] == "tp" and y[0] == "tp" and len(x) == len(y) and len(x) > 1:
            r = self.mk_or([self.mk_lt(st, x[1], y[1])] + ([self.mk_and(
                [self.mk_eq(st, x[1], y[1]), self.mk_lt(st, x[2], y[2])])] if len(x) > 2 else []))
        else:
            r = self.mk_lt(st, x, y)
        return outs + [(st, "v", self.mk_not(r) if neg else r)]

    def is_atom(self, st, a, b):
        if a == b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if y == NONE:
                if x[0] in ("s", "t"):
                    h = st.heads(x)
                    if h == {"none"}:
                        return TRUE
                    if "none" not in h and "any" not in h:
                        return FALSE
                    return T("isnone", x)
                return FALSE
            if y in (TRUE, FALSE):
                if x[0] in ("s", "t"):
                    h = st.heads(x)
                    if h == {"bool"}:
                        x = x if x[0] == "s" or x[1] in BOOL_OPS else T("truthy", x)
                        return x if y == TRUE else self.mk_not(x)
                    if "bool" not in h and "any" not in h:
                        return FALSE
                    return T("is", x, y)
                return FALSE
        if a[0] == "ty" or b[0] == "ty":
            return self.type_is(st, a, b)
        a, b = self.norm(st, a), self.norm(st, b)
        if a == b:
            return TRUE
        if a[0] in ("r", "k", "bi", "f", "m", "en", "c", "tp") and b[0] in ("r", "k", "bi", "f", "m", "en", "c", "tp"):
            return FALSE
        if a[0] == "x" and b[0] == "x":
            return C(a == b)
        if repr(a) > repr(b):
            a, b = b, a
        return T("is", a, b)

    def type_is(self, st, a, b):
        if a[0] != "ty":
            a, b = b, a
        if b[0] == "ty":
            return T("is", a, b)
        v = a[1]
        if b[0] == "k":
            hd = ("inst", b[1])
            m = {s == hd for s in st.types_of(v)}
            if v[0] == "r":
                return C(st.heap[v[1]].kind == "inst" and st.heap[v[1]].cls == b[1])
            if m == {True}:
                return TRUE
            if True not in m and ("any",) not in st.types_of(v):
                return FALSE
            return T("isinst", v, ("hd", hd))
        if b[0] == "bi":
            n = {"NoneType": "none"}.get(b[1], b[1])
            if v[0] == "r":
                return C(st.heap[v[1]].kind == n)
            a = T("isinst", v, ("hd", n))
            d = self.decide_isinst(st, a)
            return a if d is None else C(d)
        return T("is", a, b)

    def equals(self, st, a, b):
        a, b = self.plain(st, a), self.plain(st, b)
        if a[0] == "ty" or b[0] == "ty":
            return [(st, "v", self.type_is(st, a, b))]
        for x, y in ((a, b), (b, a)):
            x = self.force(st, x)
            if x[0] == "r" and st.heap[x[1]].kind == "inst":
                cls = st.heap[x[1]].cls
                f, _ = self.class_lookup(st, cls, "__eq__")
                if f is not None:
                    return self.call(st, ("bm", f, x), [y], {})
                ci = self.classes.get(cls)
                y = self.force(st, y)
                if ci is not None and (ci.dataclass or ci.namedtuple):
                    if y[0] == "r" and st.heap[y[1]].kind == "inst" and st.heap[y[1]].cls == cls:
                        outs = [(st, "v", ())]
                        at = []
                        for fld in ci.fields:
                            o1 = self.getattr(st, x, fld)
                            o2 = self.getattr(st, y, fld)
                            at.append(self.mk_eq(st, o1[0][2], o2[0][2]))
                        return [(st, "v", self.mk_and(at))]
                    if y[0] != "t" and y[0] != "s" or not st.heads(y) & {"any", "inst", "tuple"}:
                        return [(st, "v", FALSE)]
                return [(st, "v", self.is_atom(st, x, y))]
        if a[0] == "tp" and b[0] == "tp" and len(a) == len(b):
            outs = [(st, "v", TRUE)]
            for x, y in zip(a[1:], b[1:]):
                outs = self.bind(outs, lambda s, v: [(s2, k2, self.mk_and([v, r]) if k2 == "v" else r)
                                                     for s2, k2, r in self.equals(s, x, y)])
            return outs
        fa, fb = a, b
        for x in (a, b):
            o = x
            if o[0] in ("s", "t") and len(st.types_of(o)) == 1 and st.heads(o) & {"list", "dict", "set"}:
                pass
        # list compared with empty literal
        for x, y in ((a, b), (b, a)):
            if y[0] == "r" and st.heap[y[1]].kind in ("list", "dict", "set") and is_c(self.len_term(st, y)) and cv(
                    self.len_term(st, y)) == 0:
                h = st.heads(x)
                if h == {st.heap[y[1]].kind}:
                    return [(st, "v", self.mk_not(self.mk_lt(st, C(0), self.len_term(st, self.force(st, x)))))]
        return [(st, "v", self.mk_eq(st, self.cn(st, a), self.cn(st, b)))]

    def member(self, st, a, b):
        """a in b"""
        b = self.force(st, b)
        if b[0] == "tp":
            return [(st, "v", self.in_const(st, a, list(b[1:])))]
        if is_c(b) and b[1] in ("str", "bytes"):
            if is_c(a):
                try:
                    return [(st, "v", C(cv(a) in cv(b)))]
                except TypeError as e:
                    return self.raise_(st, "TypeError", C(str(e)))
            return [(st, "v", T("contains", b, a))]
        if b[0] == "k" and self.classes[b[1]].enum:
            ci = self.classes[b[1]]
            vals = [m[3] for m in ci.members.values()]
            return [(st, "v", self.in_const(st, a, vals))]
        if b[0] == "r":
            o = st.heap[b[1]]
            if o.kind in ("dict", "set"):
                if o.base is None and all(e[3] is None and is_c(e[0]) and e[1] != DEL for e in o.ov):
                    return [(st, "v", self.in_const(st, a, [e[0] for e in o.ov]))]
                return [(s, "v", C(x)) for s, x in self.contains_atom(st, a, b)]
            if o.kind == "list":
                base = o.base
                if base is None and all(s[0] == "e" for s in o.segs):
                    return [(st, "v", self.in_const(st, a, [s[1] for s in o.segs]))]
                if base is not None and not o.segs:
                    return [(st, "v", self.in_atom(st, a, base))]
                at = [] if base is None else [self.in_atom(st, a, base)]
                for s in o.segs:
                    if s[0] == "e":
                        at.append(self.mk_eq(st, a, s[1]))
                    else:
                        at.append(self.exists_atom(s[1], s[2], s[3], [T("g", T("eq", s[4], a), TRUE)]))
                return [(st, "v", self.mk_or(at))]
            if o.kind == "iter":
                if o.src is not None and o.src[1] == "keys":
                    return [(s, "v", C(x)) for s, x in self.contains_atom(st, a, o.src[0])]
                at = []
                for s in (o.segs if o.src is None else self.models.dict_segs(self, st, *o.src)):
                    at.append(self.mk_eq(st, a, s[1]) if s[0] == "e" else self.exists_atom(
                        s[1], s[2], s[3], [T("g", T("eq", s[4], a), TRUE)]))
                return [(st, "v", self.mk_or(at))]
            if o.kind == "inst":
                f, _ = self.class_lookup(st, o.cls, "__contains__")
                if f is not None:
                    return self.call(st, ("bm", f, b), [a], {})
                for m in ("__iter__",):
                    f, _ = self.class_lookup(st, o.cls, m)
                    if f is not None:
                        res = []
                        for tag, s2, segs in self.segs_of(st, b):
                            res.append((s2, "v", self.mk_or([self.mk_eq(s2, a, g[1]) for g in segs if g[0] == "e"])))
                        return res
        if b[0] in ("s", "t"):
            h = st.heads(b)
            if h <= {"str", "bytes"}:
                return [(st, "v", T("contains", b, a))]
            if "any" in h or len(h & {"dict", "list", "set", "str", "bytes", "tuple"}) >= 1:
                bad = h - {"dict", "list", "set", "str", "bytes", "tuple", "any"}
                outs = []
                if bad and "any" not in h:
                    o = st.copy()
                    o.types[b] = frozenset(s for s in st.types_of(b) if s[0] in bad)
                    st.types[b] = frozenset(s for s in st.types_of(b) if s[0] not in bad)
                    outs.append((o, "x", ("e", ("bi", "TypeError"), C("not iterable"))))
                return outs + [(st, "v", self.in_atom(st, a, b))]
            return self.raise_(st, "TypeError", C("not a container"))
        return [(st, "v", T("in", a, b))]

    def exists_atom(self, src, evar, guard, conds):
        """Canonical atom: some element of src satisfies guard and conds."""
        dot = S("•")
        body = []
        for g in list(guard[1:]) + list(conds):
            a, v = g[2], g[3]
            while a[0] == "t" and a[1] == "not":
                a, v = a[2], (FALSE if v == TRUE else TRUE)
            if is_c(a):
                if bool(cv(a)) != (v == TRUE):
                    return FALSE
                continue
            if a == T("in", evar, src):
                continue
            body.append(subst(T("g", a, v), {evar: dot}))
        body = tuple(sorted(set(body), key=repr))
        if not body:
            return T("lt", C(0), T("len", src))
        return T("exists", src, ("gd",) + body)

    # ---------------------------------------------------------------- attribute / subscript
    def ev_Attribute(self, st, n, fr):
        def f(s, v):
            s.loc = self.where(s, fr, n)
            return self.getattr(s, v, n.attr)

        return self.bind(self.ev(st, n.value, fr), f)

    def getattr(self, st, v, name):
        k = v[0]
        if k == "t":
            r = self.models.term_attr(self, st, v, name)
            if r is not None:
                return [(st, "v", r)]
        if k in ("s", "t"):
            h = st.types_of(v)
            heads = {s[0] for s in h}
            insts = [s for s in h if s[0] == "inst"]
            if len(h) == 1 and heads & {"inst", "dict", "list", "set"}:
                r = self.force(st, v)
                if r[0] == "r":
                    return self.getattr(st, r, name)
            if "any" in heads:
                return [(st, "v", T("attr", v, C(name)))]
            if len(h) == 1 or heads <= NUM or heads <= {"str"} or heads <= {"bytes"}:
                hd = next(iter(heads)) if len(heads) == 1 else "int"
                if self.models.has_method(hd, name):
                    return [(st, "v", ("bm", ("bi", f"{hd}.{name}"), v))]
                if hd in ("fn", "obj", "exc", "iter"):
                    return [(st, "v", T("attr", v, C(name)))]
                return self.raise_(st, "AttributeError", C(f"{hd}.{name}"))
            # split by type
            outs = []
            groups = {}
            for s in h:
                groups.setdefault(s if s[0] == "inst" else ("num",) if s[0] in NUM else (s[0],), set()).add(s)
            for g in sorted(groups, key=repr):
                s2 = st.copy()
                s2.types[v] = frozenset(groups[g])
                s2.facts[T("typeis", v, ("hd",) + tuple(sorted(map(repr, groups[g]))))] = True
                outs += self.getattr(s2, v, name)
            return outs
        if k == "r":
            o = st.heap[v[1]]
            if o.kind == "inst":
                return self.inst_attr(st, v, o, name)
            if o.kind == "lib":
                return self.models.lib_attr(self, st, v, o, name)
            if self.models.has_method(o.kind, name):
                return [(st, "v", ("bm", ("bi", f"{o.kind}.{name}"), v))]
            return self.raise_(st, "AttributeError", C(f"{o.kind}.{name}"))
        if k in ("sdm", "sdf") and name == "register":
            return [(st, "v", ("partial", ("bi", "singledispatch.register"), (v,), ()))]
        if k == "m":
            a = self.mod_attr(st, v[1], name)
            if a is None:
                return self.raise_(st, "AttributeError", C(f"module {v[1]}.{name}"))
            return [(st, "v", a)]
        if k == "k":
            if name == "__name__" or name == "__qualname__":
                return [(st, "v", C(self.classes[v[1]].name))]
            if name == "__members__" and self.classes[v[1]].enum:
                ref = st.alloc(DictO(None, tuple((C(n), m, None, None) for n, m in self.classes[v[1]].members.items())))
                return [(st, "v", ref)]
            a, owner = self.class_lookup(st, v[1], name)
            if a is None:
                if self.is_exc_class(v[1]) or any(":" in c for c in self.mro(v[1])):
                    b = [c for c in self.mro(v[1]) if c.startswith("bi:") or c.startswith("x:")]
                    if name == "__init__":
                        return [(st, "v", ("bi", "object.__init__"))]
                    return [(st, "v", T("attr", v, C(name)))]
                if name in ("__init__", "__new__", "__doc__", "__module__", "__dict__", "__mro__", "__class__"):
                    return [(st, "v", ("bi", "object." + name) if name in ("__init__", "__new__") else T("attr", v, C(name)))]
                return self.raise_(st, "AttributeError", C(f"{v[1]}.{name}"))
            if a[0] == "cm":
                return [(st, "v", ("bm", a[1], v))]
            if a[0] == "sm":
                return [(st, "v", a[1])]
            return [(st, "v", a)]
        if k == "en":
            if name in ("value", "_value_"):
                return [(st, "v", v[3])]
            if name in ("name", "_name_"):
                return [(st, "v", C(v[2]))]
            a, owner = self.class_lookup(st, v[1], name)
            if a is not None:
                if a[0] == "f":
                    return [(st, "v", ("bm", a, v))]
                if a[0] == "cm":
                    return [(st, "v", ("bm", a[1], ("k", v[1])))]
                if a[0] == "prop":
                    return self.call(st, a[1], [v], {})
                return [(st, "v", a)]
            if self.classes[v[1]].enum == "str":
                return self.getattr(st, v[3], name)
            return self.raise_(st, "AttributeError", C(name))
        if k == "c":
            hd = {"NoneType": "none"}.get(v[1], v[1])
            if self.models.has_method(hd, name):
                return [(st, "v", ("bm", ("bi", f"{hd}.{name}"), v))]
            return self.raise_(st, "AttributeError", C(f"{hd}.{name}"))
        if k == "tp":
            if self.models.has_method("tuple", name):
                return [(st, "v", ("bm", ("bi", f"tuple.{name}"), v))]
            return self.raise_(st, "AttributeError", C(f"tuple.{name}"))
        if k == "x":
            return [(st, "v", ("x", v[1] + "." + name))]
        if k == "bi":
            return [(st, "v", C(v[1]) if name == "__name__" else ("bi", v[1] + "." + name))]
        if k == "ty":
            if name in ("__name__", "__qualname__"):
                return [(st, "v", T("typename", v[1]))]
            x = v[1]
            if x[0] == "r" and st.heap[x[1]].kind == "inst":
                return self.getattr(st, ("k", st.heap[x[1]].cls), name)
            return [(st, "v", T("attr", v, C(name)))]
        if k == "e":
            if name == "args":
                return [(st, "v", ("tp",) + v[2:]) if not (v[1][0] == "x" and v[1][1].startswith("?")) else
                        (st, "v", T("excargs", v))]
            return [(st, "v", T("attr", v, C(name)))]
        if k == "super":
            return self.super_attr(st, v, name)
        if k == "prop":
            if name in ("setter", "getter", "deleter"):
                return [(st, "v", ("bm", ("bi", "property." + name), v))]
            if name == "fget":
                return [(st, "v", v[1])]
        if k in ("f", "bm", "partial"):
            if name == "__name__" and k == "f":
                return [(st, "v", C(self.funcs[v[1]].name))]
            if name == "__func__" and k == "bm":
                return [(st, "v", v[1])]
            if name == "__self__" and k == "bm":
                return [(st, "v", v[2])]
            return [(st, "v", T("attr", v, C(name)))]
        return [(st, "v", T("attr", v, C(name)))]

    def inst_attr(self, st, ref, o, name):
        if name == "__class__":
            return [(st, "v", ("k", o.cls))]
        if name == "__dict__":
            d = DictO(None, tuple((C(f), x, None, None) for f, x in o.fields.items()))
            return [(st, "v", st.alloc(d))]
        a, owner = self.class_lookup(st, o.cls, name)
        if a is not None and a[0] == "prop":
            if o.base is not None and self.open_calls and self.is_abstract(st, a):
                return self.open_attr(st, ref, o, name)
            return self.call(st, a[1], [ref], {})
        if name in o.fields:
            return [(st, "v", o.fields[name])]
        if o.base is not None:
            isfield = any(name in self.classes[c].attr_types for c in self.mro(o.cls) if c in self.classes)
            if a is None or (isfield and a[0] not in ("f", "cm", "sm", "sdm", "cmf")):
                t = T("attr", o.base, C(name))
                r = self.axiom_attr(st, o.base, name)
                if r is not None:
                    t = r
                if a is None and not isfield:
                    if not self.may_have_attr(st, o.cls, name):
                        return self.raise_(st, "AttributeError", C(f"{o.cls}.{name}"))
                v = self.force(st, t)
                if v[0] == "r":
                    o2 = InstO(o.cls, {**o.fields, name: v}, o.base)
                    clean = st.pristine.get(ref[1]) is o
                    st.heap[ref[1]] = o2
                    if clean:
                        st.pristine[ref[1]] = o2
                return [(st, "v", v)]
        if a is None:
            f, _ = self.class_lookup(st, o.cls, "__getattr__")
            if f is not None:
                return self.call(st, ("bm", f, ref), [C(name)], {})
            if self.is_exc_class(o.cls):
                if name == "args":
                    return [(st, "v", o.fields.get("args", ("tp",)))]
                if self.models.exc_attr(name):
                    return [(st, "v", T("attr", self.norm(st, ref), C(name)))]
            if name in ("__init__", "__init_subclass__", "__post_init__"):
                return [(st, "v", ("bi", "object.__init__"))]
            ext = [c for c in self.mro(o.cls) if c.startswith("x:") and not c.startswith("x:enum") and c not in (
                "x:abc.ABC", "x:typing.Generic", "x:typing.Protocol", "x:typing.NamedTuple")]
            if ext:
                return [(st, "v", T("attr", self.norm(st, ref), C(name)))]
            if self.classes[o.cls].namedtuple and name == "_replace":
                return [(st, "v", ("bm", ("bi", "nt._replace"), ref))]
            return self.raise_(st, "AttributeError", C(f"'{o.cls}' object has no attribute '{name}'"))
        if a[0] == "f":
            if o.base is not None and self.open_calls and (self.is_abstract(st, a) or name in self.interface and self.is_open_class(st, o.cls)):
                return [(st, "v", ("open", self.norm(st, ref), o.cls, name))]
            return [(st, "v", ("bm", a, ref))]
        if a[0] == "cm":
            return [(st, "v", ("bm", a[1], ("k", o.cls)))]
        if a[0] in ("sdm", "cmf"):
            return [(st, "v", ("bm", a, ref))]
        if a[0] == "sm":
            return [(st, "v", a[1])]
        if a[0] == "partialmethod":
            return [(st, "v", ("partial", a[1], (ref,) + a[2], a[3]))]
        return [(st, "v", a)]

    def may_have_attr(self, st, cls, name):
        """Some method of the class (or a base) stores self.<name>."""
        for c in self.mro(cls):
            ci = self.classes.get(c)
            if ci is None:
                if c not in ("bi:object",) and not c.startswith("x:abc") and not c.startswith("x:typing"):
                    return True
                continue
            for n in ast.walk(ci.node):
                if isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Store):
                    return True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                    return True
        return False

    def open_attr(self, st, ref, o, name):
        base = self.norm(st, ref)
        t = T("attr", base, C(name))
        return [(st, "v", t)]

    def super_attr(self, st, v, name):
        _, cls, selfv = v
        dyn = cls
        if selfv[0] == "r":
            dyn = st.heap[selfv[1]].cls
        elif selfv[0] == "k":
            dyn = selfv[1]
        elif selfv[0] == "en":
            dyn = selfv[1]
        mro = self.mro(dyn)
        if cls in mro:
            mro = mro[mro.index(cls) + 1:]
        for c in mro:
            ns = st.heap.get("cls:" + c)
            if ns is not None and name in ns.vars:
                a = ns.vars[name]
                if a[0] in ("f", "sdm", "cmf"):
                    return [(st, "v", ("bm", a, selfv))]
                if a[0] == "prop":
                    return self.call(st, a[1], [selfv], {})
                if a[0] == "cm":
                    return [(st, "v", ("bm", a[1], selfv if selfv[0] == "k" else ("k", dyn)))]
                if a[0] == "sm":
                    return [(st, "v", a[1])]
                return [(st, "v", a)]
            ci = self.classes.get(c)
            if name == "__init__" and ci is not None and ci.dataclass:
                return [(st, "v", ("dcinit", c, selfv))]
            if name == "__init__" and c.startswith("bi:") and c[3:] in BUILTIN_EXC:
                return [(st, "v", ("bm", ("bi", "exc.__init__"), selfv))]
        if name == "__setattr__":
            return [(st, "v", ("bm", ("bi", "object.__setattr__"), selfv))]
        if name == "__str__":
            return [(st, "v", ("bm", ("bi", "object.__str__"), selfv))]
        if name == "__eq__":
            return [(st, "v", ("bm", ("bi", "object.__eq__"), selfv))]
        return [(st, "v", ("bm", ("bi", "object." + name), selfv))]

    def ev_Subscript(self, st, n, fr):
        if isinstance(n.slice, ast.Slice):
            def g(s, v):
                parts = [x if x is not None else ast.Constant(None) for x in (n.slice.lower, n.slice.upper, n.slice.step)]
                return self.bind(self.eval_list(s, parts, fr), lambda s2, p: self.slice(s2, v, *p))

            return self.bind(self.ev(st, n.value, fr), g)

        def f(s, vs):
            s.loc = self.where(s, fr, n)
            return self.getitem(s, vs[0], vs[1])

        return self.bind(self.eval_list(st, [n.value, n.slice], fr), f)

    def slice(self, st, v, lo, hi, step):
        v = self.plain(st, v)
        if v[0] == "tp" and all(is_c(x) for x in (lo, hi, step)):
            return [(st, "v", ("tp",) + v[1:][slice(cv(lo), cv(hi), cv(step))])]
        if is_c(v) and all(is_c(x) for x in (lo, hi, step)):
            try:
                return [(st, "v", C(cv(v)[slice(cv(lo), cv(hi), cv(step))]))]
            except TypeError as e:
                return self.raise_(st, "TypeError", C(str(e)))
        v2 = self.force(st, v)
        if v2[0] == "r" and st.heap[v2[1]].kind == "list":
            res = []
            for tag, s, segs in self.segs_of(st, v2):
                if all(g[0] == "e" for g in segs) and all(is_c(x) for x in (lo, hi, step)):
                    res.append((s, "v", s.alloc(ListO(None, segs[slice(cv(lo), cv(hi), cv(step))]))))
                elif (lo, hi, step) == (NONE, NONE, NONE):
                    o = s.heap[v2[1]]
                    res.append((s, "v", s.alloc(ListO(o.base, o.segs, o.ets))))
                else:
                    t = T("slice", self.deep(s, v2), lo, hi, step)
                    s.types[t] = s.types_of(v) if v[0] != "r" else frozenset({("list", ANY)})
                    res.append((s, "v", t))
            return res
        if v[0] == "t" and v[1] == "bytesof" and all(is_c(x) for x in (lo, hi, step)):
            return [(st, "v", T("bytesof", *v[2:][slice(cv(lo), cv(hi), cv(step))]))]
        h = st.heads(v)
        bad = h - {"str", "bytes", "list", "tuple", "any"}
        outs = []
        if bad and "any" not in h:
            if not h - bad:
                return self.raise_(st, "TypeError", C("not subscriptable"))
            o = st.copy()
            o.types[v] = frozenset(s for s in st.types_of(v) if s[0] in bad)
            st.types[v] = frozenset(s for s in st.types_of(v) if s[0] not in bad)
            outs.append((o, "x", ("e", ("bi", "TypeError"), C("not subscriptable"))))
        if step == C(-1) and lo == NONE and hi == NONE:
            n = self.const_len(st, v)
            if n is not None and n <= 64 and st.heads(v) == {"bytes"}:
                return outs + [(st, "v", T("bytesof", *(self.index_term(st, v, i) for i in reversed(range(n)))))]
        t = T("slice", v, lo, hi) if step == NONE else T("slice", v, lo, hi, step)
        return outs + [(st, "v", t)]

    def getitem(self, st, v, key):
        v = self.plain(st, v)
        if v[0] in ("s", "t"):
            h = st.types_of(v)
            heads = {s[0] for s in h}
            if len(h) == 1 and heads & {"dict", "list", "set", "inst"}:
                v = self.force(st, v)
            elif "any" in heads:
                return [(st, "v", self.mk_item(st, v, key))]
            elif len(h) > 1 and not heads <= {"str", "bytes"}:
                outs = []
                for s in sorted(h, key=repr):
                    s2 = st.copy()
                    s2.types[v] = frozenset({s})
                    s2.facts[T("typeis", v, ("hd", repr(s)))] = True
                    outs += self.getitem(s2, v, key)
                return outs
        if v[0] == "r":
            o = st.heap[v[1]]
            if o.kind == "dict":
                outs = []
                for s, x in self.dict_find(st, v, key):
                    if x is None:
                        if o.default is not None:
                            def dflt(s2, d):
                                self.ov_put(s2, v, key, d)
                                return [(s2, "v", d)]

                            outs += self.bind(self.call(s, o.default, [], {}), dflt)
                        else:
                            outs.append((s, "x", ("e", ("bi", "KeyError"), key)))
                    else:
                        outs.append((s, "v", x))
                return outs
            if o.kind in ("list",):
                return self.list_index(st, v, o, key)
            if o.kind == "inst":
                ci = self.classes.get(o.cls)
                if ci is not None and ci.namedtuple and is_int(key):
                    try:
                        return self.getattr(st, v, ci.fields[cv(key)])
                    except IndexError:
                        return self.raise_(st, "IndexError", C("tuple index"))
                f, _ = self.class_lookup(st, o.cls, "__getitem__")
                if f is not None:
                    return self.call(st, ("bm", f, v), [key], {})
            return self.raise_(st, "TypeError", C("not subscriptable"))
        if v[0] == "tp":
            if is_int(key):
                try:
                    return [(st, "v", v[1:][cv(key)])]
                except IndexError:
                    return self.raise_(st, "IndexError", C("tuple index"))
            outs = []
            for i, x in enumerate(v[1:]):
                s2 = st.copy()
                if s2.assume(self.mk_eq(s2, key, C(i)), True) if not is_c(self.mk_eq(s2, key, C(i))) else False:
                    outs.append((s2, "v", x))
            return outs or [(st, "v", T("item", self.deep(st, v), key))]
        if v[0] == "k":
            ci = self.classes[v[1]]
            if ci.enum and is_c(key):
                m = ci.members.get(cv(key))
                return [(st, "v", m)] if m else self.raise_(st, "KeyError", key)
            return [(st, "v", v)]  # generic alias
        if v[0] in ("bi", "x"):
            return [(st, "v", v if v[0] == "bi" else ("x", v[1] + "[]"))]
        if is_c(v):
            if is_c(key):
                try:
                    return [(st, "v", C(cv(v)[cv(key)]))]
                except Exception as e:
                    return self.raise_(st, type(e).__name__, C(str(e)))
            if v[1] not in ("str", "bytes"):
                return self.raise_(st, "TypeError", C("not subscriptable"))
        h = st.heads(v)
        if h <= {"str", "bytes", "tuple"} and h:
            if is_int(key):
                i = cv(key)
                ln = self.len_term(st, v)
                if i < 0:
                    n = self.const_len(st, v)
                    if n is None:
                        outs = []
                        for s, b in self.branch_bool(st, self.mk_lt(st, C(-i - 1), ln)):
                            outs += [(s, "v", T("item", v, key))] if b else self.raise_(s, "IndexError", C("index"))
                        return outs
                    i += n
                    if i < 0:
                        return self.raise_(st, "IndexError", C("index"))
                outs = []
                for s, b in self.branch_bool(st, self.mk_lt(st, C(i), ln)):
                    outs += [(s, "v", self.index_term(s, v, i))] if b else self.raise_(s, "IndexError", C("index"))
                return outs
            return [(st, "v", T("item", v, key))]
        if v[0] in ("s", "t"):
            return self.raise_(st, "TypeError", C("not subscriptable"))
        return [(st, "v", T("item", v, key))]

    def list_index(self, st, ref, o, key):
        if not is_int(key):
            key2 = st.eqc.get(key)
            if key2 is not None and is_int(key2):
                key = key2
            elif o.base is None and all(s[0] == "e" for s in o.segs) and o.segs and self.is_integral(st, key):
                outs = []
                for i, s in enumerate(o.segs):
                    s2 = st.copy()
                    e = self.mk_eq(s2, key, C(i))
                    if s2.decide(e) is not False and s2.assume(e, True):
                        outs.append((s2, "v", s[1]))
                lo, hi = st.interval(key)
                if hi >= len(o.segs) or lo < 0:
                    s2 = st.copy()
                    if all(s2.assume(self.mk_eq(s2, key, C(i)), False) for i in range(len(o.segs))):
                        outs += self.raise_(s2, "IndexError", C("list index"))
                return outs
            else:
                if ("any",) not in st.types_of(key) and not st.heads(key) & NUM:
                    return self.raise_(st, "TypeError", C("list indices"))
                return [(st, "v", T("item", self.deep(st, ref), key))]
        i = int(cv(key))
        if o.base is None:
            if all(s[0] == "e" for s in o.segs):
                try:
                    return [(st, "v", o.segs[i][1])]
                except IndexError:
                    return self.raise_(st, "IndexError", C("list index"))
            t = T("item", self.deep(st, ref), key)
            if len(o.segs) == 1 and i == 0:
                q = o.segs[0]
                outs = []
                a = self.exists_atom(q[1], q[2], q[3], [])
                for s, b in self.branch_bool(st, a):
                    if b:
                        e = s.fresh("e")
                        self.symtypes[e] = s.types_of(q[2])
                        s.facts[T("in", e, q[1])] = True
                        s.facts[T("firstof", q[1], subst(("gd",) + q[3][1:], {q[2]: S("•")}), e)] = True
                        for g in q[3][1:]:
                            s.assume(self.simp(s, subst(self.guard_atom(g), {q[2]: e})), True)
                        outs.append((s, "v", subst(q[4], {q[2]: e})))
                    else:
                        outs += self.raise_(s, "IndexError", C("list index"))
                return outs
            return [(st, "v", T("unk", t))]
        ln = T("len", o.base)
        if i < 0:
            if -i <= len(o.segs):
                return [(st, "v", o.segs[i][1])]
            outs = []
            for s, b in self.branch_bool(st, self.mk_lt(st, C(-i - 1 - len(o.segs)), ln)):
                outs += [(s, "v", self.mk_item(s, o.base, C(i + len(o.segs))))] if b else self.raise_(
                    s, "IndexError", C("list index"))
            return outs
        outs = []
        for s, b in self.branch_bool(st, self.mk_lt(st, C(i), ln)):
            if b:
                outs.append((s, "v", self.mk_item(s, o.base, C(i))))
            elif not o.segs:
                outs += self.raise_(s, "IndexError", C("list index"))
            else:
                n = self.const_len(s, o.base)
                if n is not None and i - n < len(o.segs):
                    outs.append((s, "v", o.segs[i - n][1]))
                elif n is not None:
                    outs += self.raise_(s, "IndexError", C("list index"))
                else:
                    outs.append((s, "v", T("unk", T("item", self.deep(s, ref), key))))
        return outs

    # ---------------------------------------------------------------- comprehensions
    def ev_ListComp(self, st, n, fr):
        return self.bind(self.comp_segs(st, n, fr), lambda s, segs: [(s, "v", s.alloc(ListO(None, segs)))])

    def ev_GeneratorExp(self, st, n, fr):
        return self.bind(self.comp_segs(st, n, fr), lambda s, segs: [(s, "v", s.alloc(IterO(segs)))])

    def ev_SetComp(self, st, n, fr):
        def f(s, segs):
            return [(s, "v", self.set_from_segs(s, segs))]

        return self.bind(self.comp_segs(st, n, fr), f)

    def set_from_segs(self, st, segs, kts=ANY):
        if len(segs) == 1 and segs[0][0] == "q" and segs[0][2] == segs[0][4] and len(segs[0][3]) == 1:
            # the elements of a symbolic collection, unfiltered
            return st.alloc(SetO(segs[0][1], (), st.types_of(segs[0][2])))
        ov = ()
        for g in segs:
            if g[0] == "e":
                k = self.cn(st, g[1])
                ov = tuple(e for e in ov if e[0] != k) + ((k, TRUE, st.loc, None),)
            else:
                ov += ((g[4], TRUE, st.loc, ("q", g[1], g[2], g[3])),)
        return st.alloc(SetO(None, ov, kts))

    def dict_from_pairs(self, st, segs, rev=True):
        ov = ()
        for g in segs:
            kv = g[1] if g[0] == "e" else g[4]
            if g[0] == "e":
                k = self.cn(st, kv[1])
                ov = tuple(e for e in ov if e[0] != k) + ((k, kv[2], st.loc, None),)
            else:
                ov += ((kv[1], kv[2], st.loc, ("q", g[1], g[2], g[3])),)
        return st.alloc(DictO(None, ov))

    def ev_DictComp(self, st, n, fr):
        return self.bind(self.comp_segs(st, n, fr), lambda s, segs: [(s, "v", self.dict_from_pairs(s, segs))])

    def comp_segs(self, st, n, fr):
        """Outcomes whose value is the tuple of result segments."""
        st.nframe += 1
        cf = f"L{st.nframe}.{self.nstates}"
        st.envs[cf] = {"__parent__": fr, "__comp__": True}
        elt = ast.Tuple([n.key, n.value], ast.Load()) if isinstance(n, ast.DictComp) else n.elt
        if isinstance(n, ast.DictComp):
            ast.copy_location(elt, n)

        def gen(s, i, quant):
            """outcomes: value = tuple of segments"""
            if i == len(n.generators):
                return self.bind(self.ev(s, elt, cf), lambda s2, v: [(s2, "v", (("e", v),))])
            g = n.generators[i]
            res = []
            for s1, k1, itv in self.ev(s, g.iter, cf if i else fr):
                if k1 != "v":
                    res.append((s1, k1, itv))
                    continue
                for tag, s2, segs in self.segs_of(s1, itv):
                    if tag == "x":
                        res.append((s2, "x", segs))
                        continue
                    cur = [(s2, "v", ())]
                    for sg in segs:
                        nxt = []
                        for s3, k3, acc in cur:
                            if k3 != "v":
                                nxt.append((s3, k3, acc))
                            elif sg[0] == "e":
                                for s4, k4, r in one(s3, g, sg[1], i):
                                    nxt.append((s4, k4, acc + r if k4 == "v" else r))
                            else:
                                nxt += generic(s3, g, sg, i, acc)
                        cur = nxt
                    res += cur
            return res

        def one(s, g, val, i):
            outs = []
            for s1, k1, _ in self.assign(s, g.target, val, cf):
                if k1 != "n":
                    outs.append((s1, k1, _))
                    continue
                cur = [(s1, "v", True)]
                for cond in g.ifs:
                    nxt = []
                    for s2, k2, b in cur:
                        if k2 != "v" or not b:
                            nxt.append((s2, k2, b))
                        else:
                            nxt += self.ev_cond(s2, cond, cf)
                    cur = nxt
                for s2, k2, b in cur:
                    if k2 != "v":
                        outs.append((s2, k2, b))
                    elif not b:
                        outs.append((s2, "v", ()))
                    else:
                        outs += gen(s2, i + 1, False)
            return outs

        def generic(s, g, sg, i, acc):
            _, src, evar, guard, val = sg
            b = s.copy()
            if not self.assume_elem(b, evar, src, guard):
                return [(s, "v", acc)]
            b0 = b.copy()
            outs = one(b, g, val, i)
            segs = ()
            exc = []
            conts = [o for o in outs if o[1] == "v"]
            for s2, k2, r in outs:
                gd = self.guard_of(s2, b0, evar, src, guard)
                if k2 == "v":
                    for x in r:
                        if x[0] == "e":
                            segs += (("q", src, evar, gd, self.deep(s2, x[1])),)
                        else:
                            segs += (("q", x[1], x[2], gd[:1] + gd[1:] + x[3][1:] + (T("g", T("in", evar, src), TRUE),), x[4]),)
                else:
                    exc.append((s2, k2, r, gd))
            # any heap effects of the element expression are not modelled
            for s2, k2, r in conts:
                for a, o in s2.heap.items():
                    if a in b0.heap and b0.heap[a] is not o and a not in b0.pristine:
                        s.note("imprecise", "effect inside comprehension", s.loc)
                # keep lazily created views so later reads agree
                for t, r2 in s2.lazy.items():
                    if t not in s.lazy and not contains(t, evar):
                        s.lazy[t] = r2
                        s.heap[r2[1]] = s2.pristine.get(r2[1], s2.heap[r2[1]])
                        s.pristine[r2[1]] = s.heap[r2[1]]
                s.naddr = max(s.naddr, s2.naddr)
            segs = self.merge_q(segs)
            res = []
            for s2, k2, r, gd in exc:
                s2.facts[self.exists_atom(src, evar, gd, [])] = True
                res.append((s2, k2, r))
            for s2, k2, r, gd in exc:
                a = self.exists_atom(src, evar, gd, [])
                if not is_c(a) and not s.assume(a, False):
                    return res
            res.append((s, "v", acc + segs))
            return res

        outs = gen(st, 0, False)
        return outs

    def merge_q(self, segs):
        """Merge segments that differ only in one complementary guard."""
        segs = list(segs)
        changed = True
        while changed:
            changed = False
            for i in range(len(segs)):
                for j in range(i + 1, len(segs)):
                    a, b = segs[i], segs[j]
                    if a[0] == b[0] == "q" and a[1:3] == b[1:3] and a[4] == b[4]:
                        da, db = set(a[3][1:]) - set(b[3][1:]), set(b[3][1:]) - set(a[3][1:])
                        if len(da) == len(db) == 1:
                            (x,), (y,) = da, db
                            if x[2] == y[2] and x[3] != y[3]:
                                keep = tuple(g for g in a[3][1:] if g != x)
                                segs[i] = a[:3] + (("gd",) + keep, a[4])
                                del segs[j]
                                changed = True
                                break
                        if not da and not db:
                            del segs[j]
                            changed = True
                            break
                if changed:
                    break
        return tuple(segs)

    def renamed(self, st, segs):
        """Stored segments with bound elements of their own: the ones they were made with may be bound again further in."""
        out = ()
        for sg in segs:
            if sg[0] == "q":
                ev = st.fresh("k")
                self.symtypes[ev] = st.types_of(sg[2])
                if sg[2] in st.iv:
                    st.iv[ev] = st.iv[sg[2]]
                sg = sg[:2] + (ev, subst(sg[3], {sg[2]: ev}), self.rebound(st, sg[4], {sg[2]: ev}))
            out += (sg,)
        return out

    def rebound(self, st, v, m):
        """A value that depends on a bound element, for another name of the element."""
        v = self.deep(st, v)
        for t in subterms(v):
            if t in st.types:
                u = subst(t, m)
                if u not in st.types:
                    st.types[u] = st.types[t]

        def go(x):
            if x[0] == "tp":
                return ("tp",) + tuple(go(y) for y in x[1:])
            if x[0] == "t" and x[1] == "item" and len(x) == 4:
                return self.mk_item(st, x[2], x[3])
            return x

        return go(subst(v, m))

    def guard_of(self, s2, s1, evar, src, guard=("gd",)):
        """Facts of s2 beyond s1, as a guard tuple (only those needed: atoms decided in the generic iteration)."""
        g = list(guard[1:])
        for a, v in s2.facts.items():
            if s1.facts.get(a) is v and a in s1.facts:
                continue
            if a == T("in", evar, src):
                continue
            if a[0] == "t" and a[1] in ("firstof", "typeis"):
                continue
            x = T("g", a, C(v))
            if x not in g:
                g.append(x)
        return ("gd",) + tuple(sorted(g, key=repr))

    def ev_Starred(self, st, n, fr):
        return self.ev(st, n.value, fr)

    def ev_Await(self, st, n, fr):
        st.note("imprecise", "await", self.where(st, fr, n))
        return self.ev(st, n.value, fr)

    def ev_Yield(self, st, n, fr):
        def f(s, v):
            if "__cm__" in s.envs[fr]:
                return self.with_body(s, v, cv(s.envs[fr]["__cm__"]))
            ref = s.envs[fr].get("__gen__")
            if ref is None:
                return [(s, "v", NONE)]
            o = s.heap[ref[1]]
            s.heap[ref[1]] = ListO(o.base, o.segs + (("e", v),))
            return [(s, "v", NONE)]

        return self.bind(self.ev(st, n.value, fr) if n.value is not None else [(st, "v", NONE)], f)

    def ev_YieldFrom(self, st, n, fr):
        def f(s, v):
            ref = s.envs[fr].get("__gen__")
            res = []
            for tag, s2, segs in self.segs_of(s, v):
                if tag == "x":
                    res.append((s2, "x", segs))
                    continue
                o = s2.heap[ref[1]]
                s2.heap[ref[1]] = ListO(o.base, o.segs + segs)
                res.append((s2, "v", NONE))
            return res

        return self.bind(self.ev(st, n.value, fr), f)

    def ev_Slice(self, st, n, fr):
        return [(st, "v", T("unk", C("slice")))]

    # ================================================================ statements
    def exec_block(self, st, stmts, fr):
        """outcomes (st, 'n'|'ret'|'brk'|'cont'|'x', value)"""
        cur, res = [st], []
        for n in stmts:
            nxt = []
            for s in cur:
                for s2, k, v in self.ex(s, n, fr):
                    if k == "n":
                        nxt.append(s2)
                    else:
                        res.append((s2, k, v))
            cur = nxt
            if not cur:
                break
        return res + [(s, "n", None) for s in cur]

    def ex(self, st, n, fr):
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            st.note("imprecise", "unsupported statement " + type(n).__name__, self.where(st, fr, n))
            self.unsupported.add(type(n).__name__)
            return [(st, "n", None)]
        st.loc = self.where(st, fr, n)
        return m(st, n, fr)

    def drop(self, outs):
        return [(s, "n" if k == "v" else k, None if k == "v" else v) for s, k, v in outs]

    def ex_Expr(self, st, n, fr):
        if isinstance(n.value, ast.Constant):
            return [(st, "n", None)]
        return self.drop(self.ev(st, n.value, fr))

    def ex_Pass(self, st, n, fr):
        return [(st, "n", None)]

    def ex_Global(self, st, n, fr):
        return [(st, "n", None)]

    ex_Nonlocal = ex_Global

    def ex_Return(self, st, n, fr):
        if n.value is None:
            return [(st, "ret", NONE)]
        outs = self.ev(st, n.value, fr)
        for s, k, v in outs:
            s.loc = self.where(s, fr, n)
        return [(s, "ret" if k == "v" else k, v) for s, k, v in outs]

    def ex_Break(self, st, n, fr):
        return [(st, "brk", None)]

    def ex_Continue(self, st, n, fr):
        return [(st, "cont", None)]

    def ex_Assign(self, st, n, fr):
        res = []
        for s, k, v in self.ev(st, n.value, fr):
            if k != "v":
                res.append((s, k, v))
                continue
            cur = [(s, "n", None)]
            for t in n.targets:
                nxt = []
                for s2, k2, v2 in cur:
                    nxt += self.assign(s2, t, v, fr) if k2 == "n" else [(s2, k2, v2)]
                cur = nxt
            res += cur
        return res

    def ex_AnnAssign(self, st, n, fr):
        if n.value is None:
            return [(st, "n", None)]
        res = []
        for s, k, v in self.ev(st, n.value, fr):
            res += self.assign(s, n.target, v, fr) if k == "v" else [(s, k, v)]
        return res

    def ex_AugAssign(self, st, n, fr):
        load = ast.copy_location(self.as_load(n.target), n.target)
        res = []
        op = self.BIN[type(n.op)]
        for s, k, vs in self.eval_list(st, [load, n.value], fr):
            if k != "v":
                res.append((s, k, vs))
                continue
            a, b = vs
            if op == "add" and a[0] == "r" and s.heap[a[1]].kind == "lib" and s.heap[a[1]].cls == "bytearray":
                res += self.drop(self.models.m_lib_extend(self, s, a, [b], {}))
                continue
            ra = self.force(s, a)
            if ra[0] == "r" and s.heap[ra[1]].kind == "list" and op == "add":
                res += self.drop(self.models.list_extend(self, s, ra, b))
                continue
            if ra[0] == "r" and s.heap[ra[1]].kind == "dict" and op == "bitor":
                res += self.drop(self.models.dict_update(self, s, ra, b))
                continue
            if ra[0] == "r" and s.heap[ra[1]].kind == "set" and op in ("bitor", "sub", "bitand"):
                res += self.drop(self.models.set_update(self, s, op, ra, b))
                continue
            for s2, k2, v in self.binop(s, op, a, b):
                res += self.assign(s2, n.target, v, fr) if k2 == "v" else [(s2, k2, v)]
        return res

    def as_load(self, t):
        import copy

        t = copy.copy(t)
        t.ctx = ast.Load()
        return t

    def assign(self, st, t, v, fr):
        if isinstance(t, ast.Name):
            self.setvar(st, fr, t.id, v)
            return [(st, "n", None)]
        if isinstance(t, ast.Attribute):
            res = []
            for s, k, o in self.ev(st, t.value, fr):
                s.loc = self.where(s, fr, t)
                res += self.setattr(s, o, t.attr, v) if k == "v" else [(s, k, o)]
            return res
        if isinstance(t, ast.Subscript):
            res = []
            if isinstance(t.slice, ast.Slice):
                for s, k, o in self.ev(st, t.value, fr):
                    if k == "v" and o[0] == "r" and s.heap[o[1]].kind == "list" and not any(
                            (t.slice.lower, t.slice.upper, t.slice.step)):
                        for tag, s2, segs in self.segs_of(s, v):
                            s2.put(o, ListO(None, segs))
                            res.append((s2, "n", None))
                    else:
                        s.note("imprecise", "slice assignment", s.loc)
                        res.append((s, "n", None) if k == "v" else (s, k, o))
                return res
            for s, k, vs in self.eval_list(st, [t.value, t.slice], fr):
                s.loc = self.where(s, fr, t)
                res += self.setitem(s, vs[0], vs[1], v) if k == "v" else [(s, k, vs)]
            return res
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(st, t.elts, v, fr)
        if isinstance(t, ast.Starred):
            return self.assign(st, t.value, v, fr)
        st.note("imprecise", "assignment target", st.loc)
        return [(st, "n", None)]

    def unpack(self, st, elts, v, fr):
        res = []
        v2 = self.force(st, v)
        if v2[0] in ("s", "t"):
            h = st.heads(v2)
            if h == {"tuple"} or "any" in h:
                for s in st.types_of(v2):
                    if s[0] == "tuple" and len(s) > 1 and len(s) - 1 != len(elts):
                        return self.raise_(st, "ValueError", C("unpack"))
                cur = [(st, "n", None)]
                for i, e in enumerate(elts):
                    nxt = []
                    for s, k, x in cur:
                        nxt += self.assign(s, e, self.mk_item(s, v2, C(i)), fr) if k == "n" else [(s, k, x)]
                    cur = nxt
                return cur
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        for tag, s, segs in self.segs_of(st, v2):
            if tag == "x":
                res.append((s, "x", segs))
                continue
            if all(g[0] == "e" for g in segs):
                vals = [g[1] for g in segs]
                if star:
                    i = star[0]
                    after = len(elts) - i - 1
                    if len(vals) < len(elts) - 1:
                        res += self.raise_(s, "ValueError", C("unpack"))
                        continue
                    mid = vals[i:len(vals) - after]
                    vals = vals[:i] + [s.alloc(ListO(None, tuple(("e", x) for x in mid)))] + vals[len(vals) - after:]
                if len(vals) != len(elts):
                    res += self.raise_(s, "ValueError", C("unpack"))
                    continue
                cur = [(s, "n", None)]
                for e, x in zip(elts, vals):
                    nxt = []
                    for s2, k2, y in cur:
                        nxt += self.assign(s2, e, x, fr) if k2 == "n" else [(s2, k2, y)]
                    cur = nxt
                res += cur
                continue
            # symbolic length list
            base = v2 if v2[0] != "r" else (s.heap[v2[1]].base if s.heap[v2[1]].kind == "list" else None)
            if base is not None and (v2[0] != "r" or not s.heap[v2[1]].segs):
                ln = T("len", base)
                need = len(elts) - len(star)
                cond = self.mk_not(self.mk_lt(s, ln, C(need))) if star else self.mk_eq(s, ln, C(need))
                for s2, b in self.branch_bool(s, cond):
                    if not b:
                        res += self.raise_(s2, "ValueError", C("unpack"))
                        continue
                    cur = [(s2, "n", None)]
                    seen = False
                    for i, e in enumerate(elts):
                        if isinstance(e, ast.Starred):
                            x = T("slice", base, C(i), C(i - len(elts) + 1) if i + 1 < len(elts) else NONE)
                            s2.types[x] = s2.types_of(base)
                            seen = True
                        else:
                            x = self.mk_item(s2, base, C(i - len(elts)) if seen else C(i))
                        nxt = []
                        for s3, k3, y in cur:
                            nxt += self.assign(s3, e, x, fr) if k3 == "n" else [(s3, k3, y)]
                        cur = nxt
                    res += cur
                continue
            s.note("imprecise", "unpack of quantified sequence", s.loc)
            cur = [(s, "n", None)]
            for e in elts:
                nxt = []
                for s3, k3, y in cur:
                    nxt += self.assign(s3, e, T("unk", s3.fresh("unpack")), fr) if k3 == "n" else [(s3, k3, y)]
                cur = nxt
            res += cur
        return res

    def setattr(self, st, o, name, v):
        o = self.force(st, o)
        if o[0] == "r":
            ob = st.heap[o[1]]
            if ob.kind == "inst":
                a, _ = self.class_lookup(st, ob.cls, name)
                if a is not None and a[0] == "prop":
                    if len(a) > 2 and a[2] is not None:
                        return self.drop(self.call(st, a[2], [o, v], {}))
                    return self.raise_(st, "AttributeError", C(f"can't set {name}"))
                sa, _ = self.class_lookup(st, ob.cls, "__setattr__")
                if sa is not None:
                    return self.drop(self.call(st, ("bm", sa, o), [C(name), v], {}))
                if self.classes[ob.cls].frozen:
                    return self.raise_(st, "AttributeError", C("frozen"))
                f = dict(ob.fields)
                f[name] = v
                st.put(o, InstO(ob.cls, f, ob.base))
                st.events += (("setattr", o[1], name, st.loc),)
                return [(st, "n", None)]
            return self.raise_(st, "AttributeError", C(f"cannot set {name}"))
        if o[0] == "k":
            self.setns(st, "cls:" + o[1], name, v)
            return [(st, "n", None)]
        if o[0] == "m":
            self.setns(st, "mod:" + o[1], name, v)
            return [(st, "n", None)]
        if o[0] in ("f", "bi", "x", "bm"):
            if o[0] == "f":
                st.note("sharedwrite", "function attribute " + name, st.loc)
                self.sharedwrites.add(("fn:function attribute " + name, st.loc))
            return [(st, "n", None)]
        h = st.heads(o)
        if "any" not in h and not h & {"inst", "obj", "exc", "fn"}:
            return self.raise_(st, "AttributeError", C(f"cannot set {name}"))
        if len(st.types_of(o)) > 1 and "any" not in h:
            outs = []
            for s in sorted(st.types_of(o), key=repr):
                s2 = st.copy()
                s2.types[o] = frozenset({s})
                outs += self.setattr(s2, o, name, v)
            return outs
        st.events += (("setattr_ext", o, name, v, st.loc),)
        return [(st, "n", None)]

    def setitem(self, st, o, key, v):
        if o[0] == "r" and st.heap[o[1]].kind == "lib":
            return self.drop(self.models.m_lib___setitem__(self, st, o, [key, v], {}))
        o = self.force(st, o)
        if o[0] == "r":
            ob = st.heap[o[1]]
            if ob.kind == "dict":
                self.ov_put(st, o, key, v)
                return [(st, "n", None)]
            if ob.kind == "list":
                if is_int(key) and ob.base is None and all(s[0] == "e" for s in ob.segs):
                    i = cv(key)
                    if -len(ob.segs) <= i < len(ob.segs):
                        segs = list(ob.segs)
                        segs[i] = ("e", v)
                        st.put(o, ListO(None, tuple(segs)))
                        return [(st, "n", None)]
                    return self.raise_(st, "IndexError", C("list assignment"))
                st.put(o, ListO(T("unk", self.deep(st, o), st.fresh("setitem")), ()))
                st.note("imprecise", "list item assignment", st.loc)
                return [(st, "n", None)]
            if ob.kind == "inst":
                f, _ = self.class_lookup(st, ob.cls, "__setitem__")
                if f is not None:
                    return self.drop(self.call(st, ("bm", f, o), [key, v], {}))
            return self.raise_(st, "TypeError", C("item assignment"))
        h = st.heads(o)
        if len(st.types_of(o)) > 1 and "any" not in h:
            outs = []
            for s in sorted(st.types_of(o), key=repr):
                s2 = st.copy()
                s2.types[o] = frozenset({s})
                outs += self.setitem(s2, o, key, v)
            return outs
        if "any" in h:
            st.note("imprecise", "item assignment on unknown", st.loc)
            st.events += (("setitem_ext", o, key, v, st.loc),)
            return [(st, "n", None)]
        return self.raise_(st, "TypeError", C("item assignment"))

    def ex_Delete(self, st, n, fr):
        cur = [(st, "n", None)]
        for t in n.targets:
            nxt = []
            for s, k, v in cur:
                nxt += self.delete(s, t, fr) if k == "n" else [(s, k, v)]
            cur = nxt
        return cur

    def delete(self, st, t, fr):
        if isinstance(t, (ast.Tuple, ast.List)):
            cur = [(st, "n", None)]
            for e in t.elts:
                nxt = []
                for s, k, v in cur:
                    nxt += self.delete(s, e, fr) if k == "n" else [(s, k, v)]
                cur = nxt
            return cur
        if isinstance(t, ast.Name):
            e = dict(st.envs[fr])
            e.pop(t.id, None)
            st.envs[fr] = e
            return [(st, "n", None)]
        if isinstance(t, ast.Attribute):
            res = []
            for s, k, o in self.ev(st, t.value, fr):
                if k != "v":
                    res.append((s, k, o))
                    continue
                o = self.force(s, o)
                if o[0] == "r" and s.heap[o[1]].kind == "inst":
                    ob = s.heap[o[1]]
                    f = dict(ob.fields)
                    if t.attr in f:
                        del f[t.attr]
                        s.put(o, InstO(ob.cls, f, ob.base))
                        res.append((s, "n", None))
                    else:
                        res += self.raise_(s, "AttributeError", C(t.attr))
                else:
                    s.note("imprecise", "del attribute", s.loc)
                    res.append((s, "n", None))
            return res
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                st.note("imprecise", "del slice", st.loc)
                return [(st, "n", None)]
            res = []
            for s, k, vs in self.eval_list(st, [t.value, t.slice], fr):
                s.loc = self.where(s, fr, t)
                res += self.delitem(s, vs[0], vs[1]) if k == "v" else [(s, k, vs)]
            return res
        return [(st, "n", None)]

    def delitem(self, st, o, key):
        o = self.force(st, o)
        if o[0] == "r" and st.heap[o[1]].kind in ("dict",):
            res = []
            for s, x in self.dict_find(st, o, key):
                if x is None:
                    res.append((s, "x", ("e", ("bi", "KeyError"), key)))
                else:
                    self.ov_put(s, o, key, DEL)
                    res.append((s, "n", None))
            return res
        if o[0] == "r" and st.heap[o[1]].kind == "list":
            ob = st.heap[o[1]]
            if is_int(key) and ob.base is None and all(s[0] == "e" for s in ob.segs):
                segs = list(ob.segs)
                try:
                    del segs[cv(key)]
                except IndexError:
                    return self.raise_(st, "IndexError", C("del"))
                st.put(o, ListO(None, tuple(segs)))
                return [(st, "n", None)]
        if o[0] == "r" and st.heap[o[1]].kind == "inst":
            f, _ = self.class_lookup(st, st.heap[o[1]].cls, "__delitem__")
            if f is not None:
                return self.drop(self.call(st, ("bm", f, o), [key], {}))
        h = st.heads(o)
        if o[0] != "r" and len(st.types_of(o)) > 1 and "any" not in h:
            outs = []
            for t in sorted(st.types_of(o), key=repr):
                s2 = st.copy()
                s2.types[o] = frozenset({t})
                outs += self.delitem(s2, o, key)
            return outs
        if not h & {"any", "list", "dict"}:
            return self.raise_(st, "TypeError", C("item deletion"))
        st.note("imprecise", "del item", st.loc)
        return [(st, "n", None)]

    def ex_If(self, st, n, fr):
        res = []
        for s, k, b in self.ev_cond(st, n.test, fr):
            if k != "v":
                res.append((s, k, b))
            else:
                res += self.exec_block(s, n.body if b else n.orelse, fr)
        return res

    def ex_Assert(self, st, n, fr):
        res = []
        for s, k, b in self.ev_cond(st, n.test, fr):
            if k != "v":
                res.append((s, k, b))
            elif b:
                res.append((s, "n", None))
            else:
                res += self.raise_(s, "AssertionError")
        return res

    def ex_Raise(self, st, n, fr):
        if n.exc is None:
            e = self.lookup(st, "__exc__", fr)
            return [(st, "x", e if e is not None else ("e", ("bi", "RuntimeError")))]

        def f(s, v):
            if v[0] in ("k", "bi", "x"):
                return [(s2, "x", r) if k2 == "v" else (s2, k2, r) for s2, k2, r in self.call(s, v, [], {}, n, fr)]
            return [(s, "x", v)]

        outs = []
        for s, k, v in self.ev(st, n.exc, fr):
            if k == "v":
                s.loc = self.where(s, fr, n)
                outs += f(s, v)
            else:
                outs.append((s, k, v))
        return outs

    def ex_Try(self, st, n, fr):
        body = self.exec_block(st, n.body, fr)
        res = []
        for s, k, v in body:
            if k == "n":
                res += self.exec_block(s, n.orelse, fr)
            elif k == "x":
                res += self.handle(s, v, n.handlers, fr)
            else:
                res.append((s, k, v))
        if not n.finalbody:
            return res
        out = []
        for s, k, v in res:
            for s2, k2, v2 in self.exec_block(s, n.finalbody, fr):
                out.append((s2, k, v) if k2 == "n" else (s2, k2, v2))
        return out

    ex_TryStar = ex_Try

    def handle(self, st, exc, handlers, fr):
        res = []
        cur = [st]
        for h in handlers:
            nxt = []
            for s in cur:
                if h.type is None:
                    tests = [(s, "v", None)]
                else:
                    tests = self.ev(s, h.type, fr)
                for s2, k2, cls in tests:
                    if k2 != "v":
                        res.append((s2, k2, cls))
                        continue
                    cl = [cls] if cls is None or cls[0] != "tp" else list(cls[1:])
                    m = True if cls is None else None
                    if cls is not None:
                        ms = [self.exc_match(s2, exc, c) for c in cl]
                        m = True if True in ms else None if None in ms else False
                    if m is None:
                        o = s2.copy()
                        o.facts[T("excmaybe", C(h.lineno), C(id(h) % 9973))] = False
                        nxt.append(o)
                    if m is not False:
                        saved = st.envs[fr].get("__exc__")
                        self.setenv_raw(s2, fr, "__exc__", exc)
                        if h.name:
                            self.setvar(s2, fr, h.name, exc)
                        for s3, k3, v3 in self.exec_block(s2, h.body, fr):
                            e = dict(s3.envs[fr])
                            e.pop("__exc__", None)
                            if saved is not None:
                                e["__exc__"] = saved
                            if h.name and "__ns__" not in e:
                                e.pop(h.name, None)
                            s3.envs[fr] = e
                            res.append((s3, k3, v3))
                    else:
                        nxt.append(s2)
            cur = nxt
        return res + [(s, "x", exc) for s in cur]

    def setenv_raw(self, st, fr, name, v):
        e = dict(st.envs[fr])
        e[name] = v
        st.envs[fr] = e

    def with_generator(self, st, cm, n, fr, i):
        """with over a @contextmanager function: its body with the block in the place of the yield."""
        self.ncm = idx = getattr(self, "ncm", 0) + 1
        self.cms[idx] = (n, fr, i)
        self.cm_next = idx
        key = f"__after{idx}__"
        res = []
        for s, k, v in self.call(st, cm[1], list(cm[2]), dict(cm[3])):
            env = dict(s.envs[fr])
            after = env.pop(key, None)
            s.envs[fr] = env
            if k == "x":
                res.append((s, k, v))
            elif after is None:
                res.append((s, "x", ("e", ("bi", "RuntimeError"), C("generator didn't yield"))))
            else:
                res.append((s, after[1], after[2]))
        return res

    def with_body(self, st, v, idx):
        n, fr, i = self.cms[idx]
        key = f"__after{idx}__"
        if key in st.envs[fr]:
            return self.raise_(st, "RuntimeError", C("generator didn't stop"))
        t = n.items[i].optional_vars
        res = []
        for s, k, w in self.assign(st, t, v, fr) if t is not None else [(st, "n", None)]:
            for s2, k2, w2 in self.ex_With(s, n, fr, i + 1) if k == "n" else [(s, k, w)]:
                # an exception is thrown in at the yield; when the generator swallows it the block is left normally
                s2.envs[fr] = {**s2.envs[fr], key: ("after", "n", None) if k2 == "x" else ("after", k2, w2)}
                res.append((s2, "x", w2) if k2 == "x" else (s2, "v", NONE))
        return res

    def dispatch(self, st, d, args, kw):
        """A functools.singledispatch function or method: the implementation registered for the most specific class of its argument."""
        i = 1 if d[0] == "sdm" else 0
        if len(args) <= i or args[i][0] == "star":
            st.note("unk", "single dispatch", st.loc)
            return [(st, "v", T("unk", st.fresh("dispatch")))]
        impls = self.dispatchers[d[1]]
        rank = {c: sum(self.derives(o, c) for o in impls) for c in impls}
        cur, res = [st], []
        for c in sorted((c for c in impls if c is not None), key=lambda c: rank[c]):
            nxt = []
            for s in cur:
                for s2, b in self.branch_bool(s, self.isinstance_atom(s, args[i], c)):
                    if b:
                        res += self.call(s2, impls[c], list(args), dict(kw))
                    else:
                        nxt.append(s2)
            cur = nxt
        for s in cur:
            res += self.call(s, impls[None], list(args), dict(kw))
        return res

    def derives(self, c, d):
        if c is None or d is None or c == d:
            return False
        name = d[1] if d[0] == "k" else d[0] + ":" + d[1]
        return c[0] == "k" and name in self.mro(c[1])

    def register(self, st, d, args):
        impls = self.dispatchers[d[1]]
        if len(args) == 1 and args[0][0] in ("k", "bi", "x") and args[0] != ("bi", "__identity__"):
            return [(st, "v", ("partial", ("bi", "singledispatch.register"), (d, args[0]), ()))]
        f = args[-1]
        if len(args) == 2:
            classes = [args[0]]
        else:
            g = f
            while g[0] in ("sm", "cm", "sdm", "cmf"):
                g = g[1]
            fi = self.funcs[g[1]]
            a = fi.node.args
            ps = [p for p in a.posonlyargs + a.args][1 if d[0] == "sdm" else 0:]
            ts_ = self.ann_types(st, ps[0].annotation, g[2]) if ps else ANY
            if ts_ == ANY:
                raise Incomplete("single dispatch on an unresolved annotation")
            classes = [("k", t[1]) if t[0] == "inst" else ("bi", {"none": "NoneType"}.get(t[0], t[0])) for t in sorted(ts_, key=repr)]
        self.dispatchers[d[1]] = {**impls, **{c: f for c in classes}}
        return [(st, "v", f)]

    def ex_With(self, st, n, fr, i=0):
        if i == len(n.items):
            return self.exec_block(st, n.body, fr)
        it = n.items[i]
        res = []
        for s, k, cm in self.ev(st, it.context_expr, fr):
            if k != "v":
                res.append((s, k, cm))
                continue
            if cm[0] == "suppress":
                for s2, k2, v2 in self.ex_With(s, n, fr, i + 1):
                    if k2 == "x":
                        ms = [self.exc_match(s2, v2, c) for c in cm[1:]]
                        if True in ms or None in ms:
                            if True not in ms:
                                res.append((s2.copy(), "x", v2))
                            res.append((s2, "n", None))
                            continue
                    res.append((s2, k2, v2))
                continue
            if cm[0] == "cmgr":
                res += self.with_generator(s, cm, n, fr, i)
                continue
            enter = exit_ = None
            cmr = self.force(s, cm)
            if cmr[0] == "r" and s.heap[cmr[1]].kind == "inst":
                enter = self.class_lookup(s, s.heap[cmr[1]].cls, "__enter__")[0]
                exit_ = self.class_lookup(s, s.heap[cmr[1]].cls, "__exit__")[0]
            outs = [(s, "v", T("with", self.deep(s, cm)))]
            if cmr[0] == "r" and s.heap[cmr[1]].kind == "lib" and s.heap[cmr[1]].cls == "bytesio":
                outs = [(s, "v", cmr)]
            if enter is not None:
                outs = self.call(s, ("bm", enter, cmr), [], {})
            for s2, k2, v2 in outs:
                if k2 != "v":
                    res.append((s2, k2, v2))
                    continue
                a = self.assign(s2, it.optional_vars, v2, fr) if it.optional_vars is not None else [(s2, "n", None)]
                for s3, k3, v3 in a:
                    if k3 != "n":
                        res.append((s3, k3, v3))
                        continue
                    for s4, k4, v4 in self.ex_With(s3, n, fr, i + 1):
                        if exit_ is None:
                            res.append((s4, k4, v4))
                            continue
                        ea = [("k", "exc"), v4, NONE] if k4 == "x" else [NONE, NONE, NONE]
                        if k4 == "x":
                            ec = self.exc_cls(s4, v4)
                            ea[0] = ec
                        for s5, k5, v5 in self.call(s4, ("bm", exit_, cmr), ea, {}):
                            if k5 == "x":
                                res.append((s5, "x", v5))
                            elif k4 == "x":
                                for s6, b in self.truth(s5, v5):
                                    res.append((s6, "n", None) if b else (s6, "x", v4))
                            else:
                                res.append((s5, k4, v4))
        return res

    ex_AsyncWith = ex_With

    # ---------------------------------------------------------------- loops
    def ex_While(self, st, n, fr):
        cur, res, done = [st], [], []
        for it in range(70):
            nxt = []
            for s in cur:
                conds = self.ev_cond(s, n.test, fr)
                for s2, k, b in conds:
                    if k != "v":
                        res.append((s2, k, b))
                    elif not b:
                        done.append(s2)
                    else:
                        for s3, k3, v3 in self.exec_block(s2, n.body, fr):
                            if k3 in ("n", "cont"):
                                nxt.append(s3)
                            elif k3 == "brk":
                                res.append((s3, "n", None))
                            else:
                                res.append((s3, k3, v3))
            cur = nxt
            if not cur:
                break
            if len(cur) > 400:
                break
        if cur:
            # not bounded by the analysis: havoc what the loop changes
            s = cur[0]
            s.note("imprecise", "unbounded while loop", self.where(s, fr, n))
            for s in cur:
                s.note("unk", "unbounded while loop", self.where(s, fr, n))
                done.append(s)
        for s in done:
            res += self.exec_block(s, n.orelse, fr)
        return res

    def ex_For(self, st, n, fr):
        res = []
        for s, k, itv in self.ev(st, n.iter, fr):
            if k != "v":
                res.append((s, k, itv))
                continue
            watch = self.watched(s, itv)
            for tag, s2, segs in self.segs_of(s, itv):
                if tag == "x":
                    res.append((s2, "x", segs))
                    continue
                cur = [s2]
                brk = []
                for sg in segs:
                    nxt = []
                    for s3 in cur:
                        if sg[0] == "e":
                            for s4, k4, v4 in self.assign(s3, n.target, sg[1], fr):
                                if k4 != "n":
                                    res.append((s4, k4, v4))
                                    continue
                                pre = s4.copy() if watch else None
                                for s5, k5, v5 in self.exec_block(s4, n.body, fr):
                                    if k5 in ("n", "cont"):
                                        k5, v5 = self.resized(pre, s5, watch, k5, v5)
                                    if k5 in ("n", "cont"):
                                        nxt.append(s5)
                                    elif k5 == "brk":
                                        brk.append(s5)
                                    else:
                                        res.append((s5, k5, v5))
                        else:
                            a, b, c = self.generic_loop(s3, n, fr, sg, watch)
                            nxt += a
                            brk += b
                            res += c
                    cur = nxt
                for s3 in cur:
                    res += self.exec_block(s3, n.orelse, fr)
                res += [(s3, "n", None) for s3 in brk]
        return res

    ex_AsyncFor = ex_For

    def local_diff(self, s0, s1, fr):
        e0, e1 = s0.envs[fr], s1.envs[fr]
        out = {}
        for k, v in e1.items():
            if e0.get(k) != v and not k.startswith("__"):
                out[k] = v
        return out

    def watched(self, st, v):
        """The dict/set/list iterated over directly (not through a copy)."""
        v = self.force(st, v)
        if v[0] != "r":
            return None
        o = st.heap[v[1]]
        if o.kind == "iter":
            return o.src[0] if o.src is not None else None
        return v if o.kind in ("dict", "set", "list") else None

    def resized(self, s0, s1, ref, k, v):
        """The iterator's own check when the body added or removed an element of the collection iterated over."""
        if ref is None:
            return k, v
        o0, o1 = s0.heap[ref[1]], s1.heap[ref[1]]
        if o0 is o1:
            return k, v
        if o1.kind == "list":
            if o1.segs != o0.segs:
                s1.note("unk", "list changed while iterated over", s1.loc)
            return k, v
        if o0.base != o1.base:
            s1.note("unk", "collection replaced while iterated over", s1.loc)
            return k, v
        for e in o1.ov:
            if e in o0.ov:
                continue
            if e[3] is not None:
                s1.note("imprecise", "bulk change of the collection iterated over", s1.loc)
                continue
            was = None
            for x in reversed(o0.ov):
                if x[3] is None and s1.keq(x[0], e[0]) is True:
                    was = x[1] != DEL
                    break
            if was is None and o0.base is not None:
                was = s1.decide(self.in_atom(s1, e[0], o0.base))
            elif was is None:
                was = False
            if was is None:
                s1.note("imprecise", "collection may change size while iterated over", s1.loc)
            elif was != (e[1] != DEL):
                return "x", ("e", ("bi", "RuntimeError"), C("collection changed size during iteration"))
        for e in o0.ov:  # entries only known from the overlay and dropped again
            if e[3] is None and e[1] != DEL and not any(s1.keq(x[0], e[0]) is True for x in o1.ov if x[3] is None):
                return "x", ("e", ("bi", "RuntimeError"), C("collection changed size during iteration"))
        return k, v

    def generic_loop(self, st, n, fr, sg, watch=None):
        """(continuing states, break states, other outcomes) of one quantified segment."""
        _, src, evar, guard, val = sg
        tnames = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}

        def run(carry):
            b = st.copy()
            b.trail = ()
            for c in carry:
                self.setvar(b, fr, c, S(f"carry:{c}:{n.lineno}"))
            if not self.assume_elem(b, evar, src, guard):
                return b, None, []
            b0 = b.copy()
            outs = []
            for s4, k4, v4 in self.assign(b, n.target, val, fr):
                if k4 != "n":
                    outs.append((s4, k4, v4))
                else:
                    pre = s4.copy() if watch else None
                    for s5, k5, v5 in self.exec_block(s4, n.body, fr):
                        if k5 in ("n", "cont") and watch:
                            k5, v5 = self.resized(pre, s5, watch, k5, v5)
                        outs.append((s5, k5, v5))
            return b, b0, outs

        b, b0, outs = run(())
        if b0 is None:
            return [st], [], []
        carried = set()
        for s4, k4, v4 in outs:
            if k4 in ("n", "cont"):
                for name in self.local_diff(b0, s4, fr):
                    if name in st.envs[fr] and name not in tnames:
                        carried.add(name)
        if carried:
            # variables the body overwrites: is the previous iteration's value ever read?
            b, b0, outs = run(sorted(carried))
            if b0 is None:
                return [st], [], []
        conts = [(s, k, v) for s, k, v in outs if k in ("n", "cont")]
        exits = [(s, k, v) for s, k, v in outs if k not in ("n", "cont")]
        post, brk, res = [], [], []
        carrysyms = {S(f"carry:{c}:{n.lineno}") for c in carried}

        def uses_carry(t):
            return any(contains(t, c) for c in carrysyms)

        # ---- exits: some element satisfies the guard of the exit path (the first such element)
        exit_guards = []
        for s, k, v in exits:
            gd = self.guard_of(s, b0, evar, src, guard)
            exit_guards.append(gd)
            a = self.exists_atom(src, evar, gd, [])
            if uses_carry(a):
                s.note("imprecise", "loop-carried condition", s.loc)
            s.trail = st.trail + s.trail + ((s.loc, T("firstof", a), True),)
            if a == FALSE or s.facts.get(a) is False or (not is_c(a) and st.decide(a) is False):
                continue
            if not is_c(a):
                if not s.assume(a, True):
                    continue
            s.facts[T("firstof", src, subst(gd, {evar: S("•")}), evar)] = True
            # effects of the elements before it
            for s2, k2, _ in conts:
                if self.loop_effects(b0, s2, evar):
                    s.note("maybe", "effects of earlier iterations", s.loc)
            for c in carried:
                cvv = s.envs[fr].get(c)
                if cvv == S(f"carry:{c}:{n.lineno}"):
                    self.setvar(s, fr, c, self.carry_value(st, fr, c, conts, carrysyms, n))
            if k == "brk":
                brk.append(s)
            else:
                res.append((s, k, v))
        # ---- no exit happened: every element took a continuing path
        s = st
        for gd in exit_guards:
            a = self.exists_atom(src, evar, gd, [])
            if is_c(a):
                if cv(a):
                    return [], brk, res
                continue
            if not s.assume(a, False):
                return [], brk, res
        if not conts:
            a = self.exists_atom(src, evar, guard, [])
            if not is_c(a) and not s.assume(a, False):
                return [], brk, res
            return [s], brk, res
        post = [s]
        # heap effects, quantified
        for s2, k2, _ in conts:
            gd = self.guard_of(s2, b0, evar, src, guard)
            gd = self.drop_exit_guards(gd, exit_guards)
            q = ("q", src, evar, gd)
            for addr, o2 in s2.heap.items():
                o1 = b0.heap.get(addr)
                if o1 is o2 or (o1 is None and addr not in s2.pristine):
                    continue
                if o1 is None:
                    # lazily created during the iteration: part of the pre-state, maybe modified
                    p = s2.pristine[addr]
                    if self.deep_clean(s2, ("r", addr)) or p.kind == "inst" and not self.inst_changed(s2, addr):
                        continue
                    for ps in post:
                        self.apply_quant(ps, s2, ("r", addr), p, o2, q)
                    continue
                if addr.startswith("mod:") or addr.startswith("cls:"):
                    for ps in post:
                        ps.put(("r", addr), o2)
                    continue
                if addr in s2.pristine and o1 is s2.pristine[addr] and o2.base is not None and contains(
                        o2.base, evar):
                    # the generic element's own object, reached while binding the loop variable
                    if not self.deep_clean(s2, ("r", addr)) and not (o2.kind == "inst" and not self.inst_changed(s2, addr)):
                        for ps in post:
                            self.apply_quant(ps, s2, ("r", addr), o1, o2, q)
                    continue
                if addr in s2.pristine and self.deep_clean(s2, ("r", addr)):
                    continue
                for ps in post:
                    self.apply_quant_obj(ps, s2, ("r", addr), o1, o2, q)
            for ev in s2.events[len(b0.events):]:
                for ps in post:
                    ps.events += (("loop", q) + ev,) if ev[0] != "setattr" else ()
            for nt in s2.notes:
                for ps in post:
                    ps.note(*nt)
        # locals
        for c in sorted(carried):
            vals = []
            for s2, k2, _ in conts:
                v = s2.envs[fr].get(c)
                vals.append((v, self.drop_exit_guards(self.guard_of(s2, b0, evar, src, guard), exit_guards)))
            old = st.envs[fr].get(c)
            cs = S(f"carry:{c}:{n.lineno}")
            consts = {v for v, g in vals if v != cs}
            nxt = []
            for ps in post:
                if len(consts) == 1:
                    (v1,) = consts
                    if not contains(v1, evar) and not uses_carry(v1):
                        ats = [self.exists_atom(src, evar, g, []) for v, g in vals if v == v1]
                        a = self.mk_or([x for x in ats])
                        if not uses_carry(a):
                            for s3, t in self.branch_bool(ps, a):
                                self.setvar(s3, fr, c, v1 if t else old)
                                nxt.append(s3)
                            continue
                self.setvar(ps, fr, c, self.carry_value(st, fr, c, conts, carrysyms, n))
                nxt.append(ps)
            post = nxt
        for ps in post:
            e = dict(ps.envs[fr])
            for t in tnames:
                if "__ns__" not in e:
                    e[t] = T("unk", S(f"loopvar:{t}:{n.lineno}"))
            for s2, k2, _ in conts:
                for name in self.local_diff(b0, s2, fr):
                    if name not in carried and name not in tnames and "__ns__" not in e:
                        e[name] = T("unk", S(f"loopout:{name}:{n.lineno}"))
            ps.envs[fr] = e
        return post, brk, res

    def drop_exit_guards(self, gd, exit_guards):
        """A continuing path's guard minus the negation of single-atom exit guards (known to hold for all)."""
        neg = set()
        for eg in exit_guards:
            if len(eg) == 2:
                g = eg[1]
                neg.add(T("g", g[2], FALSE if g[3] == TRUE else TRUE))
        return ("gd",) + tuple(g for g in gd[1:] if g not in neg)

    def carry_value(self, st, fr, c, conts, carrysyms, n):
        """Value after the loop of a local the body accumulates into."""
        return T("unk", S(f"loopout:{c}:{n.lineno}"))

    def loop_effects(self, b0, s2, evar):
        for addr, o2 in s2.heap.items():
            o1 = b0.heap.get(addr)
            if o1 is None:
                if addr in s2.pristine and not self.deep_clean(s2, ("r", addr)) and self.inst_changed(s2, addr):
                    return True
                continue
            if o1 is not o2 and not (addr in s2.pristine and self.deep_clean(s2, ("r", addr))):
                if o2.kind == "inst":
                    for f, v in o2.fields.items():
                        if o1.fields.get(f) != v and not (v[0] == "r" and v[1] in s2.pristine):
                            return True
                    continue
                return True
        return False

    def inst_changed(self, s, addr):
        o, p = s.heap[addr], s.pristine.get(addr)
        if p is None:
            return True
        if o.kind == "inst":
            for f, v in o.fields.items():
                if v == T("attr", o.base, C(f)):
                    continue
                if v[0] == "r" and v[1] in s.pristine and s.heap[v[1]].base == T("attr", o.base, C(f)):
                    continue
                return True
            return False
        return not self._same(o, p)

    def apply_quant(self, ps, s2, ref, p, o2, q):
        """Effects on an object that was first reached inside the iteration (its base mentions the element)."""
        ps.qeff += (("qeff", q, o2.base, self.obj_delta(s2, p, o2)),)

    def obj_delta(self, s, p, o):
        if o.kind == "inst":
            return tuple(("set", f, self.deep(s, v)) for f, v in sorted(o.fields.items())
                         if not (v == T("attr", o.base, C(f)) or (v[0] == "r" and v[1] in s.pristine and s.heap[
                             v[1]].base == T("attr", o.base, C(f)))))
        if o.kind == "list":
            return tuple(("app", self.deep(s, g[1]) if g[0] == "e" else g) for g in o.segs[len(p.segs):])
        return tuple(("put", self.deep(s, e[0]), e[1] if e[1] == DEL else self.deep(s, e[1]), e[3]) for e in o.ov[len(p.ov):])

    def apply_quant_obj(self, ps, s2, ref, o1, o2, q):
        cur = ps.heap.get(ref[1])
        if cur is None:
            cur = o1
        _, src, evar, gd = q
        if o2.kind == "list":
            if o2.base == o1.base and o2.segs[:len(o1.segs)] == o1.segs:
                new = ()
                for g in o2.segs[len(o1.segs):]:
                    if g[0] == "e":
                        new += (("q", src, evar, gd, self.deep(s2, g[1]) if g[1][0] == "r" and g[1][1] not in ps.heap else g[1]),)
                    else:
                        new += (("q", g[1], g[2], ("gd",) + gd[1:] + g[3][1:], g[4]),)
                merged = self.merge_q(cur.segs[len(o1.segs):] + new)
                ps.put(ref, ListO(cur.base, cur.segs[:len(o1.segs)] + merged, cur.ets))
            else:
                ps.put(ref, ListO(T("unk", S(f"loopout:{ref[1]}")), ()))
                ps.note("unk", "list rewritten in loop", ps.loc)
            return
        if o2.kind in ("dict", "set"):
            keep = o1.ov
            new = [e for e in o2.ov if e not in keep]
            gone = [e for e in keep if e not in o2.ov]
            if o2.base != o1.base:
                ps.note("unk", "container replaced in loop", ps.loc)
            ov = cur.ov
            for e in new:
                ent = (e[0], e[1] if e[1] == DEL else (self.deep(s2, e[1]) if e[1][0] == "r" and e[1][1] not in ps.heap else e[1]),
                       e[2], q if e[3] is None else e[3])
                # identical effect on complementary paths -> unconditional
                merged = False
                for i, x in enumerate(ov):
                    if x[3] is not None and x[0] == ent[0] and x[1] == ent[1] and x[3][1:3] == q[1:3]:
                        m = self.merge_q((("q",) + x[3][1:] + (x[0],), ("q",) + q[1:] + (x[0],)))
                        if len(m) == 1:
                            ov = ov[:i] + ((x[0], x[1], x[2], ("q",) + m[0][1:4]),) + ov[i + 1:]
                            merged = True
                            break
                if not merged:
                    ov = ov + (ent,)
            if gone:
                for e in gone:
                    if not any(x[0] == e[0] for x in new):
                        ps.note("unk", "entry removed in loop", ps.loc)
            ps.put(ref, cur.rep(ov=ov))
            return
        if o2.kind == "inst":
            f = dict(cur.fields)
            for k, v in o2.fields.items():
                if o1.fields.get(k) == v:
                    continue
                if v[0] == "r" and v[1] in s2.pristine and s2.heap[v[1]].base == T("attr", o2.base or NONE, C(k)):
                    # lazily read container; carry over the view with the quantified changes applied
                    continue
                if not contains(v, evar) and len(gd) == 1:
                    a = self.exists_atom(src, evar, gd, [])
                    d = True if is_c(a) and cv(a) else ps.decide(a)
                    if d is True:
                        f[k] = v
                        continue
                f[k] = T("unk", S(f"loopout:{ref[1]}.{k}"))
                ps.note("unk", "attribute rewritten in loop", ps.loc)
            ps.put(ref, InstO(cur.cls, f, cur.base))
            return
        if o2.kind == "lib":
            ps.put(ref, o2.rep(term=T("unk", S(f"loopout:{ref[1]}"))))
            ps.note("unk", "library object changed in loop", ps.loc)
        if o2.kind == "iter":
            ps.put(ref, o2)

    # ---------------------------------------------------------------- match
    def ex_Match(self, st, n, fr):
        res = []
        for s, k, v in self.ev(st, n.subject, fr):
            if k != "v":
                res.append((s, k, v))
                continue
            cur = [s]
            for case in n.cases:
                nxt = []
                for s2 in cur:
                    for s3, k3, b in self.pm(s2, case.pattern, v, fr):
                        if k3 != "v":
                            res.append((s3, k3, b))
                        elif not b:
                            nxt.append(s3)
                        elif case.guard is not None:
                            for s4, k4, g in self.ev_cond(s3, case.guard, fr):
                                if k4 != "v":
                                    res.append((s4, k4, g))
                                elif g:
                                    res += self.exec_block(s4, case.body, fr)
                                else:
                                    nxt.append(s4)
                        else:
                            res += self.exec_block(s3, case.body, fr)
                cur = nxt
            res += [(s2, "n", None) for s2 in cur]
        return res

    def pm(self, st, p, v, fr):
        """Pattern match: [(st,'v',bool)|(st,'x',exc)]"""
        st.loc = self.where(st, fr, p)
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.setvar(st, fr, p.name, v)
                return [(st, "v", True)]
            res = []
            for s, k, b in self.pm(st, p.pattern, v, fr):
                if k == "v" and b and p.name:
                    self.setvar(s, fr, p.name, v)
                res.append((s, k, b))
            return res
        if isinstance(p, ast.MatchValue):
            res = []
            for s, k, x in self.ev(st, p.value, fr):
                if k != "v":
                    res.append((s, k, x))
                    continue
                for s2, k2, a in self.equals(s, v, x):
                    if k2 != "v":
                        res.append((s2, k2, a))
                    else:
                        res += [(s3, "v", b) for s3, b in self.truth(s2, a)]
            return res
        if isinstance(p, ast.MatchSingleton):
            return [(s, "v", b) for s, b in self.branch_bool(st, self.is_atom(st, v, C(p.value)))]
        if isinstance(p, ast.MatchOr):
            cur, res = [st], []
            for q in p.patterns:
                nxt = []
                for s in cur:
                    for s2, k2, b in self.pm(s, q, v, fr):
                        (nxt.append(s2) if k2 == "v" and not b else res.append((s2, k2, b)))
                cur = nxt
            return res + [(s, "v", False) for s in cur]
        if isinstance(p, ast.MatchClass):
            res = []
            for s, k, c in self.ev(st, p.cls, fr):
                if k != "v":
                    res.append((s, k, c))
                    continue
                for s2, b in self.branch_bool(s, self.isinstance_atom(s, v, c)):
                    if not b:
                        res.append((s2, "v", False))
                        continue
                    cur = [(s2, "v", True)]
                    pats = []
                    if p.patterns:
                        if c[0] == "bi":
                            pats.append((None, p.patterns[0]))
                        else:
                            ma, _ = self.class_lookup(s2, c[1], "__match_args__")
                            names = [cv(x) for x in ma[1:]] if ma is not None and ma[0] == "tp" else self.classes[c[1]].fields
                            pats += list(zip(names, p.patterns))
                    pats += list(zip(p.kwd_attrs, p.kwd_patterns))
                    for nm, q in pats:
                        nxt = []
                        for s3, k3, b3 in cur:
                            if k3 != "v" or not b3:
                                nxt.append((s3, k3, b3))
                                continue
                            if nm is None:
                                nxt += self.pm(s3, q, v, fr)
                                continue
                            for s4, k4, a in self.getattr(s3, v, nm):
                                if k4 == "x":
                                    nxt.append((s4, "v", False))
                                else:
                                    nxt += self.pm(s4, q, a, fr)
                        cur = nxt
                    res += cur
            return res
        if isinstance(p, ast.MatchSequence):
            v2 = self.force(st, v)
            seqc = ("tp", ("bi", "list"), ("bi", "tuple"))
            res = []
            branches = [(st, True)] if v2[0] == "tp" else self.branch_bool(st, self.isinstance_atom(st, v2, seqc))
            for s, b in branches:
                if not b:
                    res.append((s, "v", False))
                    continue
                vv = self.force(s, v2)
                star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
                ln = self.len_term(s, vv)
                need = C(len(p.patterns) - len(star))
                cond = self.mk_not(self.mk_lt(s, ln, need)) if star else self.mk_eq(s, ln, need)
                for s2, b2 in self.branch_bool(s, cond):
                    if not b2:
                        res.append((s2, "v", False))
                        continue
                    cur = [(s2, "v", True)]
                    for i, q in enumerate(p.patterns):
                        nxt = []
                        for s3, k3, b3 in cur:
                            if k3 != "v" or not b3:
                                nxt.append((s3, k3, b3))
                                continue
                            if isinstance(q, ast.MatchStar):
                                hi = i - len(p.patterns) + 1
                                if q.name:
                                    for s4, k4, x in self.slice(s3, vv, C(i), C(hi) if hi else NONE, NONE):
                                        self.setvar(s4, fr, q.name, x)
                                        nxt.append((s4, "v", True))
                                else:
                                    nxt.append((s3, "v", True))
                                continue
                            idx = C(i) if not star or i < star[0] else C(i - len(p.patterns))
                            for s4, k4, x in self.getitem(s3, vv, idx):
                                nxt += self.pm(s4, q, x, fr) if k4 == "v" else [(s4, k4, x)]
                        cur = nxt
                    res += cur
            return res
        if isinstance(p, ast.MatchMapping):
            v2 = self.force(st, v)
            res = []
            for s, b in self.branch_bool(st, self.isinstance_atom(st, v2, ("bi", "dict"))):
                if not b:
                    res.append((s, "v", False))
                    continue
                vv = self.force(s, v2)
                cur = [(s, "v", True)]
                for kx, q in zip(p.keys, p.patterns):
                    nxt = []
                    for s3, k3, b3 in cur:
                        if k3 != "v" or not b3:
                            nxt.append((s3, k3, b3))
                            continue
                        for s4, k4, key in self.ev(s3, kx, fr):
                            for s5, x in self.dict_find(s4, vv, key):
                                nxt += [(s5, "v", False)] if x is None else self.pm(s5, q, x, fr)
                    cur = nxt
                res += cur
            return res
        st.note("imprecise", "pattern " + type(p).__name__, st.loc)
        return [(st, "v", True), (st.copy(), "v", False)]

    # ---------------------------------------------------------------- imports / defs
    def ex_Import(self, st, n, fr):
        for a in n.names:
            if a.name.split(".")[0] == self.src.package:
                self.import_module(st, a.name)
                self.setvar(st, fr, a.asname or a.name.split(".")[0], ("m", a.name if a.asname else a.name.split(".")[0]))
            else:
                self.setvar(st, fr, a.asname or a.name.split(".")[0], ("x", a.name if a.asname else a.name.split(".")[0]))
        return [(st, "n", None)]

    def ex_ImportFrom(self, st, n, fr):
        mod = n.module or ""
        if n.level:
            cur = self.frame_mod(st, fr)
            m = self.src.mods.get(cur)
            parts = cur.split(".")
            if not (m and m.is_pkg):
                parts = parts[:-1]
            parts = parts[: len(parts) - (n.level - 1)]
            mod = ".".join(parts + ([n.module] if n.module else []))
        if mod == "__future__":
            return [(st, "n", None)]
        if mod.split(".")[0] == self.src.package:
            self.import_module(st, mod)
            for a in n.names:
                if a.name == "*":
                    ns = st.heap["mod:" + mod].vars
                    for k, v in ns.items():
                        if not k.startswith("_"):
                            self.setvar(st, fr, k, v)
                    continue
                v = self.mod_attr(st, mod, a.name)
                if v is None:
                    return self.raise_(st, "ImportError", C(f"{mod}.{a.name}"))
                self.setvar(st, fr, a.asname or a.name, v)
        else:
            for a in n.names:
                self.setvar(st, fr, a.asname or a.name, self.ext_value(mod + "." + a.name))
        return [(st, "n", None)]

    def ext_value(self, dotted):
        return ("x", dotted)

    def mk_func(self, st, n, fr, name):
        a = n.args
        dn = list(a.defaults) + [d for d in a.kw_defaults if d is not None]
        key = id(n)

        def f(s, dv):
            fid = self.func_cache.get(key)
            if fid is None:
                fi = FuncInfo()
                fi.node, fi.name = n, name
                fi.mod = self.frame_mod(s, fr)
                fi.cls = s.envs[fr].get("__class__") if s.envs[fr].get("__ns__", "").startswith("cls:") else None
                fi.qual = fi.mod + "." + (s.envs[fr].get("__qual__", "")) + name
                fi.locals, fi.globals, fi.nonlocals, fi.gen, fi.nested = assigned_names(n)
                fi.fid = len(self.funcs)
                self.funcs.append(fi)
                self.func_cache[key] = fid = fi.fid
            np = len(a.defaults)
            kd = []
            i = np
            for arg, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    kd.append((arg.arg, dv[i]))
                    i += 1
            return [(s, "v", ("f", fid, fr, tuple(dv[:np]), tuple(kd)))]

        return self.bind(self.eval_list(st, dn, fr), f)

    def ex_FunctionDef(self, st, n, fr):
        res = []
        for s, k, fv in self.mk_func(st, n, fr, n.name):
            if k != "v":
                res.append((s, k, fv))
                continue
            cur = [(s, "v", fv)]
            for d in reversed(n.decorator_list):
                nxt = []
                for s2, k2, v2 in cur:
                    if k2 != "v":
                        nxt.append((s2, k2, v2))
                        continue
                    for s3, k3, dv in self.ev(s2, d, fr):
                        nxt += self.decorate(s3, dv, v2) if k3 == "v" else [(s3, k3, dv)]
                cur = nxt
            for s2, k2, v2 in cur:
                if k2 == "v":
                    self.setvar(s2, fr, n.name, v2)
                    res.append((s2, "n", None))
                else:
                    res.append((s2, k2, v2))
        return res

    ex_AsyncFunctionDef = ex_FunctionDef

    def decorate(self, st, d, v):
        if d == ("bi", "property") or d in (("x", "functools.cached_property"), ("x", "abc.abstractproperty")):
            return [(st, "v", ("prop", v, None))]
        if d == ("bi", "classmethod"):
            return [(st, "v", ("cm", v))]
        if d == ("bi", "staticmethod"):
            return [(st, "v", ("sm", v))]
        if d[0] == "bm" and d[1] == ("bi", "property.setter"):
            return [(st, "v", ("prop", d[2][1], v))]
        if d[0] == "bm" and d[1] == ("bi", "property.getter"):
            return [(st, "v", ("prop", v, d[2][2]))]
        if d[0] == "x":
            n = d[1]
            if n in ("functools.singledispatch", "functools.singledispatchmethod"):
                self.dispatchers.append({None: v})
                return [(st, "v", ("sdm" if n.endswith("method") else "sdf", len(self.dispatchers) - 1))]
            if n == "contextlib.contextmanager":
                return [(st, "v", ("cmf", v))]
            return [(st, "v", v)]
        return self.call(st, d, [v], {})

    def ex_ClassDef(self, st, n, fr):
        st2, cv_ = self.define_class(st, n, fr)
        self.setvar(st2, fr, n.name, cv_)
        return [(st2, "n", None)]

    def ex_TypeAlias(self, st, n, fr):
        return [(st, "n", None)]

    # ================================================================ calls
    def ev_Call(self, st, n, fr):
        # super() without arguments
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            f = fr
            while f is not None:
                e = st.envs[f]
                if "__fi__" in e:
                    fi = self.funcs[e["__fi__"]]
                    cls = fi.cls or e.get("__defcls__")
                    if cls is not None:
                        a = fi.node.args
                        first = (a.posonlyargs + a.args)[0].arg
                        return [(st, "v", ("super", cls, e[first]))]
                f = e.get("__parent__")
            return self.raise_(st, "RuntimeError", C("super()"))
        loc = self.where(st, fr, n)
        self.callsites.add(loc)

        def f(s, fv):
            def g(s2, args):
                return self.kw(s2, n.keywords, fr, lambda s3, kw: self.call(s3, fv, list(args), kw, n, fr))

            return self.bind(self.eval_list(s, n.args, fr), g)

        return self.bind(self.ev(st, n.func, fr), f)

    def kw(self, st, keywords, fr, cont):
        outs = [(st, "v", {})]
        for k in keywords:
            nxt = []
            for s, kd, d in outs:
                if kd != "v":
                    nxt.append((s, kd, d))
                    continue
                for s2, k2, v in self.ev(s, k.value, fr):
                    if k2 != "v":
                        nxt.append((s2, k2, v))
                        continue
                    d2 = dict(d)
                    if k.arg is not None:
                        d2[k.arg] = v
                    else:
                        v = self.force(s2, v)
                        if v[0] == "r" and s2.heap[v[1]].kind == "dict":
                            o = s2.heap[v[1]]
                            for e in o.ov:
                                if is_c(e[0]) and e[1] != DEL and e[3] is None:
                                    d2[cv(e[0])] = e[1]
                            if o.base is not None:
                                d2["**"] = v
                        else:
                            d2["**"] = v
                    nxt.append((s2, "v", d2))
            outs = nxt
        return self.bind(outs, cont)

    def call(self, st, fv, args, kw, n=None, fr=None):
        k = fv[0]
        if n is not None:
            st.loc = self.where(st, fr, n)
        if k == "f":
            return self.call_func(st, fv, args, kw)
        if k == "bm":
            f = fv[1]
            if f[0] == "f":
                return self.call_func(st, f, [fv[2]] + args, kw)
            if f[0] == "bi":
                return self.models.method(self, st, f[1], fv[2], args, kw)
            return self.call(st, f, [fv[2]] + args, kw, n, fr)
        if k == "k":
            return self.instantiate(st, fv[1], args, kw)
        if k == "bi":
            return self.models.builtin(self, st, fv[1], args, kw)
        if k == "x":
            return self.models.external(self, st, fv[1], args, kw)
        if k == "partial":
            return self.call(st, fv[1], list(fv[2]) + args, {**dict(fv[3]), **kw}, n, fr)
        if k == "open":
            return self.models.open_call(self, st, fv[1], fv[2], fv[3], args, kw)
        if k in ("sm",):
            return self.call(st, fv[1], args, kw, n, fr)
        if k in ("sdm", "sdf"):
            return self.dispatch(st, fv, args, kw)
        if k == "cmf":
            return [(st, "v", ("cmgr", fv[1], tuple(args), tuple(kw.items())))]
        if k == "ty":
            x = self.force(st, fv[1])
            if x[0] == "r" and st.heap[x[1]].kind == "inst":
                return self.instantiate(st, st.heap[x[1]].cls, args, kw)
        if k == "dcinit":
            return self.dc_init(st, fv[1], fv[2], args, kw)
        if k == "r" and st.heap[fv[1]].kind == "inst":
            f, _ = self.class_lookup(st, st.heap[fv[1]].cls, "__call__")
            if f is not None:
                return self.call_func(st, f, [fv] + args, kw)
            return self.raise_(st, "TypeError", C("not callable"))
        if k == "c" or k == "tp" or k == "r" and st.heap[fv[1]].kind in ("dict", "set", "list", "iter", "lib"):
            return self.raise_(st, "TypeError", C("not callable"))
        if k in ("s", "t"):
            r = self.force(st, fv)
            if r[0] == "r":
                return self.call(st, r, args, kw, n, fr)
            if k == "t" and fv[1] == "attr":
                return self.models.unknown_method(self, st, fv[2], cv(fv[3]), args, kw)
            h = st.heads(fv)
            if "any" not in h and not h & {"fn", "obj"}:
                return self.raise_(st, "TypeError", C("not callable"))
        return self.models.unknown_call(self, st, fv, args, kw)

    def bind_args(self, st, fi, fv, args, kw):
        """Parameter binding: dict or an error string."""
        a = fi.node.args
        pos = a.posonlyargs + a.args
        env = {}
        args = list(args)
        starred = any(x[0] == "star" for x in args)
        if starred:
            i = next(i for i, x in enumerate(args) if x[0] == "star")
            if a.vararg is None or i < len(pos):
                return "star"
        n = min(len(args), len(pos))
        for p, v in zip(pos, args):
            env[p.arg] = v
        rest = args[len(pos):]
        if rest and a.vararg is None:
            return f"{fi.name}() takes {len(pos)} positional arguments but {len(args)} were given"
        if a.vararg is not None:
            env[a.vararg.arg] = ("tp",) + tuple(rest) if not any(x[0] == "star" for x in rest) else self.mk_list(st, rest)
        extra = {}
        names = {p.arg for p in a.args} | {p.arg for p in a.kwonlyargs}
        for k, v in kw.items():
            if k == "**":
                if a.kwarg is None:
                    return "star"
                continue
            if k in names:
                if k in env:
                    return f"{fi.name}() got multiple values for argument '{k}'"
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                return f"{fi.name}() got an unexpected keyword argument '{k}'"
        dfl = fv[3]
        for p, d in zip(pos[len(pos) - len(dfl):], dfl):
            env.setdefault(p.arg, d)
        for k, d in fv[4]:
            env.setdefault(k, d)
        for p in pos + a.kwonlyargs:
            if p.arg not in env:
                return f"{fi.name}() missing argument '{p.arg}'"
        if a.kwarg is not None:
            base = None
            ov = tuple((C(k), v, st.loc, None) for k, v in extra.items())
            if "**" in kw:
                o = st.heap[kw["**"][1]] if kw["**"][0] == "r" else None
                base = o.base if o is not None and o.kind == "dict" else kw["**"]
            env[a.kwarg.arg] = st.alloc(DictO(base, ov))
        return env

    def call_func(self, st, fv, args, kw):
        fi = self.funcs[fv[1]]
        h = self.intercepts.get(fi.qual)
        if h is not None:
            return h(self, st, args, kw, st.loc)
        depth = st.stack.count(fi.fid)
        if depth >= 8 or len(st.stack) > MAXDEPTH:
            st.note("recursion", fi.qual, st.loc)
            return self.raise_(st, "RecursionError", C(fi.qual))
        env = self.bind_args(st, fi, fv, args, kw)
        if env == "star":
            st.note("imprecise", "unpacked arguments", st.loc)
            return [(st, "v", T("unk", st.fresh("call:" + fi.qual)))]
        if isinstance(env, str):
            return self.raise_(st, "TypeError", C(env))
        self.visited[fi.qual] = self.visited.get(fi.qual, 0) + 1
        st.nframe += 1
        f = f"f{st.nframe}"
        env["__parent__"] = fv[2]
        env["__fi__"] = fi.fid
        env["__qual__"] = fi.qual[len(fi.mod) + 1:] + ".<locals>."
        if self.cm_next is not None:
            env["__cm__"], self.cm_next = C(self.cm_next), None
        st.envs[f] = env
        saved = st.stack
        st.stack = saved + (fi.fid,)
        genref = None
        if fi.gen:
            genref = st.alloc(ListO(None, ()), "g")
            env["__gen__"] = genref
        node = fi.node
        if isinstance(node, ast.Lambda):
            outs = [(s, "ret" if k == "v" else k, v) for s, k, v in self.ev(st, node.body, f)]
        else:
            outs = self.exec_block(st, node.body, f)
        res = []
        for s, k, v in outs:
            s.stack = saved
            if not fi.nested and not fi.gen:
                s.envs.pop(f, None)
            if k == "x":
                res.append((s, "x", v))
                continue
            if genref is not None:
                o = s.heap[genref[1]]
                res.append((s, "v", s.alloc(IterO(o.segs))))
            else:
                res.append((s, "v", v if k == "ret" else NONE))
        return res

    def instantiate(self, st, qual, args, kw):
        ci = self.classes[qual]
        if ci.enum:
            if not args:
                return self.raise_(st, "TypeError", C("enum"))
            v = args[0]
            if v[0] == "en" and v[1] == qual:
                return [(st, "v", v)]
            outs, cur = [], [st]
            for m in {mm[2]: mm for mm in ci.members.values()}.values():
                nxt = []
                for s in cur:
                    for s2, b in self.branch_bool(s, self.mk_eq(s, v, m[3])):
                        if b:
                            outs.append((s2, "v", m))
                        else:
                            nxt.append(s2)
                cur = nxt
            return outs + [(s, "x", ("e", ("bi", "ValueError"), v)) for s in cur]
        if qual in self.models.class_hooks:
            return self.models.class_hooks[qual](self, st, qual, args, kw)
        new, _ = self.class_lookup(st, qual, "__new__")
        ref = st.alloc(InstO(qual, {}, None))
        if ci.namedtuple or (ci.dataclass and self.class_lookup(st, qual, "__init__")[0] is None) or (
                self.class_lookup(st, qual, "__init__")[0] is None and any(
                    self.classes[c].dataclass for c in self.mro(qual) if c in self.classes)):
            return self.bind(self.dc_init(st, qual, ref, args, kw), lambda s, _: [(s, "v", ref)])
        init, owner = self.class_lookup(st, qual, "__init__")
        if init is None:
            if self.is_exc_class(qual):
                st.put(ref, InstO(qual, {"args": self.mk_list(st, args) if any(a[0] == "star" for a in args) else ("tp",) + tuple(args)}, None))
                return [(st, "v", ref)]
            ext = [c for c in self.mro(qual) if c.startswith("x:") and c not in ("x:abc.ABC", "x:typing.Protocol", "x:typing.Generic")
                   and not c.startswith("x:typing.Generic")]
            if (args or kw) and not ext:
                return self.raise_(st, "TypeError", C(f"{qual}() takes no arguments"))
            return [(st, "v", ref)]
        if self.is_exc_class(qual):
            st.put(ref, InstO(qual, {"args": self.mk_list(st, args) if any(a[0] == "star" for a in args) else ("tp",) + tuple(args)}, None))
        return self.bind(self.call_func(st, init, [ref] + args, kw) if init[0] == "f" else self.call(st, init, [ref] + args, kw),
                         lambda s, _: [(s, "v", ref)])

    def dc_init(self, st, qual, ref, args, kw):
        ci = self.classes[qual]
        fields = {}
        args = list(args)
        if len(args) > len(ci.fields):
            return self.raise_(st, "TypeError", C("too many arguments"))
        for f, v in zip(ci.fields, args):
            fields[f] = v
        for k, v in kw.items():
            if k not in ci.fields or k in fields:
                return self.raise_(st, "TypeError", C(f"unexpected argument {k}"))
            fields[k] = v
        outs = [(st, "v", fields)]
        for f in ci.fields:
            nxt = []
            for s, k, fl in outs:
                if k != "v" or f in fl:
                    nxt.append((s, k, fl))
                    continue
                d, _ = self.class_lookup(s, qual, f)
                if d is None:
                    nxt += self.raise_(s, "TypeError", C(f"missing argument {f}"))
                elif d[0] == "dcfield":
                    if d[2] is not None:
                        for s2, k2, v2 in self.call(s, d[2], [], {}):
                            nxt.append((s2, k2, {**fl, f: v2} if k2 == "v" else v2))
                    elif d[1] is not None:
                        nxt.append((s, k, {**fl, f: d[1]}))
                    else:
                        nxt += self.raise_(s, "TypeError", C(f"missing argument {f}"))
                else:
                    nxt.append((s, k, {**fl, f: d}))
            outs = nxt
        res = []
        for s, k, fl in outs:
            if k != "v":
                res.append((s, k, fl))
                continue
            s.put(ref, InstO(s.heap[ref[1]].cls, {**s.heap[ref[1]].fields, **fl}, None))
            pi, _ = self.class_lookup(s, qual, "__post_init__")
            if pi is not None:
                res += self.call(s, ("bm", pi, ref), [], {})
            else:
                res.append((s, "v", NONE))
        return res
