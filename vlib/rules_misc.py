"""Package-wide effect rules (G*): what the library touches besides its arguments and its own objects."""

import ast
import builtins as pybuiltins
import importlib

from .common import *  # noqa: F403
from .common import ANY, BYTES, C, Ctx, DICT, Incomplete, PKG, REPO, Report, STR, show
from .engine import Engine
from .loader import Sources, assigned_names

# ------------------------------------------------------------------ external names
# Longest matching prefix decides; "ok" has no effect outside the process, "bad" has, anything unlisted is left open.
OK = """
__future__ abc base64 binascii bisect builtins collections contextlib copy dataclasses datetime decimal enum fractions functools
hashlib hmac html inspect ipaddress itertools json keyword math nacl numbers operator queue random re reprlib secrets statistics string struct
textwrap types typing typing_extensions unicodedata urllib.parse uuid weakref zlib cbor2 msgpack
os.urandom os.PathLike os.fspath os.linesep os.sep os.path.join os.path.basename os.path.dirname os.path.split os.path.splitext
sys.maxsize sys.byteorder sys.version_info sys.intern sys.getsizeof sys.getrecursionlimit sys.float_info sys.hash_info sys.maxunicode
sys.exc_info sys.implementation
io.BytesIO io.StringIO pathlib.PurePath pathlib.PurePosixPath
threading.Lock threading.RLock threading.Condition threading.local threading.get_ident threading.current_thread
time.time time.time_ns time.monotonic time.monotonic_ns time.perf_counter time.perf_counter_ns time.gmtime time.strftime time.struct_time
time.mktime time.localtime calendar
traceback.format_exc traceback.format_exception traceback.format_exception_only traceback.format_tb pprint.pformat pprint.PrettyPrinter
pickle.dumps marshal.dumps logging.getLogger logging.NullHandler logging.DEBUG logging.INFO logging.WARNING logging.ERROR
logging.Logger logging.Logger.debug logging.Logger.info logging.Logger.isEnabledFor logging.Logger.addHandler
asyncio.Lock asyncio.Queue asyncio.Event asyncio.Future
""".split()
BAD = """
os sys.stdout sys.stderr sys.stdin sys.__stdout__ sys.__stderr__ sys.argv sys.exit sys.settrace sys.setrecursionlimit sys.path sys.modules
sys.excepthook sys.displayhook io.open io.FileIO io.TextIOWrapper pathlib.Path pathlib.PosixPath
socket ssl select selectors socketserver asyncio.run asyncio.sleep asyncio.create_subprocess_exec asyncio.create_subprocess_shell
asyncio.open_connection asyncio.start_server asyncio.to_thread asyncio.new_event_loop
threading.Thread threading.Timer _thread multiprocessing subprocess concurrent signal
shutil tempfile glob fileinput sqlite3 shelve dbm pickle.load pickle.loads pickle.Unpickler marshal.load marshal.loads code codeop runpy
importlib pkgutil ctypes mmap fcntl resource syslog pty tty termios getpass pwd grp
http urllib.request urllib.error requests httpx aiohttp websockets ftplib smtplib imaplib poplib telnetlib xmlrpc webbrowser
time.sleep traceback.print_exc traceback.print_exception traceback.print_stack traceback.print_tb pprint.pprint pprint.pp warnings.warn
logging.basicConfig logging.FileHandler logging.StreamHandler logging.handlers logging.config
yaml.load yaml.unsafe_load yaml.full_load dill cloudpickle jsonpickle
builtins.print builtins.open builtins.input builtins.eval builtins.exec builtins.compile builtins.__import__ builtins.breakpoint
builtins.exit builtins.quit
""".split()
REFLECT = {"builtins.globals", "builtins.vars", "builtins.locals", "builtins.__dict__", "builtins.__build_class__"}


def classify(name):
    best = None
    for tag, table in (("ok", OK), ("bad", BAD)):
        for p in table:
            if (name == p or name.startswith(p + ".")) and (best is None or len(p) > len(best[1])):
                best = (tag, p)
    if name in REFLECT:
        return "open"
    return best[0] if best else "open"


class Audit(ast.NodeVisitor):
    """Resolves every external name a module refers to (imports, aliases, built-ins), scope by scope."""

    def __init__(self, mod, package_mods):
        self.mod, self.package = mod, package_mods
        self.refs = []  # (dotted, line, function)
        self.scopes = []
        self.func = ["<module>"]
        self.dynamic = []
        self.run()

    def run(self):
        t = self.mod.tree
        fake = ast.FunctionDef(name="m", body=t.body, args=None, decorator_list=[])
        loc, *_ = assigned_names(fake)
        self.scopes.append(({}, set(loc) | {"__name__", "__file__", "__doc__", "__all__"}))
        self.collect(t.body)
        for s in t.body:
            self.visit(s)

    # -- imports and loggers
    def collect(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            self.bind(n)
            for f in ("body", "orelse", "finalbody"):
                self.collect(getattr(n, f, None) or [])
            for h in getattr(n, "handlers", None) or []:
                self.collect(h.body)

    def bind(self, n):
        imp = self.scopes[-1][0]
        if isinstance(n, ast.Import):
            for a in n.names:
                imp[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom):
            base = n.module or ""
            if n.level:
                base = PKG + "." + base
            for a in n.names:
                if a.name == "*":
                    self.refs.append((base + ".*", n.lineno, self.func[-1]))
                else:
                    imp[a.asname or a.name] = base + "." + a.name
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            v = n.value
            d = self.dotted(v.func) if isinstance(v, ast.Call) else self.dotted(v)
            if isinstance(v, ast.Call) and d in ("logging.getLogger", "logging.Logger"):
                imp[n.targets[0].id] = "logging.Logger"
            elif not isinstance(v, ast.Call) and d is not None and isinstance(v, (ast.Name, ast.Attribute)):
                imp[n.targets[0].id] = d

    def dotted(self, n):
        if isinstance(n, ast.Name):
            for imp, loc in reversed(self.scopes):
                if n.id in imp:
                    return imp[n.id]
                if n.id in loc:
                    return None
            return "builtins." + n.id if hasattr(pybuiltins, n.id) or n.id == "__builtins__" else None
        if isinstance(n, ast.Attribute):
            b = self.dotted(n.value)
            if b is None and isinstance(n.value, ast.Call) and self.dotted(n.value.func) == "logging.getLogger":
                b = "logging.Logger"
            return None if b is None else b + "." + n.attr
        return None

    # -- traversal
    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.note(n)

    def visit_Attribute(self, n):
        if not self.note(n):
            self.visit(n.value)

    def note(self, n):
        d = self.dotted(n)
        if d is None:
            return False
        self.refs.append((d, n.lineno, self.func[-1]))
        return True

    def visit_Call(self, n):
        d = self.dotted(n.func)
        if d in ("builtins.getattr", "builtins.setattr") and len(n.args) > 1:
            base = self.dotted(n.args[0])
            if isinstance(n.args[1], ast.Constant) and base is not None:
                self.refs.append((f"{base}.{n.args[1].value}", n.lineno, self.func[-1]))
            elif not isinstance(n.args[1], ast.Constant) and base is not None and base.startswith("builtins."):
                self.dynamic.append((n.lineno, self.func[-1]))
        self.generic_visit(n)

    def visit_If(self, n):
        t = n.test
        if isinstance(t, ast.Compare) and isinstance(t.left, ast.Name) and t.left.id == "__name__":
            return
        self.generic_visit(n)

    def visit_AnnAssign(self, n):
        self.visit(n.target)
        if n.value is not None:
            self.visit(n.value)

    def visit_FunctionDef(self, n):
        for x in n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
            self.visit(x)
        self.inner(n, n.body, n.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        for x in n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
            self.visit(x)
        self.inner(n, [n.body], "<lambda>")

    def inner(self, n, body, name):
        loc, gl, nl, *_ = assigned_names(n)
        a = n.args
        loc = set(loc) | {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        self.scopes.append(({}, loc - gl - nl))
        self.func.append(name)
        if isinstance(n.body, list):
            self.collect(body)
        for s in body:
            self.visit(s)
        self.func.pop()
        self.scopes.pop()

    def visit_ClassDef(self, n):
        for x in n.decorator_list + n.bases + [k.value for k in n.keywords]:
            self.visit(x)
        fake = ast.FunctionDef(name=n.name, body=n.body, args=None, decorator_list=[])
        loc, *_ = assigned_names(fake)
        self.func.append(n.name)
        # a class body is no scope for the functions inside it
        self.scopes.append(({}, set()))
        names = self.scopes[-1]
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.visit(s)
        self.scopes[-1] = (names[0], set(loc))
        self.collect(n.body)
        for s in n.body:
            if not isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.visit(s)
        self.scopes.pop()
        self.func.pop()


def comprehension_targets(tree):
    """Names bound by comprehensions are local to them; renaming them is harmless for the audit."""
    out = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.comprehension):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    out.add(x.id)
    return out


def g01(rep, tier):
    rep.rule("every reference of the package to a name from outside it (module, function, built-in; through any alias) is resolved; "
             "names with an effect on files, network, environment, processes, threads, terminal or code evaluation are violations")
    src = Sources(REPO, PKG)
    rep.engines.append(Plain(src))
    for name in sorted(src.mods):
        m = src.mods[name]
        a = Audit(m, src.mods)
        comp = {"builtins." + x for x in comprehension_targets(m.tree)}
        n = 0
        for d, line, fn in a.refs:
            if d.startswith(PKG + ".") or d == PKG or d in comp:
                continue
            n += 1
            rep.engines[-1].callsites.add((m.path, line, d))
            c = classify(d)
            where = f"{m.path}:{line}"
            if c == "ok":
                rep.ok("the external name has no effect outside the process: " + d, where)
            elif c == "bad":
                rep.fail("no I/O and no evaluation of data as code", where, f"{fn} refers to {d}")
            else:
                rep.open("the external name is known", where, f"{fn} refers to {d}")
        for line, fn in a.dynamic:
            rep.open("reflection on built-ins", f"{m.path}:{line}", fn)
        rep.op(name, n)


class Plain:
    """What the evidence writer reads, for rules that work on the syntax tree alone."""

    def __init__(self, src):
        self.src, self.visited, self.callsites, self.nstates, self.unsupported = src, {}, set(), 0, set()


# ------------------------------------------------------------------ G02
MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "add", "discard", "update", "setdefault", "popitem",
            "difference_update", "intersection_update", "symmetric_difference_update", "appendleft", "popleft", "__setitem__",
            "__delitem__"}
MUTABLE = (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)
MAKERS = {"list", "dict", "set", "bytearray", "defaultdict", "OrderedDict", "deque", "Counter", "count", "cycle"}
QUICK = ["C01", "C03", "C07", "D01", "D06", "D09", "B01", "B05", "A03", "J01", "J02", "S01", "S02", "W02", "W08", "W09", "I01", "X03", "R01"]


def makes_mutable(v):
    if isinstance(v, MUTABLE):
        return True
    if isinstance(v, ast.Call):
        f = v.func
        return (f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else "") in MAKERS
    return False


def g02_syntax(rep, src):
    for name in sorted(src.mods):
        m = src.mods[name]
        top, classes = {}, {}
        for s in m.tree.body:
            if isinstance(s, ast.ClassDef):
                classes[s.name] = s
            tgt = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) and s.value else []
            for t in tgt:
                if isinstance(t, ast.Name):
                    top[t.id] = s.value
        imported = set()
        for s in ast.walk(m.tree):
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                imported |= {(a.asname or a.name).split(".")[0] for a in s.names}
        for fn in ast.walk(m.tree):
            if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            loc, gl, nl, *_ = assigned_names(fn)
            a = fn.args
            params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]]
            local = (set(loc) | set(params)) - gl
            where = f"{m.path}:{fn.lineno}"
            if fn.name in ("__init_subclass__", "__set_name__"):
                continue
            cls = params[0] if params and any(isinstance(d, ast.Name) and d.id == "classmethod" for d in fn.decorator_list) else None
            defaults = dict(zip(params[len(a.posonlyargs + a.args) - len(a.defaults):], a.defaults)) if a.defaults else {}
            defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
            rebound = {t.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) for t in [n]}

            def shared(n):
                """Does this expression name an object of the module, of a class or of a default argument?"""
                if isinstance(n, ast.Name):
                    if n.id in gl or n.id not in local and n.id in top:
                        return "module variable " + n.id
                    if n.id in defaults and n.id not in rebound and makes_mutable(defaults[n.id]):
                        return "default argument " + n.id
                    return None
                if isinstance(n, ast.Attribute):
                    k = holder(n.value)
                    return None if k is None else f"{k}.{n.attr}"
                if isinstance(n, ast.Subscript):
                    return shared(n.value)
                return None

            def holder(n):
                if isinstance(n, ast.Name):
                    if n.id == cls:
                        return "class"
                    if n.id not in local and (n.id in classes or n.id in imported):
                        return n.id
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "type" and len(n.args) == 1:
                    return "class"
                if isinstance(n, ast.Attribute):
                    if n.attr == "__class__":
                        return "class"
                    if isinstance(n.value, ast.Name) and n.value.id in imported and n.value.id not in local:
                        return f"{n.value.id}.{n.attr}"
                return None

            bad = []
            for n in ast.walk(fn):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id in gl:
                    bad.append((n.lineno, "module variable " + n.id))
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and holder(n.value):
                    bad.append((n.lineno, f"{holder(n.value)}.{n.attr}"))
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and shared(n.value):
                    bad.append((n.lineno, shared(n.value)))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
                    x = shared(n.func.value)
                    if x and (not isinstance(n.func.value, ast.Name) or makes_mutable(top.get(n.func.value.id)) or x[:7] == "default"):
                        if not isinstance(n.func.value, ast.Attribute) or known_container(m, src, n.func.value):
                            bad.append((n.lineno, x))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "next" and n.args:
                    x = shared(n.args[0])
                    if x and not isinstance(n.args[0], ast.Attribute):
                        bad.append((n.lineno, x))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and n.args and holder(n.args[0]):
                    bad.append((n.lineno, "attribute of " + holder(n.args[0])))
            for d in fn.decorator_list:
                d = d.func if isinstance(d, ast.Call) else d
                dn = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else ""
                if dn in ("lru_cache", "cache"):
                    for r in ast.walk(fn):
                        if isinstance(r, ast.Return) and r.value is not None and (makes_mutable(r.value) or isinstance(
                                r.value, ast.Call) and isinstance(r.value.func, ast.Name) and r.value.func.id in classes):
                            bad.append((r.lineno, "cached result"))
            if bad:
                for line, what in bad:
                    rep.fail("no function writes to a module, class or default-argument object", f"{m.path}:{line}",
                             f"{fn.name} modifies {what}")
            else:
                rep.ok("no function writes to a module, class or default-argument object", where)


def known_container(m, src, n):
    """Is the attribute (Class.attr, module.attr) a mutable container?"""
    for mod in src.mods.values():
        for s in ast.walk(mod.tree):
            tgt = s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) and s.value else []
            if any(isinstance(t, ast.Name) and t.id == n.attr for t in tgt) and makes_mutable(s.value):
                return True
    return False


def describe(e, addr):
    if ":" in addr:
        return {"mod": "module ", "cls": "class "}.get(addr.split(":")[0], "") + addr.split(":", 1)[1]
    for a, o in e.base.heap.items():
        for n, v in (getattr(o, "vars", None) or {}).items():
            if v == ("r", addr):
                return f"{a.split(':', 1)[-1]}.{n}"
    return "an object created at import time"


def g02(rep, tier):
    rep.rule("no path of any operation analysed for the other properties, from arbitrary pre-states, writes to an object that exists "
             "since import time (module, class, default argument); no function of the package does so syntactically")
    src = Sources(REPO, PKG)
    g02_syntax(rep, src)
    rep.op("functions scanned", src.stats()["functions"])
    table = {}
    for mod in ("wire", "ser", "session", "dealer", "broker", "auth", "join", "prim"):
        table.update(importlib.import_module("vlib.rules_" + mod).RULES)
    for pid in sorted(table) if tier == "thorough" else QUICK:
        sub = Report(pid)
        try:
            table[pid](sub, "quick")
        except Exception as e:  # noqa: BLE001 -- what that rule could not analyse stays open here
            rep.open("operations analysed", pid, f"{type(e).__name__}: {e}")
        rep.op(f"operations of {pid}", sub.paths)
        for e in sub.engines:
            rep.engines.append(e)
            for addr, loc in sorted(set(e.sharedwrites), key=repr):
                rep.fail("operations write only to objects of their instance", f"{loc[0]}:{loc[1]}" if loc else "-",
                         f"writes to {describe(e, addr)}")
            if not e.sharedwrites:
                rep.ok("operations write only to objects of their instance", pid)
    arguments(rep)


def arguments(rep):
    """Authenticators do not write to the dictionary the application gave them."""
    ctx = Ctx(rep)
    for name, args in (("AnonymousAuthenticator", 1), ("TicketAuthenticator", 2), ("WAMPCRAAuthenticator", 2), ("CryptoSignAuthenticator", 2)):
        st = ctx.eng.start()
        ex = ctx.sym(f"{name}.extra", DICT)
        outs = ctx.run(st, ctx.need_attr(st, "auth." + name), *[ctx.sym(f"{name}.{i}", STR) for i in range(args)], ex)
        rep.op(f"constructing {name}", len(outs))
        for s, k, a in outs:
            r = ctx.eng.force(s, ex)
            rep.need(r[0] != "r" or ctx.eng.norm(s, r) == ex, f"{name} leaves the given auth_extra as it is", s, show(ctx.deep(s, r))[:160])


RULES = {"G01": g01, "G02": g02}
