"""Source loader: parses every module of /repo/wampproto on every run (nothing is imported or executed)."""

import ast
import hashlib
import os


class Mod:
    __slots__ = ("name", "path", "tree", "is_pkg", "source")


class Sources:
    def __init__(self, root, package):
        self.root, self.package = root, package
        self.mods = {}
        self.digest = hashlib.sha256()
        base = os.path.join(root, package)
        for dp, dn, fn in sorted(os.walk(base)):
            dn[:] = sorted(d for d in dn if d != "__pycache__")
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, root)[:-3].replace(os.sep, ".")
                is_pkg = rel.endswith(".__init__")
                name = rel[: -len(".__init__")] if is_pkg else rel
                with open(path, "rb") as fh:
                    src = fh.read()
                self.add(name, os.path.relpath(path, root), src, is_pkg)

    def add(self, name, path, src, is_pkg):
        m = Mod()
        m.name, m.path, m.is_pkg, m.source = name, path, is_pkg, src
        m.tree = ast.parse(src, filename=path)
        self.digest.update(name.encode() + b"\0" + src + b"\0")
        self.mods[name] = m

    def stats(self):
        nf = nc = 0
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    nf += 1
                elif isinstance(n, ast.ClassDef):
                    nc += 1
        return {"modules": len(self.mods), "functions": nf, "classes": nc}


def assigned_names(fnode):
    """(locals, globals, nonlocals, has_yield, has_nested) of a function node, not entering nested scopes."""
    loc, gl, nl = set(), set(), set()
    flags = {"yield": False, "nested": False}

    def tgt(n):
        if isinstance(n, ast.Name):
            loc.add(n.id)
        elif isinstance(n, (ast.Tuple, ast.List)):
            for e in n.elts:
                tgt(e)
        elif isinstance(n, ast.Starred):
            tgt(n.value)

    def walk(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) and not top:
            loc.add(n.name)
            flags["nested"] = True
            return
        if isinstance(n, ast.Lambda) and not top:
            flags["nested"] = True
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # walrus targets bind in the enclosing function
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    tgt(c.target)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            flags["yield"] = True
        if isinstance(n, ast.Global):
            gl.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nl.update(n.names)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
            tgt(n.target)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                loc.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            loc.add(n.name)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            tgt(n.optional_vars)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            loc.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            loc.add(n.rest)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                tgt(t)
        for c in ast.iter_child_nodes(n):
            walk(c)

    body = fnode.body if isinstance(fnode.body, list) else [fnode.body]
    for b in body:
        walk(b)
    loc -= gl | nl
    return loc, gl, nl, flags["yield"], flags["nested"]
