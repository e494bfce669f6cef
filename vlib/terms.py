"""Abstract values of the analysis.

Values are hashable tuples, tagged by their first element:
  ('c', typename, v)       a Python constant
  ('s', name)              a symbolic input (a parameter, a wire element, an initial container ...)
  ('t', op, *args)         a value derived from other values (value numbering: equal term = equal value)
  ('r', addr)              a reference to an abstract heap object
  ('tp', *items)           a tuple
  ('f', fid, frame)        a function of the analysed package (or a lambda)
  ('bm', fval, selfval)    a bound method
  ('k', qual)              a class of the analysed package
  ('en', qual, name, val)  an enum member
  ('m', modname)           a module of the analysed package
  ('bi', name)             a builtin (function or class, exceptions included)
  ('x', dotted)            anything imported from outside the package
  ('e', cls, *args)        an instance of a builtin/external exception class
"""


def C(v):
    return ("c", type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)
DEL = ("del",)


def S(name):
    return ("s", name)


def T(op, *args):
    return ("t", op) + args


def is_c(v):
    return v[0] == "c"


def is_num(v):
    return v[0] == "c" and v[1] in ("int", "bool", "float")


def is_int(v):
    return v[0] == "c" and v[1] in ("int", "bool")


def cv(v):
    return v[2]


def R(addr):
    return ("r", addr)


def subterms(t):
    """All sub-terms of t, t included."""
    yield t
    if isinstance(t, tuple):
        for a in t[1:]:
            if isinstance(a, tuple):
                yield from subterms(a)


def contains(t, x):
    return any(s == x for s in subterms(t))


def subst(t, m):
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        return tuple(subst(a, m) if isinstance(a, tuple) else a for a in t)
    return t


def show(t, depth=0):
    if not isinstance(t, tuple) or not t:
        return repr(t)
    k = t[0]
    if k == "c":
        return repr(t[2])
    if k == "s":
        return t[1]
    if k == "r":
        return f"&{t[1]}"
    if k == "tp":
        return "(" + ", ".join(show(x) for x in t[1:]) + ")"
    if k == "f":
        return f"<fn {t[1]}>"
    if k == "k":
        return f"<class {t[1]}>"
    if k == "bm":
        return f"<method {show(t[1])}>"
    if k == "en":
        return f"{t[1]}.{t[2]}"
    if k in ("m", "bi", "x"):
        return str(t[1])
    if k == "e":
        return f"{show(t[1])}(" + ", ".join(show(x) for x in t[2:]) + ")"
    if k == "t":
        op = t[1]
        a = [show(x) for x in t[2:]]
        if op == "item" and len(a) == 2:
            return f"{a[0]}[{a[1]}]"
        if op == "attr" and len(a) == 2:
            return f"{a[0]}.{t[3][2] if t[3][0] == 'c' else a[1]}"
        if op == "in" and len(a) == 2:
            return f"({a[0]} in {a[1]})"
        if op == "eq":
            return f"({a[0]} == {a[1]})"
        if op == "lt":
            return f"({a[0]} < {a[1]})"
        if op == "add":
            return f"({a[0]} + {a[1]})"
        return f"{op}(" + ", ".join(a) + ")"
    return "<" + " ".join(show(x) if isinstance(x, tuple) else str(x) for x in t) + ">"
