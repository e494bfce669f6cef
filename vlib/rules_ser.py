"""Serializer rules (S*): which codec is applied to exactly what, and what shape of payload is accepted."""

from .common import *  # noqa: F403
from .common import (ANY, BYTES, C, Ctx, DICT, FALSE, INT, Incomplete, LIST, NONE, NONE_T, S, STR, T, TRUE, WIRE_TS, cv, holds,
                     is_c, is_imprecise, loc_of, path_of, refuted, restrict, same, show, ts)
from .terms import subterms
from .rules_wire import ALL, DETAILS, SPEC, build, symbols, variants

CODEC = {"JSON": ("json", 1), "MsgPack": ("msgpack", 2), "CBOR": ("cbor", 3)}
PAY = {1: "json", 2: "msgpack", 3: "cbor"}
# options of the codec functions that keep encode and decode inverse to each other
HARMLESS = {
    "json_dumps": {"separators", "indent", "ensure_ascii", "sort_keys", "check_circular"},
    "json_loads": set(),
    "cbor_dumps": {"canonical", "value_sharing", "datetime_as_timestamp", "timezone", "string_referencing"},
    "cbor_loads": set(),
    "msgpack_dumps": {"autoreset", "strict_types"},
    "msgpack_loads": {"max_str_len", "max_bin_len", "max_array_len", "max_map_len", "max_ext_len", "max_buffer_size"},
}
# options with these values are the defaults
DEFAULT = {("msgpack_dumps", "use_bin_type"): TRUE, ("msgpack_dumps", "use_single_float"): FALSE, ("msgpack_loads", "raw"): FALSE,
           ("msgpack_loads", "use_list"): TRUE, ("msgpack_loads", "strict_map_key"): TRUE, ("json_dumps", "skipkeys"): FALSE,
           ("json_dumps", "allow_nan"): TRUE}


def UTF8(p):
    return T("boolcall", C("decodable"), p, C("utf-8"))


def options(t):
    """(operands, options that may change the value) of a codec term."""
    pos = [x for x in t[2:] if not (x[0] == "t" and x[1] == "kw")]
    bad = []
    for x in t[2:]:
        if x[0] == "t" and x[1] == "kw":
            n = cv(x[2])
            if n in HARMLESS.get(t[1], ()) or DEFAULT.get((t[1], n)) == x[3] or x[3] == NONE:
                continue
            bad.append(f"{n}={show(x[3])[:60]}")
    return pos, bad


def encoded(ctx, s, v, op):
    """(list term, complaint) of a term that should be codec.dumps(list)."""
    if v[0] == "t" and v[1] == op:
        pos, bad = options(v)
        if bad:
            return None, "encoded with options that do not preserve every value: " + ", ".join(bad)
        if len(pos) != 1:
            return None, "encoded with positional options"
        return pos[0], None
    return None, f"yields {show(v)[:160]}"


def s01(rep, tier):
    rep.rule("serialize(m) is codec.dumps of the list form of m; deserialize(d) is the dispatcher applied to codec.loads of d")
    ctx = Ctx(rep)
    for cls, (cname, _) in CODEC.items():
        st = ctx.eng.start()
        st, ser = ctx.new(st, f"serializers.{cls}Serializer")
        for name in ALL:
            s0 = st.copy()
            kw = symbols(ctx, s0, name)
            n = 0
            for lab, kws in variants(ctx, name, kw, name in SPEC and SPEC[name][2]):
                for s1, k, m in build(ctx, s0, name, kws):
                    if k == "x":
                        continue
                    for s2, k2, form in ctx.method(s1, m, "marshal"):
                        if k2 == "x":
                            continue
                        # the serializer sees the message as it was before; encoding is pure (W08)
                        s3 = s2.copy()
                        s3.heap = dict(s2.heap)
                        want = ctx.deep(s2, form)
                        for s4, k4, got in ctx.method(s3, ser, "serialize", m):
                            n += 1
                            what = f"{cls}: encodes exactly the list form ({name})"
                            if k4 == "x":
                                rep.need(False, what, s4, f"raises {ctx.exc(s4, got)[:120]}")
                                continue
                            inner, why = encoded(ctx, s4, got, cname + "_dumps")
                            rep.need(why is None and same(ctx, s4, inner, want), what, s4,
                                     why or f"encodes {show(inner)[:200]} instead of {show(want)[:200]}")
            rep.op(f"{cls}.serialize({name})", n)
        decode(ctx, rep, cls, cname, st, ser)
        for s, k, v in ctx.method(st, ser, "static"):
            rep.need(k == "v" and holds(s, ctx.eng.mk_not(v)), f"{cls}: reports that it needs no schema", s,
                     show(v)[:80] if k == "v" else "raises " + ctx.exc(s, v)[:80])


def decode(ctx, rep, cls, cname, st, ser):
    data = ctx.sym("data", ts("str", "bytes") if cname == "json" else BYTES)
    op = cname + "_loads"
    loaded = T(op, data)
    for name in ALL:
        k = ctx.need_attr(st, f"messages.{name}")
        p, owner = ctx.eng.class_lookup(st, k[1], "parse")
        if p is None:
            continue
        while p[0] != "f":
            p = p[1]
        ctx.eng.intercepts[ctx.eng.funcs[p[1]].qual] = stop(name)
    outs = ctx.method(st, ser, "deserialize", data)
    ctx.eng.intercepts.clear()
    rep.op(f"{cls}.deserialize", len(outs))
    reached = set()
    for s, k, v in outs:
        if k == "v":
            what = f"{cls}: decodes with its own codec, unchanged"
            if not (v[0] == "t" and v[1] == "parsed"):
                rep.need(False, what, s, f"yields {show(v)[:160]}")
                continue
            arg = v[3]
            if arg[0] == "t" and arg[1] == op:
                pos, bad = options(arg)
                good = not bad and len(pos) == 1 and plain(pos[0]) == data
                rep.need(good, what, s, f"decodes {show(arg)[:200]}")
            else:
                rep.need(same(ctx, s, arg, loaded), what, s, f"decodes {show(arg)[:200]}")
            reached.add(cv(v[2]))
        else:
            well = s.copy()
            # a path on which the codec succeeded with a list that starts with a message code must not raise
            okk = any(a[0] == "t" and a[1] == "boolcall" and a[2] == C(op + "_ok") and b for a, b in s.facts.items())
            if not okk:
                rep.need(ctx.is_exc(s, v, "ValueError", "TypeError", "Exception"), f"{cls}: undecodable data raises", s)
                continue
            it0 = T("item", loaded, C(0))
            for name in ALL:
                code = SPEC[name][0] if name in SPEC else DETAILS[name][0]
                s2 = well.copy()
                if (restrict(s2, loaded, frozenset({("list", "WIRE")})) and restrict(s2, it0, INT)
                        and s2.assume(ctx.eng.mk_eq(s2, it0, C(code)), True)
                        and s2.assume(T("lt", C(0), T("len", loaded)), True)):
                    rep.need(False, f"{cls}: decodable data with a message code reaches its decoder", s,
                             f"code {code} raises {ctx.exc(s, v)[:100]}; path {path_of(s)}")
            rep.ok(f"{cls}: rejected data carries no message code", loc_of(s))
    for name in ALL:
        rep.need(name in reached, f"{cls}: {name} can be received", "-", "no path decodes it")


def plain(t):
    return t[2] if t[0] == "t" and t[1] in ("decode", "encode") and len(t) == 3 else t


def stop(name):
    def h(eng, s, args, kw, loc):
        return [(s, "v", T("parsed", C(name), eng.deep(s, args[-1])))]

    return h


# ------------------------------------------------------------------ payloads
def form(ctx, st, a, k):
    """The list a payload encodes."""
    if a is None and k is None:
        return T("list", NONE)
    return None


def s02(rep, tier):
    rep.rule("serialize_payload and deserialize_payload use the codec of the id on the specified list, pass id 0 through, and raise "
             "ValueError for every other id")
    ctx = Ctx(rep)
    st = ctx.eng.start()
    enc, dec = ctx.need_attr(st, "serializers.payload.serialize_payload"), ctx.need_attr(st, "serializers.payload.deserialize_payload")
    for n, i in (("NONE", 0), ("JSON", 1), ("MSGPACK", 2), ("CBOR", 3)):
        v = ctx.attr(st, f"serializers.{n}_SERIALIZER_ID")
        rep.need(v == C(i), f"the {n} serializer id is {i}", "-", show(v) if v else "missing")
    A, K = ctx.sym("args", frozenset({("list", "WIRE")})), ctx.sym("kwargs", DICT)
    combos = [(NONE, NONE), (A, NONE), (NONE, K), (A, K)]
    for i, codec in PAY.items():
        for a, k in combos:
            outs = ctx.run(st, enc, C(i), a, k)
            rep.op(f"serialize_payload({i}, {'args' if a != NONE else 'None'}, {'kwargs' if k != NONE else 'None'})", len(outs))
            for s, kk, v in outs:
                what = f"id {i} encodes the payload with {codec}"
                if kk == "x":
                    rep.need(False, what, s, f"raises {ctx.exc(s, v)[:100]}")
                    continue
                w = v[2] if codec == "json" and v[0] == "t" and v[1] == "encode" and len(v) == 3 else v
                inner, why = encoded(ctx, s, w, codec + "_dumps")
                rep.need(why is None, what, s, why or "")
                if codec == "json":
                    rep.need(w != v or "bytes" in s.heads(v), "a JSON payload is bytes", s, show(v)[:100])
                if why is None:
                    good, txt = shape(ctx, s, inner, a, k)
                    rep.need(good, f"id {i}: the payload is [args, kwargs]", s, txt)
        p = ctx.sym("payload", BYTES)
        s0 = st.copy()
        s0.assume(T("lt", C(0), T("len", p)), True)
        if codec == "json":
            s0.assume(UTF8(p), True)
        outs = ctx.run(s0, dec, C(i), p)
        rep.op(f"deserialize_payload({i})", len(outs))
        for s, kk, v in outs:
            used = {a[2] for a, b in s.facts.items() if a[0] == "t" and a[1] == "boolcall" and str(cv(a[2])).endswith("_loads_ok")}
            rep.need(used == {C(codec + "_loads_ok")}, f"id {i} decodes the payload with {codec}", s, f"uses {[cv(u) for u in used]}")
            for a, b in s.facts.items():
                if a[0] == "t" and a[1] == "boolcall" and a[2] == C(codec + "_loads_ok"):
                    pos, bad = options(("t", codec + "_loads") + a[3:])
                    src = pos[0] if len(pos) == 1 else NONE
                    if codec == "json" and src[0] == "t" and src[1] == "decode":
                        src = src[2]
                    rep.need(src == p and not bad, f"id {i} decodes exactly the payload, as it was encoded", s,
                             f"decodes {', '.join(show(x)[:60] for x in pos)} {'with ' + ', '.join(bad) if bad else ''}")
            seen = {y for t in [ctx.deep(s, v) if v[0] != "e" else NONE] + [a for a in s.facts] for y in subterms(t)
                    if isinstance(y, tuple) and y[:2] == ("t", codec + "_loads")}
            for y in seen:
                bad = options(y)[1]
                rep.need(not bad, f"id {i} decodes exactly the payload, as it was encoded", s, "decodes with " + ", ".join(bad))
    zero(ctx, rep, st, enc, dec, A, K)
    u = ctx.sym("id", ts("int", "str", "none"))
    for what, f, args in (("serialize_payload", enc, (A, K)), ("deserialize_payload", dec, (ctx.sym("payload", BYTES),))):
        s0 = st.copy()
        for c in range(4):
            s0.assume(ctx.eng.mk_eq(s0, u, C(c)), False)
        outs = ctx.run(s0, f, u, *args)
        rep.op(f"{what}(other id)", len(outs))
        for s, kk, v in outs:
            rep.need(kk == "x" and ctx.is_exc(s, v, "ValueError"), f"{what} rejects an unknown id with ValueError", s,
                     f"{'returns ' + show(v)[:80] if kk == 'v' else ctx.exc(s, v)[:80]}; path {path_of(s)}")


def shape(ctx, s, got, a, k):
    """Is the encoded list one from which decode gives args and kwargs back?"""
    empty = T("list", NONE)
    if a == NONE and k == NONE:
        wants = [[]]
    elif k == NONE:
        wants = [[a]]
    elif a == NONE:
        wants = [[empty, k]]
    else:
        wants = [[a, k]]
    for w in wants:
        t = ctx.eng.deep(s, T("list", NONE, *[T("e", x) for x in w])) if False else None
        if elems(got) is not None and len(elems(got)) == len(w) and all(same(ctx, s, x, y) for x, y in zip(elems(got), w)):
            return True, ""
    return False, f"encodes {show(got)[:160]} for args={show(a)}, kwargs={show(k)}"


def elems(t):
    """Elements of a literal list term."""
    if t[0] == "t" and t[1] == "list" and t[2] == NONE:
        out = []
        for x in t[3:]:
            if x[0] == "t" and x[1] == "e":
                out.append(x[2])
            elif x[0] == "t" and x[1] in ("q",):
                return None
            else:
                out.append(x)
        return out
    return None


def zero(ctx, rep, st, enc, dec, A, K):
    p = ctx.sym("payload", BYTES)
    for s, k, v in ctx.run(st, dec, C(0), p):
        ok = k == "v"
        if ok:
            a, b = parts(ctx, s, v)
            ok = a is not None and elems(ctx.deep(s, a)) == [p] and (b == NONE or same(ctx, s, b, T("dict", NONE)))
        rep.need(ok, "id 0 decodes to the payload itself", s, show(ctx.deep(s, v))[:160] if k == "v" else ctx.exc(s, v)[:100])
    a0 = T("item", A, C(0))
    for kname, kv in (("None", NONE), ("kwargs", K)):
        outs = ctx.run(st, enc, C(0), A, kv)
        rep.op(f"serialize_payload(0, args, {kname})", len(outs))
        for s, k, v in outs:
            if k == "v":
                one = s.interval(T("len", A)) == (1, 1)
                none = kv == NONE or s.interval(T("len", K))[1] == 0
                rep.need(one and none and same(ctx, s, v, a0) and s.heads(a0) <= {"bytes", "bytearray"},
                         "id 0 encodes exactly one byte string, unchanged", s, f"returns {show(v)[:100]}; path {path_of(s)}")
            else:
                rep.need(ctx.is_exc(s, v, "ValueError", "TypeError"), "id 0 refuses other arguments", s, ctx.exc(s, v)[:100])
                s2 = s.copy()
                if (s2.assume(ctx.eng.mk_eq(s2, T("len", A), C(1)), True)
                        and (kv == NONE or s2.assume(T("lt", C(0), T("len", K)), False)) and restrict(s2, a0, BYTES)):
                    rep.need(False, "id 0 accepts one byte string", s, f"raises {ctx.exc(s, v)[:80]}; path {path_of(s)}")
    for s, k, v in ctx.run(st, enc, C(0), NONE, NONE):
        rep.need(k == "v" and v == NONE, "id 0 without arguments is no payload", s, show(v)[:80])


def parts(ctx, s, v):
    if v[0] == "tp" and len(v) == 3:
        return v[1], v[2]
    return None, None


def s03(rep, tier):
    rep.rule("decoding returns the two elements of a well-formed payload unchanged, rejects every other shape, and rejects no "
             "well-formed one")
    ctx = Ctx(rep)
    st = ctx.eng.start()
    enc, dec = ctx.need_attr(st, "serializers.payload.serialize_payload"), ctx.need_attr(st, "serializers.payload.deserialize_payload")
    A, K = ctx.sym("args", frozenset({("list", "WIRE")})), ctx.sym("kwargs", DICT)
    for i, codec in PAY.items():
        for a, k in [(NONE, NONE), (A, NONE), (NONE, K), (A, K)]:
            for s, kk, v in ctx.run(st, enc, C(i), a, k):
                what = f"{codec}: the encoded payload has its arguments in place"
                if kk == "x":
                    rep.need(False, what, s, f"raises {ctx.exc(s, v)[:100]}")
                    continue
                w = v[2] if v[0] == "t" and v[1] == "encode" and len(v) == 3 else v
                inner, why = encoded(ctx, s, w, codec + "_dumps")
                good, txt = shape(ctx, s, inner, a, k) if why is None else (False, why)
                rep.need(good, what, s, txt)
        p = ctx.sym("payload", BYTES)
        L = T(codec + "_loads", p)
        outs = ctx.run(st, dec, C(i), p)
        rep.op(f"deserialize_payload({codec})", len(outs))
        for s, kk, v in outs:
            shape_ok(ctx, rep, codec, s, kk, v, p, L)


def shape_ok(ctx, rep, codec, s, kk, v, p, L):
    lo, hi = s.interval(T("len", p))
    e0, e1 = T("item", L, C(0)), T("item", L, C(1))
    okatom = T("boolcall", C(codec + "_loads_ok"), p)
    if kk == "v":
        a, b = parts(ctx, s, v)
        if a is None:
            rep.need(False, f"{codec}: decoding yields a pair", s, show(v)[:100])
            return
        if hi == 0:
            rep.need((a, b) == (NONE, NONE), f"{codec}: an empty payload has no arguments", s, show(v)[:100])
            return
        rep.need(s.heads(L) <= {"list"}, f"{codec}: only lists are payloads", s, f"accepts {sorted(s.heads(L))}; path {path_of(s)}")
        n = s.interval(T("len", L))
        rep.need(n[1] <= 2, f"{codec}: a payload has at most two elements", s, f"accepts up to {n[1]} elements; path {path_of(s)}")
        for c in range(0, 3):
            s2 = s.copy()
            if not s2.assume(ctx.eng.mk_eq(s2, T("len", L), C(c)), True):
                continue
            what = f"{codec}: a payload of {c} elements"
            if c == 0:
                rep.need((a, b) == (NONE, NONE), what + " has no arguments", s2, show(v)[:100])
                continue
            rep.need(same(ctx, s2, a, e0) and s2.heads(e0) <= {"list"}, what + ": the first is args, a list", s2,
                     f"{show(a)[:80]} of type {sorted(s2.heads(e0))}; path {path_of(s)}")
            if c == 1:
                rep.need(b == NONE or same(ctx, s2, b, T("dict", NONE)), what + " has no kwargs", s2, show(b)[:80])
            else:
                rep.need(same(ctx, s2, b, e1) and s2.heads(e1) <= {"dict"}, what + ": the second is kwargs, a dictionary", s2,
                         f"{show(b)[:80]} of type {sorted(s2.heads(e1))}; path {path_of(s)}")
        return
    rep.need(ctx.is_exc(s, v, "ValueError", "TypeError"), f"{codec}: a malformed payload raises ValueError or TypeError", s,
             f"raises {ctx.exc(s, v)[:100]}; path {path_of(s)}")
    s2 = s.copy()
    if codec == "json":
        # JSON is exchanged as UTF-8
        if not s2.assume(UTF8(p), True):
            rep.ok(f"{codec}: rejects only what the codec rejects", loc_of(s))
            return
    if not s2.assume(okatom, True) or not s2.assume(T("lt", C(0), T("len", p)), True):
        rep.ok(f"{codec}: rejects only what the codec rejects", loc_of(s))
        return
    for c in range(0, 3):
        s3 = s2.copy()
        good = (restrict(s3, L, frozenset({("list", "WIRE")})) and s3.assume(ctx.eng.mk_eq(s3, T("len", L), C(c)), True)
                and (c < 1 or restrict(s3, e0, frozenset({("list", "WIRE")})))
                and (c < 2 or restrict(s3, e1, frozenset({("dict", "WIREK", "WIRE")}))))
        rep.need(not good, f"{codec}: a well-formed payload is accepted", s,
                 f"a payload of {c} elements raises {ctx.exc(s, v)[:80]}; path {path_of(s)}")


RULES = {"S01": s01, "S02": s02, "S03": s03}
