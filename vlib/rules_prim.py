"""Authentication primitives (X*), id generation (I01) and the rawsocket framing (R*)."""

from .common import *  # noqa: F403
from .common import (BYTES, C, Ctx, DEL, DICT, INT, Incomplete, LIST, MAX_ID, NONE, S, STR, T, contains, cv, holds, is_c, path_of, refuted,
                     restrict, same, show, ts)
from .rules_auth import anymsgs, kind_of, strip


# ------------------------------------------------------------------ X: signatures
def nf(t):
    """Text and its UTF-8 (or ASCII) bytes are the same data."""
    if not isinstance(t, tuple):
        return t
    t = tuple(nf(x) if isinstance(x, tuple) else x for x in t)
    if t[0] == "t" and t[1] in ("encode", "decode") and len(t) == 3:
        return t[2]
    return t


def hmac_term(key, msg):
    return T("hmac", key, msg, C("sha256"))


def decisions(ctx, outs):
    """[(state, 'x', exception) | (state, True/False, value)]"""
    res = []
    for s, k, v in outs:
        if k == "x":
            res.append((s, "x", v))
        else:
            res += [(s2, b, v) for s2, b in ctx.eng.truth(s, v)]
    return res


def denied(s, sig, cond):
    """Does the path refute that sig decodes, or one of the given conditions?"""
    for a, val in s.facts.items():
        if val is False and a[0] == "t" and a[1] == "boolcall" and a[2][2] in ("isascii", "ishex", "isb64", "utf8") and contains(a, sig):
            return True
        if val is False and cond(a):
            return True
    return False


def pair(a, ops):
    return a[2:4] if a[0] == "t" and a[1] in ops and len(a) >= 4 else None


def x01(rep, tier):
    rep.rule("sign_wampcra_challenge is b64(HMAC-SHA256(key, challenge)); verify is true exactly under a constant-time comparison of the "
             "decoded signature with that whole digest")
    ctx = Ctx(rep)
    st = ctx.eng.start()
    ch, key, sig = ctx.sym("challenge", STR), ctx.sym("key", BYTES), ctx.sym("signature", STR)
    mac = hmac_term(key, ch)
    outs = ctx.run(st, ctx.need_attr(st, "auth.sign_wampcra_challenge"), ch, key)
    rep.op("sign_wampcra_challenge", len(outs))
    for s, k, v in outs:
        rep.need(k == "v" and nf(ctx.deep(s, v)) == T("b64enc", mac) and s.heads(v) == {"str"},
                 "the signature is the base64 text of HMAC-SHA256(key, challenge)", s,
                 show(ctx.deep(s, v))[:200] if k == "v" else "raises " + ctx.exc(s, v)[:80])
    outs = decisions(ctx, ctx.run(st, ctx.need_attr(st, "auth.verify_wampcra_signature"), sig, ch, key))
    rep.op("verify_wampcra_signature", len(outs))
    want = {T("b64dec", sig), mac}

    def whole(a, ops=("cteq",)):
        p = pair(a, ops)
        return p is not None and {nf(x) for x in p} == want

    seen = set()
    for s, b, v in outs:
        seen.add(b)
        rep.need(b != "x", "verification raises nothing for any text", s, f"raises {ctx.exc(s, v)[:100]}; path {path_of(s)}" if b == "x" else "")
        if b is True:
            rep.need(any(val and whole(a) for a, val in s.facts.items()),
                     "a signature verifies only by a constant-time comparison with the whole HMAC", s, f"path {path_of(s)}")
        if b is False:
            rep.need(denied(s, sig, whole), "a signature is refused only if it is malformed or differs from the HMAC", s,
                     f"path {path_of(s)}")
    rep.need(True in seen, "the right signature verifies", "-", f"outcomes {seen}")


def x02(rep, tier):
    rep.rule("verify_cryptosign_signature is true exactly if the Ed25519 library verified the signature under the key and the signed "
             "message is the challenge; signing yields signature followed by challenge")
    ctx = Ctx(rep)
    st = ctx.eng.start()
    ch, pk, sig = ctx.sym("challenge", STR), ctx.sym("public_key", BYTES), ctx.sym("signature", STR)
    verify = ctx.need_attr(st, "auth.verify_cryptosign_signature")

    whole = T("hexdec", sig)
    rest = T("slice", whole, C(64), NONE)

    def good(a):
        if a[0] != "t" or a[1] != "boolcall" or a[2] != C("sigok") or a[3] != T("vkey", pk):
            return False
        m, sg = nf(a[4]), nf(a[5])
        return m == whole and sg == NONE or m == rest and sg == T("slice", whole, NONE, C(64))

    def detached(a):
        return (a[0] == "t" and a[1] == "boolcall" and a[2] == C("sigok") and a[3] == T("vkey", pk) and a[5] != NONE
                and nf(a[4]) == T("hexdec", ch) and contains(a[5], sig))

    def signs_challenge(a):
        p = pair(a, ("eq", "cteq"))
        return p is not None and ({nf(x) for x in p} in ({T("signedmsg", whole), T("hexdec", ch)},
                                                                             {rest, T("hexdec", ch)}))

    def cond(a):
        return a[0] == "t" and a[1] == "boolcall" and a[2] == C("sigok") or signs_challenge(a)

    for label, args in (("without challenge", ()), ("with challenge", (ch,))):
        outs = decisions(ctx, ctx.run(st, verify, sig, pk, *args))
        rep.op(f"verify_cryptosign_signature {label}", len(outs))
        seen = set()
        for s, b, v in outs:
            seen.add(b)
            if b == "x":
                bad = any(val is False and a[0] == "t" and a[1] == "boolcall" and (
                    a[2] == C("len32") and contains(a, pk) or a[2][2] in ("ishex", "isascii") and contains(a, ch))
                    for a, val in s.facts.items())
                rep.need(bad, f"verification raises only for a malformed key or challenge ({label})", s,
                         f"raises {ctx.exc(s, v)[:100]}; path {path_of(s)}")
            elif b:
                ok = any(val and good(a) for a, val in s.facts.items())
                if args:
                    ok = ok and any(val and signs_challenge(a) for a, val in s.facts.items()) or any(
                        val and detached(a) for a, val in s.facts.items())
                rep.need(ok, f"a signature verifies only if the library verified it {label}", s, f"path {path_of(s)}")
            else:
                rep.need(denied(s, sig, cond), f"a signature is refused only if it is malformed or does not verify ({label})", s,
                         f"path {path_of(s)}")
        rep.need(True in seen, f"a right signature verifies ({label})", "-", f"outcomes {seen}")
    seed = ctx.sym("seed", BYTES)
    for s, k, key in ctx.eng.call(st.copy(), ("x", "nacl.signing.SigningKey"), [seed], {}):
        if k != "v":
            continue
        outs = ctx.run(s, ctx.need_attr(s, "auth.sign_cryptosign_challenge"), ch, key)
        rep.op("sign_cryptosign_challenge", len(outs))
        want = T("concat", T("hexenc", T("sig", key, T("hexdec", ch))), ch)
        n = 0
        for s2, k2, v in outs:
            if k2 == "x":
                rep.need(any(val is False and a[0] == "t" and a[1] == "boolcall" and contains(a, ch) for a, val in s2.facts.items()),
                         "signing raises only for a malformed challenge", s2, f"raises {ctx.exc(s2, v)[:80]}")
                continue
            n += 1
            t = nf(ctx.deep(s2, v))
            rep.need(t == want and s2.heads(v) == {"str"}, "signing yields the signature of the challenge followed by the challenge", s2,
                     show(t)[:200])
        rep.need(n > 0, "a challenge can be signed", "-", "no normal outcome")


def x03(rep, tier):
    rep.rule("the client's answer to a WAMP-CRA challenge is the HMAC under the secret, or under b64(PBKDF2-HMAC-SHA256) with exactly the "
             "challenge's salt, iterations and key length")
    ctx = Ctx(rep)
    st = ctx.eng.start()
    secret = ctx.sym("secret", STR)
    s0, au = ctx.new(st, "auth.WAMPCRAAuthenticator", ctx.sym("authid", STR), secret)
    plain = hmac_term(secret, None)
    for salt in ("absent", "none", "given"):
        for it in ("absent", "zero", "given"):
            for kl in ("absent", "zero", "given"):
                for s1, m, kw in anymsgs(ctx, s0, "Challenge", f"{salt}.{it}.{kl}"):
                    ex = kw["extra"]
                    val = {}
                    s = s1
                    for key, mode, ty in (("salt", salt, STR), ("iterations", it, INT), ("keylen", kl, INT), ("challenge", "given", STR)):
                        t = val[key] = T("item", ex, C(key))
                        has = T("in", C(key), ex)
                        ok = s.assume(has, mode != "absent")
                        if mode == "none":
                            ok = ok and restrict(s, t, frozenset({("none",)}))
                        elif mode != "absent":
                            ok = ok and restrict(s, t, ty)
                        if mode == "zero":
                            ok = ok and s.assume(ctx.eng.mk_eq(s, t, C(0)), True)
                        elif mode == "given" and ty == INT:
                            s.iv[t] = (1, 2**31)
                        if not ok:
                            raise Incomplete("inconsistent challenge")
                    world = f"salt {salt}, iterations {it}, keylen {kl}"
                    outs = ctx.method(s, au, "authenticate", m)
                    rep.op(f"authenticate: {world}", len(outs))
                    refuse = salt == "given" and (it != "given" or kl != "given")
                    for s2, k, v in outs:
                        if refuse:
                            rep.need(k == "x" and ctx.is_exc(s2, v, "ValueError"), f"refused: {world}", s2,
                                     f"answers {show(ctx.deep(s2, v))[:120]}" if k == "v" else f"raises {ctx.exc(s2, v)[:80]}")
                            continue
                        key = secret if salt != "given" else T("b64enc", T("pbkdf2", C("sha256"), secret, val["salt"], val["iterations"],
                                                                           val["keylen"]))
                        want = T("b64enc", hmac_term(key, val["challenge"]))
                        sig = None
                        if k == "v" and kind_of(ctx, s2, v) == "Authenticate":
                            g = [x for _, kk, x in ctx.get(s2, v, "signature") if kk == "v"]
                            sig = nf(ctx.deep(s2, g[0])) if len(g) == 1 else None
                        name = ("with a salt the signature uses the derived key" if salt == "given" else
                                "without a salt the signature uses the secret")
                        rep.need(sig == want, f"{name} ({world})", s2,
                                 f"raises {ctx.exc(s2, v)[:80]}" if k == "x" else show(sig)[:200] if sig else "no AUTHENTICATE")


def hexof(t):
    """The bytes behind a hexadecimal text, None when the term is no such text."""
    t = nf(t)
    return t[2] if t[0] == "t" and t[1] == "hexenc" else None


def pubof(raw):
    """The public key bytes that belong to the private key bytes."""
    return T("keybytes", T("vkey", T("pub", T("sk", raw))))


def keynorm(t):
    """The bytes of the private key made of some bytes are those bytes."""
    if not isinstance(t, tuple):
        return t
    t = tuple(keynorm(x) if isinstance(x, tuple) else x for x in t)
    if t[0] == "t" and t[1] == "keybytes" and t[2][0] == "t" and t[2][1] == "sk" and len(t[2]) == 3:
        return t[2][2]
    if t[0] == "t" and t[1] == "hexdec" and t[2][0] == "t" and t[2][1] == "hexenc":
        return t[2][2]
    return t


def x04(rep, tier):
    rep.rule("generate_cryptosign_keypair returns the hex texts of the public key that belongs to a freshly drawn private key, and of that "
             "key; CryptoSignAuthenticator announces the public key of its private key unless the extra data names one")
    ctx = Ctx(rep)
    st = ctx.eng.start()
    mod = ctx.attr(st, "auth.cryptosign.generate_cryptosign_keypair") or ctx.need_attr(st, "auth.generate_cryptosign_keypair")
    outs = ctx.run(st, mod)
    rep.op("generate_cryptosign_keypair", len(outs))
    n = 0
    for s, k, v in outs:
        v = ctx.eng.force(s, v) if k == "v" else v
        d = ctx.deep(s, v) if k == "v" else None
        two = d is not None and d[0] == "tp" and len(d) == 3
        rep.need(two, "a key pair is a pair of texts", s, show(d)[:120] if d else f"raises {ctx.exc(s, v)[:80]}")
        if not two:
            continue
        n += 1
        pub, priv = (keynorm(nf(x)) for x in d[1:])
        raw = hexof(priv)
        rep.need(raw is not None and s.heads(v[1]) | s.heads(v[2]) == {"str"}, "both keys are hexadecimal texts", s, show(d)[:160])
        if raw is None:
            continue
        fresh = [x for x in names(raw) if x.startswith("fresh:csprng.")]
        rep.need(bool(fresh) and raw[0] == "s" and s.interval(T("len", raw))[0] >= 32, "the private key is drawn from a secure source", s,
                 show(raw)[:120])
        rep.need(hexof(pub) == pubof(raw), "the public key belongs to the private key", s, f"{show(pub)[:160]}; private key {show(priv)[:80]}")
    rep.need(n > 0, "a key pair can be generated", "-", "no normal outcome")

    au = ctx.need_attr(st, "auth.CryptoSignAuthenticator")
    key, extra = ctx.sym("private key", STR), ctx.sym("extra", DICT)
    raw = T("hexdec", key)
    for label, ex, has in (("no extra data", NONE, None), ("extra data without key", extra, False), ("extra data with key", extra, True)):
        s0 = st.copy()
        if has is not None and not s0.assume(T("in", C("pubkey"), extra), has):
            raise Incomplete("inconsistent extra data")
        outs = ctx.run(s0, au, ctx.sym("authid", STR), key, ex)
        rep.op(f"CryptoSignAuthenticator: {label}", len(outs))
        n = 0
        for s, k, o in outs:
            if k == "x":
                bad = any(val is False and a[0] == "t" and a[1] == "boolcall" and contains(a, key) for a, val in s.facts.items())
                rep.need(bad, "an authenticator is refused only for a malformed private key", s, f"raises {ctx.exc(s, o)[:100]}")
                continue
            n += 1
            for s1, k1, x in ctx.get(s, o, "auth_extra"):
                for s2, k2, got in (ctx.method(s1, x, "get", C("pubkey")) if k1 == "v" else []):
                    if has:
                        ok = k2 == "v" and same(ctx, s2, got, T("item", extra, C("pubkey")))
                        rep.need(ok, "a public key in the extra data is announced as it is", s2, show(ctx.deep(s2, got))[:120])
                        continue
                    t = keynorm(nf(ctx.deep(s2, got))) if k2 == "v" else None
                    rep.need(t is not None and hexof(t) == pubof(raw) and s2.heads(got) == {"str"},
                             "the announced public key belongs to the private key", s2, f"{label}: {show(t)[:160] if t else 'none'}")
        rep.need(n > 0, "an authenticator can be built", "-", f"{label}: no normal outcome")


# ------------------------------------------------------------------ I: ids
def i01(rep, tier):
    rep.rule("generate_session_id draws from exactly 1..2^53; for the id generator an inductive interval invariant of its fields is "
             "computed and every two consecutive calls satisfy the successor relation")
    ctx = Ctx(rep)
    st = ctx.eng.start()
    outs = ctx.run(st, ctx.need_attr(st, "idgen.generate_session_id"))
    rep.op("generate_session_id", len(outs))
    for s, k, v in outs:
        iv = s.interval(v) if k == "v" and not is_c(v) else (None, None)
        fresh = k == "v" and any(n.startswith("fresh:random") or n.startswith("fresh:csprng") for n in names(v))
        rep.need(fresh, "a session id is drawn at random", s, show(v)[:80])
        rep.need(iv == (1, MAX_ID), "a session id is drawn from 1..2^53", s, f"drawn from {iv}")
    gen = ctx.need_attr(st, "idgen.SessionScopeIDGenerator")
    s0, g = ctx.one(ctx.run(st, gen), "constructing the id generator")
    first = ctx.method(s0, g, "next")
    for s, k, v in first:
        rep.need(k == "v" and v == C(1), "the first id is 1", s, show(v)[:80])
    s1, g2 = ctx.one(ctx.run(s0, gen), "constructing a second id generator")
    for s, k, v in ctx.method(s1, g, "next"):
        for s2, k2, w in ctx.method(s, g2, "next"):
            rep.need(k2 == "v" and w == C(1), "a generator is independent of the others", s2, f"its first id is {show(w)[:60]}")
    fields = {n: v for n, v in s0.heap[g[1]].fields.items()}
    for s, k, v in first if not fields else ():  # the counter starts as a class attribute
        for n in s.heap[g[1]].fields:
            fields.update({n: x for _, kk, x in ctx.get(s0, g, n) if kk == "v"})
    ints = sorted(n for n, v in fields.items() if is_c(v) and v[1] == "int")
    if len(ints) != len([n for n, v in fields.items() if v[0] != "c"]) + len(ints):
        raise Incomplete("the id generator holds something else than numbers")
    if not ints:
        raise Incomplete("no counter found in the id generator")
    inv = {n: (cv(fields[n]), cv(fields[n])) for n in ints}
    marks = [-1, 0, 1, 2, MAX_ID - 1, MAX_ID, MAX_ID + 1]

    def instance(lim, tag):
        s = s0.copy()
        o = s.heap[g[1]]
        f = dict(o.fields)
        for n in ints:
            f[n] = ctx.sym(f"{n}@{tag}", INT)
            s.iv[f[n]] = lim[n]
            if lim[n][0] == lim[n][1]:
                f[n] = C(lim[n][0])
        s.heap[g[1]] = o.rep(fields=f)
        return s

    for rnd in range(12):
        new = dict(inv)
        for s, k, v in ctx.method(instance(inv, rnd), g, "next"):
            for n in ints:
                x = s.heap[g[1]].fields[n]
                lo, hi = s.interval(x) if not is_c(x) else (cv(x), cv(x))
                if lo < new[n][0]:
                    new[n] = (max([m for m in marks if m <= lo], default=-(2**80)), new[n][1])
                if hi > new[n][1]:
                    new[n] = (new[n][0], min([m for m in marks if m >= hi], default=2**80) if rnd > 1 else hi)
        if new == inv:
            break
        inv = new
    else:
        raise Incomplete("no interval invariant for the id generator")
    rep.op(f"invariant {inv}", 1)
    n = 0
    for s, k, a in ctx.method(instance(inv, "a"), g, "next"):
        rep.need(k == "v", "an id is always available", s, f"raises {ctx.exc(s, a)[:80]}" if k == "x" else "")
        if k == "x":
            continue
        lo, hi = s.interval(a) if not is_c(a) else (cv(a), cv(a))
        rep.need(lo >= 1 and hi <= MAX_ID, "ids lie in 1..2^53", s, f"{show(a)[:60]} in {lo}..{hi}; path {path_of(s)}")
        for s2, k2, b in ctx.method(s, g, "next"):
            n += 1
            if k2 == "x":
                rep.need(False, "an id is always available", s2, f"raises {ctx.exc(s2, b)[:80]}")
                continue
            succ = holds(s2, ctx.eng.mk_eq(s2, b, ctx.eng.simp(s2, T("add", a, C(1)))))
            if is_c(a) and is_c(b):
                succ = cv(b) == cv(a) + 1
            last = is_c(a) and cv(a) == MAX_ID or holds(s2, ctx.eng.mk_eq(s2, a, C(MAX_ID)))
            rep.need(b == C(1) if last else succ or term_succ(a, b), "consecutive ids differ by one, and 1 follows 2^53", s2,
                     f"{show(b)[:60]} follows {show(a)[:60]}; path {path_of(s2)}")
    rep.op("pairs of consecutive ids", n)


def names(t):
    from .terms import subterms
    return [x[1] for x in subterms(t) if isinstance(x, tuple) and len(x) == 2 and x[0] == "s"]


def linear(t):
    """(symbol part, constant) of a sum."""
    if is_c(t):
        return None, cv(t)
    if t[0] == "t" and t[1] in ("add", "sub") and is_c(t[3]):
        b, c = linear(t[2])
        return b, c + (cv(t[3]) if t[1] == "add" else -cv(t[3]))
    if t[0] == "t" and t[1] == "add" and is_c(t[2]):
        b, c = linear(t[3])
        return b, c + cv(t[2])
    return t, 0


def term_succ(a, b):
    la, lb = linear(a), linear(b)
    return la[0] == lb[0] and lb[1] == la[1] + 1


# ------------------------------------------------------------------ R: bit vectors
def lift(n):
    return tuple(("1" if n >> i & 1 else "0") for i in range(n.bit_length()))


def const_bits(b):
    return sum(1 << i for i, x in enumerate(b) if x == "1") if all(x in ("0", "1") for x in b) else None


def trim(b):
    b = list(b)
    while b and b[-1] == "0":
        b.pop()
    return tuple(b)


class Opaque(Exception):
    pass


def bits(st, t, depth=0):
    """Bits of a non-negative number, least significant first: '0', '1' or (atom, index)."""
    if depth > 40:
        raise Opaque(show(t)[:80])
    if is_c(t):
        n = cv(t)
        if isinstance(n, bool) or not isinstance(n, int) or n < 0:
            raise Opaque(show(t))
        return lift(n)
    if t[0] == "t":
        op, a = t[1], t[2:]
        if op in ("shl", "shr", "mul", "floordiv", "mod", "bitand", "bitor", "bitxor", "add", "pow") and len(a) == 2:
            x, y = bits(st, a[0], depth + 1), bits(st, a[1], depth + 1)
            cx, cy = const_bits(x), const_bits(y)
            if cx is not None and cy is not None:
                r = {"shl": lambda: cx << cy, "shr": lambda: cx >> cy, "mul": lambda: cx * cy, "floordiv": lambda: cx // cy,
                     "mod": lambda: cx % cy, "bitand": lambda: cx & cy, "bitor": lambda: cx | cy, "bitxor": lambda: cx ^ cy,
                     "add": lambda: cx + cy, "pow": lambda: cx ** cy}[op]()
                return lift(r)
            if op == "mul" and cx is not None and cy is None:
                x, y, cx, cy = y, x, cy, cx
            if op in ("shl", "shr") and cy is not None:
                return ("0",) * cy + x if op == "shl" else x[cy:]
            if op in ("mul", "floordiv", "mod") and cy is not None and cy > 0 and cy & (cy - 1) == 0:
                n = cy.bit_length() - 1
                return ("0",) * n + x if op == "mul" else x[n:] if op == "floordiv" else trim(x[:n])
            n = max(len(x), len(y))
            x, y = x + ("0",) * (n - len(x)), y + ("0",) * (n - len(y))
            res = []
            for p, q in zip(x, y):
                if op == "bitand":
                    r = "0" if "0" in (p, q) else q if p == "1" else p if q == "1" or p == q else None
                elif op in ("bitor", "bitxor", "add"):
                    r = q if p == "0" else p if q == "0" else None
                    if r is None and op == "bitor":
                        r = "1" if "1" in (p, q) else p if p == q else None
                    if r is None and op == "bitxor" and p == q:
                        r = "0"
                else:
                    r = None
                if r is None:
                    if op in ("add",):
                        raise Opaque(show(t)[:80])
                    r = (op, p, q)
                res.append(r)
            return trim(res)
        if op == "frombytes" and a[0][0] == "t" and a[0][1] == "bytesof":
            bs = a[0][2:]
            if a[1] == C("big"):
                bs = tuple(reversed(bs))
            out = ()
            for x in bs:
                b = bits(st, x, depth + 1)
                if len(b) > 8:
                    raise Opaque(show(t)[:80])
                out += b + ("0",) * (8 - len(b))
            return trim(out)
    lo, hi = st.interval(t)
    if lo is None or lo < 0 or hi is None or hi == INF or hi >= 1 << 64:
        raise Opaque(show(t)[:80])
    n = hi.bit_length()
    out = [(t, i) for i in range(n)]
    for i in reversed(range(n)):  # leading bits that are the same over the whole interval
        if lo >> i == hi >> i:
            out[i] = "1" if lo >> i & 1 else "0"
        else:
            break
    return trim(out)


def byte_list(ctx, st, v):
    """The bytes of a byte string as terms."""
    d = ctx.deep(st, v)
    if is_c(d) and isinstance(cv(d), bytes):
        return [C(x) for x in cv(d)]
    if d[0] == "t" and d[1] == "bytesof":
        return list(d[2:])
    if d[0] == "t" and d[1] == "tobytes" and is_c(d[3]):
        b = bits(st, d[2])
        out = []
        for i in range(cv(d[3])):
            out.append(b[8 * i:8 * i + 8])
        if len(b) > 8 * cv(d[3]):
            raise Opaque(show(d)[:80])
        out = [("bits", trim(x)) for x in out]
        return out if d[4] == C("little") else list(reversed(out))
    if d[0] == "t" and d[1] == "concat":
        return [y for x in d[2:] for y in byte_list(ctx, st, x)]
    raise Opaque(show(d)[:80])


def bb(st, x):
    return x[1] if x[0] == "bits" else bits(st, x)


ARITH = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "shl": lambda x, y: x << y,
         "shr": lambda x, y: x >> y, "pow": lambda x, y: x ** y, "bitand": lambda x, y: x & y, "bitor": lambda x, y: x | y,
         "bitxor": lambda x, y: x ^ y, "floordiv": lambda x, y: x // y, "mod": lambda x, y: x % y}


def constant_value(t, env):
    """Constant folding of a term once its atoms are replaced by constants; None: not a number."""
    if t in env:
        return env[t]
    if is_c(t):
        return cv(t) if isinstance(cv(t), int) and not isinstance(cv(t), bool) else None
    if t[0] == "t" and t[1] in ARITH and len(t) == 4:
        x, y = constant_value(t[2], env), constant_value(t[3], env)
        if x is None or y is None or abs(x) > 1 << 80 or t[1] in ("shl", "pow") and not -999 < y < 999:
            return None
        return ARITH[t[1]](x, y)
    if t[0] == "t" and t[1] == "frombytes" and t[2][0] == "t" and t[2][1] == "bytesof":
        xs = [constant_value(x, env) for x in t[2][2:]]
        return None if any(x is None for x in xs) else int.from_bytes(bytes(xs), cv(t[3]))
    return None


def differs(s, got, want):
    """A constant case in which a value outside the bit domain is not the wanted one (None: none found)."""
    if is_c(got) and (not isinstance(cv(got), int) or cv(got) < 0):
        return f"got {show(got)}"
    atoms = sorted({b[0] for b in want if isinstance(b, tuple) and len(b) == 2})
    def leaves(t):
        if t[0] == "s":
            if t not in atoms:
                atoms.append(t)
        elif t[0] == "t":
            for x in t[2:]:
                if isinstance(x, tuple):
                    leaves(x)
    leaves(got)
    if not all(b in ("0", "1") or isinstance(b, tuple) and len(b) == 2 for b in want) or not atoms:
        return None
    for pick in (lambda lo, hi: lo, lambda lo, hi: hi, lambda lo, hi: (lo + hi) // 2, lambda lo, hi: min(hi, lo + 5)):
        env, s2 = {}, s.copy()
        for a in atoms:
            lo, hi = s.interval(a)
            if lo is None or hi is None or INF in (lo, hi) or -INF in (lo, hi):
                return None
            env[a] = int(pick(lo, hi))
            if not s2.assume(T("eq", a, C(env[a])), True):
                break
        else:
            w = sum((1 if b == "1" else 0 if b == "0" else env[b[0]] >> b[1] & 1) << i for i, b in enumerate(want))
            try:
                g = constant_value(got, env)
            except (ValueError, ZeroDivisionError, OverflowError) as e:
                return f"{show(got)[:80]} fails ({e}) for {[show(a) + '=' + str(v) for a, v in env.items()]}"
            if g is not None and g != w:
                return f"{show(got)[:80]} is {g}, expected {w}, for {[show(a) + '=' + str(v) for a, v in env.items()]}"
    return None


def equal_bits(rep, ctx, s, got, want, name, bytes_=False):
    """Obligation: the value (or list of bytes) has these bits."""
    try:
        if bytes_:
            g = [trim(bb(s, x)) for x in byte_list(ctx, s, got)]
            w = [trim(x) for x in want]
        else:
            g, w = trim(bits(s, ctx.deep(s, got))), trim(want)
    except Opaque as e:
        wrong = None if bytes_ else differs(s, ctx.deep(s, got), want)
        if wrong:
            rep.need(False, name, s, wrong)
        else:
            rep.need(False, name, s, f"outside the bit domain: {e}", imprecise=True)
        return
    rep.need(g == w, name, s, f"got {brief(g)}, expected {brief(w)}")


def brief(b):
    def one(x):
        return "".join(y if isinstance(y, str) else "x" for y in reversed(x)) or "0"
    return [one(x) for x in b] if isinstance(b, list) else one(b)


RS = "transports.rawsocket."


def codecs(ctx, st, cls, enc, dec):
    """The public ways to encode and decode: [(label, encode(st, obj), decode(st, bytes))]"""
    c = ctx.need_attr(st, RS + cls)

    def frm(s, b):
        outs = []
        for s2, k, f in ctx.get(s, c, "from_bytes"):
            outs += ctx.run(s2, f, b)
        return outs

    res = [(f"{cls}.to_bytes/from_bytes", lambda s, o: ctx.method(s, o, "to_bytes"), frm)]
    e, d = ctx.attr(st, RS + enc) if enc else None, ctx.attr(st, RS + dec) if dec else None
    if e is not None and d is not None:
        res.append((f"{enc}/{dec}", lambda s, o: ctx.run(s, e, o), lambda s, b: ctx.run(s, d, b)))
    return res


def r01(rep, tier):
    rep.rule("for each of the 16 sizes and a symbolic protocol 0..15, the bytes of the handshake and the decoded values are compared bit by bit")
    ctx = Ctx(rep)
    st = ctx.eng.start()
    for exp in range(9, 25):
        s0 = st.copy()
        p = ctx.sym("protocol", INT)
        s0.iv[p] = (0, 15)
        for s1, k, h in ctx.run(s0, ctx.need_attr(s0, RS + "Handshake"), p, C(1 << exp)):
            if k == "x":
                rep.need(False, f"a handshake for 2^{exp} can be built", s1, ctx.exc(s1, h)[:80])
                continue
            for label, enc, dec in codecs(ctx, s1, "Handshake", "send_handshake", "receive_handshake"):
                outs = enc(s1, h)
                rep.op(f"{label} 2^{exp}", len(outs))
                for s2, k2, b in outs:
                    if k2 == "x":
                        rep.need(False, f"{label}: 2^{exp} is encoded", s2, f"raises {ctx.exc(s2, b)[:80]}; path {path_of(s2)}")
                        continue
                    pb = bits(s2, p)
                    second = pb + ("0",) * (4 - len(pb)) + lift(exp - 9)
                    equal_bits(rep, ctx, s2, b, [lift(0x7F), second, (), ()], f"{label}: the four bytes for 2^{exp}", True)
                    for s3, k3, o in dec(s2, b):
                        if k3 == "x":
                            rep.need(False, f"{label}: the handshake for 2^{exp} is decoded", s3, f"raises {ctx.exc(s3, o)[:80]}")
                            continue
                        attrs(rep, ctx, s3, o, {"protocol": pb, "max_msg_size": lift(1 << exp)}, f"{label} 2^{exp}")


def attrs(rep, ctx, s, o, want, label):
    for a, w in want.items():
        for s2, k, x in ctx.get(s, o, a):
            if k == "x":
                rep.need(False, f"{label}: {a} is recovered", s2, ctx.exc(s2, x)[:80])
            else:
                equal_bits(rep, ctx, s2, x, w, f"{label}: {a} is recovered")


ANYB = (0, 255)
BAD_WORLDS = (
    ("first byte below the magic", ((0, 0x7E), ANYB, ANYB, ANYB)),
    ("first byte above the magic", ((0x80, 255), ANYB, ANYB, ANYB)),
    ("only the third byte is not zero", ((0x7F, 0x7F), ANYB, (1, 255), (0, 0))),
    ("only the fourth byte is not zero", ((0x7F, 0x7F), ANYB, (0, 0), (1, 255))),
    ("third and fourth byte are not zero", ((0x7F, 0x7F), ANYB, (1, 255), (1, 255))),
)


def r02(rep, tier):
    rep.rule("on every path over bytes of another length, and over four symbolic bytes with a wrong first, third or fourth byte, "
             "ValueError is raised; over the well-formed ones no path raises and the fields are compared bit by bit")
    ctx = Ctx(rep)
    st = ctx.eng.start()
    d = ctx.sym("data", BYTES)
    for label, enc, dec in codecs(ctx, st, "Handshake", "send_handshake", "receive_handshake"):
        s0 = st.copy()
        s0.assume(ctx.eng.mk_eq(s0, T("len", d), C(4)), False)
        outs = dec(s0, d)
        rep.op(f"{label}: bytes of another length", len(outs))
        for s, k, o in outs:
            rep.need(k == "x" and ctx.is_exc(s, o, "ValueError"), f"{label}: bytes of a length other than four raise ValueError", s,
                     f"raises {ctx.exc(s, o)[:80]}" if k == "x" else f"accepted; path {path_of(s)}")
        for world, lims in BAD_WORLDS:
            s0 = st.copy()
            bs = []
            for i, (lo, hi) in enumerate(lims):
                x = C(lo)
                if lo != hi:
                    x = ctx.sym(f"byte{i}: {world}", INT)
                    s0.iv[x] = (lo, hi)
                bs.append(x)
            for s1, k1, data in ctx.eng.call(s0, ("bi", "bytes"), [s0.alloc(list_of(*bs))], {}):
                outs = dec(s1, data) if k1 == "v" else []
                rep.op(f"{label}: {world}", len(outs))
                for s, k, o in outs:
                    rep.need(k == "x" and ctx.is_exc(s, o, "ValueError"), f"{label}: {world}: ValueError", s,
                             f"raises {ctx.exc(s, o)[:80]}" if k == "x" else f"accepted; path {path_of(s)}")
        for h in range(16):
            s = st.copy()
            x = ctx.sym(f"second{h}", INT)
            s.iv[x] = (16 * h, 16 * h + 15)
            for s1, k, data in ctx.eng.call(s, ("bi", "bytes"), [s.alloc(list_of(0x7F, x, 0, 0))], {}):
                for s2, k2, o in dec(s1, data) if k == "v" else []:
                    if k2 == "x":
                        rep.need(False, f"{label}: second byte {16 * h}..{16 * h + 15} is accepted", s2, f"raises {ctx.exc(s2, o)[:80]}")
                        continue
                    attrs(rep, ctx, s2, o, {"protocol": bits(s2, x)[:4], "max_msg_size": lift(1 << (9 + h))}, f"{label}, high half {h}")


def list_of(*xs):
    from .state import ListO
    return ListO(None, tuple(("e", C(x) if isinstance(x, int) else x) for x in xs))


def r03(rep, tier):
    rep.rule("for a symbolic kind and length the header bytes and the decoded values are compared bit by bit; lengths outside 0..2^24-1 "
             "raise ValueError on every path")
    ctx = Ctx(rep)
    st = ctx.eng.start()
    kd = ctx.sym("kind", INT)
    st.iv[kd] = (0, 255)
    for label, lim in (("any length", None), ("length 0..2^24-1", (0, 2**24 - 1))):
        s0 = st.copy()
        ln = ctx.sym(f"length:{label}", INT)
        if lim:
            s0.iv[ln] = lim
        s1, h = ctx.new(s0, RS + "MessageHeader", kd, ln)
        for name, enc, dec in codecs(ctx, s1, "MessageHeader", None, None):
            outs = enc(s1, h)
            rep.op(f"{name}: {label}", len(outs))
            n = 0
            for s2, k2, b in outs:
                if k2 == "x":
                    rep.need(ctx.is_exc(s2, b, "ValueError"), f"{name}: an unfit length raises ValueError", s2, f"raises {ctx.exc(s2, b)[:80]}")
                    lo, hi = s2.interval(ln)
                    s3 = s2.copy()
                    fits = s3.assume(ctx.eng.mk_lt(s3, C(-1), ln), True) and s3.assume(ctx.eng.mk_lt(s3, ln, C(2**24)), True)
                    rep.need(not fits, f"{name}: a length that fits is encoded", s2, f"path {path_of(s2)}")
                    continue
                n += 1
                lo, hi = s2.interval(ln)
                rep.need(lo is not None and lo >= 0 and hi < 2**24, f"{name}: only lengths that fit in three bytes are encoded", s2,
                         f"encodes {lo}..{hi}; path {path_of(s2)}")
                if not (lo is not None and lo >= 0 and hi < 2**24):
                    continue
                lb = bits(s2, ln)
                lb = lb + ("0",) * (24 - len(lb))
                equal_bits(rep, ctx, s2, b, [bits(s2, kd), lb[16:24], lb[8:16], lb[0:8]], f"{name}: kind and three big-endian bytes", True)
                for s3, k3, o in dec(s2, b):
                    if k3 == "x":
                        rep.need(False, f"{name}: a header is decoded", s3, f"raises {ctx.exc(s3, o)[:80]}")
                        continue
                    attrs(rep, ctx, s3, o, {"kind": bits(s3, kd), "length": lb}, name)
            rep.need(n > 0, f"{name}: some length is encoded ({label})", "-", "no normal outcome")


RULES = {"X01": x01, "X02": x02, "X03": x03, "X04": x04, "I01": i01, "R01": r01, "R02": r02, "R03": r03}
