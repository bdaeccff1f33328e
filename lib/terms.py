"""Value terms of the abstract domain: canonical linear forms, bit slices and uninterpreted applications.

A term is a hashable tuple.  Integers are mathematical; a machine operation that may wrap yields a 'bits' slice.
"""
C = lambda n: ("c", int(n))
ZERO, ONE = C(0), C(1)

RANGES = {"b": (0, 1), "u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1),
          "i8": (-128, 127), "i16": (-32768, 32767), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1),
          "sz": (0, 2**62)}


def tag_of(t):
    """Range tag of a Type."""
    if t is None:
        return ""
    t = t.noref
    if t.k == "bool":
        return "b"
    if t.k in ("int", "enum") and t.w:
        return ("u" if t.u else "i") + str(t.w)
    return ""


def is_c(v):
    return v[0] == "c"


def lin_parts(v):
    """v as (const, {atom: coef})"""
    if v[0] == "c":
        return v[1], {}
    if v[0] == "lin":
        return v[1], dict(v[2])
    return 0, {v: 1}


def mk_lin(k, d):
    d = {a: c for a, c in d.items() if c != 0}
    if not d:
        return C(k)
    if k == 0 and len(d) == 1:
        (a, c), = d.items()
        if c == 1:
            return a
    return ("lin", k, tuple(sorted(d.items(), key=lambda x: repr(x))))


def add(a, b, cb=1):
    if not is_num(a) or not is_num(b):
        return ("app", "+" if cb == 1 else "-", a, b)
    ka, da = lin_parts(a)
    kb, db = lin_parts(b)
    d = dict(da)
    for x, c in db.items():
        d[x] = d.get(x, 0) + c * cb
    return mk_lin(ka + kb * cb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    if not is_num(a):
        return ("app", "*", a, C(n))
    k, d = lin_parts(a)
    return mk_lin(k * n, {x: c * n for x, c in d.items()})


def mul(a, b):
    if is_c(a):
        return scale(b, a[1])
    if is_c(b):
        return scale(a, b[1])
    x, y = sorted((a, b), key=repr)
    return ("app", "*", x, y)


NONNUM = ("ptr", "addr", "obj", "s", "lam", "fn", "none", "some", "f", "null", "cat", "bind", "it", "itend", "bi", "rptr", "callable", "void")


def is_num(v):
    return v[0] not in NONNUM


def atom_range(a):
    k = a[0]
    if k == "c":
        return a[1], a[1]
    if k == "bits":
        return 0, 2 ** a[3] - 1
    if k in ("sym", "ld", "par", "phi", "ind"):
        return RANGES.get(a[-1], (None, None))
    if k == "app":
        if a[1] in ("strlen", "len"):
            return RANGES["sz"]
        if a[1] == "/" and a[3][0] == "c" and a[3][1] > 0:
            lo, hi = rng(a[2])
            return (None if lo is None else int_div(lo, a[3][1])), (None if hi is None else int_div(hi, a[3][1]))
        if a[1] == "%" and a[3][0] == "c" and a[3][1] > 0:
            lo, _ = rng(a[2])
            if lo is not None and lo >= 0:
                return 0, a[3][1] - 1
            return -(a[3][1] - 1), a[3][1] - 1
        if a[1] in ("and", "or", "xor"):
            l1, h1 = rng(a[2])
            l2, h2 = rng(a[3])
            if l1 is not None and l2 is not None and l1 >= 0 and l2 >= 0:
                if a[1] == "and":
                    hs = [h for h in (h1, h2) if h is not None]
                    return 0, (min(hs) if hs else None)
                if h1 is not None and h2 is not None:
                    return 0, (1 << max(h1, h2).bit_length()) - 1
        return RANGES.get(a[-1] if isinstance(a[-1], str) else "", (None, None))
    if k in ("le", "eq", "not", "and", "or", "has", "eqv"):
        return 0, 1
    return None, None


def int_div(a, b):
    return -((-a) // b) if a < 0 else a // b


def rng(v):
    if v[0] == "c":
        return v[1], v[1]
    if v[0] != "lin":
        return atom_range(v)
    lo = hi = v[1]
    for a, c in v[2]:
        l, h = atom_range(a)
        if c < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + l * c
        hi = None if hi is None or h is None else hi + h * c
    return lo, hi


def bits(v, lo, n):
    """Bits [lo, lo+n) of the (two's complement) integer v."""
    if v[0] == "c":
        return C((v[1] >> lo) & ((1 << n) - 1))
    if v[0] == "bits":
        if lo >= v[3]:
            return ZERO
        return bits(v[1], v[2] + lo, min(n, v[3] - lo)) if lo + n <= v[3] or True else v
    if v[0] == "app" and v[1] in ("xor", "and", "or") and (lo or (rng(v)[1] or 1 << 64) >= (1 << n)):
        op = {"xor": bxor, "and": band, "or": bor}[v[1]]
        parts = [bits(x, lo, n) for x in v[2:] if isinstance(x, tuple)]
        r = parts[0]
        for x in parts[1:]:
            r = op(r, x)
        return r
    l, h = rng(v)
    if l is not None and h is not None and l >= 0:
        if lo == 0 and h < (1 << n):
            return v
        hb = h.bit_length()
        if lo >= hb:
            return ZERO
        if lo + n > hb:
            n = hb - lo
            if lo == 0:
                return v
    if v[0] == "lin" and lo:
        k, d = lin_parts(v)
        z = min((x & -x).bit_length() - 1 for x in (k, *d.values()) if x)
        if z and lo:
            z = min(z, lo)
            return bits(mk_lin(k >> z, {a: c >> z for a, c in d.items()}), lo - z, n)
    if v[0] == "lin" and lo == 0:
        # reduce constants and coefficients modulo 2^n
        m = 1 << n
        k, d = lin_parts(v)
        d2 = {a: c % m for a, c in d.items()}
        w = mk_lin(k % m, d2)
        if w != v:
            l2, h2 = rng(w)
            if l2 is not None and h2 is not None and l2 >= 0 and h2 < m:
                return w
    if v[0] == "lin":
        # drop addends that are multiples of 2^(lo+n); split exact byte compositions
        k, d = lin_parts(v)
        m = 1 << lo
        low = {a: c for a, c in d.items() if c % m}
        high = {a: c for a, c in d.items() if c % m == 0}
        if k % m == 0 and high:
            lw = mk_lin(0, low)
            ll, lh = rng(lw)
            if ll is not None and lh is not None and ll >= 0 and lh < m and lo > 0:
                return bits(mk_lin(k // m, {a: c // m for a, c in high.items()}), 0, n)
        mm = 1 << (lo + n)
        keep = {a: c for a, c in d.items() if c % mm}
        if len(keep) < len(d) or (k % mm != k):
            return bits(mk_lin(k % mm, keep), lo, n)
    return ("bits", v, lo, n)


def known_low_zero(v):
    """Number of low bits known to be zero."""
    if v[0] == "c":
        return 64 if v[1] == 0 else (v[1] & -v[1]).bit_length() - 1
    if v[0] == "lin":
        r = 64
        k = v[1]
        if k:
            r = (k & -k).bit_length() - 1
        for a, c in v[2]:
            r = min(r, (c & -c).bit_length() - 1)
        return r
    return 0


def idiv(a, n):
    """a / n for a >= 0 and a constant n > 0."""
    if n == 1:
        return a
    l, h = rng(a)
    if h is not None and h < n:
        return ZERO
    if a[0] == "c":
        return C(a[1] // n)
    if a[0] == "app" and a[1] == "/" and is_c(a[3]) and a[3][1] > 0 and nonneg(a[2]):
        return idiv(a[2], a[3][1] * n)
    if a[0] == "app" and a[1] == "%" and is_c(a[3]) and a[3][1] > 0 and a[3][1] % n == 0 and nonneg(a[2]):
        return imod(idiv(a[2], n), a[3][1] // n)
    if a[0] == "lin":
        k, d = lin_parts(a)
        hi = mk_lin(k - k % n, {x: c for x, c in d.items() if c % n == 0})
        low = sub(a, hi)
        l2, h2 = rng(low)
        if l2 is not None and l2 >= 0 and h2 is not None and h2 < n and nonneg(hi):
            kk, dd = lin_parts(hi)
            return mk_lin(kk // n, {x: c // n for x, c in dd.items()})
    if n & (n - 1) == 0:
        return shr(a, n.bit_length() - 1)
    return ("app", "/", a, C(n))


def imod(a, n):
    """a % n for a >= 0 and a constant n > 0."""
    l, h = rng(a)
    if h is not None and h < n:
        return a
    if a[0] == "c":
        return C(a[1] % n)
    if a[0] == "app" and a[1] == "%" and is_c(a[3]) and a[3][1] > 0 and a[3][1] % n == 0 and nonneg(a[2]):
        return imod(a[2], n)
    if a[0] == "lin":
        k, d = lin_parts(a)
        r = mk_lin(k % n, {x: c % n for x, c in d.items()})
        if r != a and nonneg(r):
            return imod(r, n)
    if n & (n - 1) == 0:
        return bits(a, 0, n.bit_length() - 1)
    return ("app", "%", a, C(n))


def nonneg(a):
    l, _ = rng(a)
    return l is not None and l >= 0


def zero_form(v):
    """A term that is zero exactly when v is, in a simpler form where there is one."""
    if v[0] == "lin" and v[1] == 0 and len(v[2]) == 1:
        v = v[2][0][0]
    if v[0] == "app" and v[1] == "xor":
        xs = [x for x in v[2:] if isinstance(x, tuple)]
        if len(xs) == 2 and all((rng(x)[0] is not None and rng(x)[0] >= 0) for x in xs):
            return sub(xs[0], xs[1])
    if v[0] == "lin":
        # k + xor(a, b) == 0: a xor b has a known value
        k, d = lin_parts(v)
        if len(d) == 1:
            (a, c), = d.items()
            if abs(c) == 1 and a[0] == "app" and a[1] == "xor" and -k * c >= 0:
                x = bxor(a, C(-k * c))
                if x[0] == "app" and x[1] == "xor" and len(x) == 4:
                    return zero_form(x)
    return v


def bor(a, b):
    if a == b:
        return a
    if a == ZERO:
        return b
    if b == ZERO:
        return a
    if is_c(a) and is_c(b) and a[1] >= 0 and b[1] >= 0:
        return C(a[1] | b[1])
    for x, y in ((a, b), (b, a)):
        z = known_low_zero(x)
        l, h = rng(y)
        lx, _ = rng(x)
        if l is not None and h is not None and l >= 0 and h < (1 << z) and lx is not None and lx >= 0:
            return add(x, y)
    x, y = sorted((a, b), key=repr)
    return ("app", "or", x, y)


def band(a, b):
    if is_c(a) and is_c(b):
        return C(a[1] & b[1])
    if is_c(b):
        a, b = b, a
    if is_c(a):
        m = a[1]
        if m == 0:
            return ZERO
        if m > 0 and (m & (m + 1)) == 0:
            return bits(b, 0, m.bit_length())
        if m > 0:
            lo = (m & -m).bit_length() - 1
            if ((m >> lo) & ((m >> lo) + 1)) == 0:
                return scale(bits(b, lo, (m >> lo).bit_length()), 1 << lo)
    x, y = sorted((a, b), key=repr)
    return ("app", "and", x, y)


def bxor(a, b):
    if is_c(a) and is_c(b):
        return C(a[1] ^ b[1])
    if a == b:
        return ZERO
    if a == ZERO:
        return b
    if b == ZERO:
        return a
    # flatten, cancel pairs
    items = []
    for t in (a, b):
        if t[0] == "app" and t[1] == "xor":
            items += list(t[2:])
        else:
            items.append(t)
    cnt = {}
    k = 0
    for i in items:
        if is_c(i):
            k ^= i[1]
        else:
            cnt[i] = cnt.get(i, 0) ^ 1
    rest = sorted([i for i, n in cnt.items() if n], key=repr)
    if k:
        rest.append(C(k))
    if not rest:
        return ZERO
    if len(rest) == 1:
        return rest[0]
    return ("app", "xor") + tuple(rest)


def shl(a, n):
    return scale(a, 1 << n)


def shr(a, n, unsigned=True, width=64):
    if is_c(a):
        return C(a[1] >> n)
    l, h = rng(a)
    if l is not None and l >= 0:
        w = h.bit_length() if h is not None else width
        if n >= w:
            return ZERO
        return bits(a, n, w - n)
    return ("app", "shr", a, C(n))


def fmt(v, depth=0):
    """Readable form of a term."""
    if not isinstance(v, tuple) or not v:
        return str(v)
    k = v[0]
    if depth > 6:
        return "..."
    f = lambda x: fmt(x, depth + 1)
    if k == "c":
        return str(v[1])
    if k == "s":
        return repr(v[1])
    if k == "lin":
        s = " + ".join((f(a) if c == 1 else "%d*%s" % (c, f(a))) for a, c in v[2])
        return "(%s%s)" % (s, (" + %d" % v[1]) if v[1] else "")
    if k == "bits":
        return "%s[%d..%d]" % (f(v[1]), v[2], v[2] + v[3] - 1)
    if k == "app":
        return "%s(%s)" % (v[1], ", ".join(f(x) for x in v[2:] if isinstance(x, tuple)))
    if k == "ld":
        return f(v[1])
    if k == "par":
        return str(v[1])
    if k == "sym":
        return "$" + "_".join(fmt(x, depth + 1) for x in v[1:-1] if not isinstance(x, int) or True)[:80]
    if k == "v":
        return str(v[3]) if len(v) > 3 else "var%s" % (v[2],)
    if k == "fld":
        return "%s.%s" % (f(v[1]), v[2])
    if k == "el":
        return "%s[%s]" % (f(v[1]), f(v[2]))
    if k == "deref":
        return "*" + f(v[1])
    if k == "this":
        return "this"
    if k in ("le",):
        return "%s<=0" % f(v[1])
    if k in ("eq",):
        return "%s==0" % f(v[1])
    if k == "not":
        return "!(%s)" % f(v[1])
    return "%s(%s)" % (k, ", ".join(f(x) for x in v[1:]))
