from common import *

EXPL = ("Abstract interpretation over symbolic arguments; every function is reduced to a path table valid for all inputs, "
        "which is compared with the specification table written in the check.")


# ---------------------------------------------------------------- CRC16
class NotLinear(Exception):
    pass


def gf2(t, width, M):
    """Term as a vector over GF(2): list (one entry per bit, least significant first) of frozenset of (atom, bit) plus constant 'one'."""
    one = "one"
    if t[0] == "c":
        return [frozenset([one]) if (t[1] >> i) & 1 else frozenset() for i in range(width)]
    if t[0] == "lin":
        acc = gf2(C(t[1]), width, M)
        used = list(acc)
        for a, c in t[2]:
            if c <= 0 or c & (c - 1):
                raise NotLinear(fmt(t))
            sh = c.bit_length() - 1
            w = nbits(a)
            v = gf2(a, w, M)
            for i, b in enumerate(v):
                if not b:
                    continue
                if i + sh >= width:
                    raise NotLinear("overflow")
                if acc[i + sh]:
                    raise NotLinear("addends overlap")
                acc[i + sh] = b
        return acc
    if t[0] == "bits":
        v = gf2(t[1], max(t[2] + t[3], 1), M)
        r = v[t[2]:t[2] + t[3]]
        return r + [frozenset()] * (width - len(r))
    if t[0] == "app" and t[1] == "xor":
        acc = [frozenset()] * width
        for x in t[2:]:
            if isinstance(x, tuple):
                acc = [p ^ q for p, q in zip(acc, gf2(x, width, M))]
        return acc
    if t[0] == "app" and t[1] == "or":
        xs = [gf2(x, width, M) for x in t[2:] if isinstance(x, tuple)]
        acc = [frozenset()] * width
        for v in xs:
            for i, b in enumerate(v):
                if b and acc[i]:
                    raise NotLinear("or of overlapping bits")
                if b:
                    acc[i] = b
        return acc
    if t[0] == "ld" and t[1][0] == "el" and t[1][1][0] == "g":
        tab = table(M, t[1][1])
        n = len(tab)
        if n & (n - 1):
            raise NotLinear("table size")
        k = n.bit_length() - 1
        # affine over GF(2)?  T[a^b] = T[a]^T[b]^T[0]
        for i in range(n):
            x = tab[0]
            for b in range(k):
                if (i >> b) & 1:
                    x ^= tab[1 << b] ^ tab[0]
            if x != tab[i]:
                raise NotLinear("table %s is not linear at index %d" % (t[1][1][-1], i))
        idx = gf2(t[1][2], k, M)
        out = []
        for bit in range(width):
            v = frozenset(["one"]) if (tab[0] >> bit) & 1 else frozenset()
            for b in range(k):
                if ((tab[1 << b] ^ tab[0]) >> bit) & 1:
                    v = v ^ idx[b]
            out.append(v)
        return out
    lo, hi_ = rng(t)
    if t[0] in ("sym", "ld", "par") and lo is not None and lo >= 0:
        return [frozenset([(t, i)]) if i < hi_.bit_length() else frozenset() for i in range(width)]
    raise NotLinear(fmt(t))


def nbits(a):
    lo, hi_ = rng(a)
    if lo is None or lo < 0 or hi_ is None:
        return 64
    return hi_.bit_length()


def table(M, g):
    from absint import const_of
    i = M.globals[g[1]]["i"]
    while i and i.get("k") == "il" and len(i["a"]) == 1 and i["a"][0] and i["a"][0].get("k") == "il":
        i = i["a"][0]
    r = [const_of(x) for x in i["a"]]
    if any(x is None or x[0] != "c" for x in r):
        raise NotLinear("table not constant")
    return [x[1] for x in r]


@check("C01", "The checksum loop is reduced to its entry value, its step and its result as linear maps over GF(2) (bit vectors over the loop state and the "
       "current byte); table look-ups become linear maps after the 256-entry tables are checked entry by entry.",
       "entry, step and result are those of CRC-16/MODBUS, so by induction on the length the result is the CRC of any message", only=CORE)
def c01(chk, M):
    body = M.one("CRC16::CalculateCRC16")
    I = Interp(M)
    I.UNROLL = 0        # every message length goes through the loop's induction
    T = Table(chk, I, body, ["buffer", "len"], tag="CalculateCRC16")
    w = chk.where(body)
    n = P("len", "u16")
    loops = [l for l in I.loops if l[4]]
    for kind, s, v in T.paths:
        if kind == "throw":
            chk.expect("no exception", False if T.clean(s) else None, w, "the checksum is always computed")
    # empty message
    T.case("empty message", [(EQ(n, 0), True)], T.returns(C(0xFFFF)), "the CRC of nothing is 0xFFFF")
    # every other result, in terms of the state of the loop it comes from
    res = [(s, v) for k, s, v in T.paths if k == "ret" and not is_c(v)]
    if not res:
        chk.expect("result", None, w, "the result depends on the loop state", [fmt(v) for _, s, v in T.paths if _ == "ret"])
        return
    for j, (s, r) in enumerate(res):
        tag = "" if j == 0 else "/%d" % (j + 1)
        try:
            atoms = [a for a in set(subterms(r)) if a[0] == "sym" and len(a) > 3 and a[1] == "loop"]
            names = {a[2] for a in atoms}
            if len(names) != 1:
                raise NotLinear("the result comes from %d loops" % len(names))
            nid = names.pop()
            recs = [l for l in loops if l[5][1] == "k" + nid]
            if not recs:
                raise NotLinear("loop not found")
            K = recs[0][5]
            inits = {tuple(l[1].env.get(a[3]) for a in atoms) for l in recs}
            if len(inits) != 1:
                raise NotLinear("the loop is entered with different values")
            s0, nx = recs[0][1], [y for l in recs for y in l[4]]
            A = gf2(r, 16, M)
            vals0, step = {}, {}
            for a in atoms:
                loc = a[3]
                vals0[a] = s0.env.get(loc)
                vs = {y.env.get(loc) for y in nx}
                if len(vs) != 1:
                    raise NotLinear("the step depends on a condition")
                step[a] = vs.pop()
            # initial value
            init = gf2(substitute(r, vals0), 16, M)
            chk.expect("initial value" + tag, init == gf2(C(0xFFFF), 16, M), w, "the CRC starts as 0xFFFF", fmt(substitute(r, vals0)))
            byte = EL("buffer", K)
            S = gf2(substitute(r, step), 16, M)
            # specification of the step on the byte-swapped register: r = swap(reg); reg' = (reg >> 8) ^ T[(reg ^ byte) & 0xFF]
            reg = A[8:] + A[:8]
            bv = gf2(byte, 8, M)
            idx = [reg[i] ^ bv[i] for i in range(8)]
            new = reg[8:] + [frozenset()] * 8
            for b in range(8):
                t = 1 << b
                for _ in range(8):
                    t = (t >> 1) ^ 0xA001 if t & 1 else t >> 1
                for i in range(16):
                    if (t >> i) & 1:
                        new[i] = new[i] ^ idx[b]
            want = new[8:] + new[:8]
            bad = [i for i in range(16) if S[i] != want[i]]
            chk.expect("step" + tag, not bad, w, "one byte advances the CRC by the polynomial 0xA001 (reflected 0x8005)",
                       "result bits %s differ" % bad)
            cnt = prove_exit(s, K, n)
            if cnt is False and not T.clean(s):
                cnt = None
            chk.expect("length" + tag, cnt, w, "exactly len bytes are covered", fmt(s.env.get(("exitk", K[1]), ("c", -1))))
            for g in set(subterms(substitute(r, step))):
                if g[0] == "ld" and g[1][0] == "el" and g[1][1][0] == "g":
                    chk.count("table_entries_checked", len(table(M, g[1][1])))
        except NotLinear as e:
            msg = str(e)
            chk.expect("step" + tag, False if msg.startswith("table ") else None, w, "the step is linear over GF(2)", msg)


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def prove_exit(s, K, n):
    """solve_k replaced the iteration count by its value: the exit fact mentions only len."""
    k = s.env.get(("exitk", K[1]))
    return eq_terms(s, k, n) if k is not None else None
