from common import *

EXPL = ("Abstract interpretation over symbolic arguments; every function is reduced to a path table valid for all inputs, "
        "which is compared with the specification table written in the check.")


def digit(x, i):
    """i-th decimal digit"""
    return imod(idiv(x, 10 ** i), 10)


@check("B01", EXPL, "the result term of every function equals the positional BCD formula for every input and field width", only=CORE)
def b01(chk, M):
    for n in (1, 2, 3, 4):
        v = P("value", "u64")
        T = Table(chk, Interp(M), M.one("IntToBCDArray"), ["value"], overrides={1: C(n)}, tag="IntToBCDArray")
        T.case("width %d" % n, [], T.bytes_(C(n), [(n - 1 - i, add(digit(v, 2 * i), scale(digit(v, 2 * i + 1), 16))) for i in range(n)]),
               "byte i from the end holds decimal digits 2i (low nibble) and 2i+1 (high nibble)")
        v = P("value", "u32")
        T = Table(chk, Interp(M), M.one("IntToPackedBCD"), ["value"], overrides={1: C(n)}, tag="IntToPackedBCD")
        t = ZERO
        for i in range(2 * n):
            t = add(t, scale(digit(v, i), 16 ** i))
        T.case("width %d" % n, [], T.returns(t), "nibble i holds decimal digit i")
        v = P("packed", "u64")
        T = Table(chk, Interp(M), M.one("PackedBCD2Int"), ["packed"], overrides={1: C(n)}, tag="PackedBCD2Int")
        t = ZERO
        for i in range(2 * n):
            t = add(t, scale(bits(v, 4 * i, 4), 10 ** i))
        T.case("width %d" % n, [], T.returns(t), "the number is the sum of nibble i times 10^i")
        T = Table(chk, Interp(M), M.one("PackBytes"), ["bytes"], overrides={1: C(n)}, tag="PackBytes")
        t = ZERO
        for i in range(n):
            t = add(t, scale(EL("bytes", n - 1 - i), 256 ** i))
        T.case("width %d" % n, [], T.returns(t), "the bytes read as one big-endian number")


@check("B02", EXPL, "masks and 16-bit stores equal their definition for every argument", only=CORE)
def b02(chk, M):
    b = P("bits", "u8")
    T = Table(chk, Interp(M), M.one("BinUtils::GetLSBMask"), ["bits"], tag="GetLSBMask")
    for n in range(0, 64):
        T.case("%d bits" % n, [(EQ(b, n), True)], at_value(T, b, n, C((1 << n) - 1)), "exactly the n least significant bits are set")
    T.case("64 bits and more", [(LE(64, b), True)], T.returns(C(2 ** 64 - 1)), "all 64 bits are set")
    T = Table(chk, Interp(M), M.one("BinUtils::WriteAs2Bytes"), ["dst", "val"], tag="WriteAs2Bytes")
    v = P("val", "u16")
    et = int_type(M, "u8")

    def stored(st, kind, x):
        if kind != "ret":
            return False, "throws"
        for i, t in ((0, hi(v)), (1, lo(v))):
            y = T.I.load_el(st, ("p", "dst"), C(i), et)
            r = eq_terms(st, y, t)
            if r is not True:
                return r, "byte %d is %s" % (i, fmt(y))
        return True, ""
    T.case("big-endian", [], stored, "the high byte is stored first")


def at_value(T, par, n, want):
    """The result with the parameter replaced by a constant."""
    def f(st, kind, v):
        if kind != "ret":
            return False, "throws"
        x = fold(v, {par: C(n)})
        return eq_terms(st, x, want), "is %s" % fmt(x)
    return f


def fold(t, m):
    """t with leaves replaced, re-normalised."""
    if t in m:
        return m[t]
    if t[0] == "lin":
        r = C(t[1])
        for a, c in t[2]:
            r = add(r, scale(fold(a, m), c))
        return r
    if t[0] == "bits":
        return bits(fold(t[1], m), t[2], t[3])
    if t[0] == "app":
        xs = [fold(x, m) if isinstance(x, tuple) else x for x in t[2:]]
        if all(isinstance(x, tuple) and x[0] == "c" for x in xs) and t[1] in witness.OPS:
            try:
                return C(witness.ev(("app", t[1]) + tuple(xs), {}))
            except witness.NoValue:
                pass
        return ("app", t[1]) + tuple(xs)
    return t


UT = {"unsigned short": ("u16", 2), "unsigned int": ("u32", 4), "unsigned long": ("u64", 8)}


def inst(M, name, targ, pred=lambda b: True):
    """An instantiation of a function template whose template arguments include targ."""
    r = [b for b in M.bodies.values() if b.fn.n == name and b.fn.ta and any(t.s == targ for t in b.fn.ta) and pred(b)]
    if not r:
        raise AnalysisError("anchor vanished: %s<%s>" % (name, targ))
    return r[0]


@check("B03", EXPL, "the assembled number is the positional sum of the bytes in the named byte order, and appending writes exactly those bytes", only=CORE)
def b03(chk, M):
    buf = ("p", "buf")
    at = lambda i: ("ptr", buf, C(i))
    et = int_type(M, "u8")
    for tn, (tag, w) in UT.items():
        for nm, big in (("Get", False), ("GetBigEndian", True)):
            for n in range(0, w + 1):
                T = Table(chk, Interp(M), inst(M, "BinUtils::" + nm, tn), overrides={0: at(0), 1: at(n)}, tag="%s<%s>" % (nm, tag))
                t = ZERO
                for i in range(n):
                    t = add(t, scale(EL("buf", i), 256 ** (n - 1 - i if big else i)))
                T.case("%d bytes" % n, [], T.returns(t), "the bytes in %s-endian order" % ("big" if big else "little"))
        for nm, big in (("GetFrom", False), ("GetFromBigEndian", True)):
            T = Table(chk, Interp(M), inst(M, "BinUtils::" + nm, tn), overrides={0: at(0)}, tag="%s<%s>" % (nm, tag))
            t = ZERO
            for i in range(w):
                t = add(t, scale(EL("buf", i), 256 ** (w - 1 - i if big else i)))
            T.case("whole number", [], T.returns(t), "as many bytes as the type has, in %s-endian order" % ("big" if big else "little"))
        v = P("value", tag)
        n0 = SZ("out")
        for nm, big in (("Append", False), ("AppendBigEndian", True)):
            for n in range(1, w + 1):
                T = Table(chk, Interp(M), inst(M, "BinUtils::" + nm, tn), ["", "value"], overrides={0: ("bi", ("p", "out")), 2: C(n)},
                          tag="%s<%s>" % (nm, tag))

                def appended(st, kind, x, n=n, big=big):
                    if kind != "ret":
                        return False, "throws"
                    return seq_is(T.I, st, ("p", "out"), add(n0, C(n)),
                                  [(add(n0, C(i)), bits(v, 8 * (n - 1 - i if big else i), 8)) for i in range(n)] +
                                  [(ZERO, EL("out", 0))] * 0)
                T.case("%d bytes" % n, [], appended, "the %d low bytes are appended in %s-endian order" % (n, "big" if big else "little"))


RULES = ((0xC0, (0xDB, 0xDC)), (0xDB, (0xDB, 0xDD)))


def stuffing_state(rules, n, order=None):
    """Entry state: n symbolic data bytes, the rules map with the given entries."""
    st = St()
    st.env[("size", ("p", "data"))] = C(n)
    loc = ("p", "rules")
    st.env[("ents", loc)] = ("entsv",) + tuple(C(k) for k, _ in rules)
    for i, (k, vs) in enumerate(rules):
        e = ("mapent", loc, i)
        st.env[("fld", e, "first")] = C(k)
        s = ("fld", e, "second")
        st.env[("size", s)] = C(len(vs))
        st.env[("log", s)] = tuple(("w", C(j), C(x)) for j, x in enumerate(vs))
    return st


def b04_cases(n, rules, decode):
    """[(guards, output terms)]: the reference codec, written as a case tree over the bytes."""
    d = lambda i: EL("data", i)

    def go(i, guard, out):
        if i >= n:
            yield guard, out
            return
        conds = []
        for k, vs in rules:
            if decode:
                if i + len(vs) > n:
                    continue
                c = [EQ(d(i + j), x) for j, x in enumerate(vs)]
                conds.append((c, i + len(vs), [C(k)]))
            else:
                conds.append(([EQ(d(i), k)], i + 1, [C(x) for x in vs]))
        neg = []
        for c, nxt, o in conds:
            yield from go(nxt, guard + neg + [(t, True) for t in c], out + o)
            t = c[0]
            for x in c[1:]:
                t = ("and", t, x)
            neg = neg + [(t, False)]
        yield from go(i + 1, guard + neg, out + [d(i)])
    return list(go(0, [], []))


@check("B04", EXPL, "for every byte string up to the stated length the output is exactly the reference encoding or decoding", only=CORE)
def b04(chk, M):
    for rules, rn in ((RULES, "two rules"), (RULES[::-1], "two rules, other order"), (((0x7D, (0x7D, 0x01, 0x02)), (0x10, (0x7D, 0x00))), "replacements of different length"),
                      (((1, (0x41, 0x42)), (2, (0x42, 0x43))), "escapes that overlap"), (((2, (0x42, 0x43)), (1, (0x41, 0x42))), "escapes that overlap, other order"),
                      (((0, (0xC0, 0x01)), (0xFF, (0xC0, 0x02))), "bytes 0 and 255")):
        for n in range(0, 5):
            T = Table(chk, Interp(M), M.one("BinUtils::DecodeByteStuffing"), ["data", "rules"], st=stuffing_state(rules, n), tag="DecodeByteStuffing")
            for j, (g, out) in enumerate(b04_cases(n, rules, True)):
                T.case("%s/%d bytes/%d" % (rn, n, j), g, stuffed(T, ("p", "data"), ZERO, out), "escape sequences are replaced by the byte they stand for, all others kept")
            T = Table(chk, Interp(M), M.one("BinUtils::ApplyByteStuffing"), ["data", "rules"], st=stuffing_state(rules, n),
                      overrides={2: ("bi", ("p", "out"))}, tag="ApplyByteStuffing")
            for j, (g, out) in enumerate(b04_cases(n, rules, False)):
                T.case("%s/%d bytes/%d" % (rn, n, j), g, stuffed(T, ("p", "out"), SZ("out"), out), "bytes with a rule become their escape sequence, all others are kept")


def stuffed(T, loc, base, out):
    def f(st, kind, v):
        if kind != "ret":
            return False, "throws"
        return seq_is(T.I, st, loc, add(base, C(len(out))), [(add(base, C(i)), t) for i, t in enumerate(out)])
    return f
