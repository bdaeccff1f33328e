"""V-properties: values of registers as texts and as the bits of the device."""
from common import *
from chk_sched import addfacts
from chk_tasks import put_list, short, ask, nm
import functools
import chk_poll, chk_sched, strmodels
from absint import mentions, cast_int
from chk_poll import Clock, ctor, enumc, THIS, BIG, MS, DEV_UNITS

VAL_UNITS = DEV_UNITS + ["src/bcd_utils.cpp"]


def run(*a, **k):
    T, ps = chk_poll.run(*a, fork=True, **k)
    T.allow = frozenset(OPS)
    return T, ps


def floats(s):
    """What a state says about floating point values: False: nothing has such values; None: more than comparisons of settings with constants."""
    eqs, lo_, hi_ = {}, {}, {}
    for f in s.facts:
        if f[0] != "b" or f[1][0] not in ("eqv", "app"):
            continue
        ab = f[1][1:] if f[1][0] == "eqv" else f[1][2:]
        if f[1][0] == "app" and f[1][1] != "<" or len(ab) != 2:
            continue
        a, b = ab
        c, x = (a, b) if a[0] == "f" else (b, a)
        if c[0] != "f" or x not in (SC, OF, RT):
            return None
        if f[1][0] == "eqv":
            if f[2]:
                if eqs.setdefault(x, c[1]) != c[1]:
                    return False
            else:
                lo_.setdefault(("ne", x), set()).add(c[1])
        elif (c is a) == bool(f[2]):        # c < x, or not x < c
            lo_[x] = max(lo_.get(x, (-1e300, 0)), (c[1], int(bool(f[2]))))
        else:
            hi_[x] = min(hi_.get(x, (1e300, 0)), (c[1], -int(bool(f[2]))))
    for x in (SC, OF, RT):
        (a, sa), (b, sb) = lo_.get(x, (-1e300, 0)), hi_.get(x, (1e300, 0))
        if a > b or a == b and (sa or sb):
            return False
        if a == b and x not in eqs:
            eqs[x] = a
        if x in eqs:
            e = eqs[x]
            if e in lo_.get(("ne", x), ()) or not (a < e or a == e and not sa) or not (e < b or e == b and not sb):
                return False
    return True


def tri(chk, T, s, ok, name, rule, detail=""):
    fl = floats(s) if ok is False else True
    if fl is False:
        return
    chk_sched.tri(chk, T, s, None if fl is None else ok, name, rule, detail)




def exc_is(M, e, name):
    return name in (exc_types(M, e) or ())


REGC = ("obj", ("regcfg",))


def fld(n):
    return ("fld", ("regcfg",), n)


STR = ("par", "text", "str")
SIGNED = {"S8": 8, "S16": 16, "S24": 24, "S32": 32, "S64": 64}
UNSIGNED = {"U8": 8, "U16": 16, "U24": 24, "U32": 32, "U64": 64}
BCD = {"BCD8": 1, "BCD16": 2, "BCD24": 3, "BCD32": 4}
SC, OF, RT = (("ld", ("fld", ("regcfg",), n), 0, "") for n in ("Scale", "Offset", "RoundTo"))
RAW = P("raw", "u64")


def app(n, *a):
    return ("app", n) + a


class Conv(Clock):
    """Conversions between numbers and texts of the library are opaque: what they take, how much of the text, and every failure."""

    def other(self, I, st, fn, obj, args, node):
        sh, n = fn.short, fn.n
        ev = st.ev or ()
        if n in ("std::to_string", "std::__cxx11::to_string"):
            return [(st, app("dec", I.rv(st, args[0])))]
        if sh == "StringFormat":
            return [(st, app("printf", I.rv(st, args[0]), I.rv(st, args[1])))]
        if sh == "StringStartsWith":
            return [(st.withev(ev + (("prefix", I.rv(st, args[1]), r),)), C(r)) for r in (0, 1)]
        if sh in ("stoll", "stoull", "stol", "stoul", "stoi", "stod", "stof", "stold"):
            base = I.rv(st, args[2]) if len(args) > 2 else C(10)
            kind = {"stoll": "i64", "stol": "i64", "stoull": "u64", "stoul": "u64", "stoi": "i32", "stod": "f64"}.get(sh, sh)
            what = I.rv(st, args[0])
            if not mentions(what, STR):
                raise AnalysisError("conversion of another text")
            for x in ("std::invalid_argument", "std::out_of_range"):
                I.throw(st.withev(ev + ((kind, base, x),)), Exc(rec_type(self.M, x), ("sym", "exc", node["id"], ""), node.get("l", 0), None, why="parse"))
            num = P("number", kind) if kind != "f64" else ("par", "real", "")
            outs = []
            loc = I.deref_loc(st, args[1][1]) if len(args) > 1 and args[1][0] in ("ptr", "ref", "addr") else None
            for part_ in ("all", "part") if loc is not None else ("maybe",):
                s = st.withev(ev + ((kind, base, part_),))
                if loc is not None:
                    if part_ == "part":
                        s = addfacts(s, LE(ONE, P("taken", "sz")), LE(P("taken", "sz"), sub(SIZE, ONE)))
                    s = s.set(loc, SIZE if part_ == "all" else P("taken", "sz"))
                outs.append((s, num))
            return outs
        if sh in ("size", "length") and obj is not None and I.load(st, obj) == STR:
            return [(st, SIZE)]
        if sh in ("memcpy", "memmove") and len(args) == 3:
            d, x = (I.deref_loc(st, a[1]) if a[0] in ("ptr", "ref", "addr") else None for a in args[:2])
            if d is not None and x is not None and is_c(I.rv(st, args[2])):
                return [(I.store(st, d, app("copied", I.rv(st, args[2]), I.load(st, x))), args[0])]
        if sh in ("llround", "lround", "llrint", "lrint", "llroundl"):
            return [(st, app(sh, I.rv(st, args[0])))]
        if sh in ("IntToPackedBCD", "PackedBCD2Int"):
            return [(st, app(sh, I.rv(st, args[0]), I.rv(st, args[1])))]
        return None


SIZE = app("len", STR)


def same(s, a, b):
    """Two terms, equal in every part; None: the first holds something unknown."""
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == b[:1] == ("app",) and len(a) == len(b) and a[1] == b[1]:
        r = [same(s, x, y) for x, y in zip(a[2:], b[2:])]
        if a[1] in ("f*", "f+") and False in r:
            r2 = [same(s, x, y) for x, y in zip(a[2:], reversed(b[2:]))]
            r = r2 if False not in r2 else r
        return False if False in r else None if None in r else True
    if is_num(a) and is_num(b):
        return [x for _, x in ask([s], EQ(a, b))] == [True]
    if unclean(a, frozenset(OPS)):
        return None
    return False


OPS = ("dec", "printf", "copied", "llround", "IntToPackedBCD", "PackedBCD2Int", "f*", "f+", "f-", "f/", "round", "tofloat", "fcast", "strn", "round", "copied", "<", "cstr", "tofloat32")


def unscaled(s, *also):
    """[(state, Scale == 1 and Offset == 0 and ...)]"""
    sts = [(s, True)]
    for t in (("eqv", ("f", 1.0), SC), ("eqv", ("f", 0.0), OF)) + also:
        sts = [(y, a and b) for x, a in sts for y, b in (decide(x, t) if a else [(x, False)])]
    return sts


def rounded(s, v):
    """[(state, RoundValue(v))]"""
    return [(y, app("f*", ("app", "round", app("f/", v, RT), ""), RT) if t else v) for y, t in decide(s, app("<", ("f", 0.0), RT))]


@check("V01", "all paths of the conversion of register values, for every format, over all values, texts and settings", "the text and the bits equal those of the reference", only=VAL_UNITS)
def v01(chk, M):
    fm, vt, ws = enumc(M, "RegisterFormat"), enumc(M, "TRegisterValue::ValueType"), enumc(M, "WordSizes")
    ws = {v[1]: v for v in ws.values()}
    w = Conv(M)
    get, put = M.one("ConvertFromRawValue"), M.one("ConvertToRawValue")
    V = ("val",)

    def base(f, typ):
        st = St(ev=())
        st.env[fld("Format")] = fm[f]
        st.env[("fld", V, "Type")] = vt[typ]
        st.env[("fld", V, "IntegerValue")] = RAW
        st.env[("fld", V, "StringValue")] = STR
        return st

    def sx(n):
        return sub(bits(RAW, 0, n), scale(bits(RAW, n - 1, 1), 2**n))

    def reading():
        for f in fm:
            text = f in ("String", "String8")
            for typ in ("Undefined", "Integer", "String"):
                T, ps = run(chk, M, w, get, [REGC, ("obj", V)], base(f, typ), "%s as text%s" % (f, "" if typ == ("String" if text else "Integer") else ", " + typ))
                for k, s, v in ps:
                    if typ != ("String" if text else "Integer"):
                        tri(chk, T, s, k == "throw" and exc_is(M, v, "TRegisterValueException"), "type", "a value of another type is refused", "returns" if k == "ret" else str(v.type))
                        continue
                    if k != "ret":
                        tri(chk, T, s, False, "text", "a value can be shown", "raises %s" % v.type)
                        continue
                    got = T.I.rv(s, v)
                    if text:
                        tri(chk, T, s, same(s, got, STR), "text", "a text is shown as it is", fmt(got))
                        continue
                    if f == "Char8":
                        c = strmodels.chars(got)
                        c = c[0] if c is not None and len(c) == 1 else got[3] if got[:2] == ("app", "strn") and got[2] == ONE else None
                        ok = None if c is None else any(same(s, c, x) for x in (bits(RAW, 0, 8), sub(bits(RAW, 0, 8), scale(bits(RAW, 7, 1), 256))))
                        tri(chk, T, s, ok, "text", "a character is shown as it is", fmt(got))
                        continue
                    if f in ("Float", "Double"):
                        n = 4 if f == "Float" else 8
                        x = app("copied", C(n), RAW)
                        for y, r in rounded(s, app("f+", app("f*", app("fcast", C(64), x) if f == "Float" else x, SC), OF)):
                            tri(chk, T, y, same(y, got, app("printf", ("s", "%.7g" if f == "Float" else "%.15g"), r)), "text",
                                "a floating point number is scaled, offset, rounded and shown with 7 or 15 digits", fmt(got)[:900])
                        continue
                    x = sx(SIGNED[f]) if f in SIGNED else app("PackedBCD2Int", RAW, ws[BCD[f]]) if f in BCD else bits(RAW, 0, 8) if f == "U8" else RAW
                    alt = [x] if f not in UNSIGNED else [x, bits(RAW, 0, UNSIGNED[f])]
                    for y, plain in unscaled(s, ("eqv", ("f", 0.0), RT)):
                        if plain:
                            r = [same(y, got, app("dec", a)) for a in alt]
                            tri(chk, T, y, True if True in r else r[0], "text", "an integer is shown exactly", fmt(got)[:900])
                            continue
                        oks = []
                        for a in alt:
                            for z, t in rounded(y, app("f+", app("f*", app("tofloat", a), SC), OF)):
                                oks.append((z, same(z, got, app("printf", ("s", "%.15g"), t))))
                        if any(o for _, o in oks):
                            oks = [(z, o) for z, o in oks if o]
                        for z, o in oks:
                            tri(chk, T, z, o, "text", "a number is scaled, offset, rounded and shown with 15 digits", fmt(got)[:900])
    part(chk, "reading", reading)

    def writing():
        for f in fm:
            for hexa in (0, 1):
                st = base(f, "Undefined")
                st = addfacts(st, LE(ZERO, SIZE))
                T, ps = run(chk, M, w, put, [REGC, STR], st, "%s from text" % f)
                for k, s, v in ps:
                    judge(T, f, k, s, v)
                if f in ("Char8", "String", "String8") or True:
                    break

    def judge(T, f, k, s, v):
        ev = list(s.ev or ())
        rule = "a text is converted to exactly the bits of the format"
        if k == "ret":
            L = T.I.deref_loc(s, v[1]) if v[0] in ("obj", "ref") else None
            if L is None:
                tri(chk, T, s, None, "bits", rule, fmt(v))
                return
            typ, num, txt = (T.I.load(s, ("fld", L, n)) for n in ("Type", "IntegerValue", "StringValue"))
        if f in ("String", "String8"):
            tri(chk, T, s, k == "ret" and typ == vt["String"] and (same(s, txt, STR) if k == "ret" else False), "bits", "a text is written as it is", fmt(txt) if k == "ret" else "raises")
            return
        if f == "Char8":
            if k != "ret":
                tri(chk, T, s, False, "bits", "a character is written as it is", "raises")
                return
            for y, e in decide(s, LE(SIZE, ZERO)):
                c = T.I.load_el(y, STR, ZERO, None)
                ok = typ == vt["Integer"] and (num == ZERO if e else None if not is_num(num) else True)
                tri(chk, T, y, ok, "bits", "a character is written as it is, no text as 0", fmt(num))
            return
        real = f in ("Float", "Double")
        signed = f in SIGNED
        n = SIGNED.get(f) or UNSIGNED.get(f) or 8 * BCD.get(f, 0) or 64
        pre = {e[1]: e[2] for e in ev if e[0] == "prefix"}
        hexa = any(r and p in (("s", "0x"), ("s", "0X")) for p, r in pre.items())
        calls = [e for e in ev if e[0] in ("i64", "u64", "i32", "f64", "stof", "stold")]
        want_kind = "f64" if real else "i64" if signed else "u64"
        for y, empty in decide(s, LE(SIZE, ZERO)):
            if empty:
                tri(chk, T, y, k == "throw" and not calls, "refused", "an empty text is not a number", "%s after %s" % (k, calls))
                continue
            if not real and (set(pre) != {("s", "0x"), ("s", "0X")} if not hexa else not pre):
                tri(chk, T, y, None if not pre else False, "base", "a text that starts with 0x or 0X is hexadecimal", "prefixes %s" % pre)
                continue
            if not calls or calls[0][0] != want_kind or not real and calls[0][1] != C(16 if hexa else 10):
                tri(chk, T, y, False, "base", "the text is read as a number of the kind and base it has", "read as %s" % [(c[0], fmt(c[1])) for c in calls])
                continue
            if not real and calls[0][2] == "all":
                x = P("number", want_kind)
                for z, plain in unscaled(y):
                    r = x if plain else app("llround", app("f/", app("f-", app("tofloat", x), OF), SC))
                    raw(T, f, k, z, v, r, n, signed, typ if k == "ret" else None, num if k == "ret" else None, rule)
                continue
            if not real and (calls[0][2] == "std::out_of_range" or hexa):
                tri(chk, T, y, k == "throw", "refused", "a number out of range, or a text that is no hexadecimal number, is refused", "accepted")
                continue
            c = calls[0] if real else calls[1] if len(calls) > 1 else None
            if c is None or c[0] != "f64" or len(calls) > (1 if real else 2):
                tri(chk, T, y, False if k == "ret" or c is None else None, "base", "a text that is no integer is read as a real number", "read as %s" % [(c[0], fmt(c[1])) for c in calls])
                continue
            if c[2] != "all":
                tri(chk, T, y, k == "throw", "refused", "a text that is no number as a whole is refused", "accepted after %s" % (c,))
                continue
            for z, q in rounded(y, ("par", "real", "")):
                d = app("f/", app("f-", q, OF), SC)
                if real:
                    if k != "ret":
                        tri(chk, T, z, False, "bits", rule, "refused")
                        continue
                    wants = [app("copied", C(4), app("fcast", C(32), d)), app("copied", C(4), app("tofloat32", d))] if f == "Float" else [app("copied", C(8), d)]
                    r = [same(z, num, x) for x in wants]
                    tri(chk, T, z, typ == vt["Integer"] and (True if True in r else r[0]), "bits", "a real number is rounded, its offset and scale undone, and written in the precision of the format", fmt(num)[:900])
                    continue
                raw(T, f, k, z, v, app("llround", d), n, signed, typ if k == "ret" else None, num if k == "ret" else None, rule)

    def raw(T, f, k, z, v, r, n, signed, typ, num, rule):
        """The bits of the integer r."""
        scaled = r[0] == "app"
        if scaled and not signed:
            sts = decide(z, LE(r, C(-1)))
        else:
            sts = [(z, False)]
        for y, neg in sts:
            if neg:
                tri(chk, T, y, k == "throw", "refused", "a negative number is refused by an unsigned format once scaled", "accepted: %s" % (fmt(num) if num else ""))
                continue
            if k != "ret":
                tri(chk, T, y, False, "bits", rule, "refused")
                continue
            x = bits(r, 0, n) if n < 64 else r
            if f in BCD:
                x = app("IntToPackedBCD", x, ws[BCD[f]])
            r_ = [same(y, num, a) for a in ([x, bits(x, 0, 64)] if n < 64 else [r, bits(r, 0, 64), cast_int(y, r, int_type(M, "u64"))])]
            ok = True if True in r_ else r_[0]
            tri(chk, T, y, typ == vt["Integer"] and ok, "bits", rule, "%s, expected %s" % (fmt(num)[:150], fmt(x)[:150]))
    part(chk, "writing", writing)


# --------------------------------------------------------------------------- V02
@check("V02", "all paths of the functions that describe a register, over all formats, widths, offsets and addresses", "the width, access and address equal those of the reference", only=VAL_UNITS)
def v02(chk, M):
    fm, vt, acc = enumc(M, "RegisterFormat"), enumc(M, "TRegisterValue::ValueType"), enumc(M, "TRegisterConfig::EAccessType")
    w = Conv(M)
    A = ("fld", THIS, "Address")
    DO, DW = (("ld", ("fld", A, n), 0, "u32") for n in ("DataOffset", "DataWidth"))

    def nbytes(f):
        d = "".join(c for c in f[1:] if c.isdigit())
        return {"Float": 4, "Double": 8, "Char8": 1, "String": 0, "String8": 0}.get(f) if f in ("Float", "Double", "Char8", "String", "String8") else int(d) // 8

    def value(name, T, ps, want, rule):
        for k, s, v in ps:
            if k != "ret":
                tri(chk, T, s, False, name, rule, "raises")
                continue
            v = T.I.rv(s, v)
            for y, x in (want(s) if callable(want) else [(s, want)]):
                if isinstance(x, bool):
                    r = [t for _, t in decide(y, v if v[0] in ("le", "eq", "not", "and", "or", "b", "ne", "eqv") else ("not", ("eq", v)))]
                    tri(chk, T, y, None if len(r) != 1 else r[0] == x, name, rule, "%s, expected %s" % (fmt(v), x))
                else:
                    tri(chk, T, y, same(y, v, x), name, rule, "%s, expected %s" % (fmt(v), fmt(x)))

    def widths():
        for f in fm:
            n = nbytes(f)
            text = f in ("String", "String8")
            T, ps = run(chk, M, w, M.one("RegisterFormatByteWidth"), [fm[f]], St(ev=()), f)
            value("bytes", T, ps, C(n), "a format is as wide as its name says")
            st = St(ev=())
            st.env[("fld", THIS, "Format")] = fm[f]
            st = addfacts(st, LE(ZERO, DO), LE(ZERO, DW), LE(DO, C(1000)), LE(DW, C(1000)))
            get = lambda n_: run(chk, M, w, M.one("TRegisterConfig::" + n_), [], st, f)
            T, ps = get("GetByteWidth")
            value("bytes", T, ps, C(n), "a register is as wide as its format")
            width = lambda s: [(y, C(8 * n) if z else DW) for y, z in decide(s, EQ(DW, 0))]
            T, ps = get("GetDataWidth")
            value("bits", T, ps, width, "the data is as wide as configured, or as the format")
            T, ps = get("GetDataOffset")
            value("offset", T, ps, DO, "the data starts at the configured bit")
            T, ps = get("IsPartial")
            value("partial", T, ps, lambda s: [(y, not z) for y, z in decide(s, EQ(DW, 0))], "data of configured width is a part of the register")
            T, ps = get("IsString")
            value("text", T, ps, text, "the text formats are texts")
            T, ps = get("Get16BitWidth")
            rule = "a register spans the 16-bit words its format and its data need, a text the words of its characters"
            for k, s, v in ps:
                if k != "ret":
                    tri(chk, T, s, False, "words", rule, "raises")
                    continue
                v = T.I.rv(s, v)
                for y, d in width(s):
                    if text:
                        cases = [(y, d, 8, False)]
                    else:
                        cases = [(z, C(8 * n) if m else add(DO, d), 16, True) for z, m in decide(y, LE(add(DO, d), C(8 * n)))]
                    for z, tot, per, up in cases:
                        lo_, hi_ = (tot, add(tot, C(per - 1))) if up else (sub(tot, C(per - 1)), tot)
                        r = [t1 and t2 for x, t1 in decide(z, LE(lo_, scale(v, per))) for _, t2 in decide(x, LE(scale(v, per), hi_))]
                        ok = True if all(r) else False if not any(r) or not unclean(v) else None
                        tri(chk, T, z, ok, "words", rule, "%s for %s bits" % (fmt(v), fmt(tot)))
    part(chk, "widths", widths)

    def construct():
        b = ctor(M, "TRegisterConfig")
        DP = ("par", "desc", "")
        D = ("obj", ("desc",))
        names = [p.n for p in b.ps]
        for f in fm:
            for ra in (0, 1):
                for wa in (0, 1):
                    for ro in (0, 1):
                        st = St(ev=())
                        for n, p in (("Address", ra), ("WriteAddress", wa)):
                            st.env[("fld", ("desc",), n)] = ("ptr", ("obj", ("addr", n))) if p else ("null",)
                        o = P("data_offset", "u32")
                        st.env[("fld", ("desc",), "DataOffset")] = o
                        st.env[("fld", ("desc",), "DataWidth")] = P("data_width", "u32")
                        st = addfacts(st, LE(ZERO, o))
                        args = []
                        for p in b.ps:
                            n = p.n
                            args.append(D if "ddress" in n else fm[f] if n == "format" else C(ro) if n == "readonly" else P("arg_" + n, "str") if "name" in n else P("arg_" + n, "i32" if n == "type" else ""))
                        T, ps = run(chk, M, w, b, args, st, "%s register read %d write %d%s" % (f, ra, wa, " readonly" if ro else ""))
                        for k, s, v in ps:
                            bad = not ra and not wa or ro and not ra
                            for y, wide in decide(s, LE(C(8 * nbytes(f)), o)) if f not in ("String", "String8") else [(s, False)]:
                                if k != "ret":
                                    tri(chk, T, y, (bad or wide) and exc_is(M, v, "TSerialDeviceException"), "accepted", "a register with an address and data within its bits is accepted", "%s" % v.type)
                                    continue
                                got = T.I.load(y, ("fld", THIS, "AccessType"))
                                want = acc["WRITE_ONLY"] if not ra else acc["READ_ONLY"] if ro else acc["READ_WRITE"]
                                tri(chk, T, y, not bad and not wide and same(y, got, want), "access", "a register without read address is write-only, a readonly one read-only; others are refused if contradictory", fmt(got))
                                for n, p in (("Type", "type"), ("Format", "format"), ("Scale", "scale"), ("Offset", "offset"), ("RoundTo", "round_to"), ("SporadicMode", "sporadic"), ("WordOrder", "word_order"), ("ByteOrder", "byte_order")):
                                    g = T.I.load(y, ("fld", THIS, n))
                                    tri(chk, T, y, same(y, g, args[names.index(p)]), n, "the description is taken over", fmt(g))
            if chk.tier == "quick" and f not in ("U8", "S24", "Float", "String"):
                continue
    part(chk, "construct", construct)

    def addresses():
        b = M.one("TUint32RegisterAddress::CalcNewAddress")
        off, stride = (P(n, "u32") for n in ("offset", "stride"))
        a = ("ld", ("fld", THIS, "Address"), 0, "u32")
        st = St(ev=())
        for x, m in ((off, 2**20), (stride, 2**10), (a, 2**20)):
            st = addfacts(st, LE(ZERO, x), LE(x, C(m)))
        rule = "the n-th element is the given offset and n times the width further, in steps of the type rounded up"
        for wid in (1, 2, 3, 4, 8):
            for step in range(9):
                T, ps = run(chk, M, w, b, [off, stride, C(wid), C(step)], st, "element of %d bytes, step %d" % (wid, step))
                for k, s, v in ps:
                    if k != "ret":
                        tri(chk, T, s, False, "element", rule, "raises")
                        continue
                    L = T.I.deref_loc(s, v[1]) if v[0] in ("ptr", "ref", "addr", "obj") else None
                    L = L[1] if L and L[0] == "obj" else L
                    got = T.I.load(s, ("fld", L, "Address"))
                    q, n, p = sub(sub(got, a), off), scale(stride, wid), step or 1
                    r = [t1 and t2 for x, t1 in decide(s, LE(n, scale(q, p))) for _, t2 in decide(x, LE(scale(q, p), add(n, C(p - 1))))]
                    tri(chk, T, s, True if all(r) else False if not any(r) or not unclean(got) else None, "element", rule, fmt(got))
        b = M.one("TUint32RegisterAddress::Compare")
        a2 = P("other_address", "u32")
        st = St(ev=())
        st.env[("fld", ("other",), "Address")] = a2
        T, ps = run(chk, M, w, b, [("obj", ("other",))], st, "compare")
        for k, s, v in ps:
            if k != "ret":
                tri(chk, T, s, None if "bad_cast" in str(v.type) else False, "order", "addresses are ordered as numbers", str(v.type))
                continue
            for y, lt in decide(s, LE(add(a, ONE), a2)):
                for z, eq in decide(y, EQ(a, a2)) if not lt else [(y, False)]:
                    tri(chk, T, z, same(z, T.I.rv(z, v), C(-1) if lt else ZERO if eq else ONE), "order", "addresses are ordered as numbers", fmt(v))
    part(chk, "addresses", addresses)

    def values():
        V, O = THIS, ("other",)
        I_, S_, T_ = (lambda o, n=n: ("fld", o, n) for n in ("IntegerValue", "StringValue", "Type"))
        num = {o: P("num" + str(o[0]), "u64") for o in (V, O)}
        txt = {o: P("txt" + str(o[0]), "str") for o in (V, O)}

        def objs(t, u=None):
            st = St(ev=())
            for o, x in ((V, t), (O, u)):
                if x is not None:
                    st.env[T_(o)], st.env[I_(o)], st.env[S_(o)] = vt[x], num[o], txt[o]
            return st
        for b in [b for b in M.bodies.values() if b.fn.n == "TRegisterValue::Get"]:
            rt = b.fn.r.s
            for t in vt:
                T, ps = run(chk, M, w, b, [], objs(t), "value %s as %s" % (t, short(rt) if False else rt))
                text = "string" in rt
                for k, s, v in ps:
                    if t != ("String" if text else "Integer"):
                        tri(chk, T, s, k != "ret" and exc_is(M, v, "TRegisterValueException"), "type", "a value of another type is refused", "accepted" if k == "ret" else str(v.type))
                    elif k != "ret":
                        tri(chk, T, s, False, "value", "the value is returned", "raises")
                    else:
                        g = T.I.rv(s, v)
                        want = [txt[V]] if text else [cast_int(s, num[V], b.fn.r.noref)]
                        r = [same(s, g, x) for x in want]
                        tri(chk, T, s, True if True in r else r[0], "value", "the value is returned in the width asked for", "%s, expected %s" % (fmt(g), fmt(want[0])))
        eqs = [b for b in M.bodies.values() if b.fn.n in ("TRegisterValue::operator==", "TRegisterValue::operator!=") and b.ps and "TRegisterValue" in b.ps[0].t.s]
        for b in eqs:
            for t in vt:
                for u in vt:
                    T, ps = run(chk, M, w, b, [("obj", O)], objs(t, u), "%s %s %s" % (t, b.fn.short[8:], u))
                    neg = "!=" in b.fn.n
                    cond = ("eq", sub(num[V], num[O])) if t == "Integer" else ("eq", sub(txt[V], txt[O]))
                    want = neg if t != u else not neg if t == "Undefined" else (lambda s: [(y, z != neg) for y, z in decide(s, cond)])
                    value("equal", T, ps, want, "values are equal when of the same type and the same content")
    part(chk, "values", values)
