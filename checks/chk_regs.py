"""R-properties: registers of Modbus devices: reading, writing, grouping into requests, setup."""
from common import *
from chk_sched import addfacts
from chk_tasks import put_list, short, ask, nm
from absint import mentions, cast_int
import functools, itertools, math
import chk_poll, chk_sched, strmodels
from chk_poll import Clock, enumc, THIS, BIG, raiser

REG_UNITS = ["src/modbus_common.cpp", "src/modbus_base.cpp", "src/bin_utils.cpp", "src/register.cpp", "src/register_value.cpp", "src/common_utils.cpp"]
DATA = ("data",)
CACHE = ("ref", ("cache",))


def run(*a, **k):
    return chk_poll.run(*a, fork=True, **k)


tri = chk_sched.tri


def app(n, *a):
    return ("app", n) + a


class Wire(Clock):
    """Exchanges with the device are opaque: what is asked, the reply of a given length with arbitrary content, and every failure."""
    CODES = {"illegal": ("Modbus::TModbusExceptionError", (1, 2, 3)), "failure": ("Modbus::TModbusExceptionError", (4, 255)),
             "malformed": ("Modbus::TMalformedResponseError", None), "unexpected": ("Modbus::TUnexpectedResponseError", None),
             "silent": ("TResponseTimeoutException", None), "port": ("TSerialDeviceException", None)}

    def __init__(self, M, n=0, fail=True):
        Clock.__init__(self, M)
        self.n, self.fail = n, fail

    def content(self, I, st, a):
        """Elements of a vector given to a call."""
        l = I.deref_loc(st, a[1]) if a[0] in ("ref", "obj") else None
        n = I.size_of(st, l) if l is not None else None
        if n is None or not is_c(n):
            raise AnalysisError("data of unknown length")
        return tuple(I.load_el(st, l, C(i), int_type(self.M, "u8")) for i in range(n[1]))

    def reg(self, I, st, o):
        for x in ("r1", "r2", "r3"):
            if mentions(o, x):
                return x
        return None

    def other(self, I, st, fn, obj, args, node):
        sh, c = fn.short, fn.cls or ""
        ev = st.ev or ()
        o = I.deref_loc(st, obj) if obj is not None else None
        if sh == "GetUint32RegisterAddress":
            a = args[0]
            r = repr(a)
            for k, v in st.env.items():
                if isinstance(k, tuple) and k[0] == "addr" and repr(k[1]) in r:
                    return [(st, v)]
            return None
        if sh in ("GetAddress", "GetWriteAddress") and "RegisterConfig" in c:
            if sh == "GetAddress" and st.env.get(("fld", o, "AccessType")) == enumc(self.M, "TRegisterConfig::EAccessType")["WRITE_ONLY"]:
                raiser(I, self.M, st, node, "TSerialDeviceException")
                return []
            return [(st, ("ref", ("address", self.cfg(o), "write" if "Write" in sh else "read")))]
        if sh == "RegisterList":
            return [(st, ("ref", ("regs",)))]
        if sh == "MakePDU":
            t = ("tmp", I.frame(), node["id"], "pdu")
            return [(put_list(st, t, [app("pdu", *(tuple(I.rv(st, a) for a in args[:3]) + self.content(I, st, args[3])))]), ("obj", t))]
        if sh == "CalcResponsePDUSize":
            return [(st, app("reply", *(I.rv(st, a) for a in args)))]
        if sh == "Transaction":
            p = self.content(I, st, args[2])
            p = p[0] if len(p) == 1 else ("unk",)
            s = st.withev(ev + (("sent", I.rv(st, args[1]), p, I.rv(st, args[3])),))
            if self.fail:
                for k in ("malformed", "unexpected", "silent", "port"):
                    raiser(I, self.M, s.withev(s.ev + (("failed", k),)), node, self.CODES[k][0])
            t = ("tmp", I.frame(), node["id"], "reply")
            s = s.copy()
            s.env[("fld", t, "ResponseTime")] = P("response_time", "")
            return [(s, ("obj", t))]
        if sh == "ExtractResponseData":
            s = st.withev(ev + (("parsed", I.rv(st, args[0])),))
            if self.fail:
                for k in ("malformed", "unexpected"):
                    raiser(I, self.M, s.withev(s.ev + (("failed", k),)), node, self.CODES[k][0])
                for k in ("illegal", "failure"):
                    for code in self.CODES[k][1]:
                        raiser(I, self.M, s.withev(s.ev + (("failed", k, C(code)),)), node, self.CODES[k][0])
            t = ("tmp", I.frame(), node["id"], "content")
            s = put_list(s, t, [P("byte%d" % i, "u8") for i in range(self.n)])
            return [(s, ("obj", t))]
        if sh == "GetExceptionCode":
            f = [e for e in ev if e[0] == "failed"][-1]
            return [(st, f[2])]
        if sh == "what":
            return [(st, P("what", "str"))]
        if sh == "SkipNoise":
            self_ = st.withev(ev + (("noise",),))
            if self.fail:
                raiser(I, self.M, self_, node, "TSerialDeviceException")
            return [(self_, ("void",))]
        if sh in ("SleepSinceLastInteraction",):
            return [(st.withev(ev + (("wait",),)), ("void",))]
        if sh in ("GetResponseTimeout", "GetFrameTimeout"):
            return [(st, P(sh, ""))]
        if sh in ("GetDescription", "ToString"):
            return [(st, P("name", "str"))]
        if sh == "GetConnectionState":
            return [(st, P("connection", "i32"))]
        if "std::bitset" in (c or fn.n):
            if fn.ctor and len(args) == 1 and obj is not None:
                s = st.copy()
                s.env[("fld", o, "bits")] = I.rv(st, args[0])
                return [(s, ("void",))]
            if sh in ("operator[]", "test"):
                i, b = I.rv(st, args[0]), st.env.get(("fld", o, "bits"))
                if not is_c(i) or b is None:
                    raise AnalysisError("bits of a byte")
                if sh == "test" or fn.r is not None and fn.r.k == "int":
                    return [(st, bits(b, i[1], 1))]
                t = ("tmp", I.frame(), node["id"], "bit%d" % i[1])
                s = st.copy()
                s.env[("fld", t, "bit")] = bits(b, i[1], 1)
                return [(s, ("obj", t))]
            if sh == "operator bool":
                return [(st, st.env[("fld", o, "bit")])]
        if o == ("cache",):
            if sh in ("operator[]", "at", "count", "contains", "insert_or_assign", "find", "end"):
                if sh in ("find", "end"):
                    raise AnalysisError("iterators of the cache")
                k = I.rv(st, args[0])
                if sh == "insert_or_assign" and mentions(k, ("cache",)) and mentions(I.rv(st, args[1]), ("cache",)):
                    return [(st, ("void",))]            # an entry of the cache itself
                if not is_c(k):
                    raise AnalysisError("register cached at an unknown address %s" % repr(k)[:150])
                k = C(k[1] & 0xFFFF)
                l = ("cached", k)
                if sh in ("count", "contains"):
                    return [(st, C(int(l in st.env)))]
                if sh == "at":
                    return [(st, ("ref", l))] if l in st.env else []
                if sh == "insert_or_assign":
                    s = st.copy()
                    s.env[l] = cast_int(s, I.rv(st, args[1]), int_type(self.M, "u16"))
                    return [(s, ("void",))]
                s = st
                if l not in st.env:
                    s = st.copy()
                    s.env[l] = ZERO
                return [(s, ("ref", l))]
        if c in ("TRegister", "IRegister") and isinstance(o, tuple):
            r = nm(o)
            if sh == "GetAvailable":
                return [(st, st.env.get(("av", r), P("available_" + r, "i32")))]
            if sh == "GetConfig":
                return [(st, ("ptr", ("obj", ("cfg", r))) if False else ("par", "cfg_" + r, ""))]
            if sh == "Device":
                return [(st, ("par", "device", ""))]
            if sh in ("SetAvailable", "SetError", "ClearError", "SetSupported"):
                return [(st.withev(ev + ((sh, r, I.rv(st, args[0])),)), ("void",))]
            if sh in ("ExcludeFromPolling", "IncludeInPolling"):
                return [(st.withev(ev + ((sh, r),)), ("void",))]
            if sh == "SetValue":
                l = I.deref_loc(st, args[0][1] if args[0][0] in ("ref", "obj") else args[0])
                v = tuple(I.rv(st, I.load(st, ("fld", l, n))) for n in ("Type", "IntegerValue", "StringValue"))
                s = st.copy()
                for n, x in zip(("Type", "IntegerValue", "StringValue"), v):
                    s.env[("fld", ("value", r), n)] = x
                return [(s.withev(ev + ((sh, r) + v,)), ("void",))]
            if sh == "GetValue":
                return [(st, ("obj", ("value", r)))]
        if sh == "SetTransferResult":
            return [(st.withev(ev + ((sh,) + tuple(I.rv(st, a) for a in args),)), ("void",))]
        if sh == "IsWbDevice":
            return [(st, st.env.get(("wb",), ZERO))]
        if sh == "DeviceConfig":
            return [(st, ("par", "devcfg", ""))]
        return None

    @staticmethod
    def cfg(o):
        return o

    @staticmethod
    def name_of(o):
        return o


def config(st, cfg, fm, reg_type, f, read, write=None, wo=ZERO, bo=ZERO, off=0, width=0, acc=ZERO):
    """A register's configuration at a location."""
    st = st.copy()
    e = st.env
    for n, v in (("Type", reg_type), ("Format", fm[f]), ("WordOrder", wo), ("ByteOrder", bo), ("AccessType", acc), ("TypeName", P("type_name", "str"))):
        e[("fld", cfg, n)] = v
    e[("fld", ("fld", cfg, "Address"), "DataOffset")] = C(off)
    e[("fld", ("fld", cfg, "Address"), "DataWidth")] = C(width)
    e[("addr", ("address", cfg, "read"))] = read
    e[("addr", ("address", cfg, "write"))] = write if write is not None else read
    return st


def nbits_of(f):
    if f in ("String", "String8"):
        return 0
    return {"Float": 32, "Double": 64, "Char8": 8}.get(f) or int("".join(c for c in f if c.isdigit()))


def word_value(words):
    """Number of words, the most significant first."""
    t = ZERO
    for w in words:
        t = add(scale(t, 65536), w)
    return t


def chosen(t, off, width):
    return bits(t, off, width)


@check("R01", "all paths of reading a range of registers, for every word and byte order, bit position, length and outcome of the exchange",
       "the request, values, errors and remembered registers equal those of the reference", only=REG_UNITS)
def r01(chk, M):
    fm, wo, bo = enumc(M, "RegisterFormat"), enumc(M, "EWordOrder"), enumc(M, "EByteOrder")
    rt, fns, vt = enumc(M, "Modbus::RegisterType"), enumc(M, "Modbus::EFunction"), enumc(M, "TRegisterValue::ValueType")
    err = enumc(M, "TRegister::TError")
    read = M.one("Modbus::TModbusRegisterRange::ReadRange")
    fn_of = {"REG_HOLDING": "FN_READ_HOLDING", "REG_HOLDING_SINGLE": "FN_READ_HOLDING", "REG_HOLDING_MULTI": "FN_READ_HOLDING", "REG_INPUT": "FN_READ_INPUT",
             "REG_COIL": "FN_READ_COILS", "REG_DISCRETE": "FN_READ_DISCRETE"}
    START = 100

    def world(regs, count, minimum=0, n=None, fail=False, wb=0):
        """regs: [(type, format, address, word order, byte order, offset, width)]"""
        bit = regs[0][0] in ("REG_COIL", "REG_DISCRETE")
        need = max(count, minimum)
        need = (need + 7) // 8 if bit else 2 * need
        w = Wire(M, need if n is None else n, fail)
        st = put_list(St(ev=()), ("regs",), [("par", "r%d" % (i + 1), "") for i in range(len(regs))])
        for i, (t, f, a, w_, b_, o, wd) in enumerate(regs):
            r = "r%d" % (i + 1)
            st = config(st, ("deref", ("par", "cfg_" + r, "")), fm, rt[t], f, C(a), None, wo[w_], bo[b_], o, wd)
            st = add_fact(st, ("ne", ("par", r, "")))
            st = add_fact(st, ("ne", ("par", "cfg_" + r, "")))
        st.env[("fld", THIS, "Start")], st.env[("fld", THIS, "Count")], st.env[("fld", THIS, "Bits")] = C(START), C(count), ("null",)
        st.env[("fld", ("deref", ("par", "devcfg", "")), "MinReadRegisters")] = C(minimum)
        st.env[("wb",)] = C(wb)
        sh = P("shift", "i32")
        st = addfacts(st, LE(ZERO, sh), LE(sh, C(1000)))
        T, ps = run(chk, M, w, read, [("par", "traits", ""), ("par", "port", ""), P("slave", "u8"), sh, CACHE], st,
                    "%s%s" % ("+".join("%s %s@%d %s/%s %d:%d" % ((t[4:], f, a - START, w_[:1], b_[:1], o, wd)) for t, f, a, w_, b_, o, wd in regs), "" if n is None else ", %d bytes" % n), cls=True)
        return T, ps, w, need

    def request(T, s, regs, count):
        ev = s.ev or ()
        sent = [e for e in ev if e[0] == "sent"]
        fn = fns[fn_of[regs[0][0]]]
        if len(sent) != 1 or sent[0][2][:2] != ("app", "pdu"):
            tri(chk, T, s, False if len(sent) != 1 else None, "request", "one request is made", str(sent)[:200])
            return
        _, slave, (_, _, f, a, n, *data), size = sent[0]
        ok = slave == P("slave", "u8") and f == fn and not data and n == C(count)
        ok = ok and [t for _, t in decide(s, EQ(a, add(C(START), P("shift", "i32"))))] == [True]
        tri(chk, T, s, bool(ok), "request", "the request asks for the range's registers, with the read function of their type", "function %s, address %s, count %s" % (fmt(f), fmt(a), fmt(n)))
        tri(chk, T, s, ev and ("wait",) in ev[:ev.index(sent[0])], "delay", "the configured delay is kept before the request", "")

    def values(regs, count, minimum=0, n=None, wb=0):
        T, ps, w, need = world(regs, count, minimum, n, wb=wb)
        bit = regs[0][0] in ("REG_COIL", "REG_DISCRETE")
        got_n = w.n
        for k, s, v in ps:
            ev = s.ev or ()
            if got_n < need:
                tri(chk, T, s, k == "throw" and "TSerialDeviceTransientErrorException" in (exc_types(M, v) or ()) and not [e for e in ev if e[0] == "SetValue"],
                    "short reply", "a reply with less data than asked for is an error and gives no values", "accepted" if k == "ret" else str(v.type))
                continue
            if k != "ret":
                tri(chk, T, s, False, "values", "a complete reply gives values", "raises %s" % v.type)
                continue
            request(T, s, regs, max(count, minimum))
            tri(chk, T, s, [e for e in ev if e[0] == "SetTransferResult"] == [("SetTransferResult", ONE)], "answered", "the device counts as answering", "")
            sets = [e for e in ev if e[0] == "SetValue"]
            if len(sets) < len(regs) or len({e[1] for e in sets}) != len(regs):
                tri(chk, T, s, False, "values", "every register of the range gets a value", str(sets)[:200])
                continue
            for i, (t, f, a, w_, b_, o, wd) in enumerate(regs):
                r = "r%d" % (i + 1)
                e = [e for e in sets if e[1] == r][0]
                if bit:
                    j = a - START
                    want = bits(P("byte%d" % (j // 8), "u8"), j % 8, 1)
                    ok = e[2] == vt["Integer"] and [x for _, x in decide(s, ("eq", sub(e[3], want)))] == [True]
                    tri(chk, T, s, ok if ok or not unclean(e[3]) else None, "value", "a single-bit register is its bit of the reply", fmt(e[3]))
                    continue
                nw = words_of(f, o, wd)
                ws = []
                for j in range(nw):
                    x, y = (P("byte%d" % (2 * (a - START + j) + q), "u8") for q in (0, 1))
                    ws.append(add(scale(x, 256), y) if b_ == "BigEndian" else add(scale(y, 256), x))
                if t in ("REG_HOLDING", "REG_HOLDING_SINGLE", "REG_HOLDING_MULTI"):
                    for j in range(nw):
                        g = s.env.get(("cached", C(a + j)))
                        ok = g is not None and [x for _, x in decide(s, ("eq", sub(g, ws[j])))] == [True]
                        tri(chk, T, s, ok, "remembered", "the words of a holding register are remembered at their addresses", "%d: %s" % (a + j, fmt(g) if g else "nothing"))
                else:
                    tri(chk, T, s, not any(isinstance(x, tuple) and x and x[0] == "cached" for x in s.env), "remembered", "only holding registers are remembered", "")
                if w_ == "LittleEndian":
                    ws = ws[::-1]
                if f in ("String", "String8"):
                    cs = [c for x in ws for c in ([bits(x, 8, 8), bits(x, 0, 8)] if f == "String8" else [bits(x, 0, 8)])]
                    text(T, s, e, cs, wb and f == "String", [x for x in ev if x[1:2] == (r,)][1:])
                    continue
                want = chosen(word_value(ws), o, wd or nbits_of(f))
                ok = e[2] == vt["Integer"]
                rr = [x for _, x in decide(s, ("eq", sub(e[3], want)))]
                tri(chk, T, s, ok and rr == [True] if not (ok and False in rr and True in rr and unclean(e[3])) else None, "value",
                    "a number is the bits of its words at its offset, in its word and byte order", "%s, expected %s" % (fmt(e[3]), fmt(want)))

    def text(T, s, e, cs, wb, rest):
        rule = "a text is the characters of its words up to the first 0 or 255"
        sts = [(s, [], False)]
        for c in cs:
            nxt = []
            for x, acc, end in sts:
                if end:
                    nxt.append((x, acc, end))
                    continue
                for y, z in decide(x, EQ(c, 0)):
                    for y2, ff in decide(y, EQ(c, 255)) if not z else [(y, True)]:
                        nxt.append((y2, acc if ff else acc + [c], ff))
            sts = nxt
        for x, acc, end in sts:
            if poly.infeasible(x.facts):
                continue
            got = strmodels.chars(e[4])
            if e[2] != vt["String"]:
                tri(chk, T, x, False, "text", rule, "a number")
                continue
            if got is None:
                tri(chk, T, x, None, "text", rule, fmt(e[4]))
                continue
            ok = len(got) == len(acc)
            if ok:
                for g, a in zip(got, acc):
                    r = [t for _, t in decide(x, ("eq", sub(bits(g, 0, 8) if rng(g)[0] is not None and rng(g)[0] < 0 else g, a)))]
                    alt = [t for _, t in decide(x, ("eq", sub(g, sub(a, scale(bits(a, 7, 1), 256)))))]
                    ok = ok and (r == [True] or alt == [True])
            tri(chk, T, x, ok, "text", rule, "%d characters %s, expected %s" % (len(got), [fmt(g) for g in got], [fmt(a) for a in acc]))

    def words_of(f, o, wd):
        if f in ("String", "String8"):
            return wd // 8
        return (max(nbits_of(f) if f != "U8" and f != "S8" or True else 16, o + (wd or nbits_of(f))) + 15) // 16

    orders = list(itertools.product(("BigEndian", "LittleEndian"), repeat=2))

    def numbers():
        shapes = [("U16", 0, 0), ("S16", 0, 0), ("U8", 0, 0), ("U32", 0, 0), ("Float", 0, 0), ("U64", 0, 0), ("S24", 0, 0), ("U16", 3, 5), ("U16", 8, 8), ("U32", 12, 9), ("U64", 20, 30), ("U8", 4, 4), ("BCD32", 0, 0)]
        for t in ("REG_HOLDING", "REG_HOLDING_SINGLE", "REG_HOLDING_MULTI", "REG_INPUT"):
            for f, o, wd in shapes:
                if t in ("REG_HOLDING_SINGLE", "REG_HOLDING_MULTI") and f not in ("U16", "U32") and chk.tier == "quick":
                    continue
                for w_, b_ in orders:
                    nw = words_of(f, o, wd)
                    values([(t, f, START, w_, b_, o, wd)], nw)
        for w_, b_ in orders:
            values([("REG_INPUT", "U16", START, w_, b_, 0, 0), ("REG_INPUT", "U32", START + 2, b_, w_, 4, 20)], 4)
            values([("REG_HOLDING", "U32", START, w_, b_, 0, 0), ("REG_HOLDING", "U16", START + 1, w_, b_, 4, 4)], 2)
        values([("REG_HOLDING", "U16", START, "BigEndian", "BigEndian", 0, 0)], 1, 3)
        for n in (0, 1, 2, 3, 5):
            values([("REG_INPUT", "U16", START, "BigEndian", "BigEndian", 0, 0), ("REG_INPUT", "U16", START + 1, "BigEndian", "BigEndian", 0, 0)], 2, n=n)
    part(chk, "numbers", numbers)

    def coils():
        for t in ("REG_COIL", "REG_DISCRETE"):
            for cnt, ads in ((1, (0,)), (3, (0, 2)), (9, (0, 7, 8)), (16, (15,))):
                values([(t, "U8", START + a, "BigEndian", "BigEndian", 0, 0) for a in ads], cnt)
        for n in (0, 1):
            values([("REG_COIL", "U8", START + a, "BigEndian", "BigEndian", 0, 0) for a in (0, 8)], 9, n=n)
    part(chk, "coils", coils)

    def texts():
        for f in ("String", "String8"):
            for nw in (1, 2):
                for w_, b_ in orders:
                    values([("REG_INPUT", f, START, w_, b_, 0, 8 * nw)], nw)
    part(chk, "texts", texts)

    def failures():
        regs = [("REG_HOLDING", "U16", START, "BigEndian", "BigEndian", 0, 0)]
        T, ps, w, need = world(regs, 1, fail=True)
        kinds = set()
        for k, s, v in ps:
            f = [e[1] for e in s.ev or () if e[0] == "failed"]
            kinds |= set(f) if k == "throw" else {"ok"}
            if not f:
                tri(chk, T, s, k == "ret", "failure", "a correct reply is no error", "raises")
                continue
            noise = ("noise",) in s.ev
            want = "TSerialDevicePermanentRegisterException" if f[0] == "illegal" else "TResponseTimeoutException" if f[0] == "silent" else "TSerialDeviceTransientErrorException" if f[0] != "port" else "TSerialDeviceException"
            ts = exc_types(M, v) if k == "throw" else None
            tri(chk, T, s, ts is not None and want in ts and (f[0] == "illegal" or "TSerialDevicePermanentRegisterException" not in ts), "failure",
                "the three 'illegal' replies are permanent errors of the register, other errors of the reply transient ones; errors of the port are passed on", "%s as %s" % (f[0], sorted(ts) if ts else "none"))
            tri(chk, T, s, noise == (f[0] == "malformed"), "noise", "bytes left on the line are skipped exactly after a malformed reply", f[0])
            tri(chk, T, s, not [e for e in s.ev if e[0] == "SetValue"], "no value", "a failed exchange gives no value", "")
        chk.expect("failures/all", {"illegal", "failure", "malformed", "unexpected", "silent", "port"} <= kinds, chk.where(read), "every failure ends the reading", str(kinds))
    part(chk, "failures", failures)


def bit_list(t, n, wide):
    """The n low bits of a term: each 0, 1, (atom, index) or None if it is not a plain bit; `wide`: the widths of atoms known to be small."""
    k = t[0]
    if k == "c":
        return [t[1] >> i & 1 for i in range(n)]
    if k == "bits":
        l = bit_list(t[1], t[2] + min(t[3], n), wide)[t[2]:]
        return l + [0] * (n - len(l))
    if k == "lin":
        c, d = lin_parts(t)
        out, over = [c >> i & 1 for i in range(n)], n
        for a, m in d.items():
            if m < 0:
                m += 1 << n if -m < 1 << n else 0
            if m <= 0 or m & (m - 1):
                return [None] * n
            z = m.bit_length() - 1
            for i, b in enumerate(bit_list(a, max(0, n - z), wide)):
                if b != 0:
                    if out[i + z] != 0:
                        over = min(over, i + z)
                    out[i + z] = b
        return out[:over] + [None] * (n - over)
    if k == "app" and t[1] in ("or", "and", "xor") and all(isinstance(x, tuple) for x in t[2:]):
        ls = [bit_list(x, n, wide) for x in t[2:]]
        out = ls[0]
        for l in ls[1:]:
            out = [bit_op(t[1], x, y) for x, y in zip(out, l)]
        return out
    h = rng(t)
    w = h[1].bit_length() if h[0] is not None and h[0] >= 0 and h[1] is not None else n
    w = min(w, wide.get(t, n))
    return [(t, i) if i < w else 0 for i in range(n)]


def bit_op(op, x, y):
    if x in (0, 1) and y not in (0, 1):
        x, y = y, x
    if y in (0, 1):
        if x in (0, 1):
            return {"or": x | y, "and": x & y, "xor": x ^ y}[op]
        return {"or": 1 if y else x, "and": x if y else 0, "xor": None if y else x}[op]
    return None if x is None or y is None else x if x == y and op != "xor" else 0 if x == y else None


# --------------------------------------------------------------------------- R02
@check("R02", "all paths of writing a register, for every type, format, word and byte order, bit position and outcome of the exchange",
       "the requests, errors and remembered registers equal those of the reference", only=REG_UNITS)
def r02(chk, M):
    fm, wo, bo = enumc(M, "RegisterFormat"), enumc(M, "EWordOrder"), enumc(M, "EByteOrder")
    rt, fns, vt, acc = enumc(M, "Modbus::RegisterType"), enumc(M, "Modbus::EFunction"), enumc(M, "TRegisterValue::ValueType"), enumc(M, "TRegisterConfig::EAccessType")
    write = M.one("Modbus::WriteRegister")
    CFG, VAL = ("wcfg",), ("wval",)
    ADDR, WADDR = 100, 200
    num = P("value", "u64")

    def world(t, f, w_, b_, off, width, access="READ_WRITE", known=(), fail=False, value=None, waddr=None):
        w = Wire(M, 0, fail)
        st = config(St(ev=()), CFG, fm, rt[t], f, C(ADDR), C(ADDR if waddr is None else waddr), wo[w_], bo[b_], off, width, acc[access])
        for a in known:
            st.env[("cached", C(a))] = P("old%d" % (a - ADDR), "u16")
        text = f in ("String", "String8")
        st.env[("fld", VAL, "Type")] = vt["String" if text else "Integer"]
        st.env[("fld", VAL, "IntegerValue")] = num if value is None else value
        if text:
            st.env[("fld", VAL, "StringValue")] = value
            st.env[("fld", VAL, "IntegerValue")] = ZERO
        elif nbits_of(f) < 64:
            st = addfacts(st, LE(num, C(2 ** nbits_of(f) - 1)))
        sh = P("shift", "i32")
        st = addfacts(st, LE(ZERO, sh), LE(sh, C(1000)))
        args = []
        for p in write.ps:
            args.append({"reg": ("ref", CFG), "value": ("ref", VAL), "cache": CACHE, "shift": sh, "slaveId": P("slave", "u8")}.get(p.n, ("par", p.n, "")))
        tag = "%s %s %s/%s %d:%d%s%s" % (t[4:], f, w_[:1], b_[:1], off, width, "" if access == "READ_WRITE" else " " + access, " remembered" if known else "")
        T, ps = run(chk, M, w, write, args, st, tag)
        return T, ps

    def nwords(f, off, width):
        if f in ("String", "String8"):
            return width // 8
        return (max(nbits_of(f), off + (width or nbits_of(f))) + 15) // 16

    def words(f, w_, off, width, access, known, single):
        """The words of the register after writing, by address."""
        n, wd = nwords(f, off, width), width or nbits_of(f)
        if access == "WRITE_ONLY":
            known = ()
        order = list(range(n)) if w_ == "BigEndian" or single else list(range(n))[::-1]       # order[0]: the most significant word
        out = {}
        for pos, j in enumerate(order):
            lo_ = 16 * (n - 1 - pos)            # bits lo_ .. lo_+15 of the number
            old = P("old%d" % j, "u16") if ADDR + j in known else ZERO
            a, b = max(off, lo_), min(off + wd, lo_ + 16)
            if a >= b:
                out[j] = old
                continue
            v = scale(bits(num, a - off, b - a), 2 ** (a - lo_))
            if a > lo_:
                v = add(v, bits(old, 0, a - lo_))
            if b < lo_ + 16:
                v = add(v, scale(bits(old, b - lo_, lo_ + 16 - b), 2 ** (b - lo_)))
            out[j] = v
        return out

    def equal(s, a, b, f=None):
        if a == b:
            return True
        if [t for _, t in decide(s, ("eq", sub(a, b)))] == [True]:
            return True
        wide = {num: nbits_of(f)} if f else {}
        x, y = bit_list(a, 16, wide), bit_list(b, 16, wide)         # both are words
        if None not in x and None not in y:
            return x == y
        return eq_terms(s, a, b, frozenset())

    def sents(s):
        return [e for e in s.ev or () if e[0] == "sent"]

    def numbers(t, f, w_, b_, off, width, access="READ_WRITE", known=(), waddr=None):
        T, ps = world(t, f, w_, b_, off, width, access, known, waddr=waddr)
        n = nwords(f, off, width)
        multi = t == "REG_HOLDING_MULTI" or t == "REG_HOLDING" and n > 1
        want = words(f, w_, off, width, access, known, not multi)
        base = C(ADDR if waddr is None else waddr)
        for k, s, v in ps:
            if k != "ret":
                tri(chk, T, s, False, "written", "a value is written", "raises %s" % v.type)
                continue
            es = sents(s)
            got = {}
            rule = "the request writes the register's words, in its word and byte order, and keeps bits that are not part of its value"
            for e in es:
                if e[2][:2] != ("app", "pdu"):
                    tri(chk, T, s, None, "request", rule, "")
                    return
                _, _, fn, a, cnt, *data = e[2]
                if e[1] != P("slave", "u8") or not is_c(cnt) or len(data) != 2 * cnt[1]:
                    tri(chk, T, s, False, "request", "the request is for the device, with two bytes a register", "count %s, %d bytes" % (fmt(cnt), len(data)))
                    return
                fw = fns["FN_WRITE_MULTIPLE_REGISTERS" if multi else "FN_WRITE_SINGLE_REGISTER"]
                tri(chk, T, s, fn == fw and (multi or cnt == ONE), "function", "a register of several words is written at once, one of single words word by word", fmt(fn))
                for j in range(len(data) // 2):
                    x, y = data[2 * j:2 * j + 2]
                    wd = add(scale(x, 256), y) if b_ == "BigEndian" else add(scale(y, 256), x)
                    p = [i for i in range(n) if [z for _, z in decide(s, ("eq", sub(add(a, C(j)), add(add(base, P("shift", "i32")), C(i)))))] == [True]]
                    if len(p) != 1 or p[0] in got:
                        tri(chk, T, s, False, "addresses", "every word of the register is written once, at its address", fmt(a))
                        return
                    got[p[0]] = wd
                pe = [e for e in s.ev if e[0] in ("sent", "parsed")]
                tri(chk, T, s, [e[0] for e in pe] == ["sent", "parsed"] * len(es), "confirmed", "every request's reply is examined: a refusal is an error", "the reply is ignored")
                rep = e[3]
                if rep[:2] == ("app", "reply"):
                    tri(chk, T, s, rep[2:] == (fn, cnt), "reply", "the reply expected is that of the request", fmt(rep))
            if len(got) != n or len(es) != (1 if multi else n):
                tri(chk, T, s, False, "addresses", "every word of the register is written once, at its address", "%d of %d words in %d requests" % (len(got), n, len(es)))
                continue
            for j in range(n):
                tri(chk, T, s, equal(s, got[j], want[j], f), "word %d" % j, rule, "%s, expected %s" % (fmt(got[j]), fmt(want[j])))
            for j in range(n):
                c = s.env.get(("cached", C(ADDR + j)))
                if access == "WRITE_ONLY":
                    tri(chk, T, s, c == (P("old%d" % j, "u16") if ADDR + j in known else None), "remembered", "a write-only register is not remembered", "")
                else:
                    tri(chk, T, s, False if c is None else equal(s, c, want[j], f), "remembered", "the words written are remembered", fmt(c) if c else "nothing")

    orders = list(itertools.product(("BigEndian", "LittleEndian"), repeat=2))

    def values():
        for t in ("REG_HOLDING", "REG_HOLDING_MULTI", "REG_HOLDING_SINGLE"):
            single = t == "REG_HOLDING_SINGLE"
            for f, off, width in [("U16", 0, 0), ("S16", 0, 0), ("U8", 0, 0), ("U32", 0, 0), ("Float", 0, 0), ("U64", 0, 0), ("U16", 3, 5), ("U16", 12, 4), ("S24", 0, 0)] + \
                    ([] if single else [("U32", 12, 9), ("U64", 20, 30), ("U32", 0, 20), ("U32", 16, 8)]):
                if single and f == "S24":
                    continue
                n = nwords(f, off, width)
                for w_, b_ in orders:
                    if single and w_ == "LittleEndian" and n > 1:
                        continue
                    for known in ((), tuple(range(ADDR, ADDR + n)), (ADDR + n - 1,)) if chk.tier == "thorough" or b_ == "BigEndian" else (tuple(range(ADDR, ADDR + n)),):
                        numbers(t, f, w_, b_, off, width, known=known)
            numbers(t, "U16", "BigEndian", "BigEndian", 0, 0, waddr=WADDR)
            numbers(t, "U32", "BigEndian", "BigEndian", 0, 0, waddr=WADDR)
        for f in ("U32", "U16"):
            numbers("REG_HOLDING_MULTI", f, "BigEndian", "BigEndian", 0, 0, "WRITE_ONLY")
            numbers("REG_HOLDING_MULTI", f, "LittleEndian", "BigEndian", 2, 5, "WRITE_ONLY", (ADDR,))
        for f, off, width in (("U8", 0, 0), ("U16", 0, 0), ("U16", 2, 5), ("U32", 0, 0)):
            numbers("REG_HOLDING", f, "BigEndian", "BigEndian", off, width, "WRITE_ONLY")
            numbers("REG_HOLDING_SINGLE", f, "BigEndian", "BigEndian", off, width, "WRITE_ONLY", (ADDR,))
    part(chk, "values", values)

    def texts():
        for f in ("String", "String8"):
            for ln in (0, 1, 2, 3, 4):
                for w_, b_ in orders:
                    chars = [P("ch%d" % i, "i8") for i in range(ln)]
                    T, ps = world("REG_HOLDING_MULTI", f, w_, b_, 0, 24, value=strv(chars))
                    T.tag += ", %d characters" % ln
                    per = 2 if f == "String8" else 1
                    n = min(3, (ln + per - 1) // per)
                    by = [bits(c, 0, 8) for c in chars] + [ZERO]
                    ws = [add(scale(by[2 * i], 256), by[2 * i + 1]) if per == 2 else by[i] for i in range(n)]
                    if w_ == "LittleEndian":
                        ws = ws[::-1]
                    for k, s, v in ps:
                        es = sents(s)
                        if k != "ret" or len(es) != 1 or es[0][2][:2] != ("app", "pdu"):
                            tri(chk, T, s, False, "text", "a text is written in one request", k)
                            continue
                        _, _, fn, a, cnt, *data = es[0][2]
                        if not ln and not data:
                            continue
                        ok = fn == fns["FN_WRITE_MULTIPLE_REGISTERS"] and cnt == C(n) and len(data) == 2 * n and [z for _, z in decide(s, ("eq", sub(a, add(C(ADDR), P("shift", "i32")))))] == [True]
                        tri(chk, T, s, ok, "text", "the words of a text are written at its address, up to its width", "%s words, %d bytes" % (fmt(cnt), len(data)))
                        if ok:
                            for i in range(n):
                                x, y = data[2 * i:2 * i + 2]
                                g = add(scale(x, 256), y) if b_ == "BigEndian" else add(scale(y, 256), x)
                                tri(chk, T, s, equal(s, g, ws[i]), "characters", "a word has its one or two characters", "%s, expected %s" % (fmt(g), fmt(ws[i])))
    part(chk, "texts", texts)

    def coils():
        T, ps = world("REG_COIL", "U8", "BigEndian", "BigEndian", 0, 0)
        for k, s, v in ps:
            es = sents(s)
            if k != "ret" or len(es) != 1 or es[0][2][:2] != ("app", "pdu"):
                tri(chk, T, s, False, "coil", "a coil is written in one request", k)
                continue
            _, _, fn, a, cnt, *data = es[0][2]
            for x, z in decide(s, EQ(num, 0)):
                ok = fn == fns["FN_WRITE_SINGLE_COIL"] and data == [ZERO if z else C(255), ZERO] and [y for _, y in decide(x, ("eq", sub(a, add(C(ADDR), P("shift", "i32")))))] == [True]
                tri(chk, T, x, ok, "coil", "a coil is switched off by 0 and on by any other value", "%s for %s" % ([fmt(d) for d in data], "0" if z else "another value"))
        for t in ("REG_INPUT", "REG_DISCRETE"):
            T, ps = world(t, "U16", "BigEndian", "BigEndian", 0, 0)
            for k, s, v in ps:
                tri(chk, T, s, k == "throw" and "TSerialDeviceException" in (exc_types(M, v) or ()) and not sents(s), "read-only type", "inputs are not written", k)
    part(chk, "coils", coils)

    def failures():
        for f, known in (("U16", ()), ("U32", (ADDR,))):
            for t in ("REG_HOLDING", "REG_HOLDING_SINGLE"):
                T, ps = world(t, f, "BigEndian", "BigEndian", 3, 5, known=known, fail=True) if f == "U16" else world(t, f, "BigEndian", "BigEndian", 0, 0, known=known, fail=True)
                for k, s, v in ps:
                    fl = [e[1] for e in s.ev or () if e[0] == "failed"]
                    if not fl:
                        tri(chk, T, s, k == "ret", "failure", "a confirmed write is no error", "raises")
                        continue
                    want = "TSerialDevicePermanentRegisterException" if fl[0] == "illegal" else "TResponseTimeoutException" if fl[0] == "silent" else "TSerialDeviceTransientErrorException" if fl[0] != "port" else "TSerialDeviceException"
                    ts = exc_types(M, v) if k == "throw" else None
                    tri(chk, T, s, ts is not None and want in ts and (fl[0] == "illegal" or "TSerialDevicePermanentRegisterException" not in ts), "failure",
                        "a write that is refused or not confirmed is an error: permanent for the three 'illegal' replies, else transient; errors of the port are passed on", "%s as %s" % (fl[0], sorted(ts) if ts else "success"))
                    tri(chk, T, s, (("noise",) in s.ev) == (fl[0] == "malformed"), "noise", "bytes left on the line are skipped exactly after a malformed reply", fl[0])
                    c = {x[1][1] - ADDR: s.env[x] for x in s.env if isinstance(x, tuple) and x and x[0] == "cached"}
                    tri(chk, T, s, c == {a - ADDR: P("old%d" % (a - ADDR), "u16") for a in known}, "remembered", "a failed write is not remembered", str(c))
    part(chk, "failures", failures)


# --------------------------------------------------------------------------- R03
class Group(Wire):
    """A range of registers that another one is offered to."""

    def other(self, I, st, fn, obj, args, node):
        sh, c = fn.short, fn.cls or ""
        o = I.deref_loc(st, obj) if obj is not None else None
        if sh == "HasOtherDeviceAndType":
            return [(st, P("other", "bool"))]
        if sh == "Get16BitWidth":
            return [(st, st.env[("width",)])]
        if sh == "GetSupportsHoles":
            return [(st, P("holes_supported", "bool"))]
        if sh == "GetContinuousReadEnabled":
            return [(st, P("continuous", "bool"))]
        if sh == "GetForceFrameTimeout":
            return [(st, P("forced", "bool"))]
        if sh == "GetSendTimeBytes":
            return [(st.withev((st.ev or ()) + (("bytes", I.rv(st, args[0])),)), st.env[("send",)])]
        return Wire.other(self, I, st, fn, obj, args, node)


@check("R03", "all paths of offering a register to a range that is empty or has registers, with symbolic addresses, widths, limits and times",
       "the register is added exactly when the reference adds it, and the range then spans it", only=REG_UNITS)
def r03(chk, M):
    rt, av = enumc(M, "Modbus::RegisterType"), enumc(M, "TRegisterAvailability")
    addf = M.one("Modbus::TModbusRegisterRange::Add")
    start = count = addr = width = times = None
    had = ZERO, P("had_holes", "bool")

    def world(t, n, back, new, place=None):
        """place: (addresses from the start, count, width) with symbolic times; otherwise places and widths are symbolic, and there is time."""
        nonlocal start, count, addr, width, times
        start, count, addr, width = [C(x) for x in (100, place[1], 100 + place[0], place[2])] if place else (P("start", "u32") if chk.tier == "thorough" else C(1000), P("count", "u64"), P("addr", "u32"), P("width", "u32"))
        times = [P(x, "i64") if place else ZERO for x in ("send", "average", "RequestDelay", "FrameTimeout")]
        w = Group(M)
        st = put_list(St(ev=()), ("regs",), [("par", "r%d" % (i + 1), "") for i in range(n)])
        e = st.env
        e[("fld", THIS, "Start")], e[("fld", THIS, "Count")], e[("fld", THIS, "HasHolesFlg")] = start, count if n else ZERO, had[n > 0]
        e[("fld", THIS, "AverageResponseTime")], e[("send",)] = times[1], times[0]
        cfg = ("deref", ("par", "cfg_new", ""))
        e[("fld", cfg, "Type")] = rt[t]
        e[("addr", ("address", cfg, "read"))] = addr
        e[("av", "new")], e[("width",)] = av[new], width
        for i in range(n):
            e[("av", "r%d" % (i + 1))] = av[back if i == n - 1 else "AVAILABLE"]
        dc = ("deref", ("par", "devcfg", ""))
        for x, ty in (("MaxBitHole", "i32"), ("MaxRegHole", "i32"), ("MaxReadRegisters", "i32"), ("RequestDelay", "i64"), ("FrameTimeout", "i64")):
            e[("fld", dc, x)] = times[2] if x == "RequestDelay" else times[3] if x == "FrameTimeout" else C(8) if place and "Hole" in x else ZERO if place else P(x, ty)
        fs = []
        for v, lo, hi in ((start, 0, 65535), (addr, 0, 65535), (width, 1, 128), (count, 1, 2000), (P("MaxBitHole", "i32"), 0, 65535), (P("MaxRegHole", "i32"), 0, 65535), (P("MaxReadRegisters", "i32"), 0, 3000),
                          (P("limit_ms", "i64"), 0, 1 << 30), *((x, 0, 1 << 40) for x in times)):
            fs += [] if is_c(v) else [LE(C(lo), v), LE(v, C(hi))]
        st = addfacts(st, *fs)
        for x in ("new", "cfg_new", "devcfg", "device", *("r%d" % (i + 1) for i in range(n))):
            st = add_fact(st, ("ne", ("par", x, "")))
        T, ps = run(chk, M, w, addf, [("par", "port", ""), ("par", "new", ""), scale(P("limit_ms", "i64"), 1000000)], st, "%s offered to %d%s (%s)" % (t[4:], n, " " + back if n else "", new), cls=True)
        return T, ps

    def find(x, name):
        if isinstance(x, tuple):
            if x[:2] == ("app", name):
                return x
            for y in x:
                r = find(y, name)
                if r is not None:
                    return r
        return None

    def folded(x):
        """The value of a constant floating point expression."""
        if x[0] in ("f", "c"):
            return x[1]
        if x[0] == "lin":
            k, d = lin_parts(x)
            vs = {a: folded(a) for a in d}
            return None if None in vs.values() else k + sum(c * vs[a] for a, c in d.items())
        ops = {"tofloat": float, "toint": int, "f+": lambda a, b: a + b, "f-": lambda a, b: a - b, "f*": lambda a, b: a * b, "f/": lambda a, b: a / b if b else None,
               "std::ceil": lambda a: float(math.ceil(a)), "std::floor": lambda a: float(math.floor(a))}
        if x[0] != "app" or x[1] not in ops:
            return None
        vs = [folded(y) for y in x[2:] if isinstance(y, tuple)]
        return None if None in vs else ops[x[1]](*vs)

    def both(ss, c):
        """Splits states by a condition: those where it holds, and those where it does not."""
        y, z = [], []
        for s in ss:
            for x, v in decide(s, c):
                (y if v else z).append(x)
        return y, z

    def total(forced):
        return add(add(times[0], times[1]), add(times[2], times[3] if forced else ZERO))

    LT = lambda a, b: LE(add(a, ONE), b)
    CNT = {"RULE": "a register is added exactly when it is on the range's device, of its type, not before its start, no further from its end than the holes allowed, known like the others, and the request stays within the "
                   "protocol's and the configured limits and the time left"}

    def hole_of(s, bit):
        return s.env[("fld", ("deref", ("par", "devcfg", "")), "MaxBitHole" if bit else "MaxRegHole")]

    def reference(s0, t, n, back, new):
        """[(state, verdict)]: what is to be done with the register: True, False, or None if it is not laid down."""
        out = []
        bit = t == "REG_COIL"
        if new == "UNAVAILABLE":
            return [(s0, "skip")]
        end = add(start, count)
        cast = find(tuple(s0.facts), "dyncast")
        mod = cast if cast is not None else ONE
        m, other = both([s0], mod)
        cont, plain = both(m, P("continuous", "bool"))
        forced, unforced = both(m, P("forced", "bool"))
        if n == 0:
            states = [(s, total(f), width, True) for f, l in ((1, forced), (0, unforced + other)) for s in l]
        else:
            states = []
            refused, rest = both([s0], P("other", "bool"))
            r, rest = both(rest, LT(addr, start))
            refused += r
            sup, uns = both(rest, P("holes_supported", "bool"))
            keep = []
            for l, hole in ((sup, hole_of(s0, bit)), (uns, ZERO)):
                r, k = both(l, LT(add(end, hole), addr))
                refused += r
                keep += k
            m, oth = both(keep, mod)
            cont, plain = both(m, P("continuous", "bool"))
            plain += oth
            if back == "UNKNOWN":
                if not bit:
                    refused += plain
                    plain = []
                else:
                    r, plain = both(plain, LT(end, addr))
                    refused += r
                    if new == "UNKNOWN":
                        k = []
                        for s in plain:
                            M_ = s0.env[("fld", ("deref", ("par", "devcfg", "")), "MaxReadRegisters")]
                            a, b = both([s], LE(ONE, M_))
                            c, d = both(a, LE(M_, C(125)))
                            r, x = both(c, LE(M_, C(n)))
                            refused += r
                            k += x
                            (refused if n >= 16 else k).extend(b + d)
                        plain = k
            elif new == "UNKNOWN":
                refused += plain
                plain = []
            out += [(s, False) for s in refused]
            keep = cont + plain
            grow, same = both(keep, LT(end, add(addr, width)))
            lim = 2000 if bit else 125
            for l, ext in ((grow, sub(add(addr, width), end)), (same, ZERO)):
                for s in l:
                    M_ = s0.env[("fld", ("deref", ("par", "devcfg", "")), "MaxReadRegisters")]
                    a, b = both([s], LE(ONE, M_))
                    c, d = both(a, LE(M_, C(lim)))
                    for l2, mx in ((c, M_), (b + d, C(lim))):
                        r, ok = both(l2, LT(mx, add(count, ext)))
                        out += [(x, False) for x in r]
                        for x in ok:
                            m, oth = both([x], mod)
                            f, u = both(m, P("forced", "bool"))
                            for fl, l3 in ((1, f), (0, u + oth)):
                                for y in l3:
                                    states.append((y, total(fl), ext, False))
        for s, d, ext, first in states:
            r, ok = both([s], LT(scale(P("limit_ms", "i64"), 1000000), d))
            out += [(x, True) for x in ok]
            for x in r:
                if first:
                    out.append((x, False))
                elif ext == ZERO:
                    out.append((x, None if bit else True))
                elif not bit:
                    out.append((x, False))
                else:
                    full = both([x], ("eq", bits(count, 0, 4)))
                    out += [(y, False) for y in full[0]]
                    room = both(full[1], LE(add(bits(count, 0, 4), ext), C(16)))
                    out += [(y, True) for y in room[0]] + [(y, False) for y in room[1]]
        return out

    def judge(t, n, back, new, place=None):
        T, ps = world(t, n, back, new, place)
        for k, s, v in ps:
            if k != "ret":
                tri(chk, T, s, False, "added", "a register is added or refused", "raises %s" % v.type)
                continue
            l = [e for e in s.env.get(("log", ("regs",)), ())]
            size = s.env.get(("size", ("regs",)))
            added = size == C(n + 1) and l[-1][2] == ("par", "new", "") if size != C(n) else None
            if added is False or not is_c(v):
                tri(chk, T, s, False if added is False else None, "added", "a register is added once, at the end", "size %s, result %s" % (fmt(size), fmt(v)))
                continue
            if place:
                need = max(place[0] + place[2], place[1])
                by = [e[1] for e in s.ev or () if e[0] == "bytes"]
                want = 15.0 + ((need + 7) // 8 if t == "REG_COIL" else 2 * need)
                for b in by:
                    x = folded(b)
                    tri(chk, T, s, x == want if x is not None else None, "time", "the time of an exchange is that of the bytes of request and reply", fmt(b))
            S_, N_, H_ = (s.env.get(("fld", THIS, x)) for x in ("Start", "Count", "HasHolesFlg"))
            for x, want in reference(s, t, n, back, new):
                if want is None:
                    continue
                if want == "skip":
                    tri(chk, T, x, v == ONE and not added, "unavailable", "a register the device does not have is left out of requests", "result %s" % fmt(v))
                    continue
                tri(chk, T, x, bool(added) == want and v == C(int(want)), "added", CNT["RULE"], "%s, to be %s" % ("added" if added else "refused", "added" if want else "refused"))
                if bool(added) != want:
                    continue
                if not added:
                    ok = S_ == start and N_ == (count if n else ZERO) and H_ == had[n > 0]
                    tri(chk, T, x, ok, "unchanged", "a range that refused a register is as before", "start %s, count %s, holes %s" % (fmt(S_), fmt(N_), fmt(H_)))
                    continue
                first = addr if not n else start
                y, z = both([x], LT(add(start, count), add(addr, width))) if n else ([], [])
                cs = [(q, sub(add(addr, width), start)) for q in y] + [(q, count) for q in z] if n else [(x, width)]
                for q, cnt in cs:
                    ok = [r for _, r in decide(q, ("eq", sub(S_, first)))] == [True] and [r for _, r in decide(q, ("eq", sub(N_, cnt)))] == [True]
                    tri(chk, T, q, ok, "span", "the range spans its registers", "start %s, count %s, expected %s, %s" % (fmt(S_), fmt(N_), fmt(first), fmt(cnt)))
                y, z = both([x], LT(add(start, count), addr)) if n else ([], [x])
                for q, h in [(q, True) for q in y] + [(q, h) for q0 in z for q, h in (decide(q0, P("had_holes", "bool")) if n else [(q0, False)])]:
                    ok = [r for _, r in decide(q, H_)] == [h]
                    tri(chk, T, q, ok, "holes", "a range has holes exactly when registers in it belong to none of its registers", "holes %s" % fmt(H_))

    def offered():
        for t in ("REG_HOLDING", "REG_COIL"):
            for n in (0, 1, 16) if t == "REG_COIL" else (0, 1):
                for back in ("AVAILABLE", "UNKNOWN") if n else ("AVAILABLE",):
                    for new in ("AVAILABLE", "UNKNOWN", "UNAVAILABLE"):
                        if n < 2 or back == new == "UNKNOWN" or chk.tier == "thorough":
                            judge(t, n, back, new)
    part(chk, "offered", offered)

    def in_time():
        for t, n, place in [("REG_HOLDING", 0, (0, 0, 2)), ("REG_HOLDING", 1, (2, 2, 1)), ("REG_HOLDING", 1, (0, 2, 1)), ("REG_HOLDING", 1, (9, 4, 4)), ("REG_COIL", 0, (0, 0, 1)),
                            ("REG_COIL", 1, (1, 1, 1)), ("REG_COIL", 1, (15, 15, 1)), ("REG_COIL", 1, (16, 16, 1)), ("REG_COIL", 1, (17, 15, 1)), ("REG_COIL", 1, (20, 17, 1))]:
            judge(t, n, "AVAILABLE", "AVAILABLE", place)
    part(chk, "in time", in_time)


# --------------------------------------------------------------------------- R04
class Setup(Wire):
    """Setup items; what partial registers have is read by an opaque exchange, their grouping is R03."""

    def other(self, I, st, fn, obj, args, node):
        sh, c = fn.short, fn.cls or ""
        o = I.deref_loc(st, obj) if obj is not None else None
        ev = st.ev or ()
        if sh == "make_shared" and fn.n and "TRegister" in str(fn.r and fn.r.s):
            x = I.rv(st, args[1])
            return [(st, ("par", "reg_" + nm(x), ""))]
        if sh == "Add" and "ModbusRegisterRange" in c:
            l = st.env.get(("regs of", o), ())
            if len(l) >= self.group:
                return [(st, ZERO)]
            s = st.copy()
            s.env[("regs of", o)] = l + (I.rv(st, args[1]),)
            return [(s, ONE)]
        if sh == "RegisterList":
            t = ("regs list", o)
            return [(put_list(st, t, st.env.get(("regs of", o), ())), ("ref", t))]
        if sh == "ReadRegisterRange":
            a = {p.n: x for p, x in zip(self.M.one("Modbus::ReadRegisterRange").ps, args)}
            rl = I.deref_loc(st, a["range"])
            rl = rl[1] if rl[0] == "ref" else rl
            l = st.env.get(("regs of", rl), ())
            e = ("read", tuple(nm(x)[4:] for x in l), I.rv(st, a["shift"]), I.rv(st, a["breakOnError"]), I.rv(st, a["slaveId"]))
            s = st.withev(ev + (e,)).copy()
            for x in l:
                for ad, t in self.partial[nm(x)[4:]]:
                    s.env[("cached", C(ad))] = t
            s.env[("read ok",)] = ONE
            out = [(s, ("void",))]
            if self.fail and l:
                f = st.withev(ev + (e, ("failed", "read"))).copy()
                f.env[("read ok",)] = ZERO
                for y, v in decide(f, ("ne", e[3])) if False else [(f, True)]:
                    out.append((y, ("void",)))
            return out
        if sh == "GetErrorState":
            return [(st, ("par", "errors", ""))]
        if sh in ("count", "any") and "std::bitset" in (c or fn.n):
            return [(st, sub(ONE, st.env.get(("read ok",), ONE)))]
        return Wire.other(self, I, st, fn, obj, args, node)


@check("R04", "all paths of writing lists of setup registers, over their kinds, places and limits, and every outcome of each exchange",
       "every item is written once, in order, with the words the reference gives, and errors have the consequences laid down", only=REG_UNITS)
def r04(chk, M):
    fm, wo, bo = enumc(M, "RegisterFormat"), enumc(M, "EWordOrder"), enumc(M, "EByteOrder")
    rt, fns, vt, acc = enumc(M, "Modbus::RegisterType"), enumc(M, "Modbus::EFunction"), enumc(M, "TRegisterValue::ValueType"), enumc(M, "TRegisterConfig::EAccessType")
    setup = M.one("Modbus::WriteSetupRegisters")

    def go(items, limit=0, device=True, fail=False, stop=False, group=9, known=(), wo_=False):
        """items: (type, format, address, offset, width[, characters])"""
        w = Setup(M, 0, fail)
        w.group, w.partial, w.wo = group, {}, wo_
        st = put_list(St(ev=()), ("setup",), [("par", "item%d" % i, "") for i in range(len(items))])
        sh = P("shift", "i32")
        fs = [LE(ZERO, sh), LE(sh, C(1000))]
        for a in known:
            st.env[("cached", C(a))] = P("old%d" % a, "u16")
        for i, (t, f, a, off, wd, *chars) in enumerate(items):
            it, cfg = ("deref", ("par", "item%d" % i, "")), ("deref", ("par", "cfg%d" % i, ""))
            st = config(st, cfg, fm, rt[t], f, C(a), None, wo["BigEndian"], bo["BigEndian"], off, wd, acc["WRITE_ONLY" if wo_ else "READ_WRITE"])
            e = st.env
            e[("fld", it, "RegisterConfig")], e[("fld", it, "Device")] = ("par", "cfg%d" % i, ""), ("par", "device", "") if device else ("null",)
            v = ("fld", it, "RawValue")
            e[("fld", v, "Type")] = vt["String" if chars else "Integer"]
            e[("fld", v, "IntegerValue")] = ZERO if chars else P("v%d" % i, "u64")
            if chars:
                e[("fld", v, "StringValue")] = strv([P("ch%d_%d" % (i, j), "i8") for j in range(chars[0])])
            elif nbits_of(f) < 64:
                fs.append(LE(P("v%d" % i, "u64"), C(2 ** nbits_of(f) - 1)))
            if wd and not wo_:
                w.partial["cfg%d" % i] = [(a + j, P("now%d" % (a + j), "u16")) for j in range(size(f, off, wd))]
        st.env[("fld", ("deref", ("par", "devcfg", "")), "MaxWriteRegisters")] = C(limit)
        st = addfacts(st, *fs)
        for x in ["device", "devcfg"] + ["%s%d" % (y, i) for i in range(len(items)) for y in ("item", "cfg", "reg_cfg")]:
            st = add_fact(st, ("ne", ("par", x, "")))
        vals = {"setupItems": ("ref", ("setup",)), "cache": CACHE, "shift": sh, "slaveId": P("slave", "u8"), "breakOnError": C(int(stop))}
        T, ps = run(chk, M, w, setup, [vals.get(p.n, ("par", p.n, "")) for p in setup.ps], st,
                    "%s%s%s%s%s" % ("+".join("%s %s@%d %d:%d" % (t[4:], f, a, off, wd) for t, f, a, off, wd, *_ in items), " limit %d" % limit if limit else "", "" if device else " without device", " stop" if stop else "", " remembered" if known else "" if not wo_ else " write-only"))
        judge(T, ps, items, limit, device, stop, known, w)

    def size(f, off, wd):
        return wd // 8 if f == "String" else wd // 16 if f == "String8" else (max(nbits_of(f), off + (wd or nbits_of(f))) + 15) // 16

    def item_words(i, item, mem):
        t, f, a, off, wd, *chars = item
        if t == "REG_COIL":
            return [(a, "coil")]
        if chars:
            return [(a + j, bits(P("ch%d_%d" % (i, j), "i8"), 0, 8)) for j in range(min(chars[0], size(f, off, wd)))]
        n, x = size(f, off, wd), wd or nbits_of(f)
        out = []
        for j in range(n):
            lo_ = 16 * (n - 1 - j)
            p, q = max(off, lo_), min(off + x, lo_ + 16)
            old = mem.get(a + j, ZERO)
            if p >= q:
                out.append((a + j, old))
                continue
            v = scale(bits(P("v%d" % i, "u64"), p - off, q - p), 2 ** (p - lo_))
            if p > lo_:
                v = add(v, bits(old, 0, p - lo_))
            if q < lo_ + 16:
                v = add(v, scale(bits(old, q - lo_, lo_ + 16 - q), 2 ** (q - lo_)))
            out.append((a + j, v))
        return out

    def same(s, a, b):
        if a == b:
            return True
        x, y = bit_list(a, 16, {}), bit_list(b, 16, {})
        if None not in x and None not in y:
            return x == y
        return eq_terms(s, a, b, frozenset())

    RULE = "the items are written once each, in order, every word at its address plus the shift"

    def judge(T, ps, items, limit, device, stop, known, w):
        mx = min(limit, 123) if limit and device else 123
        part_ = [i for i, x in enumerate(items) if "cfg%d" % i in w.partial and not all(a in known for a, _ in w.partial["cfg%d" % i])]
        for k, s, v in ps:
            ev = s.ev or ()
            reads, reqs = [e for e in ev if e[0] == "read"], [e for e in ev if e[0] == "sent"]
            fails = [e[1] for e in ev if e[0] == "failed"]
            ts = exc_types(M, v) if k == "throw" else None
            got = [x for e in reads for x in e[1]]
            for e in reads:
                if e[1]:
                    tri(chk, T, s, [r for _, r in decide(s, ("eq", sub(e[2], P("shift", "i32"))))] == [True] and e[4] == P("slave", "u8"), "read", "what partial registers have is read from the addresses written, with the shift", "shift %s" % fmt(e[2]))
            if "read" in fails:
                tri(chk, T, s, ts is not None and "TSerialDeviceException" in ts and not reqs, "not read", "nothing is written if what partial registers have cannot be read", "%d requests, %s" % (len(reqs), k))
                continue
            tri(chk, T, s, got == ["cfg%d" % i for i in part_], "read", "what partial registers have is read, unless it is known", str(got))
            mem = {a: P("old%d" % a, "u16") for a in known}
            for i in part_:
                mem.update(w.partial["cfg%d" % i])
            i, bad, err = 0, None, None
            for n, e in enumerate(ev):
                if e[0] != "sent":
                    continue
                if err:
                    bad = "a request after the error"
                    break
                f = ev[n + 1:]
                f = f[:[j for j, x in enumerate(f) if x[0] == "sent"][0]] if any(x[0] == "sent" for x in f) else f
                f = [x[1] for x in f if x[0] == "failed"]
                f = f[0] if f else None
                if e[2][:2] != ("app", "pdu"):
                    bad = ""
                    break
                _, _, fn, ad, cnt, *data = e[2]
                if e[1] != P("slave", "u8"):
                    bad = "to device %s" % fmt(e[1])
                    break
                if not is_c(cnt) or len(data) != 2 * cnt[1]:
                    bad = "%s registers with %d bytes" % (fmt(cnt), len(data))
                    break
                c, new, j0 = 0, {}, i
                while c < cnt[1] and i < len(items):
                    ws = item_words(i, items[i], mem)
                    for x, (a, t) in enumerate(ws):
                        if c + x >= cnt[1]:
                            bad = "part of an item"
                            break
                        if [r for _, r in decide(s, ("eq", sub(add(ad, C(c + x)), add(C(a), P("shift", "i32")))))] != [True]:
                            bad = "address %s + %d for register %d" % (fmt(ad), c + x, a)
                            break
                        h, l = data[2 * (c + x):2 * (c + x) + 2]
                        if t == "coil":
                            y = [r for _, r in decide(s, EQ(P("v%d" % i, "u64"), 0))]
                            if len(y) != 1 or [h, l] != [ZERO if y[0] else C(255), ZERO]:
                                bad = "coil %s" % fmt(h)
                            continue
                        g = add(scale(h, 256), l)
                        z = same(s, g, t)
                        if z is None:
                            tri(chk, T, s, None, "written", RULE, "%s, expected %s" % (fmt(g), fmt(t)))
                        elif not z:
                            bad = "word %s at %d, expected %s" % (fmt(g), a, fmt(t))
                        new[a] = t
                    if bad:
                        break
                    c += len(ws)
                    i += 1
                if bad is None and c != cnt[1]:
                    bad = "%s registers, of which %d belong to items" % (fmt(cnt), c)
                if bad is not None:
                    break
                if i - j0 > 1 and cnt[1] > mx:
                    bad = "%d registers in a request of at most %d" % (cnt[1], mx)
                    break
                ty = items[j0][0]
                wf = "FN_WRITE_SINGLE_COIL" if ty == "REG_COIL" else "FN_WRITE_MULTIPLE_REGISTERS" if ty == "REG_HOLDING_MULTI" or ty == "REG_HOLDING" and cnt[1] != 1 else "FN_WRITE_SINGLE_REGISTER"
                if any(items[j][0] != ty for j in range(j0, i)) or fn != fns[wf] or e[3] != app("reply", fn, cnt):
                    bad = "function %s" % fmt(fn)
                    break
                if f is None and not w.wo:
                    mem.update(new)
                if f is None:
                    pass
                elif f != "illegal" or stop:
                    err = f
            if bad is not None:
                tri(chk, T, s, False if bad else None, "written", RULE, bad)
                continue
            if err:
                want = "TSerialDeviceException" if err in ("illegal", "port") else "TResponseTimeoutException" if err == "silent" else "TSerialDeviceTransientErrorException"
                tri(chk, T, s, ts is not None and want in ts, "error", "writing stops with an error if an exchange failed, or if a register was refused and that is to stop it", "%s: %s" % (err, sorted(ts) if ts else "success"))
                continue
            tri(chk, T, s, k == "ret" and i == len(items), "written", RULE, "%d of %d, %s" % (i, len(items), k))
            tr = [e[1] for e in ev if e[0] == "SetTransferResult"]
            tri(chk, T, s, tr == [ONE] * (1 if device and items else 0), "answered", "the device counts as answering exactly after its setup was written", str(tr))
            pe = [e[0] for e in ev if e[0] in ("sent", "parsed")]
            tri(chk, T, s, pe.count("sent") <= pe.count("parsed") + len([f for f in fails if f != "illegal"]), "confirmed", "every reply is examined", str(pe))

    H, S_, C_, X = "REG_HOLDING", "REG_HOLDING_SINGLE", "REG_COIL", "REG_HOLDING_MULTI"
    u = lambda a, f="U16", t=H, off=0, wd=0: (t, f, a, off, wd)
    LISTS = [[u(10), u(11), u(12, "U32")], [u(10), u(20)], [u(10), u(11, off=3, wd=5), u(12)], [u(11, off=3, wd=5), u(12), u(13)], [u(1, t=C_), u(2)], [u(5, t=S_), u(6, t=S_)], [u(5, t=X), u(6, t=X), u(7)],
             [u(11, off=0, wd=4), u(11, off=4, wd=4)], [u(10, "U32"), u(11)], [(H, "String", 10, 0, 40, 2), u(15)], [(H, "String", 10, 0, 16, 2), u(12)], [u(10), u(10)], [u(20), u(19)], [u(10), u(10, off=3, wd=5)], [u(10), u(11, t=C_)], [u(10), u(11, t=X)], [u(10), u(11), u(11, off=3, wd=5), u(12)], [u(10, "U64"), u(14, "S8")],
             [u(10, "U32", off=10, wd=12), u(12)]]

    def lists():
        for x in LISTS:
            go(x)
            go(x, limit=1)
            go(x, limit=2)
        for n in (125, 126):
            go([u(10 + i) for i in range(4)], limit=3)
        go([u(10), u(11)], device=False)
        go([u(10), u(11), u(12)], device=False, limit=2)
        go([u(10, off=3, wd=5), u(11, off=8, wd=8)], known=(10,))
        go([u(10, off=3, wd=5), u(11, off=8, wd=8)], known=(10, 11))
        go([u(10, "U32", off=10, wd=12)], known=(10,))
        go([u(10, "U32", off=10, wd=12)], known=(11,))
        go([u(10, "U32", off=10, wd=12)], known=(10, 11))
        go([u(10, off=3, wd=5), u(11, off=8, wd=8), u(12)], group=1)
        go([])
        for x in LISTS[:5] + LISTS[9:11]:
            go(x, wo_=True)
    part(chk, "lists", lists)

    def failures():
        for stop in (False, True):
            for x in LISTS[:4] + LISTS[6:8]:
                go(x, fail=True, stop=stop)
    part(chk, "failures", failures)


# --------------------------------------------------------------------------- R05
@check("R05", "all paths of reading a range, for every outcome of the exchange and configuration", "registers, device and caller learn of the error as the reference says", only=REG_UNITS)
def r05(chk, M):
    av, err = enumc(M, "TRegisterAvailability"), enumc(M, "TRegister::TError")
    f = M.one("Modbus::ReadRegisterRange")
    KINDS = {"permanent": "TSerialDevicePermanentRegisterException", "transient": "TSerialDeviceTransientErrorException", "silent": "TResponseTimeoutException", "other": "TSerialDeviceException"}

    class W(Wire):
        def other(self, I, st, fn, obj, args, node):
            ev = st.ev or ()
            if fn.short == "ReadRange":
                s = st.withev(ev + (("read",),))
                for k, t in KINDS.items():
                    raiser(I, self.M, s.withev(s.ev + (("failed", k),)), node, t)
                return [(s, ("void",))]
            if fn.short == "HasHoles":
                return [(st, P("holes", "bool"))]
            if fn.short == "SetSupportsHoles":
                return [(st.withev(ev + (("SetSupportsHoles", I.rv(st, args[0])),)), ("void",))]
            return Wire.other(self, I, st, fn, obj, args, node)

    def outcomes():
        for n in (0, 1, 3):
            for stop in (0, 1):
                st = put_list(St(ev=()), ("regs",), [("par", "r%d" % (i + 1), "") for i in range(n)])
                st.env[("fld", ("deref", ("par", "devcfg", "")), "ContinuePollingOnIllegalModbusException")] = P("go_on", "bool")
                for x in ("device", "devcfg", *("r%d" % (i + 1) for i in range(n))):
                    st = add_fact(st, ("ne", ("par", x, "")))
                T, ps = run(chk, M, W(M), f, [C(stop) if p.n == "breakOnError" else ("par", p.n, "") for p in f.ps], st, "%d registers%s" % (n, ", to stop" if stop else ""))
                regs = ["r%d" % (i + 1) for i in range(n)]
                for k, s0, v in ps:
                    ev = s0.ev or ()
                    fl = [e[1] for e in ev if e[0] == "failed"]
                    for s, holes in decide(s0, P("holes", "bool")):
                        for s, on in decide(s, P("go_on", "bool")):
                            tri(chk, T, s, (("read",) in ev) == (n > 0), "read", "a range is read unless it is empty", str(ev)[:100])
                            gone = [e[1] for e in ev if e[0] == "SetAvailable"]
                            tri(chk, T, s, sorted(gone) == (regs if fl == ["permanent"] and not holes and not on else []) and all(e[2] == av["UNAVAILABLE"] for e in ev if e[0] == "SetAvailable"), "available",
                                "registers become unavailable exactly when a read of them alone was refused for good, and this is not ignored", "%s: %s" % (fl, gone))
                            sup = [e[1] for e in ev if e[0] == "SetSupportsHoles"]
                            tri(chk, T, s, sup == ([ZERO] if fl == ["permanent"] and holes else []), "holes", "a device is read without holes from when a read with holes was refused", "%s: %s" % (fl, sup))
                            errs = [e[1] for e in ev if e[0] == "SetError"]
                            tri(chk, T, s, sorted(errs) == (regs if fl else []) and all(e[2] == err["ReadError"] for e in ev if e[0] == "SetError"), "errors", "every register of a failed read, and no other, has a read error", "%s: %s" % (fl, errs))
                            tr = [e[1] for e in ev if e[0] == "SetTransferResult"]
                            tri(chk, T, s, tr == ([ZERO] if fl else []), "transfer", "a failed read counts as failed for the device's connection", str(tr))
                            ts = exc_types(M, v) if k == "throw" else None
                            tri(chk, T, s, (ts is not None and KINDS[fl[0]] in ts) if fl and stop else k == "ret", "caller", "the caller gets the error exactly if it asked to", k)
    part(chk, "outcomes", outcomes)
