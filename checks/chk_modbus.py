from common import *
import strmodels

READ = (1, 2, 3, 4)
SINGLE = (5, 6)
EXPL = ("Abstract interpretation of the functions over symbolic arguments: each function is reduced to a table of paths "
        "(conditions, result bytes as terms over the arguments, exception) that covers every input, and the table is compared "
        "with the Modbus specification table written in the check.")


def coils_bytes(n16):
    return None


@check("M01", EXPL, "for every path and every specification case whose conditions are compatible, the request bytes are those of the specification", only=CORE)
def m01(chk, M):
    f, a, c, wa, wc = P("function", "u8"), P("address", "u16"), P("count", "u16"), P("wa", "u16"), P("wc", "u16")
    n = SZ("data")
    for nparams, names in ((4, ["function", "address", "count", "data"]), (6, ["function", "address", "count", "wa", "wc", "data"])):
        I = Interp(M)
        T = Table(chk, I, M.one("Modbus::MakePDU", nparams), names, tag="MakePDU/%d" % nparams)
        data = lambda i: EL("data", i)
        for fc in READ:
            T.case("read fc %d" % fc, [(EQ(f, fc), True)],
                   T.bytes_(C(5), [(0, C(fc)), (1, hi(a)), (2, lo(a)), (3, hi(c)), (4, lo(c))]),
                   "read request: function code, address, quantity, big-endian")
        for fc in SINGLE:
            T.case("single write fc %d" % fc, [(EQ(f, fc), True), (EQ(n, 2), True)],
                   T.bytes_(C(5), [(0, C(fc)), (1, hi(a)), (2, lo(a)), (3, EL("data", 0)), (4, EL("data", 1))]),
                   "single write request: function code, address, the two data bytes")
            T.case("single write fc %d, wrong data size" % fc, [(EQ(f, fc), True), (EQ(n, 2), False)],
                   T.throws_type(["Modbus::TMalformedRequestError"]), "data of another size is refused")
        body = lambda fc, off: T.bytes_(add(n, C(6)), [(0, C(fc)), (1, hi(a)), (2, lo(a)), (3, hi(c)), (4, lo(c)), (5, lo(n))],
                                        [(C(6), n, lambda i: EL("data", i))])
        T.case("multiple registers", [(EQ(f, 16), True), (EQ(n, scale(c, 2)), True)], body(16, 6),
               "multiple write request: function code, address, quantity, byte count, data")
        T.case("multiple registers, wrong data size", [(EQ(f, 16), True), (EQ(n, scale(c, 2)), False)],
               T.throws_type(["Modbus::TMalformedRequestError"]), "data of another size is refused")
        # 8 * bytes >= coils > 8 * (bytes - 1)
        fit = [(LE(c, scale(n, 8)), True), (LE(add(scale(n, 8), C(-7)), c), True)]
        T.case("multiple coils", [(EQ(f, 15), True)] + fit, body(15, 6),
               "multiple write request: function code, address, quantity, byte count, data")
        for nm, g in (("too little data", (LE(c, scale(n, 8)), False)), ("too much data", (LE(add(scale(n, 8), C(-7)), c), False))):
            T.case("multiple coils, " + nm, [(EQ(f, 15), True), g],
                   T.throws_type(["Modbus::TMalformedRequestError"]), "data of another size is refused")
        if nparams == 6:
            T.case("read/write", [(EQ(f, 23), True), (EQ(n, scale(wc, 2)), True)],
                   T.bytes_(add(n, C(10)), [(0, C(23)), (1, hi(a)), (2, lo(a)), (3, hi(c)), (4, lo(c)), (5, hi(wa)), (6, lo(wa)),
                                            (7, hi(wc)), (8, lo(wc)), (9, lo(n))], [(C(10), n, data)]),
                   "read/write request: read address and quantity, write address and quantity, byte count, data")
            T.case("read/write, wrong data size", [(EQ(f, 23), True), (EQ(n, scale(wc, 2)), False)],
                   T.throws_type(["Modbus::TMalformedRequestError"]), "data of another size is refused")
        known = READ + SINGLE + (15, 16) + ((23,) if nparams == 6 else ())
        T.case("other function code", [(EQ(f, k), False) for k in known], T.bytes_(ZERO, []),
               "no request is made for another function code")


def with_range(st, i, n):
    s = st
    for f in (("le", scale(i, -1)), ("le", add(sub(i, n), ONE))):
        s = add_fact(s, f) if s is not None else None
    return s


RTU = "Modbus::TModbusRTUTraits::Transaction"
TCP = "Modbus::TModbusTCPTraits::Transaction"
TNAMES = ["port", "slaveId", "requestPdu", "expected", "responseTimeout", "frameTimeout", "matchSlaveId"]


def transaction(chk, M, name, extra=None):
    port, crc = Port(M), Crc()
    I = Interp(M, hook=chain(*( [extra] if extra else []), port, crc), peel=True)
    I.MAXP = 400
    # a PDU has at most 253 bytes; buffers are sized from the expected response
    st = St(facts=(("le", sub(P("expected", "u64"), C(1000))),))
    # clock readings and the time-out of the port are arbitrary
    T = Table(chk, I, M.one(name), TNAMES, tag=name.split("::")[1] + "::Transaction", st=st, allow=("TPort::CalcResponseTimeout",))
    T.port, T.crc = port, crc
    return T


class TransId:
    """TModbusTCPTraits::GetTransactionId as an arbitrary 16-bit number (checked on its own)."""

    def __call__(self, I, st, fn, obj, args, node):
        if fn.n == "Modbus::TModbusTCPTraits::GetTransactionId":
            return [(st, ("sym", "tid", "u16"))]
        return None


@check("M02", EXPL, "the bytes given to the port are the framed request of the specification, on every path that transmits", only=CORE)
def m02(chk, M):
    et = int_type(M, "u8")
    n = SZ("requestPdu")
    slave = P("slaveId", "u8")
    i = ("sym", "spec_i", "sz")
    # RTU
    T = transaction(chk, M, RTU)
    I = T.I
    where = chk.where(T.body)
    chk.expect("RTU/transmits", len(T.port.writes) > 0, where, "the request is transmitted")
    for st, base, off, cnt, node, k in T.port.writes:
        w = chk.where(T.body, node.get("l"))
        pre = [st]      # a request PDU has 1..253 bytes
        for f in (("le", sub(ONE, n)), ("le", sub(n, C(253)))):
            pre = [y for y in (add_fact(x, f) for x in pre) if y is not None]
        chk.expect("RTU/one transmission", k == 0, w, "one frame is transmitted per transaction")
        for s in pre:
            r, d = seq_len(s, cnt, add(n, C(3)))
            chk.expect("RTU/length", r, w, "frame = address, PDU, two CRC bytes", d)
            r = eq_terms(s, I.load_el(s, base, off, et), slave)
            chk.expect("RTU/address", r, w, "the first byte is the slave address")
            for s2, v in elem_cases(I, with_range(s, i, n), base, add(off, add(i, ONE)), et):
                chk.expect("RTU/pdu", eq_terms(s2, v, EL("requestPdu", i)), w, "the PDU follows unchanged", fmt(v))
            h = I.load_el(s, base, add(off, add(n, ONE)), et)
            l = I.load_el(s, base, add(off, add(n, C(2))), et)
            r, d = crc_bytes(I, s, T.crc, h, l, base, off, add(n, ONE))
            chk.expect("RTU/crc", r, w, "the frame ends with the CRC of all preceding bytes", d)
    # TCP
    T = transaction(chk, M, TCP, TransId())
    I = T.I
    tid = ("sym", "tid", "u16")
    where = chk.where(T.body)
    chk.expect("TCP/transmits", len(T.port.writes) > 0, where, "the request is transmitted")
    for st, base, off, cnt, node, k in T.port.writes:
        w = chk.where(T.body, node.get("l"))
        chk.expect("TCP/one transmission", k == 0, w, "one frame is transmitted per transaction")
        s = st
        for f in (("le", sub(ONE, n)), ("le", sub(n, C(253)))):
            s = add_fact(s, f) if s is not None else None
        if s is None:
            continue
        r, d = seq_len(s, cnt, add(n, C(7)))
        chk.expect("TCP/length", r, w, "frame = MBAP header, PDU", d)
        ln = add(n, ONE)
        for idx, t, what in ((0, hi(tid), "transaction id, high byte"), (1, lo(tid), "transaction id, low byte"), (2, ZERO, "protocol id"),
                             (3, ZERO, "protocol id"), (4, ZERO, "length, high byte"), (5, ln, "length (unit id and PDU), low byte"),
                             (6, slave, "unit id")):
            v = I.load_el(s, base, add(off, C(idx)), et)
            chk.expect("TCP/header byte %d" % idx, eq_terms(s, v, t), w, what, "byte %d is %s, expected %s" % (idx, fmt(v), fmt(t)))
        for s2, v in elem_cases(I, with_range(s, i, n), base, add(off, add(i, C(7))), et):
            chk.expect("TCP/pdu", eq_terms(s2, v, EL("requestPdu", i)), w, "the PDU follows unchanged", fmt(v))


def seq_len(s, a, b):
    return eq_terms(s, a, b), "length is %s, expected %s" % (fmt(a), fmt(b))


def crc_bytes(I, s, crc, h, l, base, off, n, swap=False):
    """h, l are the high and low byte of CRC(base[off, off+n))"""
    d = "last bytes are %s, %s" % (fmt(h), fmt(l))
    for k, (cs, cb, co, cn) in crc.calls.items():
        c = ("sym", "crc", k, "u16")
        if h == bits(c, 8, 8) and l == bits(c, 0, 8):
            if cb != base or eq_terms(s, co, off) is not True:
                return False, "the CRC is computed over another buffer"
            if eq_terms(s, cn, n) is not True:
                return eq_terms(s, cn, n), "the CRC covers %s bytes, expected %s" % (fmt(cn), fmt(n))
            i = ("sym", "spec_i", "sz")
            s2 = with_range(s, i, n)
            et = int_type(I.M, "u8")
            r = True, ""
            for s3, a in elem_cases(I, s2, base, add(off, i), et):
                for s4, b in elem_cases(I, St(cs.env, s3.facts), cb, add(co, i), et):
                    e = eq_terms(s4, a, b)
                    if e is not True and r[0] is not False:
                        r = e, "covered bytes %s, transmitted bytes %s" % (fmt(b), fmt(a))
            return r
    return (None if unclean(h) or unclean(l) else False), d


def prove(st, t):
    """Is boolean/linear fact t ('eq'/'le', lin) entailed?  True / False (definitely not entailed: modelled) / None"""
    k, l = t
    if k == "eq":
        if entails_eq(st, l) or poly.proves_zero(st.facts, l):
            return True
    else:
        if entails_le(st, l) or poly.proves_le(st.facts, l):
            return True
    return None if unclean(l) else False


@check("M03", EXPL, "a path that delivers a reply must have established every acceptance condition; a path that refuses one must contradict one of them", only=CORE)
def m03(chk, M):
    et = int_type(M, "u8")
    T = transaction(chk, M, RTU)
    I = T.I
    slave, match = P("slaveId", "u8"), P("matchSlaveId", "b")
    body = T.body

    def replies(st):
        """The read that filled the response: the first after the transmission."""
        return [r for r in T.port.reads.values() if ("tx", "n") in r["st"].env]

    def first_read(s):
        # reads whose counter symbol is mentioned by the path
        out = []
        for rx, r in T.port.reads.items():
            c = r["count"]
            if any(mentions(f, c) for f in s.facts) or any(mentions(v, rx) for v in s.env.values() if isinstance(v, tuple)):
                out.append((rx, r))
        return out

    nret = 0
    for kind, s, v in T.paths:
        if poly.infeasible(s.facts):
            continue
        if kind != "ret":
            continue
        nret += 1
        w = chk.where(body)
        rs = [(rx, r) for rx, r in first_read(s) if r["base"][0] != "frame" and not same_read_buf(r)]
        main_ = rs[:1]
        if not main_:
            chk.expect("RTU/reply comes from the port", False if T.clean(s) else None, w, "the delivered bytes were read from the port",
                       "a path returns without a read from the port")
            continue
        rx, r = main_[0]
        cnt = r["count"]
        cl = T.clean(s)
        q = lambda x: x if x is not False or cl else None
        at = lambda i: ("ld", ("el", rx, i), 0, "u8")
        chk.expect("RTU/request sent first", ("tx", "n") in r["st"].env, w, "the reply is read after the request was transmitted")
        chk.expect("RTU/whole frame", q(prove(s, ("le", sub(C(3), cnt)))), w, "at least address and CRC were received (3 bytes)",
                   "received count: %s" % [fmt(f[1]) for f in s.facts if mentions(f, cnt)][:6])
        far = beyond(s, rx, cnt)
        if far is not None:
            chk.expect("RTU/received bytes", False, w, "only bytes of the reply decide whether it is accepted", "byte %s, %s received" % (fmt(far[1][2]), fmt(cnt)))
        okc, d = crc_established(I, T.crc, s, rx, cnt)
        chk.expect("RTU/crc", q(okc), w, "the received CRC equals the CRC of all bytes before it", d)
        for x in assume(s, match, True):
            if not poly.infeasible(x.facts):
                chk.expect("RTU/address", q(prove(x, ("eq", sub(slave, at(ZERO))))), w, "the reply's address is that of the addressed device",
                           "no such condition on a path that returns")
        if v[0] == "obj":
            ok, d = seq_is(I, s, ("fld", v[1], "Pdu"), sub(cnt, C(3)), [], [(ZERO, sub(cnt, C(3)), lambda i: at(add(i, ONE)))])
            chk.expect("RTU/payload", q(ok), w, "exactly the bytes between address and CRC are delivered", d)
            sid = I.load(s, ("fld", v[1], "SlaveId"), et)
            chk.expect("RTU/sender", q(eq_terms(s, sid, at(ZERO))), w, "the reported sender is the address in the reply", "reported: " + fmt(sid))
            rt = I.load(s, ("fld", v[1], "ResponseTime"))
            chk.expect("RTU/time", q(eq_terms(s, rt, ("sym", "rtime") + rx + ("",))), w, "the reported response time is that of the reply", fmt(rt))
        else:
            chk.expect("RTU/payload", None, w, "exactly the bytes between address and CRC are delivered", fmt(v))
    capacity(chk, T, "RTU")
    forced_timeout(chk, M, T)
    chk.expect("RTU/accepts", nret > 0, chk.where(body), "an intact reply is accepted on some path")
    # refusals
    for kind, s, e in T.paths:
        if kind != "throw" or e.why == "port" or poly.infeasible(s.facts):
            continue
        ts = exc_types(M, e)
        w = chk.where(body, e.line)
        cl = T.clean(s)
        rs = [(rx, r) for rx, r in first_read(s) if not same_read_buf(r)]
        if not rs:
            chk.expect("RTU/refusal:%s" % sorted(ts or ["?"])[0], None if not cl else False, w, "a transaction fails only for the port's or the reply's sake")
            continue
        rx, r = rs[0]
        cnt = r["count"]
        at = lambda i: ("ld", ("el", rx, i), 0, "u8")
        # would an intact, matching reply take this path?
        x = add_fact(s, ("le", sub(C(3), cnt)))
        good = None
        if x is None or poly.infeasible(x.facts):
            good, cat_ = False, "Modbus::TMalformedResponseError"
            what = "shorter than 3 bytes"
        else:
            x2 = crc_assume(I, T.crc, x, rx, cnt)
            if x2 is False:
                good, cat_, what = False, "Modbus::TMalformedResponseError", "CRC mismatch"
            elif x2 is None:
                good = None
            else:
                y = [z for b in assume(x2, match, False) for z in [b]]
                y += [z for b in assume(x2, match, True) for z in assume(b, EQ(slave, at(ZERO)), True)]
                y = [z for z in y if not poly.infeasible(z.facts)]
                if y:
                    good = True
                else:
                    good, cat_, what = False, "Modbus::TUnexpectedResponseError", "another address"
        if good is None:
            chk.expect("RTU/refusal/undetermined:%s" % (e.line,), None, w, "intact replies are not refused")
        elif good:
            chk.expect("RTU/refusal of an intact reply", False if cl else None, w, "a whole reply with a correct CRC from the addressed device is not refused",
                       "throws %s" % (sorted(ts) if ts else "?"))
        else:
            chk.expect("RTU/refusal/%s" % what, None if ts is None else cat_ in ts, w, "reply refused (%s) as %s" % (what, cat_), sorted(ts or []))


def forced_timeout(chk, M, T):
    """With the frame time-out forced the line is read once more before a reply is delivered; silence there is no error."""
    g = Table(chk, Interp(M), M.one("Modbus::IModbusTraits::GetForceFrameTimeout"), tag="GetForceFrameTimeout")
    flag = g.paths[0][2]
    if flag[0] == "ref":
        flag = g.I.rv(g.paths[0][1], flag)
    if len(g.paths) != 1 or not is_num(flag) and flag[0] not in ("ld", "le", "eq", "not"):
        chk.expect("RTU/forced time-out", None, chk.where(T.body), "the flag is known", fmt(flag))
        return
    for kind, s, v in T.paths:
        if kind == "throw" and v.why != "port":
            continue
        for val in (True, False):
            for x in assume(s, flag, val):
                if poly.infeasible(x.facts):
                    continue
                n = x.env.get(("rdn",))
                cl = T.clean(x)
                q = lambda y: y if y is not False or cl else None
                if kind == "ret":
                    chk.expect("RTU/reads with%s forced time-out" % ("" if val else "out"), q(n == C(2 if val else 1)) if n is not None and is_c(n) else None, chk.where(T.body),
                               "the line is read once more before a reply is delivered exactly when the frame time-out is forced", "reads: %s" % (fmt(n) if n else "none"))
                elif "TResponseTimeoutException" in (exc_types(M, v) or ()):
                    chk.expect("RTU/silence after the reply", q(not (n is not None and is_c(n) and n[1] > 1)), chk.where(T.body, v.line),
                               "silence after a reply is no error", "a time-out of read %s reaches the caller" % (fmt(n) if n else "?"))


def capacity(chk, T, tag):
    """Every read of the transaction stays inside the buffer it is given."""
    for st, base, off, size, node in T.port.all:
        w = chk.where(T.body, node.get("l"))
        cap = T.I.size_of(st, base)
        end = add(off, size)
        if cap[0] == "ld" or not is_num(end):       # a buffer of unknown size
            chk.expect(tag + "/buffer", None, w, "a read stays inside its buffer", "size of %s" % fmt(cap))
            continue
        ok = prove(st, ("le", sub(end, cap)))
        if ok is False and (not T.clean(st) or poly.infeasible(st.facts)):
            ok = None
        chk.expect(tag + "/buffer", ok, w, "a read stays inside its buffer", "reads up to %s of %s bytes" % (fmt(end), fmt(cap)))


def reads_of(T, s):
    """Port reads whose result the path depends on, in program order."""
    out = []
    for rx, r in T.port.reads.items():
        c = r["count"]
        if any(mentions(f, c) for f in s.facts) or any(mentions(v, rx) for v in s.env.values() if isinstance(v, tuple)):
            out.append((rx, r))
    return out


@check("M04", EXPL, "a path that delivers a reply must have established every acceptance condition; a path that refuses one must contradict one of them", only=CORE)
def m04(chk, M):
    et = int_type(M, "u8")
    T = transaction(chk, M, TCP, TransId())
    I, body = T.I, T.body
    slave, match, tid = P("slaveId", "u8"), P("matchSlaveId", "b"), ("sym", "tid", "u16")
    at = lambda rx, i: ("ld", ("el", rx, C(i) if isinstance(i, int) else i), 0, "u8")

    def split(s):
        """(header read, body read) of the last packet on the path."""
        heads = [(rx, r) for rx, r in reads_of(T, s) if r["off"] == ZERO and r["size"] == C(7)]
        bodies = [(rx, r) for rx, r in reads_of(T, s) if r["off"] == C(7)]
        return (heads[-1] if heads else None), (bodies[-1] if bodies else None)

    nret = 0
    for kind, s, v in T.paths:
        if kind != "ret" or poly.infeasible(s.facts):
            continue
        nret += 1
        w = chk.where(body)
        cl = T.clean(s)
        q = lambda x: x if x is not False or cl else None
        h, b = split(s)
        if h is None or b is None:
            chk.expect("TCP/header and body", None if not cl and reads_of(T, s) else False, w, "a reply is a 7-byte MBAP header followed by the announced bytes",
                       "reads on the path: %s" % [(fmt(r["off"]), fmt(r["size"])) for _, r in reads_of(T, s)])
            continue
        (hx, hr), (bx, br) = h, b
        ln = add(add(scale(at(hx, 4), 256), at(hx, 5)), C(-1))
        chk.expect("TCP/request sent first", ("tx", "n") in hr["st"].env, w, "the reply is read after the request was transmitted")
        chk.expect("TCP/whole header", q(prove(s, ("le", sub(C(7), hr["count"])))), w, "the whole header was received")
        chk.expect("TCP/length is positive", q(prove(s, ("le", scale(ln, -1)))), w, "the header announces at least the unit id")
        chk.expect("TCP/reads the announced length", q(prove(s, ("eq", sub(br["size"], ln)))), w, "the body read asks for the announced length",
                   "asks for %s" % fmt(br["size"]))
        chk.expect("TCP/whole body", q(prove(s, ("eq", sub(br["count"], ln)))), w, "exactly the announced number of bytes was received")
        for i, t in ((0, hi(tid)), (1, lo(tid))):
            chk.expect("TCP/transaction id byte %d" % i, q(prove(s, ("eq", sub(at(hx, i), t)))), w, "the reply carries the request's transaction id")
        for x in assume(s, match, True):
            if not poly.infeasible(x.facts):
                chk.expect("TCP/unit id", q(prove(x, ("eq", sub(slave, at(hx, 6))))), w, "the reply's unit id is that of the addressed device")
        if v[0] == "obj":
            ok, d = seq_is(I, s, ("fld", v[1], "Pdu"), ln, [], [(ZERO, ln, lambda i: at(bx, i))])
            chk.expect("TCP/payload", q(ok), w, "exactly the bytes after the header are delivered", d)
            sid = I.load(s, ("fld", v[1], "SlaveId"), et)
            chk.expect("TCP/sender", q(eq_terms(s, sid, at(hx, 6))), w, "the reported sender is the unit id of the reply", fmt(sid))
        else:
            chk.expect("TCP/payload", None, w, "exactly the bytes after the header are delivered", fmt(v))
    capacity(chk, T, "TCP")
    chk.expect("TCP/accepts", nret > 0, chk.where(body), "an intact reply is accepted on some path")
    for kind, s, e in T.paths:
        if kind != "throw" or e.why == "port" or poly.infeasible(s.facts):
            continue
        ts = exc_types(M, e)
        w = chk.where(body, e.line)
        cl = T.clean(s)
        if ts is None:
            chk.expect("TCP/refusal/type", None, w, "refusals are typed")
            continue
        if "TResponseTimeoutException" in ts:
            chk.expect("TCP/timeout", True, w, "waiting for the reply is bounded by the response time-out")
            continue
        h, b = split(s)
        if h is None:
            chk.expect("TCP/refusal before a reply", False if cl else None, w, "a transaction fails only for the port's or the reply's sake", sorted(ts))
            continue
        hx, hr = h
        ln = add(add(scale(at(hx, 4), 256), at(hx, 5)), C(-1))
        steps = [("short header", [("le", sub(C(7), hr["count"]))], "Modbus::TMalformedResponseError"),
                 ("zero length", [("le", scale(ln, -1))], "Modbus::TMalformedResponseError")]
        if b is not None and after(b, h):
            steps.append(("short body", [("eq", sub(b[1]["count"], ln))], "Modbus::TMalformedResponseError"))
        x, verdict = s, None
        for what, fs, cat_ in steps:
            for f in fs:
                x = add_fact(x, f) if x is not None else None
            if x is None or poly.infeasible(x.facts):
                verdict = (what, cat_)
                break
        if verdict is None:
            # a whole packet: only another unit id (with our transaction id) justifies a refusal
            for i, t in ((0, hi(tid)), (1, lo(tid))):
                y = add_fact(x, ("eq", sub(at(hx, i), t)))
                if y is None or poly.infeasible(y.facts):
                    chk.expect("TCP/refusal of a stale packet", False if cl else None, w, "a packet with another transaction id is skipped, not an error", sorted(ts))
                    break
            else:
                if not prove(x, ("eq", sub(at(hx, 0), hi(tid)))) or not prove(x, ("eq", sub(at(hx, 1), lo(tid)))):
                    chk.expect("TCP/refusal of a stale packet", False if cl else None, w, "a packet with another transaction id is skipped, not an error", sorted(ts))
                ys = assume(x, match, False) + [z for m in assume(x, match, True) for z in assume(m, EQ(slave, at(hx, 6)), True)]
                ys = [z for z in ys if not poly.infeasible(z.facts)]
                if ys:
                    chk.expect("TCP/refusal of an intact reply", False if cl else None, w, "a whole reply with our transaction id from the addressed unit is not refused", sorted(ts))
                else:
                    chk.expect("TCP/refusal/another unit", "Modbus::TUnexpectedResponseError" in ts, w, "a reply from another unit is refused as unexpected", sorted(ts))
        else:
            chk.expect("TCP/refusal/" + verdict[0], verdict[1] in ts, w, "reply refused (%s) as %s" % verdict, sorted(ts))


def after(b, h):
    return b[0][1] > h[0][1]


def same_read_buf(r):
    """The drain read after a forced frame timeout goes to another buffer than the one whose bytes are delivered."""
    return r.get("drain", False)


def beyond(s, rx, cnt):
    """A byte used on the path that lies beyond those received (None: there is none)."""
    for f in s.facts:
        for t in subterms(f):
            if t[0] == "ld" and isinstance(t[1], tuple) and t[1][0] == "el" and isinstance(t[1][1], tuple) and t[1][1][0] == "mix":
                if mentions(t[1][1], ("raw",) + (rx,)) or rx in subterms(t[1][1]):
                    if is_num(t[1][2]) and prove(s, ("le", sub(cnt, t[1][2]))) is True:
                        return t
    return None


def crc_established(I, crc, s, rx, cnt):
    """The path requires  256*r[cnt-2] + r[cnt-1] == CRC(r[0, cnt-2))."""
    at = lambda i: ("ld", ("el", rx, i), 0, "u8")
    got = add(scale(at(sub(cnt, C(2))), 256), at(sub(cnt, ONE)))
    why = "no comparison with a computed CRC on the path"
    res = False
    for k, (cs, cb, co, cn) in crc.calls.items():
        c = ("sym", "crc", k, "u16")
        if prove(s, ("eq", sub(got, c))) is True:
            i = ("sym", "spec_i", "sz")
            n = sub(cnt, C(2))
            if eq_terms(s, cn, n) is not True and prove(s, ("eq", sub(cn, n))) is not True:
                res, why = eq_terms(s, cn, n), "the CRC is computed over %s bytes, expected %s" % (fmt(cn), fmt(n))
                continue
            s2 = with_range(s, i, n)
            if s2 is None:
                return True, ""
            a = I.load_el(St(cs.env, s2.facts), cb, add(co, i), int_type(I.M, "u8"))
            r = eq_terms(s2, a, at(i))
            if r is True:
                return True, ""
            res, why = r, "the CRC covers %s, expected the received bytes" % fmt(a)
    return res, why


def crc_assume(I, crc, s, rx, cnt):
    """State with the CRC of the reply assumed correct; False when impossible, None when not determined."""
    at = lambda i: ("ld", ("el", rx, i), 0, "u8")
    got = add(scale(at(sub(cnt, C(2))), 256), at(sub(cnt, ONE)))
    used = [k for k in crc.calls if any(mentions(f, ("sym", "crc", k, "u16")) for f in s.facts)]
    x = s
    for k in used:
        x = add_fact(x, ("eq", sub(got, ("sym", "crc", k, "u16"))))
        if x is None:
            return False
    return False if poly.infeasible(x.facts) else x


@check("M05", EXPL, "for every path and every specification case whose conditions are compatible, the delivered data or the exception is that of the specification", only=CORE)
def m05(chk, M):
    I = Interp(M)
    I.MAXP = 400
    T = Table(chk, I, M.one("Modbus::ExtractResponseData"), ["requestFunction", "pdu"], tag="ExtractResponseData")
    f, n = P("requestFunction", "u8"), SZ("pdu")
    b0, b1 = EL("pdu", 0), EL("pdu", 1)
    two = (LE(2, n), True)
    same = (EQ(bits(b0, 0, 7), f), True)
    normal, exc = (EQ(bits(b0, 7, 1), 0), True), (EQ(bits(b0, 7, 1), 1), True)
    T.case("short", [(LE(2, n), False)], T.throws_type(["Modbus::TMalformedResponseError"]), "a reply shorter than two bytes is malformed")
    T.case("another function", [two, (EQ(bits(b0, 0, 7), f), False)], T.throws_type(["Modbus::TUnexpectedResponseError"]),
           "a reply to another function is unexpected, whatever else it holds")

    def carries(st, kind, e):
        if kind != "throw":
            return False, "an exception reply must not be treated as data"
        ts = exc_types(M, e)
        if ts is None:
            return None, "type unknown"
        if "Modbus::TModbusExceptionError" not in ts:
            return False, "expected Modbus::TModbusExceptionError"
        if e.val is None or e.val[0] != "obj":
            return None, "exception value unknown"
        getter = M.one("Modbus::TModbusExceptionError::GetExceptionCode")
        old = I.exc
        I.exc = [[]]
        rs = I.call_body(getter, st, e.val[1], [])
        I.exc = old
        if len(rs) != 1:
            return None, ""
        return eq_terms(st, rs[0][1], b1), "the reported exception code is %s" % fmt(rs[0][1])
    # an exception reply to a supported function
    for fc in READ + SINGLE + (15, 16, 23):
        T.case("exception reply to fc %d" % fc, [two, same, exc, (EQ(f, fc), True)], carries, "an exception reply raises a Modbus exception with the device's code")
    for fc in READ + (23,):
        T.case("data of fc %d" % fc, [two, same, normal, (EQ(f, fc), True), (EQ(sub(n, C(2)), b1), True)],
               T.bytes_(sub(n, C(2)), [], [(ZERO, sub(n, C(2)), lambda i: EL("pdu", add(i, C(2))))]), "exactly the bytes after the byte count are delivered")
        T.case("byte count of fc %d" % fc, [two, same, normal, (EQ(f, fc), True), (EQ(sub(n, C(2)), b1), False)],
               T.throws_type(["Modbus::TMalformedResponseError"]), "a byte count that differs from the received data is malformed")
    for fc in SINGLE + (15, 16):
        T.case("confirmation of fc %d" % fc, [two, same, normal, (EQ(f, fc), True), (EQ(n, 5), True)], T.bytes_(ZERO, []), "a write confirmation carries no data")
        T.case("confirmation size of fc %d" % fc, [two, same, normal, (EQ(f, fc), True), (EQ(n, 5), False)],
               T.throws_type(["Modbus::TMalformedResponseError"]), "a write confirmation of another size is malformed")
    T.case("unsupported function", [two, same, normal] + [(EQ(f, k), False) for k in READ + SINGLE + (15, 16, 23)],
           T.throws_type(["Modbus::TUnexpectedResponseError"]), "a reply with an unknown function code is refused")


@check("M06", EXPL, "for every path and every specification case whose conditions are compatible, the value is that of the specification", only=CORE)
def m06(chk, M):
    I = Interp(M)
    T = Table(chk, I, M.one("Modbus::CalcResponsePDUSize"), ["function", "count"], tag="CalcResponsePDUSize")
    f, c = P("function", "u8"), P("count", "u64")
    cnt = (LE(c, 65535), True)
    for fc in SINGLE + (15, 16):
        T.case("write fc %d" % fc, [(EQ(f, fc), True)], T.returns(C(5)), "a write is confirmed with five bytes")
    for fc in (1, 2):
        def fits(st, kind, v):
            if kind != "ret":
                return False, "expected a size"
            # 8*(v-2) in [c, c+7]
            q = [prove(st, ("le", sub(c, scale(sub(v, C(2)), 8)))), prove(st, ("le", sub(scale(sub(v, C(2)), 8), add(c, C(7)))))]
            return (True if all(x is True for x in q) else (False if False in q and not unclean(v) else None)), "size is " + fmt(v)
        T.case("bits fc %d" % fc, [(EQ(f, fc), True), cnt], fits, "two bytes and one bit per coil, rounded up to bytes")
    for fc in (3, 4, 23):
        T.case("registers fc %d" % fc, [(EQ(f, fc), True), cnt], T.returns(add(scale(c, 2), C(2))), "two bytes and two bytes per register")
    # function code predicates
    T = Table(chk, Interp(M), M.one("Modbus::IsException"), ["code"], tag="IsException")
    b = P("code", "u8")
    for v in (0, 1):
        T.case("bit 7 = %d" % v, [(EQ(bits(b, 7, 1), v), True)], truth(v), "an exception reply is one with the high bit of the function code set")
    T = Table(chk, Interp(M), M.one("Modbus::IsSupportedFunction"), ["code"], tag="IsSupportedFunction")
    sup = READ + SINGLE + (15, 16, 23)
    for fc in sup:
        T.case("fc %d" % fc, [(EQ(b, fc), True)], truth(1), "the function is supported")
    T.case("others", [(EQ(b, fc), False) for fc in sup], truth(0), "no other function is supported")
    # frame end of a reply on a serial line: predicate given to the port
    T = transaction(chk, M, RTU)
    I = T.I
    w = chk.where(T.body)
    got = False
    for rx, r in T.port.reads.items():
        if ("tx", "n") not in r["st"].env or r["base"] is None or r.get("pred") is None:
            continue
        pv = r["pred"]
        if pv[0] == "ref":
            pv = I.load(r["st"], pv[1])
        if pv[0] != "lam":
            continue     # a read without a frame end condition (drain)
        got = True
        exp = add(P("expected", "u64"), C(3))
        chk.expect("RTU/buffer", eq_terms(r["st"], r["size"], exp), w, "the port reads at most the predicted frame (PDU and three bytes)", fmt(r["size"]))
        I.exc = [[]]
        old_stack = I.stack
        size = P("size", "u64")
        buf = ("p", "buf")
        rs = I.call_lambda(r["st"], pv, [("ptr", buf, ZERO), size], r["node"])
        I.exc = []
        eb = bits(EL("buf", 1), 7, 1)
        for nm, g, t in (("too short to tell", [(LE(2, size), False)], C(0)),
                         ("exception reply", [(LE(2, size), True), (EQ(eb, 1), True)], LE(5, size)),
                         ("normal reply", [(LE(2, size), True), (EQ(eb, 0), True)], LE(exp, size))):
            n = 0
            for s, v in rs:
                ss = [s]
                for a, tr in g:
                    ss = [y for x in ss for y in assume(x, a, tr)]
                for y in ss:
                    if poly.infeasible(y.facts):
                        continue
                    n += 1
                    chk.expect("RTU/frame end/" + nm, eq_bool_any(y, v, t), w,
                               "a frame is complete with 5 bytes for an exception reply, with the predicted size otherwise, never before 2 bytes",
                               "returns %s, expected %s" % (fmt(v), fmt(t)))
            chk.expect("RTU/frame end/" + nm, True if n else None, w, "the case occurs")
    chk.expect("RTU/frame end", True if got else None, w, "the port is told when the reply is complete")


def truth(v):
    def f(st, kind, x):
        if kind != "ret":
            return False, "expected a result"
        if is_c(x):
            return bool(x[1]) == bool(v), "returns " + fmt(x)
        r = [y for y in assume(st, x, not v) if not poly.infeasible(y.facts)]
        return (True if not r else (None if unclean(x) else False)), "returns " + fmt(x)
    return f


def eq_bool_any(st, a, b):
    if is_c(a) and is_c(b):
        return bool(a[1]) == bool(b[1])
    for v in (True, False):
        for s in assume(st, a, v):
            for y in assume(s, b, not v):
                if not poly.infeasible(y.facts):
                    return None if unclean(a) else False
    return True


@check("M07", EXPL + " Shared counters are followed through the map operations; that the mutex is held is not checked.",
       "each path returns the successor of the port's last transaction id (1 for a port without one) and stores it", only=CORE)
def m07(chk, M):
    I = Interp(M)
    body = M.one("Modbus::TModbusTCPTraits::GetTransactionId")
    T = Table(chk, I, body, ["port"], tag="GetTransactionId", allow=("TPort::GetDescription",))
    w = chk.where(body)
    counters = set()
    for kind, s, v in T.paths:
        if poly.infeasible(s.facts):
            continue
        if kind == "throw":
            chk.expect("GetTransactionId/throws", None if not T.clean(s) else False, w, "an id is always produced", str(v.type))
            continue
        has = [f for f in s.facts if f[0] == "b" and f[1][0] == "has"]
        if len(has) != 1:
            chk.expect("GetTransactionId/known port", None, w, "the port's counter is looked up", [fmt(f[1]) for f in s.facts])
            continue
        m, k = has[0][1][1], has[0][1][2]
        if m[0] == "ld":
            m = m[1]
        counters.add((m, k))
        if not mentions(k, ("p", "port")):
            chk.expect("GetTransactionId/key", None if unclean(k, T.allow) else False, w, "the counter belongs to the port", fmt(k))
        stored = [x for q, x in s.env.items() if q[0] == "fld" and q[2] == "second" and mentions(q, m) and mentions(q, k)]
        if has[0][2]:
            old = ("ld", ("fld", ("el", m, ("key", k)), "second"), 0, "u16")
            chk.expect("GetTransactionId/increment", eq_terms(s, v, bits(add(old, ONE), 0, 16), T.allow), w,
                       "the next id is the last one plus one, modulo 65536", fmt(v))
        else:
            chk.expect("GetTransactionId/first", eq_terms(s, v, ONE, T.allow), w, "the first id of a port is 1", fmt(v))
        chk.expect("GetTransactionId/stored", (eq_terms(s, stored[-1], v, T.allow) if stored else (False if T.clean(s) else None)), w,
                   "the id is stored for the next request", [fmt(x) for x in stored])


    # forgetting a port's counter
    reset = M.one("Modbus::TModbusTCPTraits::ResetTransactionId")
    gone = []

    def hook(I, st, fn, obj, args, node):
        if fn.short in ("erase", "clear") and (fn.cls or "").startswith(("std::map", "std::unordered_map")):
            k = I.rv(st, args[0]) if args else None
            if k is not None and k[0] == "obj":
                k = I.load(st, k[1])
            gone.append((I.deref_loc(st, obj), k))
        return None

    R = Table(chk, Interp(M, hook=hook), reset, ["port"], tag="ResetTransactionId", allow=("TPort::GetDescription",))
    ok = bool(gone) and all(g in counters for g in gone)
    if not ok and (R.unknown or len(counters) != 1 or any(g[1] is None or unclean(g[1], R.allow) or g[1][0] in ("it", "ptr", "unk") for g in gone)):
        ok = None
    chk.expect("ResetTransactionId/same counter", ok, chk.where(reset), "a reset forgets exactly the counter that is used for this port",
               "forgets %s, requests use %s" % ([fmt(g[1]) for g in gone if g[1]], [fmt(c[1]) for c in counters]))


@check("M08", EXPL, "the text of each exception code equals the one the protocol names", only=CORE)
def m08(chk, M):
    body = M.one("Modbus::TModbusExceptionError::TModbusExceptionError")
    what = []

    def hook(I, st, fn, obj, args, node):
        if fn.ctor and fn.cls == "std::runtime_error" and len(args) == 1:
            what.append(I.rv(st, args[0], fn.p[0].noref))
            return [(st, ("obj", obj) if obj is not None else ("void",))]
        return None

    for c in range(256):
        del what[:]
        I = Interp(M, hook=hook)
        T = Table(chk, I, body, overrides={0: C(c)}, tag="TModbusExceptionError")
        name = "invalid" if c not in TEXTS else "code %d" % c
        for k, s, v in T.paths:
            ws = set()
            for x in what:
                y = I.load(s, x[1]) if x[0] == "obj" else x
                ws.add(y)
            got = ws.pop() if len(ws) == 1 else None
            want = "invalid modbus error code (%d)" % c if c not in TEXTS else TEXTS[c]
            cs = strmodels.chars(got) if got is not None else None
            txt = "".join(chr(x[1]) for x in cs) if cs is not None and all(is_c(x) for x in cs) else None
            fits = txt is not None and txt.endswith(want) and (want or not any(txt.endswith(t) for t in TEXTS.values() if t))
            chk.expect("text of %s" % name, False if got is not None and is_c(got) else None if txt is None or k != "ret" and not T.clean(s) else k == "ret" and fits, chk.where(body),
                       "the exception code is reported with its meaning", "code %d: %s" % (c, fmt(got) if got is not None else "unknown"))


TEXTS = {1: "illegal function", 2: "illegal data address", 3: "illegal data value", 4: "server device failure", 5: "long operation (acknowledge)",
         6: "server device is busy", 7: "", 8: "memory parity error", 9: "", 10: "gateway path is unavailable", 11: "gateway target device failed to respond"}


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)
