"""P-properties: connection state of devices and ports, sessions, writing of values, polling of registers."""
from common import *
from chk_sched import tri, addfacts
from chk_tasks import put_list, short, ask, nm

THIS = ("this",)
BIG = C(10**18)
MS = 10**6
DEV_UNITS = ["src/serial_device.cpp", "src/serial_client_device_access_handler.cpp", "src/port/port.cpp", "src/register_handler.cpp", "src/register_value.cpp",
             "src/write_channel_serial_client_task.cpp", "src/register.cpp", "src/serial_client.cpp", "src/serial_client_register_poller.cpp", "src/pollable_device.cpp",
             "src/common_utils.cpp"]


class Clock:
    """Every reading of a clock gives a new time, not before the last; logging does nothing."""

    def __init__(self, M):
        self.M = M

    def now(self, st):
        k = st.env.get(("clk",), ZERO)
        t = P("now%d" % k[1], "")
        s = st.copy()
        s.env[("clk",)] = C(k[1] + 1)
        s = addfacts(s, LE(P("now%d" % (k[1] - 1), "") if k[1] else ZERO, t), LE(t, BIG))
        return s, t

    def __call__(self, I, st, fn, obj, args, node):
        sh, c = fn.short, fn.cls or ""
        if fn.n == "std::chrono::steady_clock::now" or sh == "now" and "clock" in c:
            s, t = self.now(st)
            return [(s, t)]
        if c == "std::function" and sh == "operator()" and not args and fn.r is not None and "time_point" in fn.r.s:
            s, t = self.now(st)
            return [(s, t)]
        if sh == "IsEnabled" and "Logger" in c:
            return [(st, ZERO)]
        return self.other(I, st, fn, obj, args, node)

    def other(self, I, st, fn, obj, args, node):
        return None


def run(chk, M, hook, b, args, st, tag, this=THIS, cls=None, fork=False):
    """(Table, paths) of one call; constructs that are not followed leave the part undecided."""
    I = Interp(M, hook=hook, fork_loops=fork)
    if fork:
        I.MAXP = 4000
    if cls:
        I.this_class = cls if cls is not True else b.fn.clsu
    T = Table(chk, I, b, overrides=dict(enumerate(args)), st=st, tag=tag, this=this)
    if T.unknown:
        raise AnalysisError("%s: not followed: %s" % (b.fn.n, T.unknown[:2]))
    return T, [(k, s, v) for k, s, v in T.paths if not poly.infeasible(s.facts)]


def ctor(M, cls, nparams=None):
    r = [b for b in M.bodies.values() if b.fn.n == cls + "::" + cls.rsplit("::", 1)[-1] and (nparams is None or len(b.ps) == nparams) and not b.fn.copy and not b.fn.move]
    if len(r) != 1:
        raise AnalysisError("constructor of " + cls)
    return r[0]


def distinct(sts, roots):
    """Histories that left the same objects, under the same facts, are followed further once."""
    def root(k):
        while isinstance(k, tuple) and len(k) > 1 and isinstance(k[1], tuple) and k[0] in ("fld", "el", "deref", "size", "log", "ep", "from", "hask", "elog"):
            k = k[1]
        return k
    out = {}
    for x in sts:
        s = x[0].withev(())
        s = s.copy()
        for k in [k for k in s.env if isinstance(k, tuple) and len(k) > 1 and root(k) not in roots and (isinstance(k[1], tuple) or k[0] in ("v", "tmp", "exc"))]:
            del s.env[k]
        key = (frozenset((k, repr(v)) for k, v in s.env.items()), frozenset(map(repr, s.facts)), repr(x[1:-1]))
        out.setdefault(key, (s,) + tuple(x[1:]))
    return list(out.values())


def enumc(M, name):
    return {n: C(v) for n, v in M.enums[name]["c"]}


# --------------------------------------------------------------------------- P01
@check("P01", "every history of successful and failed exchanges up to the bound of the tier, over symbolic limits and clock readings",
       "the connection state, and every change of it that is announced, equal those of the reference state machine", only=DEV_UNITS)
def p01(chk, M):
    cs = enumc(M, "TDeviceConnectionState")
    cfg = ("par", "config", "")
    tmo = scale(P("timeout_ms", ""), MS)
    maxf = ("ld", ("fld", ("deref", cfg), "DeviceMaxFailCycles"), 0, "i32")

    class W(Clock):
        def other(self, I, st, fn, obj, args, node):
            sh, c = fn.short, fn.cls or ""
            if c == "std::function" and sh == "operator()" and len(args) == 1:
                return [(st.withev((st.ev or ()) + ("told",)), ("void",))]
            if sh == "ToString":
                return [(st, P("name", "str"))]
            if sh == "SetValue" and c == "TRegister":
                return [(st.withev((st.ev or ()) + ("sn",)), ("void",))]
            if sh in ("shared_from_this", "weak_from_this"):
                return [(st, ("par", "self", ""))]
            return None
    w = W(M)
    get = M.one("TSerialDevice::GetConnectionState")
    upd = M.one("TSerialDevice::SetTransferResult")
    lose = M.one("TSerialDevice::SetDisconnected")
    reg = M.one("TSerialDevice::AddOnConnectionStateChangedCallback")

    def f():
        st = addfacts(St(ev=()), LE(P("timeout_ms", ""), BIG), LE(C(-10**9), P("timeout_ms", "")))
        st.env[("fld", ("deref", cfg), "DeviceTimeout")] = tmo
        T, ps = run(chk, M, w, ctor(M, "TSerialDevice"), [cfg, ("par", "protocol", "")], st, "device")
        sts = []
        for k, s, v in ps:
            T, ps2 = run(chk, M, w, reg, [("par", "callback", "")], s, "listen")
            for k2, s2, v2 in ps2:
                for s3, off in ask([s2], ("le", add(P("timeout_ms", ""), ONE))):
                    for s4, off2 in ask([s3], ("le", add(maxf, ONE))) if not off else [(s3, True)]:
                        # (state, reference: state, remaining failures, last success, disabled)
                        sts.append((s4, cs["UNKNOWN"], ZERO, ZERO, off or off2, ()))
        K = 4 if chk.tier == "thorough" else 3
        for i in range(K):
            nxt = []
            for s, c, rem, last, off, hist in sts:
                for op in ("ok", "fail", "lost"):
                    if op == "lost" and i != 1:
                        continue
                    ks = s.env.get(("clk",), ZERO)[1]
                    T, ps = run(chk, M, w, lose if op == "lost" else upd, [] if op == "lost" else [C(int(op == "ok"))], s.withev(()), "after " + " ".join(hist + (op,)))
                    for k, x, v in ps:
                        if k != "ret":
                            tri(chk, T, x, False, "state", "recording a result does not fail", "raises %s" % v.type)
                            continue
                        T2, gs = run(chk, M, w, get, [], x, "state")
                        for k2, y, got in gs:
                            refs = []
                            if op == "ok":
                                n = y.env.get(("clk",), ZERO)[1]
                                refs = [(y, cs["CONNECTED"], maxf, P("now%d" % (n - 1), "") if n > ks else last)]
                                if n == ks and not off:
                                    tri(chk, T, y, False, "time", "the time of a success is taken from the clock", "the clock is not read")
                            elif op == "lost":
                                refs = [(y, cs["DISCONNECTED"], rem, last)]
                            elif off:
                                refs = [(y, c, rem, last)]
                            else:
                                for z, pos in ask([y], LE(ONE, rem)):
                                    r = sub(rem, ONE) if pos else rem
                                    for z2, zero in ask([z], ("eq", r)):
                                        if not zero or c == cs["DISCONNECTED"]:
                                            refs.append((z2, c, r, last))
                                            continue
                                        n = z2.env.get(("clk",), ZERO)[1]
                                        if n == ks:     # the clock was not read: the time does not matter to the code
                                            q, t = w.now(z2)
                                        else:
                                            q, t = z2, P("now%d" % (n - 1), "")
                                        q = [s for s, same in ask([q], EQ(sub(t, last), tmo)) if not same]     # the exact moment may count either way
                                        for z3, due in ask(q, LE(add(tmo, ONE), sub(t, last))):
                                            refs.append((z3, cs["DISCONNECTED"] if due else c, r, last))
                            for z, wc, wr, wl in refs:
                                told = "told" in (x.ev or ())
                                tri(chk, T, z, (T2.I.rv(z, got) == wc and told == (wc != c) and len([e for e in x.ev or () if e == "told"]) <= 1) if got is not None else None,
                                    "state", "connected after a success; disconnected after the set number of failures and time without a success; changes are announced once",
                                    "state %s, expected %s, %s" % (fmt(got), fmt(wc), "announced" if told else "not announced"))
                                nxt.append((z.withev(()), wc, wr, wl, off, hist + (op,)))
            sts = nxt
            chk.count("histories", len(sts))
    part(chk, "device", f)


# --------------------------------------------------------------------------- P02
@check("P02", "every history of port openings, successful and failed cycles up to the bound of the tier, over symbolic limits and clock readings",
       "the port is opened and closed exactly when the reference state machine does", only=DEV_UNITS)
def p02(chk, M):
    sets = ("set",)
    F = {n: ("fld", sets, n) for n in ("MaxFailTime", "ConnectionMaxFailCycles", "ReopenTimeout")}
    tmo, reo, maxf = scale(P("timeout_ms", ""), MS), scale(P("reopen_ms", ""), MS), P("max_cycles", "i32")

    class W(Clock):
        def other(self, I, st, fn, obj, args, node):
            sh, c = fn.short, fn.cls or ""
            ev = st.ev or ()
            if "Port" in c:
                if sh == "IsOpen":
                    return [(st, st.env[("open",)])]
                if sh == "Open":
                    I.throw(st.withev(ev + ("open failed",)), Exc(rec_type(self.M, "TSerialDeviceException"), ("sym", "exc", node["id"], ""), node.get("l", 0), None, why="port"))
                    return [(st.set(("open",), ONE).withev(ev + ("opened",)), ("void",))]
                if sh == "Close":
                    return [(st.set(("open",), ZERO).withev(ev + ("closed",)), ("void",))]
                if sh == "GetDescription":
                    return [(st, P("name", "str"))]
            return None
    w = W(M)
    op, cl = M.one("TPortOpenCloseLogic::OpenIfAllowed"), M.one("TPortOpenCloseLogic::CloseIfNeeded")
    port = ("par", "port", "")

    def clock(s, ks):
        """A reading the code made, or one made for it."""
        n = s.env.get(("clk",), ZERO)[1]
        return w.now(s) if n == ks else (s, P("now%d" % (n - 1), ""))

    def f():
        rec = M.records
        if not any(r.n == "TPortOpenCloseLogic::TSettings" and {"MaxFailTime", "ConnectionMaxFailCycles", "ReopenTimeout"} <= {f["n"] for f in r.f} for r in rec.values()):
            raise AnalysisError("the settings of reconnection")
        st = addfacts(St(ev=()), *[LE(P(x, ""), BIG) for x in ("timeout_ms", "reopen_ms")], LE(C(-10**9), P("timeout_ms", "")), LE(ZERO, P("reopen_ms", "")))
        st.env.update({F["MaxFailTime"]: tmo, F["ReopenTimeout"]: reo, F["ConnectionMaxFailCycles"]: maxf, ("open",): ZERO})
        T, ps = run(chk, M, w, ctor(M, "TPortOpenCloseLogic"), [("obj", sets), ("par", "nowfn", "")], st, "new")
        sts = []
        for k, s, v in ps:
            for s3, o in ask([s], LE(add(P("timeout_ms", ""), ONE), ZERO)):
                for s4, o2 in ask([s3], LE(add(maxf, ONE), ZERO)) if not o else [(s3, True)]:
                    sts.append((s4, False, ZERO, ZERO, ZERO, o or o2, ()))
        K = 5 if chk.tier == "thorough" else 4
        for i in range(K):
            nxt = []
            for s, isopen, rem, last, nextopen, off, hist in sts:
                for what_ in ("open", "ok", "fail"):
                    if i == 0 and what_ != "open" or what_ == "open" and isopen and i > 1:
                        continue
                    ks = s.env.get(("clk",), ZERO)[1]
                    T, ps = run(chk, M, w, op if what_ == "open" else cl, [port] + ([C(int(what_ == "fail"))] if what_ != "open" else []), s.withev(()), "after " + " ".join(hist + (what_,)))
                    for k, x, v in ps:
                        ev = [e for e in x.ev or ()]
                        # the reference: (state, events, raises, open, remaining, last success, next opening)
                        refs = []
                        if what_ == "open":
                            if isopen:
                                refs = [(x, [], False, True, rem, last, nextopen)]
                            else:
                                n = x.env.get(("clk",), ZERO)[1]
                                y, t = (x, P("now%d" % ks, "")) if n > ks else w.now(x)
                                for z, wait in ask([y], LE(add(t, ONE), nextopen)):
                                    if wait:
                                        refs.append((z, [], False, False, rem, last, nextopen))
                                    elif "open failed" in ev:
                                        refs.append((z, ["open failed"], True, False, rem, last, add(t, reo)))
                                    else:
                                        refs.append((z, ["opened"], False, True, maxf, clock(z, ks)[1], nextopen))
                        elif not isopen or off:
                            refs = [(x, [], False, isopen, rem, last, nextopen)]
                        else:
                            y, t = clock(x, ks)
                            if what_ == "ok":
                                refs = [(y, [], False, True, maxf, t, nextopen)]
                            else:
                                for z, pos in ask([y], LE(ONE, rem)):
                                    r = sub(rem, ONE) if pos else rem
                                    for z2, zero in ask([z], ("eq", r)):
                                        q = [u for u, same in ask([z2], EQ(sub(t, last), tmo)) if not same]    # the exact moment may count either way
                                        for z3, due in ask(q, LE(add(tmo, ONE), sub(t, last))) if zero else [(u, False) for u in q]:
                                            refs.append((z3, ["closed"] if due else [], False, not due, r, last, nextopen))
                        for z, wev, wthr, wopen, wrem, wlast, wnext in refs:
                            tri(chk, T, z, ev == wev and (k == "throw") == wthr, "port",
                                "a closed port is opened unless an attempt failed within the reopen time; an open one is closed after the set time and number of cycles without success",
                                "%s %s, expected %s" % (ev, k, wev))
                            nxt.append((z.withev(()), wopen, wrem, wlast, wnext, off, hist + (what_,)))
            sts = nxt
            chk.count("histories", len(sts))
    part(chk, "port", f)


def raiser(I, M, st, node, *types):
    """The call raises each of these."""
    for t in types:
        I.throw(st, Exc(rec_type(M, t), ("sym", "exc", node["id"], ""), node.get("l", 0), None, why="device"))


# --------------------------------------------------------------------------- P03
@check("P03", "every sequence of accesses to two devices and none, every connection state, every failing step",
       "sessions are ended and begun, setup written and events enabled in the order and under the conditions of the reference", only=DEV_UNITS)
def p03(chk, M):
    cs = enumc(M, "TDeviceConnectionState")
    devs = {"A": ("par", "A", ""), "B": ("par", "B", ""), "-": ("null",)}

    class W(Clock):
        def other(self, I, st, fn, obj, args, node):
            sh = fn.short
            ev = st.ev or ()
            o = I.deref_loc(st, obj) if obj is not None else None
            d = nm(o) if isinstance(o, tuple) and o[0] == "deref" else None
            if d in ("A", "B"):
                if sh == "GetConnectionState":
                    return [(st, st.env[("cs", d)])]
                if sh in ("EndSession", "Prepare"):
                    end = sh == "EndSession"
                    for z in (st, st if end else st.set(("cs", d), cs["DISCONNECTED"])):
                        raiser(I, M, z.withev(ev + ((sh, d, False),)), node, "TSerialDeviceException")
                    return [(z.withev(ev + ((sh, d, True),)), ("void",)) for z in ([st] if end else [st, st.set(("cs", d), cs["CONNECTED"])])]
                if sh == "SetDisconnected":
                    return [(st.set(("cs", d), cs["DISCONNECTED"]).withev(ev + ((sh, d, True),)), ("void",))]
                if sh == "ToString":
                    return [(st, P("name", "str"))]
            if sh == "EnableEvents":
                a = I.rv(st, args[0])
                d = nm(a) if a[0] == "par" else "?"
                raiser(I, M, st.withev(ev + ((sh, d, False),)), node, "TSerialDeviceException")
                return [(st.withev(ev + ((sh, d, True),)), ("void",))]
            return None
    w = W(M)

    def session():
        b = M.one("TSerialClientDeviceAccessHandler::PrepareToAccess")
        hists = [(x,) for x in "AB-"] + [(x, y) for x in "AB" for y in "AB-"] + ([(x, y, z) for x in "AB" for y in "AB-" for z in "AB-"] if chk.tier == "thorough" else [("A", "-", "A"), ("A", "B", "A")])
        for events in (True, False):
            for hist in hists:
                st0 = St(ev=())
                T, ps = run(chk, M, w, ctor(M, "TSerialClientDeviceAccessHandler"), [("par", "events", "") if events else ("null",)], st0, "new")
                cur = []
                for k, s, v in ps:
                    if events:
                        s = add_fact(s, ("ne", ("par", "events", "")))
                    cur.append((s, None))
                for i, a in enumerate(hist):
                    nxt = []
                    for s, last in cur:
                        for state in (cs["CONNECTED"], cs["DISCONNECTED"], cs["UNKNOWN"]) if i == len(hist) - 1 and a != "-" else (cs["CONNECTED"],):
                            s1 = s.withev(()).copy()
                            if a != "-":
                                s1.env[("cs", a)] = state
                                s1 = add_fact(s1, ("ne", devs[a]))
                            for o in "AB":
                                if ("cs", o) not in s1.env:
                                    s1.env[("cs", o)] = cs["CONNECTED"]
                            s1 = add_fact(s1, ("ne", sub(devs["A"], devs["B"])))
                            T, ps = run(chk, M, w, b, [("par", "port", ""), devs[a]], s1, "access %s%s" % ("".join(hist[:i + 1]), "" if events else " without events"))
                            for k, x, v in ps:
                                ev = list(x.ev or ())
                                ok = {e[:2]: e[2] for e in ev}
                                want, l, res = [], last, False
                                if l is not None and l != a:
                                    want.append(("EndSession", l, ok.get(("EndSession", l), True)))
                                    l = None
                                if a != "-":
                                    good = True
                                    was = state != cs["CONNECTED"]
                                    if events and (was or l != a):
                                        good = ok.get(("Prepare", a), True)
                                        want.append(("Prepare", a, good))
                                        if good and was:
                                            good = ok.get(("EnableEvents", a), True)
                                            want.append(("EnableEvents", a, good))
                                            if not good:
                                                want.append(("SetDisconnected", a, True))
                                    if good:
                                        l, res = a, True
                                g = T.I.rv(x, v) if k == "ret" else None
                                tri(chk, T, x, k == "ret" and ev == want and g == C(int(res)), "steps",
                                    "another device's session is ended, a device not connected or not accessed last is prepared, events are enabled on connection; access is granted if every step succeeded",
                                    "%s %s, expected %s %s" % (ev, fmt(g) if g is not None else "raises", want, res))
                                nxt.append((x, l))
                    cur = nxt
    part(chk, "session", session)

    class W2(Clock):
        def other(self, I, st, fn, obj, args, node):
            sh, c = fn.short, fn.cls or ""
            ev = st.ev or ()
            if obj is not None and I.deref_loc(st, obj) == THIS:
                if sh == "PrepareImpl":
                    raiser(I, M, st.withev(ev + (("impl", False),)), node, "TSerialDeviceException")
                    return [(st.withev(ev + (("impl", True),)), ("void",))]
                if sh == "SetTransferResult":
                    return [(st.withev(ev + (("result", I.rv(st, args[0])),)), ("void",))]
                if sh == "WriteRegisterImpl":
                    a = args[1]
                    o = I.deref_loc(st, a[1]) if a[0] in ("ref", "obj") else a
                    val_ = I.deref_loc(st, args[2][1]) if args[2][0] in ("ref", "obj") else args[2]
                    item = next((i for i in ("i1", "i2") if "'%s'" % i in str(o)), "?")
                    item2 = next((i for i in ("i1", "i2") if "'%s'" % i in str(val_)), "?")
                    it = item if item == item2 else "register of %s with value of %s" % (item, item2)
                    raiser(I, M, st.withev(ev + (("write", it, False),)), node, "TSerialDeviceException")
                    return [(st.withev(ev + (("write", it, True),)), ("void",))]
            if sh == "ToString":
                return [(st, P("name", "str"))]
            return None
    w2 = W2(M)

    def prepare():
        prep, wr, get = M.one("TSerialDevice::Prepare"), M.one("TSerialDevice::WriteSetupRegisters"), M.one("TSerialDevice::GetSetupItems")
        mode = enumc(M, "TDevicePrepareMode")
        field = [n["n"] for r in M.records.values() if r.n == "TSerialDevice" for n in r.f if n["t"] is not None and n["t"].s.startswith("std::set") and "TDeviceSetupItem" in n["t"].s]
        if len(field) != 1:
            raise AnalysisError("the setup items of a device")
        conn = [n["n"] for r in M.records.values() if r.n == "TSerialDevice" for n in r.f if n["t"] is not None and n["t"].s == "TDeviceConnectionState"]
        for n in (0, 1, 2):
            items = [("par", "i%d" % (i + 1), "") for i in range(n)]
            for state in ("CONNECTED", "DISCONNECTED", "UNKNOWN"):
                for m in mode:
                    st = put_list(St(ev=()), ("fld", THIS, field[0]), items)
                    st.env[("fld", THIS, conn[0])] = cs[state]
                    T, ps = run(chk, M, w2, prep, [("par", "port", ""), mode[m]], st, "prepare %d items %s %s" % (n, state, m), cls=True)
                    for k, x, v in ps:
                        ev = list(x.ev or ())
                        failed = [e for e in ev if e[-1] is False]
                        want = [("impl", True)]
                        if ("impl", False) in ev:
                            want = [("impl", False), ("result", ZERO)]
                        elif state != "CONNECTED" and "WITH_SETUP" in m:
                            bad = False
                            for i in range(n):
                                it = ("write", "i%d" % (i + 1))
                                bad = it + (False,) in ev
                                want.append(it + (not bad,))
                                if bad:
                                    break
                            if bad:
                                want.append(("result", ZERO))
                            elif n:
                                want.append(("result", ONE))
                        tri(chk, T, x, ev == want and (k == "throw") == bool(failed), "steps",
                            "a device that was not connected gets every setup item written, in order; a failing step is recorded as a failed exchange and reported",
                            "%s %s, expected %s" % (ev, k, want))
    part(chk, "prepare", prepare)


# --------------------------------------------------------------------------- P04
@check("P04", "every history of values set and attempts to write up to the bound of the tier, a value arriving during a write, every outcome, symbolic limit and times",
       "the values written, the results, the error flag and the callbacks equal those of the reference", only=DEV_UNITS)
def p04(chk, M):
    cs = enumc(M, "TDeviceConnectionState")
    err = enumc(M, "TRegister::TError")
    rr = enumc(M, "ISerialClientTask::TRunResult")
    H, TASK = ("hnd",), ("task",)
    REG, DEV, CFG = ("par", "reg", ""), ("par", "dev", ""), ("par", "devcfg", "")
    PORT, ACC = ("par", "port", ""), ("acc",)
    SEC = 10**9
    limit = P("limit_s", "i64")
    mk = [b for b in M.bodies.values() if b.fn.n == "TRegisterValue::TRegisterValue" and len(b.ps) == 1 and b.fn.p[0].noref.k == "int"]
    if len(mk) != 1:
        raise AnalysisError("constructor of TRegisterValue")
    settext = M.one("TRegisterHandler::SetTextValue")

    class W(Clock):
        busy = False
        late = None     # (state) -> states with a newer value set

        def val(self, I, st, a):
            l = I.deref_loc(st, a[1] if a[0] in ("ref", "obj") else a)
            return I.rv(st, I.load(st, ("fld", l, "IntegerValue")))

        def other(self, I, st, fn, obj, args, node):
            sh, c = fn.short, fn.cls or ""
            ev = st.ev or ()
            if sh == "ConvertToRawValue":
                n = st.env.get(("nval",), ZERO)[1]
                if not self.busy:
                    raiser(I, M, st, node, "TSerialDeviceException")
                s = st.set(("nval",), C(n + 1))
                t = ("tmp", I.frame(), node["id"], "value%d" % n)
                return [(z, ("obj", t)) for z, _ in I.call_body(mk[0], s, t, [P("value%d" % n, "u64")], node)]
            if c in ("TRegister", "IRegister") or c == "TSerialDevice" or c == "TPort" or c == "TFeaturePort" or "Port" in c:
                if sh == "Device":
                    return [(st, DEV)]
                if sh == "DeviceConfig":
                    return [(st, CFG)]
                if sh == "GetConfig":
                    return [(st, ("par", "regcfg", ""))]
                if sh == "IsOpen":
                    return [(st, st.env[("open",)])]
                if sh == "IsSupported":
                    return [(st, st.env[("supported",)])]
                if sh == "GetConnectionState":
                    return [(st, st.env[("cstate",)])]
                if sh in ("SetError", "ClearError"):
                    a = I.rv(st, args[0])
                    return [(st.set(("err", a[1]), C(int(sh == "SetError"))), ("void",))]
                if sh == "GetErrorState":
                    return [(st, ("obj", ("errs",)))]
                if sh == "SetValue":
                    return [(st.withev(ev + (("value", self.val(I, st, args[0]), I.rv(st, args[1]) if len(args) > 1 else ONE),)), ("void",))]
                if sh == "ToString":
                    return [(st, P("name", "str"))]
            if c == "TSerialDevice" and sh == "WriteRegister":
                v = self.val(I, st, args[2])
                sts = [st]
                if self.late:
                    sts += self.late(I, st, node)
                outs = []
                for s in sts:
                    for what_, t in (("refused", "TSerialDeviceInternalErrorException"), ("refused", "TSerialDevicePermanentRegisterException"), ("failed", "TSerialDeviceTransientErrorException")):
                        raiser(I, M, s.withev(ev + (("write", v, what_),)), node, t)
                    outs.append((s.withev(ev + (("write", v, "ok"),)), ("void",)))
                return outs
            if c == "std::bitset" and sh in ("test", "operator[]"):
                return [(st, st.env.get(("err", I.rv(st, args[0])[1]), ZERO))]
            if sh == "PrepareToAccess":
                return [(st.withev(ev + (("prepare", r),)), C(r)) for r in (0, 1)]
            if c == "std::function" and sh == "operator bool":
                return [(st, ONE)]
            if c == "std::function" and sh == "operator()" and len(args) == 1:
                o = I.deref_loc(st, obj)
                who = nm(I.load(st, o)) if obj is not None else "?"
                return [(st.withev(ev + (("cb", who),)), ("void",))]
            return None
    w = W(M)

    def set_(I, st, node):
        """A value is set while another is being written (the conversion succeeds)."""
        out = []
        hk, w.late, w.busy = w.late, None, True
        for z, _ in I.call_body(settext, st, H, [P("text", "str")], node):
            n = z.env[("nval",)][1]
            z = addfacts(z, *[("ne", sub(P("value%d" % (n - 1), "u64"), P("value%d" % i, "u64"))) for i in range(n - 1)])
            out.append(z.set(("lateset",), ONE))
        w.late, w.busy = hk, False
        return out

    def f():
        st = addfacts(St(ev=()), LE(limit, C(10**9)), LE(ZERO, limit))
        st.env[("fld", ("deref", CFG), "MaxWriteFailTime")] = scale(limit, SEC)
        st.env[("open",)] = ONE
        for p in (REG, DEV, CFG, PORT, ("par", "readcb", ""), ("par", "errcb", "")):
            st = add_fact(st, ("ne", p))
        T, ps = run(chk, M, w, ctor(M, "TRegisterHandler"), [REG], st, "new handler", this=H)
        sts = []
        runb = M.one("TWriteChannelSerialClientTask::Run")
        need = M.one("TRegisterHandler::NeedToFlush")
        for k, s, v in ps:
            T, ps2 = run(chk, M, w, ctor(M, "TWriteChannelSerialClientTask"), [("addr", H), ("par", "readcb", ""), ("par", "errcb", "")], s, "new task", this=TASK)
            # (state, pending, value, failing, first failure, history)
            sts += [(s2, False, None, False, ZERO, ()) for k2, s2, v2 in ps2]
        plans = [("set",), ("set", "off", "ok", "set", "ok"), ("set", "ok", "ok"), ("set", "ok", "set", "ok"), ("set", "off", "ok"), ("set", "off", "set", "off"), ("set", "ok", "off"), ("ok",), ("set", "uns", "ok")]
        if chk.tier == "thorough":
            plans += [("set", "ok", "ok", "ok"), ("set", "dis", "set", "ok", "ok"), ("set", "set", "ok", "off", "ok"), ("set", "off", "off", "ok")]
        done = {(): sts}
        for plan in plans:
            for i in range(len(plan)):
                if plan[:i + 1] in done:
                    continue
                done[plan[:i + 1]] = step(plan[:i + 1], done[plan[:i]], runb, settext)

    def step(hist, sts, runb, settext):
        nxt = []
        op = hist[-1]
        chk.count("histories", len(sts))
        tag = "after " + " ".join(hist)
        for s, pend, val, failing, first in [x[:5] for x in sts]:
            ks = s.env.get(("clk",), ZERO)[1]
            if op == "set":
                T, ps = run(chk, M, w, settext, [P("text", "str")], s.withev(()), tag, this=H)
                for k, x, v in ps:
                    n = x.env.get(("nval",), ZERO)[1]
                    if k == "throw":
                        nxt.append((x, pend, val, failing, first, hist))
                    else:
                        nxt.append((x, True, P("value%d" % (n - 1), "u64"), failing, first, hist))
                continue
            s = s.withev(()).set(("open",), C(int(op != "off"))).set(("supported",), C(int(op != "uns"))).set(("cstate",), cs["DISCONNECTED" if op == "dis" else "CONNECTED"])
            s = s.set(("lateset",), ZERO)
            w.late = set_ if op == "ok" else None
            T, ps = run(chk, M, w, runb, [PORT, ("obj", ACC), ("par", "polled", "")], s, tag, this=TASK)
            w.late = None
            for k, x, v in ps:
                ev = [e for e in x.ev or ()]
                if k != "ret":
                    tri(chk, T, x, False, "raises", "no failure leaves the task", "raises %s" % v.type)
                    continue
                got = T.I.rv(x, v)
                writes = [e for e in ev if e[0] == "write"]
                vals = [e for e in ev if e[0] == "value"]
                cbs = [e[1] for e in ev if e[0] == "cb"]
                e = x.env.get(("err", err["WriteError"][1]), ZERO)
                kn = x.env.get(("clk",), ZERO)[1]
                late = x.env[("lateset",)] == ONE
                newv = P("value%d" % (x.env[("nval",)][1] - 1), "u64") if late else val
                if not pend:
                    tri(chk, T, x, not ev and got == rr["OK"], "nothing", "without a pending value nothing is written or reported", "%s %s" % (ev, fmt(got)))
                    nxt.append((x, pend, val, failing, first, hist))
                    continue
                blocked = op in ("off", "dis", "uns")
                prep = ("prepare", 1) in ev
                tri(chk, T, x, len(writes) == (0 if blocked or not prep else 1) and all(q[1] == val for q in writes) and (blocked or len([q for q in ev if q[0] == "prepare"]) == 1),
                    "written", "the newest value is written, once, after the device was prepared; nothing is written to a closed port, a disconnected device or an unsupported register",
                    "%s, newest %s" % (ev, fmt(val)))
                ok = bool(writes) and writes[-1][2] == "ok"
                tri(chk, T, x, (e == C(int(not ok))) and cbs == (["readcb"] if ok else ["errcb"]) and ([q[1] for q in vals] == ([val] if ok else [])) and all(q[2] == ZERO for q in vals), "reported",
                    "a failed write sets the write error and is reported as an error, a successful one clears it and the value is reported without touching the read error",
                    "error flag %s, callbacks %s, values %s" % (fmt(e), cbs, [fmt(q[1]) for q in vals]))
                # what stays pending
                outs = []       # (state, pending or None, failing, first)
                if ok or writes and writes[-1][2] == "refused":
                    outs = [(x, False, False, first)]
                elif op == "uns":
                    outs = [(x, False, None, first)]
                else:
                    fst = first if failing else (P("now%d" % ks, "") if kn > ks else None)
                    cur = P("now%d" % (kn - 1), "") if kn > ks else None
                    if fst is None or cur is None:
                        tri(chk, T, x, False, "limit", "attempts end after the maximum time", "the time of the attempts is not checked")
                        continue
                    el = sub(cur, fst)
                    lim = scale(limit, SEC)
                    for z, early in ask([x], LE(add(el, ONE), lim)):
                        if early:
                            outs.append((z, True, True, fst))
                            continue
                        for z2, zero in ask([z], ("eq", limit)) if writes else [(z, False)]:
                            if zero:
                                outs.append((z2, False, False, fst))
                                continue
                            for z3, over in ask([z2], LE(add(lim, C(SEC)), el)):
                                if over:
                                    outs.append((z3, False, False, fst))
                                else:
                                    pd = (got == rr["RETRY"])
                                    outs.append((z3, pd, pd, fst) if not late else None)
                for o in outs:
                    if o is None:
                        continue
                    z, pd, fl, fst = o
                    if late:
                        tri(chk, T, z, got == rr["RETRY"], "pending", "a value set during a write stays to be written", "the task ends and the value is dropped")
                        nxt.append((z, True, newv, fl, fst, hist))
                        continue
                    tri(chk, T, z, got == rr["RETRY" if pd else "OK"], "pending",
                        "a value stays pending until it is written, refused, or the time limit passes since the first failure; with limit 0 there is one attempt",
                        "%s, expected %s" % (fmt(got), "RETRY" if pd else "OK"))
                    if op == "uns":
                        continue
                    nxt.append((z, pd, val, fl, fst, hist))
        return distinct(nxt, (H, TASK, CFG))
    part(chk, "write", f)


# --------------------------------------------------------------------------- P05
@check("P05", "all paths of the reading of up to two registers, every outcome of each; all paths of taking over a value over symbolic values and settings",
       "what is recorded in the register, in the device and in the cache equals the reference", only=DEV_UNITS)
def p05(chk, M):
    av = enumc(M, "TRegisterAvailability")
    err = enumc(M, "TRegister::TError")
    outcomes = {"internal": "TSerialDeviceInternalErrorException", "permanent": "TSerialDevicePermanentRegisterException",
                "transient": "TSerialDeviceTransientErrorException", "other": "TSerialDeviceException"}

    class W(Clock):
        def other(self, I, st, fn, obj, args, node):
            sh, c = fn.short, fn.cls or ""
            ev = st.ev or ()
            o = I.deref_loc(st, obj) if obj is not None else None
            if sh == "RegisterList":
                return [(st, ("ref", ("regs",)))]
            if c in ("TRegister", "IRegister") and isinstance(o, tuple):
                r = nm(o) if o[0] == "deref" else "?"
                if sh == "GetAvailable":
                    return [(st, st.env[("av", r)])]
                if sh == "GetConfig":
                    return [(st, ("par", "cfg_" + r, ""))]
                if sh == "Device":
                    return [(st, ("par", "self", ""))]
                if sh in ("SetAvailable", "SetError", "ClearError"):
                    return [(st.withev(ev + ((sh, r, I.rv(st, args[0])),)), ("void",))]
                if sh == "SetValue":
                    l = I.deref_loc(st, args[0][1] if args[0][0] in ("ref", "obj") else args[0])
                    return [(st.withev(ev + ((sh, r, I.rv(st, I.load(st, ("fld", l, "IntegerValue"))), ONE if len(args) == 1 else I.rv(st, args[1])),)), ("void",))]
            if sh == "ReadRegisterImpl":
                a = I.deref_loc(st, args[1][1] if args[1][0] in ("ref", "obj") else args[1])
                r = next((x for x in ("r1", "r2") if "'cfg_%s'" % x in repr(a)), "?")
                if len([e for e in ev if e[0] == "read" and e[1] == r]):
                    return []
                for k, t in outcomes.items():
                    raiser(I, M, st.withev(ev + (("read", r, k),)), node, t)
                t = ("tmp", I.frame(), node["id"], "val_" + r)
                s = st.copy()
                s.env[("fld", t, "IntegerValue")] = P("val_" + r, "u64")
                s.env[("fld", t, "Type")] = ONE
                return [(s.withev(ev + (("read", r, "ok"),)), ("obj", t))]
            if sh in ("SetTransferResult", "InvalidateReadCache"):
                return [(st.withev(ev + ((sh,) + tuple(I.rv(st, a) for a in args),)), ("void",))]
            if sh == "ToString":
                return [(st, P("name", "str"))]
            if c.endswith("Port") and sh in ("SleepSinceLastInteraction",):
                return [(st, ("void",))]
            return None
    w = W(M)

    def ranges():
        b = M.one("TSerialDevice::ReadRegisterRange")
        for n in (1, 2):
            for brk in (0, 1):
                for avs in [(x,) for x in av.values()] if n == 1 else [(x, y) for x in av.values() for y in (av["AVAILABLE"], av["UNAVAILABLE"])]:
                    st = put_list(St(ev=()), ("regs",), [("par", "r%d" % (i + 1), "") for i in range(n)])
                    for i in range(n):
                        st.env[("av", "r%d" % (i + 1))] = avs[i]
                        st = add_fact(st, ("ne", ("par", "r%d" % (i + 1), "")))
                    T, ps = run(chk, M, w, b, [("par", "port", ""), ("par", "range", ""), C(brk)], st, "reading %d%s" % (n, " until an error" if brk else ""), cls=True)
                    for k, x, v in ps:
                        ev = [e for e in x.ev or ()]
                        out = {e[1]: e[2] for e in ev if e[0] == "read"}
                        want, bad = [], None
                        for i in range(n):
                            r = "r%d" % (i + 1)
                            if avs[i] == av["UNAVAILABLE"]:
                                continue
                            o = out.get(r, "ok")
                            res = ("SetTransferResult", C(int(o in ("ok", "internal", "permanent"))))
                            want.append([("read", r, o), res] + ([("SetValue", r, P("val_" + r, "u64"), ONE)] if o == "ok" else
                                                                 [("SetError", r, err["ReadError"])] + ([("SetAvailable", r, av["UNAVAILABLE"])] if o == "permanent" else [])))
                            if brk and o != "ok":
                                bad = outcomes[o]
                                break
                        inv = [i for i, e in enumerate(ev) if e == ("InvalidateReadCache",)]
                        rest = [e for e in ev if e != ("InvalidateReadCache",)]
                        i, ok = 0, True
                        for grp in want:
                            ok &= rest[i:i + 1] == grp[:1] and sorted(map(repr, rest[i:i + len(grp)])) == sorted(map(repr, grp))
                            i += len(grp)
                        ok &= i == len(rest)
                        tri(chk, T, x, ok, "recorded", "each available register is read once, in order; a value is taken over, an error marks the register (for good only if the device says so) and counts against "
                            "the device only when it did not answer", "%s, expected %s" % (short(rest), short(sum(want, []))))
                        tri(chk, T, x, (k == "throw") == (bad is not None) and (k == "ret" or v.type == bad or M.is_sub(v.type, bad) if hasattr(M, "is_sub") else True), "ends",
                            "an error ends the reading only if that was asked for, and is then passed on", "%s %s, expected %s" % (k, v.type if k == "throw" else "", bad))
                        reads = [i for i, e in enumerate(ev) if e[0] == "read"]
                        fresh = bool(inv) and (not reads or inv[0] < reads[0] or inv[-1] > reads[-1])
                        tri(chk, T, x, fresh or not reads, "cache", "replies cached during a reading are not used by a later one", "the cache is kept when the reading %s" % ("ends" if k == "ret" else "raises"))
    part(chk, "ranges", ranges)

    def values():
        ctor_ = ctor(M, "TRegister")
        sv, ge, ga, gv = (M.one("TRegister::" + x) for x in ("SetValue", "GetErrorState", "GetAvailable", "GetValue"))
        sup, exc = M.one("TRegister::SetSupported"), M.one("TRegister::IsExcludedFromPolling")
        CFG = ("par", "cfg", "")

        class V(Clock):
            def other(self, I, st, fn, obj, args, node):
                sh, c = fn.short, fn.cls or ""
                if sh == "ToString":
                    return [(st, P("name", "str"))]
                if c == "std::bitset" and sh in ("set", "reset") and not args:
                    s = st
                    for e in err.values():
                        s = s.set(("err", e[1]), C(int(sh == "set")))
                    return [(s, ("ref", obj))]
                if c == "std::bitset" and sh in ("set", "reset"):
                    return [(st.set(("err", I.rv(st, args[0])[1]), ZERO if sh == "reset" else (I.rv(st, args[1]) if len(args) > 1 else ONE)), ("ref", obj))]
                return None
        w2 = V(M)
        for unsup in (False, True):
            for er in (False, True):
                for supported in (1, 0):
                    for clear in (0, 1):
                        st = add_fact(St(ev=()), ("ne", CFG))
                        st.env[("fld", ("deref", CFG), "ReadPeriod")] = ("none",)
                        for name, on in (("UnsupportedValue", unsup), ("ErrorValue", er)):
                            l = ("lim", name)
                            st.env[("fld", l, "IntegerValue")], st.env[("fld", l, "Type")] = P(name, "u64"), ONE
                            st.env[("fld", ("deref", CFG), name)] = ("some", ("obj", l)) if on else ("none",)
                        st.env[("fld", ("in",), "IntegerValue")], st.env[("fld", ("in",), "Type")] = P("value", "u64"), ONE
                        for e in ("ReadError", "WriteError", "PollIntervalMissError"):
                            st.env[("err", err[e][1])] = P("old" + e, "bool")
                        tag = "%s%s%s%s" % ("unsupported value set, " * unsup, "error value set, " * er, "not supported, " * (1 - supported), "keeping the read error" * (1 - clear))
                        T, ps = run(chk, M, w2, ctor_, [("par", "dev", ""), CFG], st, "new")
                        for k, s, v in ps:
                            T, ps2 = run(chk, M, w2, sup, [C(supported)], s, "support")
                            for k2, s2, v2 in ps2:
                                T, ps3 = run(chk, M, w2, sv, [("obj", ("in",)), C(clear)], s2, "value " + tag)
                                for k3, x, v3 in ps3:
                                    obs = {}
                                    for nm_, b in (("available", ga), ("excluded", exc), ("value", gv)):
                                        To, po = run(chk, M, w2, b, [], x, nm_)
                                        if len(po) != 1:
                                            raise AnalysisError("reading the state of a register")
                                        v4 = po[0][2]
                                        if v4 is None:
                                            raise AnalysisError("reading the state of a register")
                                        obs[nm_] = To.I.rv(po[0][1], To.I.load(po[0][1], ("fld", To.I.deref_loc(po[0][1], v4[1]), "IntegerValue"))) if v4[0] in ("obj", "ref") and nm_ == "value" else To.I.rv(po[0][1], v4)
                                    val = P("value", "u64")
                                    for z, is_un in (ask([x], EQ(val, P("UnsupportedValue", "u64"))) if unsup else [(x, False)]):
                                        for z2, is_er in (ask([z], EQ(val, P("ErrorValue", "u64"))) if er else [(z, False)]):
                                            re = z2.env[("err", err["ReadError"][1])]
                                            want = ONE if is_un or is_er else (ZERO if supported and clear else P("oldReadError", "bool"))
                                            okk = re == want and obs["available"] == av["UNAVAILABLE" if is_un else "AVAILABLE"] and obs["value"] == val and (not is_un or obs["excluded"] == ONE) and \
                                                (is_un or obs["excluded"] == ZERO) and all(z2.env[("err", err[e][1])] == P("old" + e, "bool") for e in ("WriteError", "PollIntervalMissError"))
                                            tri(chk, T, z2, k3 == "ret" and okk, "value", "the value is kept; the unsupported value ends polling of the register, the error value is a read error, any other one clears it "
                                                "unless the register is not supported or the error is to be kept", "read error %s, %s" % (fmt(re), {a: fmt(b) for a, b in obs.items()}))
    part(chk, "values", values)
