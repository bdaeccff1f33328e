"""P-properties: which registers of a device are read, and when each is due again; the poll cycle over devices."""
from common import *
from chk_sched import tri, addfacts
from chk_tasks import put_list, short, ask, nm
import functools
import chk_poll
from chk_poll import Clock, ctor, enumc, raiser, THIS, BIG, MS, DEV_UNITS

US = 1000
run = functools.partial(chk_poll.run, fork=True)


class Queue:
    """The queue of due times of a device, ordered by the checks' choice (Q01 decides the real one)."""

    def __init__(self, loc):
        self.loc = ("queue",)

    @staticmethod
    def get(st):
        return st.env.get(("q",), ())

    @staticmethod
    def put(st, q):
        return st.set(("q",), tuple(q))

    def call(self, I, st, fn, obj, args, node):
        sh, q = fn.short, self.get(st)
        if sh == "AddEntry":
            d = I.deref_loc(st, args[0][1]) if args[0][0] == "ref" else None
            r = I.rv(st, args[0])
            return [(self.put(st, q + ((r, I.rv(st, args[1])),)).withev((st.ev or ()) + (("add", r, I.rv(st, args[1])),)), ("void",))]
        if sh == "IsEmpty":
            return [(st, C(int(not q)))]
        if sh == "Contains":
            return [(st, C(int(I.rv(st, args[0]) in [x[0] for x in q])))]
        if sh == "HasReadyItems":
            if not q:
                return [(st, ZERO)]
            if len(st.ev or ()) > 20:
                raise AnalysisError("a queue that never empties")
            t = I.rv(st, args[0])
            return [(s, C(int(r))) for s, r in ask([st], LE(q[0][1], t))]
        if sh == "GetDeadline":
            return [(st, q[0][1] if q else ("app", "time_point::max"))]
        if sh == "GetTop":
            if not q:
                raise AnalysisError("top of an empty queue")
            t = ("top", len(q))
            s = st.copy()
            s.env[("fld", t, "Data")] = q[0][0]
            s.env[("fld", t, "Deadline")] = q[0][1]
            return [(s, ("ref", t))]
        if sh == "Pop":
            return [(self.put(st, q[1:]).withev((st.ev or ()) + (("pop", q[0][0] if q else None),)), ("void",))]
        raise AnalysisError("use of the queue: " + sh)


def time_max(d):
    return d


@check("P06", "all paths of the methods of a polled device, for two due registers and one that is not, every setting of each register, every outcome",
       "the registers read, their errors and the times they are due again equal those of the reference", only=DEV_UNITS)
def p06(chk, M):
    pr, av, acc = enumc(M, "TPriority"), enumc(M, "TRegisterAvailability"), enumc(M, "TRegisterConfig::EAccessType")
    err = enumc(M, "TRegister::TError")
    DEV, PORT = ("par", "dev", ""), ("par", "port", "")
    CLS = "TPollableDevice"
    Q = Queue(None)
    R = {n: ("par", n, "") for n in ("r1", "r2", "r3")}
    now = P("start", "")
    minint, lastread = P("min_interval", ""), P("last_read", "")
    CFGS = {"high": (acc["READ_WRITE"], True, False), "high ro": (acc["READ_ONLY"], True, True), "high wo": (acc["WRITE_ONLY"], True, False),
            "low": (acc["READ_WRITE"], False, False), "low limit": (acc["READ_ONLY"], False, True), "low wo": (acc["WRITE_ONLY"], False, False)}

    def period(r):
        return P("period_" + r, "")

    def limit(r):
        return P("limit_" + r, "")

    class W(Clock):
        def other(self, I, st, fn, obj, args, node):
            sh, c = fn.short, fn.cls or ""
            ev = st.ev or ()
            o = I.deref_loc(st, obj) if obj is not None else None
            if c == "TPriorityQueueSchedule" and sh != c:
                return Q.call(I, st, fn, obj, args, node)
            if c == "util::TSpentTimeMeter":
                return [(st, now if sh == "GetStartTime" else P("spent", ""))]
            if c in ("TRegister", "IRegister") and isinstance(o, tuple) and o[0] == "deref":
                r = nm(o)
                if sh == "GetConfig":
                    return [(st, ("par", "cfg_" + r, ""))]
                if sh == "IsExcludedFromPolling":
                    return [(st, st.env[("excl", r)])]
                if sh == "GetValue":
                    t = ("tmp", I.frame(), node["id"], "val")
                    s = st.copy()
                    s.env[("fld", t, "Type")] = st.env[("undef", r)]
                    return [(s, ("obj", t))]
                if sh in ("SetError", "SetAvailable", "SetLastPollTime"):
                    return [(st.withev(ev + ((sh, r, I.rv(st, args[0])),)), ("void",))]
                if sh in ("IncludeInPolling", "ExcludeFromPolling"):
                    return [(st.set(("excl", r), C(int(sh[0] == "E"))).withev(ev + ((sh, r),)), ("void",))]
                if sh == "ToString":
                    return [(st, P("name", "str"))]
            if sh == "CreateRegisterRange":
                return [(st, ("par", "range", ""))]
            if sh == "RegisterList":
                return [(st, ("ref", ("regs",)))]
            if sh == "Add" and "Range" in c:
                r, lim = I.rv(st, args[1]), I.rv(st, args[2])
                n = st.env[("size", ("regs",))][1]
                out = [(st.withev(ev + (("full", r, lim),)), ZERO)]
                els = [I.load_el(st, ("regs",), C(i), None) for i in range(n)]
                if len(els) < 3:
                    out.append((put_list(st, ("regs",), els + [r]).withev(ev + (("take", r, lim),)), ONE))
                return out
            if sh == "PrepareToAccess":
                return [(st.withev(ev + (("prepare", r),)), C(r)) for r in (0, 1)]
            if c == "TSerialDevice":
                if sh == "ReadRegisterRange":
                    # reading changes the registers
                    outs = []
                    n = st.env[("size", ("regs",))][1]
                    els = [nm(I.load_el(st, ("regs",), C(i), None)) for i in range(n)]
                    s = st.withev(ev + (("read", tuple(els)),))
                    for e in (0, 1):
                        for u in (0, 1):
                            z = s
                            for r in els[:1]:
                                z = z.set(("excl", r), C(e)).set(("undef", r), C(1 - u))
                            outs.append((z, ("void",)))
                    return outs
                if sh == "GetRegisters":
                    return [(st, ("ref", ("all",)))]
                if sh == "DeviceConfig":
                    return [(st, ("par", "devcfg", ""))]
                if sh == "GetLastReadTime":
                    return [(st, lastread)]
                if sh == "SetLastReadTime":
                    return [(st.withev(ev + (("lastread", I.rv(st, args[0])),)), ("void",))]
            return None
    w = W(M)

    def config(st, regs):
        for r, k in regs.items():
            a, high, lim = CFGS[k]
            cl = ("deref", ("par", "cfg_" + r, ""))
            st.env[("fld", cl, "AccessType")] = a
            st.env[("fld", cl, "ReadPeriod")] = ("some", period(r)) if high else ("none",)
            st.env[("fld", cl, "ReadRateLimit")] = ("some", limit(r)) if lim else ("none",)
            st.env[("excl", r)], st.env[("undef", r)] = ZERO, ZERO
            st = addfacts(st, LE(C(MS), period(r)), LE(period(r), BIG), LE(C(MS), limit(r)), LE(limit(r), BIG))
            st = add_fact(st, ("ne", R[r]))
        st.env[("fld", ("deref", ("par", "devcfg", "")), "MinRequestInterval")] = minint
        return addfacts(st, LE(ZERO, now), LE(now, BIG), LE(ZERO, minint), LE(minint, BIG), LE(ZERO, lastread), LE(lastread, BIG), ("ne", DEV))

    def make(st, regs, prio, tag):
        st = put_list(config(st, regs), ("all",), [R[r] for r in regs])
        T, ps = run(chk, M, w, ctor(M, CLS), [DEV, now, pr[prio]], st, "new " + tag)
        out = []
        for k, s, v in ps:
            want = [(R[r], now) for r, c in regs.items() if c.split()[0] == prio.lower() and not c.endswith("wo")]
            tri(chk, T, s, k == "ret" and list(Q.get(s)) == want, "registers", "a device polls at first exactly its readable registers of the priority", short(Q.get(s)))
            out.append(s)
        return out

    def after(T, s, prio, r, cfg, q):
        """The entries of a register in the queue are what the reference demands: [(state, ok)]."""
        mine = [d for x, d in q if x == R[r]]
        excl, undef = s.env[("excl", r)] == ONE, s.env[("undef", r)] == ZERO
        if excl and not undef:
            return [(s, mine == [])]
        if len(mine) != 1:
            return [(s, False)]
        d = sub(mine[0], now)
        if excl or prio == "Low" and not CFGS[cfg][2]:
            return [(z, a and b) for z, a in ask([s], LE(ONE, d)) for z, b in ask([z], LE(d, C(MS)))]
        return [(s, d == (period(r) if prio == "High" else limit(r)))]

    def reading():
        b = M.one(CLS + "::ReadRegisterRange")
        lim = P("poll_limit", "")
        for prio, regs in (("High", {"r1": "high", "r2": "high ro"}), ("Low", {"r1": "low", "r2": "low limit"})):
            for atleast in (0, 1):
                for s in make(St(ev=()), regs, prio, prio):
                    s = put_list(s.withev(()), ("regs",), [])
                    s.env[("q",)] = ((R["r1"], P("due1", "")), (R["r2"], P("due2", "")))
                    s = addfacts(s, LE(ZERO, P("due1", "")), LE(P("due1", ""), P("due2", "")), LE(P("due2", ""), scale(BIG, 2)), LE(ZERO, lim), LE(lim, BIG))
                    T, ps = run(chk, M, w, b, [PORT, lim, C(atleast), ("obj", ("meter",)), ("obj", ("acc",))], s, "reading %s%s" % (prio, " at least one" if atleast else ""))
                    for k, x, v in ps:
                        ev = [e for e in x.ev or ()]
                        if k != "ret":
                            tri(chk, T, x, False, "raises", "reading does not fail", "raises %s" % v.type)
                            continue
                        took = [nm(e[1]) for e in ev if e[0] == "take"]
                        full = [nm(e[1]) for e in ev if e[0] == "full"]
                        lims = [e[2] for e in ev if e[0] in ("take", "full")]
                        q = Q.get(x)
                        ok = took + full == ["r1", "r2"][:len(took) + len(full)]
                        # a register is offered exactly if it is due
                        sts = [x]
                        for i, r in enumerate(("r1", "r2")):
                            due = LE(P("due%d" % (i + 1), ""), now)
                            nxt = []
                            for z, d in ask(sts, due):
                                offered = r in took + full
                                if full and full[0] != r and i > ["r1", "r2"].index(full[0]):
                                    okk = not offered
                                else:
                                    okk = offered == d
                                tri(chk, T, z, ok and okk, "offered", "due registers are offered to the request in order until one does not fit", "%s taken, %s not" % (took, full))
                                nxt.append(z)
                            sts = nxt
                        ok = all((l != lim) if atleast and i == 0 else l == lim for i, l in enumerate(lims))
                        tri(chk, T, x, ok, "limit", "the time for the request is limited, for the first register only if nothing has to be read", "limits %s" % [fmt(l) for l in lims])
                        prep = [e[1] for e in ev if e[0] == "prepare"]
                        reads = [e[1] for e in ev if e[0] == "read"]
                        errs = [(e[1], e[2]) for e in ev if e[0] == "SetError"]
                        want_reads = [tuple(took)] if took and prep == [1] else []
                        want_errs = [(r, err["ReadError"]) for r in took] if took and prep == [0] else []
                        tri(chk, T, x, len(prep) == int(bool(took)) and reads == want_reads and errs == want_errs, "read",
                            "the registers of the request are read once, after the device was made ready; else each gets a read error", "ready %s, read %s, errors %s" % (prep, reads, errs))
                        tri(chk, T, x, [(e[1], e[2]) for e in ev if e[0] == "SetLastPollTime"] == [(r, now) for r in took], "time", "the time of the poll is recorded for each register read", short(ev))
                        for i, r in enumerate(("r1", "r2")):
                            if r in took:
                                for z, good in after(T, x, prio, r, regs[r], q):
                                    tri(chk, T, z, good, "due", "a register read is due again after its period, its rate limit, or at once; an excluded one only until its first value",
                                        "%s: %s" % (r, [(nm(a), fmt(d)) for a, d in q]))
                            else:
                                tri(chk, T, x, [d for a, d in q if a == R[r]] == [P("due%d" % (i + 1), "")], "kept", "a register not read stays due", "%s: %s" % (r, [(nm(a), fmt(d)) for a, d in q]))
                        g = T.I.rv(x, v)
                        tri(chk, T, x, g == ("par", "range", ""), "result", "the request read is returned", fmt(g))
    part(chk, "reading", reading)

    def closed():
        b = M.one(CLS + "::MarkWaitingRegistersAsReadErrorAndReschedule")
        for prio, regs in (("High", {"r1": "high", "r2": "high ro"}), ("Low", {"r1": "low", "r2": "low limit"})):
            for ex in (0, 1):
                for un in (0, 1):
                    for s in make(St(ev=()), regs, prio, prio):
                        s = s.withev(()).copy()
                        s.env[("q",)] = ((R["r1"], P("due1", "")), (R["r2"], P("due2", "")))
                        s.env[("excl", "r1")], s.env[("undef", "r1")] = C(ex), C(1 - un)
                        s = addfacts(s, LE(ZERO, P("due1", "")), LE(P("due1", ""), P("due2", "")), LE(P("due2", ""), scale(BIG, 2)))
                        T, ps = run(chk, M, w, b, [now], s, "closed port " + prio)
                        for k, x, v in ps:
                            sts, got = [(x, [])], []
                            for i, r in enumerate(("r1", "r2")):
                                sts = [(z, l + [r] * d) for y, l in sts for z, d in ask([y], LE(P("due%d" % (i + 1), ""), now))]
                            for z, due in sts:
                                l = T.I.deref_loc(z, v[1]) if v is not None and v[0] in ("obj", "ref") else None
                                n = T.I.size_of(z, l) if l is not None else None
                                got = [nm(T.I.load_el(z, l, C(i), None)) for i in range(n[1])] if n is not None and is_c(n) else None
                                tri(chk, T, z, k == "ret" and got == due if got is not None else None, "result", "exactly the due registers are returned", "%s, due %s" % (got, due))
                                q = Q.get(z)
                                for i, r in enumerate(("r1", "r2")):
                                    if r in due:
                                        for z2, good in after(T, z, prio, r, regs[r], q):
                                            tri(chk, T, z2, good, "due", "a register is due again after its period, its rate limit, or at once; an excluded one only until its first value", "%s: %s" % (r, [(nm(a), fmt(d)) for a, d in q]))
                                    else:
                                        tri(chk, T, z, [d for a, d in q if a == R[r]] == [P("due%d" % (i + 1), "")], "kept", "a register not due stays as it is", "%s" % [(nm(a), fmt(d)) for a, d in q])
    part(chk, "closed", closed)

    def rest():
        b, g = M.one(CLS + "::RescheduleAllRegisters"), M.one(CLS + "::GetDeadline")
        for prio in ("High", "Low"):
            for kind in CFGS:
                for ex in (0, 1):
                    for inq in (0, 1):
                        for s in make(St(ev=()), {"r1": kind}, prio, "%s with %s" % (prio, kind)):
                            s = s.withev(()).copy()
                            s.env[("q",)] = ((R["r1"], P("due1", "")),) * inq
                            s.env[("excl", "r1")] = C(ex)
                            T, ps = run(chk, M, w, b, [], s, "again %s %s" % (prio, kind))
                            for k, x, v in ps:
                                ev = list(x.ev or ())
                                mine = kind.split()[0] == prio.lower() and not kind.endswith("wo")
                                back = mine and ex and not inq
                                sets = [e for e in ev if e[0] == "SetAvailable"]
                                q = Q.get(x)
                                ok = k == "ret" and len(q) == inq + back and (not back or x.env[("excl", "r1")] == ZERO and sets == [("SetAvailable", "r1", av["UNKNOWN"])])
                                ok = ok and (back or not sets and x.env[("excl", "r1")] == C(ex))
                                tri(chk, T, x, ok, "again", "every register excluded from polling is polled again, once, as if never read; others are left alone", "%s %s" % (short(ev), len(q)))
                                for z, soon in ask([x], LE(q[0][1], now)) if back and len(q) == 1 else []:
                                    tri(chk, T, z, soon, "again", "a register polled again is due at once", fmt(q[0][1]))
        for prio, regs in (("High", {"r1": "high"}), ("Low", {"r1": "low"})):
            for s in make(St(ev=()), regs, prio, prio):
                s = s.withev(()).copy()
                s.env[("q",)] = ((R["r1"], P("due1", "")),)
                s = addfacts(s, LE(ZERO, P("due1", "")), LE(P("due1", ""), BIG))
                T, ps = run(chk, M, w, g, [], s, "deadline " + prio)
                for k, x, v in ps:
                    v = T.I.rv(x, v)
                    for z, non in ask([x], LE(ONE, minint)) if prio == "Low" else [(x, False)]:
                        for z2, later in ask([z], LE(add(P("due1", ""), ONE), add(lastread, minint))) if non else [(z, False)]:
                            want = add(lastread, minint) if later else P("due1", "")
                            bad = [t for _, t in ask([z2], EQ(v, want)) if not t]
                            tri(chk, T, z2, k == "ret" and not bad, "deadline", "a device is due with its first register, a low priority one not before the minimum interval passed", "%s, expected %s" % (fmt(v), fmt(want)))
    part(chk, "rest", rest)


# --------------------------------------------------------------------------- P07
MAXT = C(2**63 - 1)
SEC = 1000 * MS


class Poller(Clock):
    """Devices A (high and low priority registers) and B (low priority ones), the schedule of their polls, and everything that can come of a poll."""

    SUSP = ("suspseq",)

    def __init__(self, M):
        self.M = M
        self.pr, self.cs, self.pol = enumc(M, "TPriority"), enumc(M, "TDeviceConnectionState"), enumc(M, "TItemAccumulationPolicy")
        self.sel, self.err = enumc(M, "TItemSelectionPolicy"), enumc(M, "TRegister::TError")
        self.detail = True

    # schedule: ((pollable, deadline), ...)
    @staticmethod
    def sched(st):
        return st.env.get(("q",), ())

    def put(self, st, q):
        s = st.set(("q",), tuple(q))
        return s.set(("qv",), C(s.env[("qv",)][1] + 1))

    def due(self, st, p):
        return P("due_%s_%d" % (p, st.env[("ver", p)][1]), "")

    def touch(self, st, p):
        return st.set(("ver", p), C(st.env[("ver", p)][1] + 1))

    def head(self, st, what):
        """Deadline of the schedule."""
        q = [p for p, d in self.sched(st) if what == "" or p.endswith(what)]
        return P("first%s_%d" % (what, st.env[("qv",)][1]), "") if q else MAXT

    def change(self, I, st, d, state, node):
        """The connection state of a device becomes `state`; listeners are told."""
        if st.env[("conn", d)] == state:
            return [st]
        sts = [st.set(("conn", d), state).withev((st.ev or ()) + (("conn", d, state),))]
        for f in st.env[("told", d)]:
            sts = [y for s in sts for y, _ in I.invoke(s, f, [("par", d, "")], node)]
        return sts

    def assoc(self, st, seq, items):
        s = st.copy()
        for k in [k for k in s.env if isinstance(k, tuple) and I_root(k) == seq]:
            del s.env[k]
        s.env[("size", seq)] = C(len(items))
        for i, (a, b) in enumerate(items):
            s.env[("fld", ("el", seq, C(i)), "first")] = a
            s.env[("fld", ("el", seq, C(i)), "second")] = b
        return s

    def items(self, st, seq):
        n = st.env.get(("size", seq), ZERO)[1]
        return [(st.env[("fld", ("el", seq, C(i)), "first")], st.env[("fld", ("el", seq, C(i)), "second")]) for i in range(n)]

    def other(self, I, st, fn, obj, args, node):
        sh, c = fn.short, fn.cls or ""
        ev = st.ev or ()
        o = I.deref_loc(st, obj) if obj is not None else None
        if fn.n == "std::make_shared" and fn.r is not None and "TPollableDevice" in fn.r.s:
            d, t, p = (I.rv(st, a) for a in args[:3])
            n = "%s/%s" % (nm(d), [k for k, v in self.pr.items() if v == p][0])
            return [(st.withev(ev + (("new", n, t),)), ("par", n, ""))]
        if c in ("std::multimap", "std::unordered_map", "std::map", "std::unordered_multimap"):
            seq = ("suspseq",) if "time_point" in (self.ftype(o) or "") else ("devseq",)
            its = self.items(st, seq)
            if sh in ("find", "contains", "count"):
                k = I.rv(st, args[0])
                i = next((i for i, x in enumerate(its) if x[0] == k), None)
                if sh == "find":
                    return [(st, ("ptr", seq, C(len(its) if i is None else i)))]
                return [(st, C(len([x for x in its if x[0] == k])))]
            if sh in ("end", "cend"):
                return [(st, ("ptr", seq, C(len(its))))]
            if sh in ("begin", "cbegin"):
                return [(st, ("ptr", seq, ZERO))]
            if sh == "empty":
                return [(st, C(int(not its)))]
            if sh == "size":
                return [(st, C(len(its)))]
            if sh == "equal_range":
                k = I.rv(st, args[0])
                r = [i for i, x in enumerate(its) if x[0] == k]
                if r and r != list(range(r[0], r[-1] + 1)):
                    its.sort(key=lambda x: repr(x[0]))
                    st = self.assoc(st, seq, its)
                    r = [i for i, x in enumerate(its) if x[0] == k]
                t = ("tmp", I.frame(), node["id"], "rng")
                s = st.copy()
                s.env[("fld", t, "first")] = ("ptr", seq, C(r[0] if r else len(its)))
                s.env[("fld", t, "second")] = ("ptr", seq, C(r[-1] + 1 if r else len(its)))
                return [(s, ("obj", t))]
            if sh in ("insert", "emplace", "insert_or_assign"):
                if len(args) == 1:
                    l = I.deref_loc(st, args[0][1])
                    kv = (I.rv(st, ("ref", ("fld", l, "first"))), I.rv(st, ("ref", ("fld", l, "second"))))
                else:
                    kv = (I.rv(st, args[0]), I.rv(st, args[1]))
                if seq == ("suspseq",):
                    old = [x for x in its if x[0] == kv[0]]
                    its = its if old and sh != "insert_or_assign" else [x for x in its if x[0] != kv[0]] + [kv]
                else:
                    its = its + [kv]
                return [(self.assoc(st, seq, its), ("void",))]
            if sh == "operator[]":
                k = I.rv(st, args[0])
                if k not in [x[0] for x in its]:
                    its = its + [(k, ZERO)]
                    st = self.assoc(st, seq, its)
                i = [x[0] for x in its].index(k)
                return [(st, ("ref", ("fld", ("el", seq, C(i)), "second")))]
            if sh == "erase" and len(args) == 1:
                k = I.rv(st, args[0])
                if k[0] == "ptr":
                    i = k[2][1]
                    return [(self.assoc(st, seq, its[:i] + its[i + 1:]), ("ptr", seq, C(i)))]
                return [(self.assoc(st, seq, [x for x in its if x[0] != k]), ("void",))]
            if sh == "clear":
                return [(self.assoc(st, seq, []), ("void",))]
            if sh != c.rsplit("::", 1)[-1] and not sh.startswith("~"):
                raise AnalysisError("%s::%s" % (c, sh))
            return None
        if c == "TPollableDevice" and sh != c and (not isinstance(o, tuple) or o[0] != "deref" or nm(o) not in ENTRIES) and not sh.startswith("~"):
            return self.stop(I, st, node, "no device")
        if c == "TPollableDevice" and isinstance(o, tuple) and o[0] == "deref":
            p = nm(o)
            d = ("par", p.split("/")[0], "")
            if sh == "GetDevice":
                return [(st, d)]
            if sh == "GetPriority":
                return [(st, self.pr[p.split("/")[1]])]
            if sh == "HasRegisters":
                return [(st, st.env[("has", p)])]
            if sh == "GetDeadline":
                return [(st, self.due(st, p))]
            if sh == "GetDisconnectedPollDelay":
                return [(st, st.env[("delay", p)])]
            if sh == "SetDisconnectedPollDelay":
                return [(st.set(("delay", p), I.rv(st, args[0])), ("void",))]
            if sh == "RescheduleAllRegisters":
                return [(self.touch(st, p).set(("has", p), ONE).withev(ev + (("again", p),)), ("void",))]
            if sh == "ReadRegisterRange":
                s = st.withev(ev + (("read", p, I.rv(st, args[1]), I.rv(st, args[2])),))
                outs = [(s.withev(s.ev + (("got", p, 0),)), ("par", "empty", ""))]
                s = self.touch(s, p).withev(s.ev + (("got", p, 2),))
                sts = [s]
                if p[0] == "A":
                    sts += self.change(I, s, "A", self.cs["CONNECTED"], node)[:1] if s.env[("conn", "A")] != self.cs["CONNECTED"] else self.change(I, s, "A", self.cs["DISCONNECTED"], node)
                    sts += [z.set(("has", p), ZERO) for z in sts]
                return outs + [(z, ("par", "full", "")) for z in sts]
            if sh == "MarkWaitingRegistersAsReadErrorAndReschedule":
                outs = []
                s = self.touch(st, p)
                for n in (1, 0) if p == "A/Low" else (2,):
                    t = ("tmp", I.frame(), node["id"], "regs")
                    s2 = put_list(s.withev(ev + (("closed", p, n, I.rv(st, args[0])),)), t, [("par", "r%d" % i, "") for i in range(n)])
                    outs.append((s2, ("obj", t)))
                return outs
            raise AnalysisError("use of a polled device: " + sh)
        if c == "TScheduler" and sh != c:
            return self.scheduler(I, st, fn, sh, args, node, ev)
        if c == "TSerialDevice":
            d = nm(o)
            if d not in ("A", "B", "X"):
                return self.stop(I, st, node, "no device")
            if sh == "GetConnectionState":
                return [(st, st.env[("conn", d)])]
            if sh == "AddOnConnectionStateChangedCallback":
                f = I.rv(st, args[0])
                if f[0] in ("obj", "ref"):
                    f = I.load(st, I.deref_loc(st, f[1]))
                return [(st.set(("told", d), st.env[("told", d)] + (f,)), ("void",))]
            if sh == "SetDisconnected":
                s = st.withev(ev + (("SetDisconnected", d),))
                return [(z, ("void",)) for z in self.change(I, s, d, self.cs["DISCONNECTED"], node)]
            if sh == "SetTransferResult":
                s = st.withev(ev + (("result", d, I.rv(st, args[0])),))
                sts = [s]
                if st.env[("conn", d)] != self.cs["DISCONNECTED"] and d == "A":
                    sts += self.change(I, s, d, self.cs["DISCONNECTED"], node)
                return [(z, ("void",)) for z in sts]
            if sh == "ToString":
                return [(st, P("name", "str"))]
            raise AnalysisError("use of a device: " + sh)
        if c == "TRateLimiter" and sh != c:
            if sh == "IsOverLimit":
                return [(st.withev(ev + (("over", r),)), C(r)) for r in ((0, 1) if self.detail else (0,))]
            if sh == "GetStartTime":
                return [(st, P("rl_start", ""))]
            return [(st.withev(ev + (("item", I.rv(st, args[0])),)), ("void",))]
        if c == "util::TSpentTimeMeter":
            return [(st, P("t", "") if sh == "GetStartTime" else P("spent", ""))]
        if sh == "RegisterList":
            return [(st, ("ref", ("regs", nm(o))))]
        if c in ("TRegister", "IRegister") and sh == "SetError":
            return [(st.withev(ev + (("error", nm(o), I.rv(st, args[0])),)), ("void",))]
        if c == "TThrottlingStateLogger" and sh == "GetMessage":
            return [(st, P("message", "str"))]
        if sh == "GetDescription":
            return [(st, P("name", "str"))]
        if c == "std::function" and sh == "operator()" and len(args) == 1:
            return [(st.withev(ev + (("callback", nm(I.rv(st, args[0]))),)), ("void",))]
        if c == "std::function" and sh == "operator bool":
            return [(st, ONE)]
        return None

    def stop(self, I, st, node, what):
        """The cycle fails here."""
        I.throw(st.withev((st.ev or ()) + (("fail", what),)), Exc(rec_type(self.M, "TSerialDeviceException"), ("sym", "exc", node["id"], ""), node.get("l", 0), None, why=what))
        return []

    def ftype(self, o):
        if isinstance(o, tuple) and o[0] == "fld":
            for r in self.M.records.values():
                if r.n == "TSerialClientRegisterPoller":
                    return next((f["t"].s for f in r.f if f["n"] == o[2]), None)
        return None

    def scheduler(self, I, st, fn, sh, args, node, ev):
        q = self.sched(st)
        if sh == "AddEntry":
            p, t, pri = nm(I.rv(st, args[0])), I.rv(st, args[1]), I.rv(st, args[2])
            if pri != self.pr[p.split("/")[1]]:
                return [(self.put(st, q + ((p, t), (p, t))), ("void",))]
            return [(self.put(st, q + ((p, t),)), ("void",))]
        if sh == "Remove":
            p = nm(I.rv(st, args[0]))
            i = next((i for i, x in enumerate(q) if x[0] == p), None)
            return [(self.put(st, q[:i] + q[i + 1:]) if i is not None else st, ("void",))]
        if sh == "Contains":
            return [(st, C(int(nm(I.rv(st, args[0])) in [x[0] for x in q])))]
        if sh == "IsEmpty":
            return [(st, C(int(not q)))]
        if sh == "GetDeadline":
            v = self.head(st, "")
            return [(addfacts(st, LE(ZERO, v), LE(v, BIG)) if v != MAXT else st, v)]
        if sh == "GetHighPriorityDeadline":
            v = self.head(st, "High")
            return [(addfacts(st, LE(ZERO, v), LE(v, BIG)) if v != MAXT else st, v)]
        if sh == "GetLowPriorityDeadline":
            v = self.head(st, "Low")
            return [(addfacts(st, LE(ZERO, v), LE(v, BIG)) if v != MAXT else st, v)]
        if sh == "ResetLoadBalancing":
            return [(st.withev(ev + (("balance",),)), ("void",))]
        if sh == "UpdateSelectionTime":
            return [(st.withev(ev + (("time", I.rv(st, args[1])),)), ("void",))]
        if sh == "AccumulateNext":
            t, sel = I.rv(st, args[0]), I.rv(st, args[2])
            seen = [e[1] for e in ev if e[0] == "offer"]
            if len([e for e in ev if e[0] == "next"]) > 8:
                return self.stop(I, st, node, "a cycle that does not end")
            outs = [(st.withev(ev + (("next", t, sel),)), ("void",))]
            rt = fn.p[1].noref
            b = next((x for x in self.M.bodies.values() if x.fn.short == "operator()" and x.fn.n == "%s::operator()" % rt.r), None)
            if b is None:
                raise AnalysisError("the reader of entries")
            for p in sorted({x[0] for x in q}):
                if seen and p <= max(seen) or sel == self.sel["OnlyHighPriority"] and p.endswith("Low"):
                    continue
                for pol in ("Force", "AccordingToPollLimitTime") if p.endswith("Low") and self.detail else ("Force",):
                    s = st.withev(ev + (("next", t, sel), ("offer", p, pol)))
                    L = I.deref_loc(s, args[1][1])
                    for y, v in I.call_body(b, s, L, [("par", p, ""), self.pol[pol], P("poll_limit", "")], node):
                        for z, took in decide(y, v) if not is_c(v) else [(y, bool(v[1]))]:
                            if not took:
                                outs.append((z, ("void",)))
                                continue
                            i = next(i for i, x in enumerate(self.sched(z)) if x[0] == p)
                            z = self.put(z, self.sched(z)[:i] + self.sched(z)[i + 1:])
                            rest = [x[0] for x in self.sched(z) if x[0].split("/")[1] == p.split("/")[1]]
                            if not rest:
                                outs.append((z, ("void",)))
                                continue
                            z = z.withev(z.ev + (("second",),))
                            for y2, v2 in I.call_body(b, z, L, [("par", rest[0], ""), self.pol["AccordingToPollLimitTime"], P("poll_limit", "")], node):
                                outs.append((y2 if v2 == ZERO else y2.withev(y2.ev + (("both",),)), ("void",)))
            return outs
        raise AnalysisError("use of the schedule: " + sh)


def I_root(k):
    while isinstance(k, tuple) and len(k) > 1 and isinstance(k[1], tuple) and k[0] in ("fld", "el", "deref", "size", "log", "ep", "from", "hask", "elog"):
        k = k[1]
    return k


ENTRIES = ("A/High", "A/Low", "B/High", "B/Low")


@check("P07", "every history of cycles, suspensions and connection changes of two devices (all reachable abstract states), every outcome of every poll",
       "the devices scheduled, the times, the registers reported and the results of the cycles equal those of the reference", only=DEV_UNITS)
def p07(chk, M):
    w = Poller(M)
    CLS = "TSerialClientRegisterPoller"
    A, B, X = ("par", "A", ""), ("par", "B", ""), ("par", "X", "")
    DISC, CONN = w.cs["DISCONNECTED"], w.cs["CONNECTED"]
    t, lim = P("t", ""), P("max_poll", "")
    body = {n: M.one(CLS + "::" + n) for n in ("SetDevices", "OpenPortCycle", "ClosedPortCycle", "SuspendPoll", "ResumePoll")}
    STEP, TOP = C(500 * MS), C(10 * SEC)

    def start(has):
        st = St(ev=())
        st.env[("q",)], st.env[("qv",)] = (), ZERO
        for f in next(r.f for r in M.records.values() if r.n == CLS):
            if f["t"] is not None and "map<" in f["t"].s and f["t"].s.startswith("std::"):
                seq = ("suspseq",) if "time_point" in f["t"].s else ("devseq",)
                st.env[("entries", ("fld", THIS, f["n"]))], st.env[("size", seq)] = seq, ZERO
        for p in ENTRIES:
            st.env[("has", p)], st.env[("delay", p)], st.env[("ver", p)] = C(int(p in has)), ZERO, ZERO
        for d in "ABX":
            st.env[("conn", d)], st.env[("told", d)] = CONN, ()
            st = add_fact(st, ("ne", ("par", d, "")))
        for p in ENTRIES:
            st = add_fact(st, ("ne", ("par", p, "")))
        for r in ("full", "empty", "r0", "r1"):
            st = add_fact(st, ("ne", ("par", r, "")))
        st = put_list(st, ("regs", "full"), [("par", "r0", ""), ("par", "r1", "")])
        st = put_list(st, ("regs", "empty"), [])
        st = put_list(st, ("devs",), [A, B])
        st = addfacts(st, LE(ZERO, t), LE(t, BIG), LE(ZERO, lim), LE(lim, BIG), LE(ZERO, P("exp_A", "")), LE(P("exp_A", ""), BIG))
        out = []
        T, ps = run(chk, M, w, ctor(M, CLS), [P("rate", "")], st, "new")
        for k, s, v in ps:
            T, ps2 = run(chk, M, w, body["SetDevices"], [("ref", ("devs",)), t], s, "devices " + " ".join(sorted(has)))
            for k2, s2, v2 in ps2:
                q = w.sched(s2)
                told = [len(s2.env[("told", d)]) for d in "AB"]
                tri(chk, T, s2, k2 == "ret" and sorted(q) == sorted((p, t) for p in has) and told == [1, 1], "devices",
                    "every device is scheduled at once with those of its priorities that have registers, and followed for its connection", "scheduled %s" % (q,))
                ref = dict(sched=frozenset(has), susp=frozenset(), wait=frozenset(), has=frozenset(has), changes=0)
                out.append((s2, ref))
        return out

    def canon(s, ref):
        """The state after an operation as the start of the next one: times and versions are forgotten."""
        m = {add(t, C(600 * SEC)): P("exp_A", "")}
        s2 = s.withev(()).copy()
        keep = {}
        for k, v in s2.env.items():
            r = I_root(k)
            if r in (THIS, ("devseq",), ("suspseq",), ("regs", "full"), ("regs", "empty"), ("devs",)) or k[0] in ("has", "conn", "told", "q", "entries"):
                if v == add(t, C(600 * SEC)):
                    v = P("exp_A", "")
                keep[k] = v
        keep[("q",)] = tuple(sorted((p, P("was_" + p, "")) for p, _ in w.sched(s)))
        keep[("qv",)] = ZERO
        z = St(env=keep, ev=())
        for p in ENTRIES:
            z.env[("delay", p)], z.env[("ver", p)] = old_delay(p), ZERO
            z = addfacts(z, LE(ZERO, P("delay_" + p, "i64")), LE(P("delay_" + p, "i64"), C(10000)))
        if any(mentions(v, t) for k, v in keep.items() if isinstance(v, tuple) and v and k[0] != "told"):
            raise AnalysisError("a time is remembered besides the end of the suspension")
        z = addfacts(z, LE(ZERO, t), LE(t, BIG), LE(ZERO, lim), LE(lim, BIG), LE(ZERO, P("exp_A", "")), LE(P("exp_A", ""), BIG))
        for n in ("A", "B", "X", "full", "empty", "r0", "r1") + ENTRIES:
            z = add_fact(z, ("ne", ("par", n, "")))
        key = (repr(sorted(((k, v) for k, v in z.env.items()), key=repr)), repr(sorted(ref.items())))
        return key, z, ref

    def old_delay(p):
        return scale(P("delay_" + p, "i64"), MS)

    def cycle_start(x, ref, evs):
        """What a cycle does before it polls: [(state, reference, entries to be rescheduled)]."""
        r = dict(ref)
        again = {p for d in ref["wait"] - ref["susp"] for p in inlist(ref) if p[0] == d}
        r["wait"] = frozenset()
        out = []
        for z, over in ask([x], LE(P("exp_A", ""), t)) if "A" in ref["susp"] else [(x, False)]:
            r2, ag = dict(r), set(again)
            if over:
                ag |= {p for p in inlist(ref) if p[0] == "A"}
                r2["susp"] = r2["susp"] - {"A"}
            r2["sched"] = r2["sched"] | ag
            r2["has"] = r2["has"] | ag
            out.append((z, r2, ag))
        return out

    def inlist(ref):
        return ref["all"]

    def conns(ref, evs):
        wait = set(ref["wait"])
        for e in evs:
            if e[0] == "conn" and e[2] == DISC and e[1] not in ref["susp"]:
                wait.add(e[1])
        ref["wait"] = frozenset(wait)

    def after_poll(T, z, p, r, what):
        """A polled device is due again when its registers are, later while it is disconnected: [(state, right, detail)]."""
        q = [d for n, d in w.sched(z) if n == p]
        old = old_delay(p)
        has = z.env[("has", p)] == ONE
        if not has:
            return [(z, not q and z.env[("delay", p)] == old, "due %s" % [fmt(d) for d in q])]
        if len(q) != 1:
            return [(z, False, "scheduled %d times" % len(q))]
        new = z.env[("delay", p)]
        # the state when it is scheduled again
        ds = [e for e in z.ev or () if e[0] == "conn" and e[1] == p[0]]
        if z.env[("conn", p[0])] != DISC:
            return [(z, q[0] == w.due(z, p) and new == ZERO, "due %s, delay %s" % (fmt(q[0]), fmt(new)))]
        out = []
        for y, some in ask([z], LE(ONE, old)):
            for y2, full in ask([y], LE(TOP, old)):
                due_ok = [a for _, a in ask([y2], EQ(q[0], add(t, old) if some else w.due(z, p)))] == [True]
                want = old if full else add(old, STEP)
                del_ok = [a for _, a in ask([y2], EQ(new, want))] == [True]
                out.append((y2, due_ok and del_ok, "due %s, delay %s after %s" % (fmt(q[0]), fmt(new), fmt(old))))
        return out

    def same_sched(T, z, r, what):
        q = sorted(p for p, _ in w.sched(z))
        tri(chk, T, z, q == sorted(r["sched"]), "schedule", "exactly the devices that are not suspended and have registers are scheduled, each once", "scheduled %s, expected %s" % (q, sorted(r["sched"])))

    def agains(T, z, ag, evs):
        got = [e[1] for e in evs if e[0] == "again"]
        first = next((i for i, e in enumerate(evs) if e[0] in ("read", "closed")), len(evs))
        ok = sorted(set(got)) == sorted(ag) and all(e[0] != "again" for e in evs[first:])
        tri(chk, T, z, ok, "again", "all registers of a device are polled again after it lost its connection or its suspension ended, and only then", "rescheduled %s, expected %s" % (got, sorted(ag)))

    def opened(s, ref, nxt):
        for least in (0, 1) if w.detail else (0,):
            T, ps = run(chk, M, w, body["OpenPortCycle"], [("ref", ("port",)), ("obj", ("meter",)), lim, C(least), ("obj", ("acc",)), ("par", "cb", "")], s, "open port %s" % tag(ref, least))
            for k, x, v in ps:
                evs = list(x.ev or ())
                if k != "ret":
                    tri(chk, T, x, False, "raises", "a cycle does not fail", "raises %s" % v.type)
                    continue
                for z, r, ag in cycle_start(x, ref, evs):
                    agains(T, z, ag, evs)
                    reads = [e for e in evs if e[0] == "read"]
                    got = [e for e in evs if e[0] == "got"]
                    over = [e[1] for e in evs if e[0] == "over"]
                    nxts = [e for e in evs if e[0] == "next"]
                    exc = over == [1]
                    ok = len(over) == 1 and nxts == [("next", t, w.sel["OnlyHighPriority" if exc else "All"])] and ("both",) not in evs and len(reads) <= 1
                    tri(chk, T, z, ok, "one device", "a cycle polls at most one device, a low priority one only below the rate limit", short(evs))
                    conns(r, evs)
                    L = T.I.deref_loc(z, v[1]) if v[0] in ("obj", "ref") else None
                    fld = {f: T.I.load(z, ("fld", L, f)) for f in ("Device", "NotEnoughTime", "Deadline")} if L is not None else {}
                    if not fld:
                        tri(chk, T, z, None, "result", "the result of a cycle", "not followed")
                        continue
                    cbs = [e[1] for e in evs if e[0] == "callback"]
                    items = [e for e in evs if e[0] == "item"]
                    times = [e[1] for e in evs if e[0] == "time"]
                    p = reads[0][1] if reads else None
                    full = bool(got and got[0][2])
                    if reads:
                        off = [e for e in evs if e[0] == "offer"][0]
                        want_least = C(1) if least and off[2] == "Force" else ZERO
                        for y, low in ask([z], LE(lim, P("poll_limit", ""))):
                            tri(chk, T, y, reads[0][2] in (lim, P("poll_limit", "")) and [a for _, a in ask([y], EQ(reads[0][2], lim if low else P("poll_limit", "")))] == [True]
                                and reads[0][3] == want_least, "limit", "a poll takes no longer than the cycle and the schedule allow; it must read something only if the cycle must and the schedule forces it",
                                "limit %s, at least one: %s" % (fmt(reads[0][2]), fmt(reads[0][3])))
                    if full:
                        r = dict(r, sched=frozenset(r["sched"] - ({p} if z.env[("has", p)] == ZERO else set())), has=r["has"] - {p} if z.env[("has", p)] == ZERO else r["has"])
                        for y, okk, d in after_poll(T, z, p, r, "open"):
                            tri(chk, T, y, okk, "due again", "a polled device is due with its registers; while disconnected after a delay that grows by 500 ms up to 10 s", d)
                        low = p.endswith("Low")
                        tri(chk, T, z, cbs == ["r0", "r1"] and items == ([("item", t)] * 2 if low else []) and times == [w.pr[p.split("/")[1]]], "reported",
                            "every register of the poll is reported once, low priority ones are counted against the rate limit, the time is accounted", "%s %s %s" % (cbs, items, times))
                    else:
                        tri(chk, T, z, not cbs and not items, "reported", "without a poll nothing is reported", "%s %s" % (cbs, items))
                    same_sched(T, z, r, "open")
                    dev = ("par", p[0], "") if full else None
                    isnull = is_c(fld["Device"]) or fld["Device"] == ("ld", ("fld", L, "Device"), 0, "") or fld["Device"][0] in ("null", "none", "nullptr")
                    tri(chk, T, z, (fld["Device"] == dev if full else isnull) and fld["NotEnoughTime"] == C(int(bool(reads) and not full)), "result",
                        "the result names the device polled, and tells that time was too short for any register", "device %s, not enough time %s" % (fmt(fld["Device"]), fmt(fld["NotEnoughTime"])))
                    for y, okk, d in deadline(z, r, exc, p if reads and not full else None):
                        tri(chk, T, y, okk and [a for _, a in ask([y], EQ(fld["Deadline"], d))] == [True], "deadline", "the next cycle is due with the schedule, low priority devices not before the rate limit allows; within the time of the cycle if time was short",
                            "%s, expected %s" % (fmt(fld["Deadline"]), fmt(d)))
                    r["changes"] = 0
                    nxt.append((z, r))

    def deadline(z, r, exc, short_of):
        """[(state, True, deadline)]"""
        def least(sts, a, b):
            return [(y, a if le else b) for y, le in ask(sts, LE(a, b))]
        if short_of is not None:
            e = add(t, lim)
            if short_of.endswith("High"):
                return [(z, True, e)]
            return [(y, True, d) for y, d in least([z], w.head(z, "High"), e)]
        if not r["sched"]:
            return [(z, True, add(t, C(SEC)))]
        if not exc:
            return [(z, True, w.head(z, ""))]
        lo, hi_ = w.head(z, "Low"), w.head(z, "High")
        out = []
        st2 = add(P("rl_start", ""), C(SEC))
        for y, le in ask([z], LE(st2, lo)) if lo != MAXT else [(z, True)]:
            out += [(y2, True, d) for y2, d in least([y], hi_, lo if le else st2)]
        return out

    def closed(s, ref, nxt):
        T, ps = run(chk, M, w, body["ClosedPortCycle"], [t, ("par", "cb", "")], s, "closed port " + tag(ref))
        for k, x, v in ps:
            evs = list(x.ev or ())
            if k != "ret":
                tri(chk, T, x, False, "raises", "a cycle does not fail", "raises %s" % v.type)
                continue
            for z, r, ag in cycle_start(x, ref, evs):
                agains(T, z, ag, evs)
                conns(r, evs)
                polls = [e for e in evs if e[0] == "closed"]
                want = ["r%d" % i for e in polls for i in range(e[2])]
                cbs = [e[1] for e in evs if e[0] == "callback"]
                errs = [e for e in evs if e[0] == "error"]
                res = [e for e in evs if e[0] == "result"]
                ok = cbs == want and errs == [("error", n, w.err["ReadError"]) for n in want] and res == [("result", e[1][0], ZERO) for e in polls for i in range(e[2])]
                tri(chk, T, z, ok and ("both",) not in evs and all(e[3] == t for e in polls), "reported", "while the port is closed every due register gets a read error, is reported and counts as a failed exchange", short(evs))
                same_sched(T, z, r, "closed")
                for p in {e[1] for e in polls}:
                    # the state of the connection when the device was scheduled again
                    i = max(i for i, e in enumerate(evs) if e[0] == "closed" and e[1] == p)
                    nexts = [j for j, e in enumerate(evs) if e[0] == "next" and j > i]
                    late = [e for e in evs[nexts[0] if nexts else len(evs):] if e[0] == "conn" and e[1] == p[0]]
                    if late:
                        continue
                    for y, okk, d in after_poll(T, z, p, r, "closed"):
                        tri(chk, T, y, okk, "due again", "a polled device is due with its registers; while disconnected after a delay that grows by 500 ms up to 10 s", d)
                r["changes"] = 0
                nxt.append((z, r))

    def suspend(s, ref, nxt, d):
        T, ps = run(chk, M, w, body["SuspendPoll"], [("par", d, ""), t], s, "suspend %s %s" % (d, tag(ref)))
        for k, x, v in ps:
            r = dict(ref)
            known = any(p[0] == d for p in ref["all"])
            if not known:
                tri(chk, T, x, k == "throw", "suspend", "a device that is not polled can't be suspended", "returns")
            else:
                r["sched"] = frozenset(p for p in r["sched"] if p[0] != d)
                r["susp"] = r["susp"] | {d}
                was = s.env[("conn", d)] == DISC
                sd = [e for e in x.ev or () if e[0] == "SetDisconnected"]
                tri(chk, T, x, k == "ret" and len(sd) >= int(not was) and x.env[("conn", d)] == DISC, "suspend", "a suspended device counts as disconnected", "%s %s" % (k, short(x.ev or ())))
            same_sched(T, x, r, "suspend")
            if k == "ret" and d in ref["susp"]:
                # suspending again starts a new term
                w.detail = False
                T2, qs = run(chk, M, w, body["OpenPortCycle"], [("ref", ("port",)), ("obj", ("meter",)), lim, ZERO, ("obj", ("acc",)), ("par", "cb", "")], addfacts(x, LE(lim, P("poll_limit", ""))), "cycle after suspending again")
                for k2, y, v2 in qs:
                    tri(chk, T2, y, not [p for p, _ in w.sched(y) if p[0] == d], "suspend again", "a device suspended again is not polled for another 10 minutes", "scheduled")
            nxt.append((x, r))

    def resume(s, ref, nxt, d):
        T, ps = run(chk, M, w, body["ResumePoll"], [("par", d, "")], s, "resume %s %s" % (d, tag(ref)))
        for k, x, v in ps:
            r = dict(ref)
            if d not in ref["susp"]:
                tri(chk, T, x, k == "throw", "resume", "only a suspended device can be resumed", "returns")
                agains(T, x, set(), list(x.ev or ()))
            else:
                ag = {p for p in ref["all"] if p[0] == d}
                r["sched"], r["has"], r["susp"] = r["sched"] | ag, r["has"] | ag, r["susp"] - {d}
                tri(chk, T, x, k == "ret", "resume", "a suspended device can be resumed", "raises")
                agains(T, x, ag, list(x.ev or ()))
                for p in ag:
                    q = [dd for n, dd in w.sched(x) if n == p]
                    tri(chk, T, x, q == [w.due(x, p)], "due again", "a resumed device is due with its registers", "%s" % [fmt(dd) for dd in q])
            same_sched(T, x, r, "resume")
            nxt.append((x, r))

    def changed(s, ref, nxt):
        """Another exchange with the device changes the state of its connection."""
        now_ = s.env[("conn", "A")]
        I = Interp(M, hook=w, fork_loops=True)
        node = {"id": 0, "l": 0}
        sts = w.change(I, s.withev(()), "A", CONN if now_ == DISC else DISC, node)
        for x in sts:
            r = dict(ref, changes=ref["changes"] + 1)
            conns(r, list(x.ev or ()))
            nxt.append((x, r))

    def tag(ref, least=0):
        return "scheduled %s%s%s%s" % (",".join(sorted(ref["sched"])), " suspended " + "".join(sorted(ref["susp"])) if ref["susp"] else "", " lost " + "".join(sorted(ref["wait"])) if ref["wait"] else "", " at least one" if least else "")

    def explore(has):
        def f():
            seen, work = set(), []
            for s, r in start(has):
                r["all"] = frozenset(has)
                key, z, r = canon(s, r)
                seen.add(key)
                work.append((z, r))
            n = 0
            while work:
                s, r = work.pop(0)
                n += 1
                if n > 400:
                    raise AnalysisError("too many states of the poller")
                nxt = []
                # settings that matter for one cycle only are varied fully in the first states only
                w.detail = n <= (1 if chk.tier != "thorough" else 4)
                opened(s if w.detail else addfacts(s, LE(lim, P("poll_limit", ""))), r, nxt)
                closed(s, r, nxt)
                for d in ("A", "X"):
                    suspend(s, r, nxt, d)
                    resume(s, r, nxt, d)
                if r["changes"] < (2 if chk.tier == "thorough" else 1):
                    changed(s, r, nxt)
                for s2, r2 in nxt:
                    key, z, r2 = canon(s2, r2)
                    if key not in seen:
                        seen.add(key)
                        work.append((z, r2))
        return f
    part(chk, "history", explore(("A/High", "A/Low", "B/Low") if chk.tier == "thorough" else ("A/High", "A/Low")))
    part(chk, "history low", explore(("A/Low",)))
