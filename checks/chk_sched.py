"""Q01-Q03: the poll plan -- schedule queue, priority scheduler, rate limiter and load balancer.

The scheduler's queues are abstracted by std::priority_queue's contract: a queue of n items (n enumerated) whose deadlines are
arbitrary but sorted; every path of the scheduler is compared with a reference that decides the documented policy on the same
symbolic deadlines, poll times and lag.
"""
from common import *
from stdmodels import rounded

EXPL = ("all paths of the poll plan classes, over symbolic deadlines, current time, accumulated poll time and lag, for every number of queued "
        "items up to the bound of the tier")
S1 = 10**9
MS = 10**6
MAXTP = C(2**63 - 1)
BIG = C(10**15)          # range of the times considered: no overflow (about 11 days in ns); wrap-around is out of scope
SCH, PQS = "TScheduler<int>", "TPriorityQueueSchedule<int, std::less<int>>"


def enumv(M, name):
    return {n: v for n, v in M.enums[name]["c"]}


def addfacts(st, *fs):
    for f in fs:
        if st is not None:
            st = add_fact(st, f)
    return st


class Queue:
    """std::priority_queue<TItem> as a sorted list of known length; find_if/erase/make_heap on its container are recorded."""

    def __init__(self):
        self.names = {}
        self.n = {}

    def q(self, I, st, obj):
        l = I.deref_loc(st, obj)
        return self.names.get(l)

    @staticmethod
    def data(q, i):
        return P("data_%s%d" % (q, i), "i32")

    @staticmethod
    def dl(q, i):
        return P("deadline_%s%d" % (q, i), "")

    def init(self, st, n, now):
        st = st.copy()
        self.n = n
        for q, k in n.items():
            for i in range(k):
                st.env[("fld", ("qi", q, i), "Data")] = self.data(q, i)
                st.env[("fld", ("qi", q, i), "Deadline")] = self.dl(q, i)
        for q, k in n.items():
            for i in range(k):
                st = addfacts(st, LE(ZERO, self.dl(q, i)), LE(self.dl(q, i), BIG))
                if i:
                    st = addfacts(st, LE(self.dl(q, i - 1), self.dl(q, i)))
        st = addfacts(st, LE(ZERO, now), LE(now, BIG))
        return st.withev(())

    @staticmethod
    def pops(st, q):
        return sum(1 for e in st.ev or () if e == ("pop", q))

    def __call__(self, I, st, fn, obj, args, node):
        if fn.short == "operator()" and (fn.cls or "").split("<")[0] == "TAcc":
            vals = tuple(I.rv(st, a, p) for a, p in zip(args, fn.p))
            r = []
            for t in (True, False):
                r.append((st.withev((st.ev or ()) + (("acc",) + vals + (t,),)), C(1 if t else 0)))
            return r
        if not (fn.cls or "").startswith("std::priority_queue") or obj is None:
            return None
        q = self.q(I, st, obj)
        sh = fn.short
        if sh in ("emplace", "push"):
            v = args[0]
            l = I.deref_loc(st, v[1]) if v[0] in ("ref", "obj") else None
            if l is None:
                return None
            item = tuple(I.load(st, ("fld", l, f)) for f in ("Data", "Deadline"))
            return [(st.withev((st.ev or ()) + (("add", I.deref_loc(st, obj)) + item,)), ("void",))]
        if q is None:
            return None
        left = self.n[q] - self.pops(st, q)
        if sh == "empty":
            return [(st, C(0 if left else 1))]
        if sh == "size":
            return [(st, C(left))]
        if sh == "top":
            return [(st, ("ref", ("qi", q, self.pops(st, q))))] if left else [(st.withev((st.ev or ()) + (("top of empty", q),)), ("unk", "top of an empty queue", 0))]
        if sh == "pop":
            return [(st.withev((st.ev or ()) + (("pop", q),)), ("void",))]
        return None


def queue_names(chk, M, hook):
    """Which member holds which priority's entries: found through the public AddEntry."""
    pr = enumv(M, "TPriority")
    e, d = P("entry", "i32"), P("deadline", "")
    names = {}
    for p in ("Low", "High"):
        I = Interp(M, hook=hook)
        b = M.one(SCH + "::AddEntry")
        T = Table(chk, I, b, overrides={0: e, 1: d, 2: C(pr[p])}, st=St(ev=()))
        adds = []
        for k, s, v in T.paths:
            a = [x for x in s.ev or () if x[0] == "add"]
            ok = k == "ret" and len(a) == 1 and len(s.ev) == 1 and a[0][2] == e and a[0][3] == d
            if not ok and (not T.clean(s) or T.unknown):
                ok = None
            chk.expect("AddEntry/%s" % p, ok, chk.where(b), "the entry is put into the queue of its priority with its deadline",
                       "recorded %s" % [(x[0], fmt(x[2]), fmt(x[3])) for x in a])
            adds += [x[1] for x in a]
        if len(set(adds)) != 1:
            raise AnalysisError("the queue of %s priority entries is not determined" % p)
        names[adds[0]] = p
    if len(names) != 2:
        chk.expect("AddEntry/separate", False, chk.where(M.one(SCH + "::AddEntry")), "high and low priority entries use different queues",
                   "both priorities use one queue")
        raise AnalysisError("one queue for both priorities")
    return names


# --------------------------------------------------------------------------- Q01
@check("Q01", EXPL, "the schedule hands out the entry with the earliest deadline, and contains exactly what was added and not removed", only=CORE)
def q01(chk, M):
    # ordering: a precedes b in the heap order (a < b) iff a is due later, or equally and the entry compares less
    I = Interp(M)
    b = M.one(PQS + "::TItem::operator<")
    T = Table(chk, I, b, ("other",))
    other = ("p", "other")
    for k, s, v in T.paths:
        st = s
        me, ot = fieldv(I, st, ("this",), "Deadline"), fieldv(I, st, other, "Deadline")
        md, od = fieldv(I, st, ("this",), "Data"), fieldv(I, st, other, "Data")
        for s1, later in decide(s, ("le", add(sub(ot, me), ONE))):
            for s2, same in decide(s1, ("eq", sub(ot, me))):
                if later:
                    want = ("c", 1)
                elif same:
                    want = None
                else:
                    want = ("c", 0)
                for s3, less in decide(s2, ("le", add(sub(md, od), ONE))) if want is None else [(s2, None)]:
                    w = want or ("c", 1 if less else 0)
                    verdict(chk, T, s3, k, v, w, "order", "earlier deadlines come first; equal deadlines are ordered by the entries' comparison")
    q = Queue()
    nm = PQS
    ent = find_entries(chk, M, q)
    q.names = {ent: "Q"}
    now = P("now", "")
    e = P("entry", "i32")
    N = 2 if chk.tier != "thorough" else 3
    for n in range(N + 1):
        for fn in ("IsEmpty", "GetDeadline", "HasReadyItems"):
            I = Interp(M, hook=q)
            b = M.one(nm + "::" + fn)
            T = Table(chk, I, b, overrides={0: now} if b.ps else {}, st=q.init(St(), {"Q": n}, now), tag="%s(%d queued)" % (fn, n))
            for k, s, v in T.paths:
                d0 = q.dl("Q", 0)
                if fn == "IsEmpty":
                    wants = [(s, C(1 if n == 0 else 0))]
                elif fn == "GetDeadline":
                    wants = [(s, d0 if n else MAXTP)]
                else:
                    wants = [(x, C(1 if t else 0)) for x, t in decide(s, LE(d0, now))] if n else [(s, ZERO)]
                for x, w in wants:
                    verdict(chk, T, x, k, v, w, "value", "emptiness, earliest deadline and readiness are those of the queue's first entry")
                    noevents(chk, T, x, "reads only")
    for n in range(1, N + 1):
        I = Interp(M, hook=q)
        T = Table(chk, I, M.one(nm + "::Pop"), st=q.init(St(), {"Q": n}, now))
        for k, s, v in T.paths:
            tri(chk, T, s, k == "ret" and s.ev == (("pop", "Q"),), "pop", "the first entry is removed", "events: %s" % (s.ev,))
        I = Interp(M, hook=q)
        T = Table(chk, I, M.one(nm + "::GetTop"), st=q.init(St(), {"Q": n}, now))
        for k, s, v in T.paths:
            tri(chk, T, s, k == "ret" and v == ("ref", ("qi", "Q", 0)), "top", "the first entry is returned", fmt(v))
    # Contains / Remove: the search runs over the whole container, and removal keeps the heap property
    for fn in ("Contains", "Remove"):
        h = Search(ent)
        I = Interp(M, hook=h)
        b = M.one(nm + "::" + fn)
        T = Table(chk, I, b, overrides={0: e}, st=St(ev=()))
        found = 0
        for k, s, v in T.paths:
            ev = s.ev or ()
            pr = [x for x in ev if x[0] == "search"]
            if not pr:
                tri(chk, T, s, None, fn, "the search is followed", "events: %s" % (ev,))
                continue
            hit = pr[-1][1]
            found += hit
            if fn == "Contains":
                verdict(chk, T, s, k, v, C(1 if hit else 0), "contains", "an entry is contained iff one of the queued items holds it")
            else:
                seq = [x[0] for x in ev if x[0] != "search"]
                tri(chk, T, s, k == "ret" and seq == (["erase", "heap"] if hit else []), "remove",
                    "the found item is erased and the heap is rebuilt over the remaining items", "operations: %s" % seq)
        if not found:
            chk.expect(fn + "/found", None, chk.where(b), "the case of a queued entry is analysed", "no such path")
        for ok, d in h.bad:
            chk.expect(fn + "/match", ok, chk.where(b), "items are matched by equality of their entry, over the whole container", d)


def fieldv(I, st, loc, f):
    return I.load(st, ("fld", loc, f), None if f == "Deadline" else INT(I))


def INT(I):
    for t in (I.M.types.values() if isinstance(I.M.types, dict) else I.M.types):
        if t.s == "int" and not t.c:
            return t
    return None


def tri(chk, T, s, ok, name, rule, detail=""):
    if ok is False and (not T.clean(s) or T.unknown):
        ok = None
    chk.expect("%s/%s" % (T.tag, name), ok, chk.where(T.body), rule,
               "%s -- where %s" % (detail, "; ".join("%s %s" % (f[0], fmt(f[1])) for f in s.facts[-6:])) if ok is not True else "")


def verdict(chk, T, s, k, v, want, name, rule):
    """The returned value equals want on this path."""
    if k != "ret":
        return tri(chk, T, s, False, name, rule, "throws %s" % v.type)
    v = T.I.rv(s, v)
    if isinstance(v, tuple) and v[0] in ("le", "eq", "not", "and", "or", "b", "ne"):
        r = [t for x, t in decide(s, v)]
        ok = None if len(set(r)) != 1 or not is_c(want) else (C(1 if r[0] else 0) == want)
        if len(set(r)) == 2:
            ok = False
    elif is_num(v) and is_num(want):
        ok = entails_eq(s, sub(v, want))
        if not ok:
            ok = False
    else:
        ok = v == want
    tri(chk, T, s, ok, name, rule, "gives %s, expected %s" % (fmt(v), fmt(want)))


def noevents(chk, T, s, name):
    tri(chk, T, s, not s.ev, name, "a query changes nothing", "events: %s" % (s.ev,))


def find_entries(chk, M, q):
    """The container of TPriorityQueueSchedule, found through AddEntry."""
    e, d = P("entry", "i32"), P("deadline", "")
    b = M.one(PQS + "::AddEntry")
    T = Table(chk, Interp(M, hook=q), b, overrides={0: e, 1: d}, st=St(ev=()))
    locs = set()
    for k, s, v in T.paths:
        a = [x for x in s.ev or () if x[0] == "add"]
        tri(chk, T, s, k == "ret" and len(a) == 1 and a[0][2:] == (e, d), "add", "the entry is queued once with its deadline",
            "recorded %s" % (a,))
        locs |= {x[1] for x in a}
    if len(locs) != 1:
        raise AnalysisError("the queue of TPriorityQueueSchedule is not determined")
    return locs.pop()


class Search:
    """std::find_if over the queue's container: not found, or found at an arbitrary item that satisfies the predicate."""

    def __init__(self, ent):
        self.ent, self.bad = ent, []

    def under(self, v):
        return v[0] == "ptr" and self.mentions(v[1])

    def mentions(self, l):
        while isinstance(l, tuple):
            if l == self.ent:
                return True
            l = l[1] if len(l) > 1 else None
        return False

    def __call__(self, I, st, fn, obj, args, node):
        sh = fn.short
        ev = st.ev or ()
        if fn.n in ("std::find_if", "std::any_of", "std::none_of") and len(args) == 3:
            vs = [I.rv(st, a) for a in args]
            f, l, p = vs
            if not (f[0] == "ptr" and l[0] == "ptr" and self.mentions(f[1]) and f[1] == l[1]):
                return None
            size = I.size_of(st, f[1])
            self.bad.append((f[2] == ZERO and entails_eq(st, sub(l[2], size)), "searched range %s..%s of %s" % (fmt(f[2]), fmt(l[2]), fmt(size))))
            idx = ("sym", "found", node["id"], "sz")
            it = ("qi", "F", 0)
            s0 = st.copy()
            d = P("item", "i32")
            s0.env[("fld", it, "Data")] = d
            res = []
            entry = P("entry", "i32")
            for t in (True, False):
                # evaluated for every item: true exactly for items holding the entry
                for s1 in assume(s0, EQ(d, entry), t):
                    for s2, r in I.invoke(s1, p, [("ref", it)], node):
                        r = I.rv(s2, r)
                        got = {y for x, y in decide(s2, r)} if r[0] in ("eq", "le", "not", "and", "or") else ({r[1] != 0} if is_c(r) else {None})
                        ok = None if None in got else got == {t}
                        self.bad.append((ok, "an item whose entry %s the wanted one gives %s" % ("is" if t else "is not", fmt(r))))
            hit = add_fact(st, ("le", add(sub(idx, size), ONE)))
            if sh == "find_if":
                if hit is not None:
                    res.append((hit.withev(ev + (("search", 1),)), ("ptr", f[1], idx)))
                res.append((st.withev(ev + (("search", 0),)), l))
            else:
                w = sh == "any_of"
                if hit is not None:
                    res.append((hit.withev(ev + (("search", 1),)), C(1 if w else 0)))
                res.append((st.withev(ev + (("search", 0),)), C(0 if w else 1)))
            return res
        if sh == "erase" and obj is not None and self.mentions(I.deref_loc(st, obj)):
            vs = [I.rv(st, a) for a in args]
            if len(vs) == 1 and vs[0][0] == "ptr" and vs[0][2][0] == "sym" and vs[0][2][1] == "found":
                return [(st.withev(ev + (("erase",),)), vs[0])]
            return None
        if sh == "make_heap" and len(args) >= 2:
            vs = [I.rv(st, a) for a in args]
            if self.under(vs[0]):
                size = I.size_of(st, vs[0][1])
                whole = vs[0][2] == ZERO and vs[1][0] == "ptr" and entails_eq(st, sub(vs[1][2], size))
                return [(st.withev(ev + (("heap",) if whole else ("heap over a part",),)), ("void",))]
        return None


# --------------------------------------------------------------------------- Q02
def after(M, chk, hook, calls, st=None):
    """States after a history of calls on one object, all paths: [(name, [args])]."""
    sts = [st or St(ev=())]
    for name, args in calls:
        b = M.one(name, nparams=len(args)) if False else M.one(name)
        nxt = []
        for s in sts:
            I = Interp(M, hook=hook)
            T = Table(chk, I, b, overrides=dict(enumerate(args)), st=s)
            if T.unknown:
                raise AnalysisError("%s: not followed: %s" % (name, T.unknown[:2]))
            for k, x, v in T.paths:
                if k != "ret":
                    raise AnalysisError("%s throws" % name)
                nxt.append(x)
        sts = nxt
    return [s for s in sts if not poly.infeasible(s.facts)]


@check("Q02", EXPL, "the entries offered, their order, policies and limits equal those of the reference policy", only=CORE)
def q02(chk, M):
    q = Queue()
    q.names = queue_names(chk, M, q)
    pol, acc, pri = enumv(M, "TItemSelectionPolicy"), enumv(M, "TItemAccumulationPolicy"), enumv(M, "TPriority")
    lag, d, d2, now = P("lag", ""), P("delta", ""), P("delta2", ""), P("now", "")
    base = addfacts(St(ev=()), LE(ZERO, lag), LE(lag, BIG), LE(ZERO, d), LE(d, BIG), LE(ZERO, d2), LE(d2, BIG), LE(ZERO, now), LE(now, BIG))
    N = 2 if chk.tier != "thorough" else 3
    body = M.one(SCH + "::AccumulateNext")
    fb, fl = C(acc["Force"]), C(acc["AccordingToPollLimitTime"])
    hist = [("new", [], ZERO)]
    hist += [("high polls", [(SCH + "::UpdateSelectionTime", [d, C(pri["High"])])], "inc"),
             ("low polls", [(SCH + "::UpdateSelectionTime", [d, C(pri["Low"])])], "dec"),
             ("reset", [(SCH + "::UpdateSelectionTime", [d, C(pri["High"])]), (SCH + "::ResetLoadBalancing", [])], ZERO)]
    ctor = [b for b in M.bodies.values() if b.fn.n == SCH + "::TScheduler"]
    if len(ctor) != 1:
        raise AnalysisError("constructor of the scheduler")
    made = after(M, chk, q, [(SCH + "::TScheduler", [lag])], base)
    top, bot = scale(lag, 2), scale(lag, -2)

    def balance(x, t, delta, kind):
        """The reference's accumulated time after one more poll: (state, time)."""
        if kind == "inc":
            return [(y, add(t, delta) if c else top) for y, c in decide(x, LE(add(t, delta), top))]
        return [(y, sub(t, delta) if c else bot) for y, c in decide(x, LE(bot, sub(t, delta)))]

    def told(x, t, hn):
        b = M.one(SCH + "::GetTotalTime")
        G = Table(chk, Interp(M, hook=q), b, st=x, tag="GetTotalTime after %s" % hn)
        for k, s, v in G.paths:
            verdict(chk, G, s, k, v, t, "value", "high priority polls add, low priority polls subtract, within twice the lag")
    # from every reachable time (one poll of either kind reaches any, the bounds included) one more poll of either kind
    for h1, c1, k1 in hist[1:3]:
        for h2, c2, k2 in hist[1:3]:
            for s0 in after(M, chk, q, c1 + [(c2[0][0], [d2, c2[0][1][1]])], made[0]) if len(made) == 1 else []:
                for s1, t1 in balance(s0, ZERO, d, k1):
                    for s2, t2 in balance(s1, t1, d2, k2):
                        told(s2, t2, "%s, then %s" % (h1, h2))
    for hn, calls, kind in hist:
        for s0 in after(M, chk, q, calls, made[0]) if len(made) == 1 else []:
            for s1, T_ in [(s0, ZERO)] if kind == ZERO else balance(s0, ZERO, d, kind):
                told(s1, T_, hn)
                if kind == "dec" and chk.tier != "thorough" or hn == "reset":
                    continue
                for nl in range(N + 1):
                    for nh in range(N + 1):
                        for pn in ("All", "OnlyHighPriority"):
                            I = Interp(M, hook=q, fork_loops=True)
                            st = q.init(s1, {"Low": nl, "High": nh}, now)
                            T = Table(chk, I, body, overrides={0: now, 2: C(pol[pn])}, st=st,
                                      tag="%s, %d low, %d high, %s" % (hn, nl, nh, pn))
                            for k, s, v in T.paths:
                                if poly.infeasible(s.facts):
                                    continue
                                accumulate(chk, q, T, k, s, T_, lag, now, pn == "All", nl, nh, fb, fl)
    # the deadlines reported
    for nl in range(2):
        for nh in range(2):
            for fn in ("GetDeadline", "GetHighPriorityDeadline", "GetLowPriorityDeadline", "IsEmpty"):
                b = M.one(SCH + "::" + fn)
                T = Table(chk, Interp(M, hook=q), b, st=q.init(made[0], {"Low": nl, "High": nh}, now), tag="%s, %d low, %d high" % (fn, nl, nh))
                L, H = (q.dl("Low", 0) if nl else MAXTP), (q.dl("High", 0) if nh else MAXTP)
                for k, s, v in T.paths:
                    if fn == "GetDeadline":
                        ws = [(x, H if t else L) for x, t in decide(s, LE(H, L))]
                    elif fn == "IsEmpty":
                        ws = [(s, C(0 if nl or nh else 1))]
                    else:
                        ws = [(s, H if "High" in fn else L)]
                    for x, w in ws:
                        verdict(chk, T, x, k, v, w, "value", "the earliest deadline of the queue, of both, or none")
    both(chk, M, q)


def accumulate(chk, q, T, k, s, T_, lag, now, all_, nl, nh, fb, fl):
    rule = ("due high priority entries are offered first; low priority ones only when no high one is due or their lag is used up "
            "(then the first is forced) and the policy allows them, in deadline order, until one is refused; an accepted entry leaves the queue, a refused one stays")
    if k != "ret":
        return tri(chk, T, s, False, "offers", rule, "throws %s" % v_type(s))
    evs = list(s.ev or ())
    sts = [(s, None)]

    def ready(x, qn, i, n):
        return decide(x, LE(q.dl(qn, i), now)) if i < n else [(x, False)]

    for x, over in decide(s, LE(lag, T_)):
        force = all_ and (over or nh == 0)
        for x1, hr in ready(x, "High", 0, nh):
            for x2, lr in ready(x1, "Low", 0, nl):
                if hr and not (force and lr):
                    run(chk, q, T, x2, evs, "High", nh, now, [fb, fl], C((2**63 - 1) * MS), rule)
                elif lr and all_:
                    if nh == 0:
                        lims = [(x2, C((2**63 - 1) * MS))]
                    else:
                        dd = sub(q.dl("High", 0), now)
                        y, c = rounded(x2, dd, MS, "ceil")
                        lims = []
                        for z, pos in decide(y, LE(ONE, c)):
                            if pos:
                                lims.append((z, c))
                            else:
                                lims += [(w, sub(T_, lag) if t else ZERO) for w, t in decide(z, LE(ONE, sub(T_, lag)))]
                    for z, lim in lims:
                        run(chk, q, T, z, evs, "Low", nl, now, [fb if force else fl, fl], lim, rule)
                else:
                    tri(chk, T, x2, not evs, "offers", rule, "nothing is due, but: %s" % shown(evs))


def v_type(s):
    return "an exception"


def shown(evs):
    return "; ".join(("offer %s %s limit %s -> %s" % (fmt(e[1]), fmt(e[2]), fmt(e[3]), e[4])) if e[0] == "acc" else " ".join(map(str, e)) for e in evs)[:300]


def run(chk, q, T, x, evs, qn, n, now, pols, lim, rule):
    """Walks the recorded events along the reference's sequence."""
    i, pos = 0, 0
    sts = [x]
    while True:
        nxt = []
        stop = False
        for y in sts:
            for z, r in (decide(y, LE(q.dl(qn, i), now)) if i < n else [(y, False)]):
                if not r:
                    tri(chk, T, z, pos == len(evs), "offers", rule, "%s offered after the last due entry" % shown(evs[pos:]))
                else:
                    nxt.append(z)
        if not nxt:
            return
        e = evs[pos] if pos < len(evs) else None
        want = (q.data(qn, i), pols[0 if i == 0 else 1], lim)
        good = []
        for z in nxt:
            ok = e is not None and e[0] == "acc" and all(entails_eq(z, sub(g, w)) if is_num(g) and is_num(w) else g == w
                                                         for g, w in zip(e[1:4], want))
            if not ok:
                tri(chk, T, z, False, "offers", rule, "expected entry %s policy %s limit %s, got: %s" % (
                    fmt(want[0]), fmt(want[1]), fmt(want[2]), shown(evs[pos:])))
            else:
                good.append(z)
        if not good:
            return
        pos += 1
        if not e[4]:
            for z in good:
                tri(chk, T, z, pos == len(evs), "offers", rule, "after a refusal: %s" % shown(evs[pos:]))
            return
        e = evs[pos] if pos < len(evs) else None
        if e != ("pop", qn):
            for z in good:
                tri(chk, T, z, False, "offers", rule, "an accepted entry stays queued: %s" % shown(evs[pos:]))
            return
        pos += 1
        i += 1
        sts = good


def both(chk, M, q):
    """Contains and Remove of the scheduler address both queues."""
    e = P("entry", "i32")
    locs = list(q.names)
    for fn in ("Contains", "Remove"):
        calls = []

        def h(I, st, f, obj, args, node):
            if f.n.startswith("TPriorityQueueSchedule") and f.short == fn and obj is not None:
                l = I.deref_loc(st, obj)
                which = [q.names[c] for c in locs if mentions_key(c, l)]
                if len(which) != 1:
                    return None
                arg = I.rv(st, args[0], f.p[0])
                ev = (st.ev or ()) + ((which[0], arg == e),)
                if fn == "Remove":
                    return [(st.withev(ev), ("void",))]
                return [(st.withev(ev + (("r", t),)), C(t)) for t in (1, 0)]
            return None
        b = M.one(SCH + "::" + fn)
        T = Table(chk, Interp(M, hook=h), b, overrides={0: e}, st=St(ev=()))
        for k, s, v in T.paths:
            ev = s.ev or ()
            asked = {x[0] for x in ev if x[0] != "r" and x[1]}
            if fn == "Remove":
                tri(chk, T, s, k == "ret" and asked == {"Low", "High"}, "both", "the entry is removed from both queues", "removed from: %s" % sorted(asked))
            else:
                hit = any(x == ("r", 1) for x in ev)
                ok = k == "ret" and v == C(1 if hit else 0) and (hit or asked == {"Low", "High"})
                tri(chk, T, s, ok, "both", "an entry in either queue is contained", "asked %s, returns %s" % (sorted(asked), fmt(v)))


# --------------------------------------------------------------------------- Q03
@check("Q03", EXPL, "over every history of poll starts the limiter's answer equals that of the reference counter", only=CORE)
def q03(chk, M):
    lim = P("limit", "sz")
    K = 3 if chk.tier != "thorough" else 4
    ts = [P("t%d" % i, "") for i in range(K + 1)]
    base = St(ev=())
    prev = ZERO
    for t in ts:
        base = addfacts(base, LE(prev, t))
        prev = t
    base = addfacts(base, LE(prev, BIG), LE(lim, BIG))
    ask = M.one("TRateLimiter::IsOverLimit")
    # reference states: (state, start, count)
    sts = [(s, ZERO, ZERO) for s in after(M, chk, None, [("TRateLimiter::TRateLimiter", [lim])], base)]
    for k in range(K + 1):
        n = 0
        for s0, start, cnt in sts:
            T = Table(chk, Interp(M), ask, overrides={0: ts[k]}, st=s0, tag="IsOverLimit after %d polls" % k)
            for kk, s, v in T.paths:
                for x, off in decide(s, ("eq", lim)):
                    for y, win in (decide(x, LE(sub(ts[k], start), C(S1))) if not off else [(x, False)]):
                        for z, over in (decide(y, LE(add(lim, ONE), cnt)) if win else [(y, False)]):
                            n += 1
                            verdict(chk, T, z, kk, v, C(1 if over else 0), "value",
                                    "over the limit iff more than `limit` polls were counted in the second that began at the whole second of its first poll; 0 is no limit")
        if k == K:
            break
        nxt = []
        for s0, start, cnt in sts:
            for s in after(M, chk, None, [("TRateLimiter::NewItem", [ts[k]])], s0):
                for x, off in decide(s, ("eq", lim)):
                    if off:
                        nxt.append((x, start, cnt))
                        continue
                    for y, win in decide(x, LE(sub(ts[k], start), C(S1))):
                        if win:
                            nxt.append((y, start, add(cnt, ONE)))
                        else:
                            y, fl = rounded(y, ts[k], S1, "floor")
                            nxt.append((y, fl, ONE))
        sts = nxt
        chk.count("histories", len(sts))
