"""W04: the task queues of ports -- nothing is lost, repeated needlessly or reordered."""
from common import *
from chk_sched import tri
from flow import walk

THIS = ("this",)
TASK = "ISerialClientTask"


def task_queues(M):
    """Classes that queue tasks: a member is a container of tasks and a method takes one."""
    out = []
    for r in M.records.values():
        qs = [f["n"] for f in r.f if f["t"] is not None and TASK in f["t"].s and f["t"].s.startswith("std::") and "shared_ptr" in f["t"].s and not f["t"].s.startswith("std::shared_ptr")]
        if qs:
            out.append((r, qs))
    return out


class World:
    """Condition variables, tasks, ports and the clock."""

    def __init__(self, M, cls, throw):
        self.M, self.cls, self.throw = M, cls, throw
        self.blocked = []
        self.idle = next((b for b in M.bodies.values() if b.fn.n == cls + "::IsIdle"), None)
        self.add = M.one(cls + "::AddTask")
        self.late = None
        self.over = []

    def __call__(self, I, st, fn, obj, args, node):
        sh, c = fn.short, fn.cls or ""
        ev = st.ev or ()
        if c.startswith("std::condition_variable"):
            if sh.startswith("notify"):
                return [(st.withev(ev + (("notify",),)), ("void",))]
            if sh in ("wait", "wait_for", "wait_until"):
                pred = len(args) == (2 if sh == "wait" else 3)
                outs = I.invoke(st, I.rv(st, args[-1]), [], node) if pred else [(st, C(0)), (st, C(1))]
                res = []
                for y, v in outs:
                    for z, t in decide(y, v) if not is_c(v) else [(y, bool(v[1]))]:
                        if sh == "wait" and not t:
                            self.blocked.append(z)      # waits until somebody adds a task or stops it
                        else:
                            res.append((z, ("void",) if fn.r is None or fn.r.k == "void" else C(int(t))))
                return res
        if sh == "IsEnabled" and "Logger" in c:
            return [(st, C(0)), (st, C(1))]
        if c == TASK and sh == "Run":
            o = I.deref_loc(st, obj)
            if len([e for e in ev if e[0] == "run"]) >= 4:
                self.over.append(st)    # a fourth run of three tasks at most
                return []
            s = st
            if self.idle is not None:
                res = I.call_body(self.idle, s, THIS, [], node)
                idles = {I.rv(y, v) for y, v in res}
                s = s.withev(ev + (("idle", idles == {ZERO}),))
                ev = s.ev
            outs = []
            sts = [s.withev(ev + (("run", o),))]
            if self.late is not None and not any(e[0] == "late" for e in ev):
                y = s.withev(ev + (("run", o), ("late",)))
                sts += [z for z, _ in I.call_body(self.add, y, THIS, [self.late], node)]
            for s in sts:
                if self.throw:
                    I.throw(s.withev(s.ev + (("r", "throw"),)), Exc(rec_type(self.M, "TSerialDeviceException"), ("sym", "exc", node["id"], ""), node.get("l", 0), None, why="task"))
                for r in (0, 1):
                    outs.append((s.withev(s.ev + (("r", r),)), C(r)))
            return outs
        if c.startswith("TPort") or c == "TFeaturePort":
            return [(st, ("void",) if fn.r is None or fn.r.k == "void" else ("sym", "port", node["id"], tag_of(fn.r)))]
        return None


def queued(I, st, qs):
    """The tasks queued in a state, in order (None: unknown)."""
    xs = []
    for q in qs:
        loc = ("fld", THIS, q)
        n = I.size_of(st, loc)
        if not is_c(n):
            return None
        xs += [I.load_el(st, loc, C(i), None) for i in range(n[1])]
    return xs


def add_all(chk, M, w, cls, st, tasks, qs, check=True):
    sts = [st]
    for i, t in enumerate(tasks):
        nxt = []
        for s in sts:
            T = Table(chk, Interp(M, hook=w), w.add, overrides={0: t}, st=s)
            if T.unknown:
                raise AnalysisError("AddTask: not followed: %s" % (T.unknown[:2],))
            for k, x, v in T.paths:
                if check:
                    q = queued(T.I, x, qs)
                    told = bool(x.ev) and x.ev[-1] == ("notify",)
                    tri(chk, T, x, k == "ret" and q == tasks[:i + 1] and told, "%s/queued" % cls, "a task given is queued last and the thread is told",
                        "queue after it: %s, %s" % (q, "told" if told else "not told"))
                nxt.append(x)
        sts = nxt
    return sts


def outcome(ev, late):
    """(order of runs, results)"""
    runs = [e[1] for e in ev if e[0] == "run"]
    res = [e[1] for e in ev if e[0] == "r"]
    return runs, res


EXPL4 = "all paths of the functions that queue, run and drop tasks, for two queued tasks, one that arrives while another runs, every result of each"


@check("W04", EXPL4, "the tasks run and those that stay queued are exactly those given, in their order")
def w04(chk, M):
    t1, t2, t3 = ("par", "task1", ""), ("par", "task2", ""), ("par", "task3", "")
    d = lambda t: ("deref", t)
    RUN = next(b.u for b in M.fns.values() if b.n == TASK + "::Run")

    def again(w, T, cls):
        for x in w.over:
            tri(chk, T, x, False, "%s/run" % cls, "each queued task is run once, in order, and stays queued exactly if it is to be repeated", "tasks are run over and over: %s" % short(x.ev))
        w.over = []

    def client():
        cls = "TSerialClient"
        rec = next(r for r in M.records.values() if r.n == cls)
        qs = [q for r, q in task_queues(M) if r is rec][0]
        w = World(M, cls, False)
        st = St(ev=())
        for q in qs:
            st.env[("size", ("fld", THIS, q))] = ZERO
            st.env[("log", ("fld", THIS, q))] = ()
        cons = [b for b in M.bodies.values() if b.fn.cls == cls and b.fn is not w.add.fn and any(
            n.get("k") == "call" and n.get("f") is not None and n["f"].n == TASK + "::Run" for n in walk(b.s))]
        if len(cons) != 1:
            raise AnalysisError("the function that runs the tasks of a port")
        sts = add_all(chk, M, w, cls, st, [t1, t2], qs)
        w.late = t3
        for s in sts:
            s = s.withev(())
            T = Table(chk, Interp(M, hook=w), cons[0], st=s)
            if T.unknown:
                raise AnalysisError("%s: not followed: %s" % (cons[0].fn.n, T.unknown[:2]))
            again(w, T, cls)
            for k, x, v in T.paths:
                if poly.infeasible(x.facts):
                    continue
                ev = x.ev
                runs, res = outcome(ev, t3)
                given = [t1, t2] + ([t3] if ("late",) in ev else [])
                q = queued(T.I, x, qs)
                want = [t for t, r in zip(given, res) if r == 1]
                ok = None if q is None else k == "ret" and runs == [d(t) for t in given] and q == want
                tri(chk, T, x, ok, "%s/run" % cls, "each queued task is run once, in order, and stays queued exactly if it is to be repeated",
                    "given %s, run %s, results %s, queued then %s" % tuple(map(short, (given, runs, res, q))))
    part(chk, "client", client)

    def executor():
        cls = "TSerialClientTaskExecutor"
        rec = next(r for r in M.records.values() if r.n == cls)
        qs = [q for r, q in task_queues(M) if r is rec][0]
        w = World(M, cls, True)
        ctor = M.one(cls + "::" + cls)
        T = Table(chk, Interp(M, hook=w), ctor, overrides={0: ("par", "port", "")}, st=St(ev=()))
        for k, x, v in T.paths:
            fns = sorted({v for key, v in x.env.items() if isinstance(key, tuple) and key[0] == "fld" and key[-1] == "$fn"}, key=str)
            if k != "ret" or len(fns) != 1 or fns[0][0] != "lam":
                raise AnalysisError("the executor's thread function")
            idle_state(chk, M, w, T, x, [], True)
            for s in add_all(chk, M, w, cls, x, [t1, t2], qs):
                idle_state(chk, M, w, T, s, [t1, t2], False)
                for late in (None, t3):
                    w.late, w.blocked = late, []
                    body = M.lambdas[fns[0][1]][0]
                    T2 = Table(chk, Interp(M, hook=w), body, st=s.withev(()), tag="%s thread" % cls)
                    if T2.unknown:
                        raise AnalysisError("executor thread: not followed: %s" % (T2.unknown[:2],))
                    again(w, T2, cls)
                    for kk, y, vv in T2.paths:
                        if not poly.infeasible(y.facts):
                            tri(chk, T2, y, False, "ends", "the thread goes on as long as the executor lives", "it %s after %s" % ("returns" if kk == "ret" else "raises " + str(vv.type), short(y.ev)))
                    if not w.blocked:
                        chk.expect("%s/waits" % cls, False, chk.where(body), "the thread waits for more tasks once it has none", "no path gets there")
                    for y in w.blocked:
                        runs, res = outcome(y.ev, late)
                        given = [t1, t2] + ([t3] if ("late",) in y.ev else [])
                        q = queued(T2.I, y, qs)
                        ok = None if q is None else runs == [d(t) for t in given] and q == []
                        tri(chk, T2, y, ok, "run", "each task is run once, in order, before the thread waits again",
                            "given %s, run %s, results %s, queued then %s" % tuple(map(short, (given, runs, res, q))))
                        tri(chk, T2, y, all(e[1] for e in y.ev if e[0] == "idle"), "busy", "the executor is not idle while a task runs", "IsIdle during a run")
                        idle_state(chk, M, w, T2, y, q, True)
    part(chk, "executor", executor)


def short(x):
    return str(x).replace("'par', ", "").replace(", ''", "").replace("'deref', ", "")


def idle_state(chk, M, w, T, st, q, want):
    """IsIdle in a state."""
    if w.idle is None:
        return
    I = Interp(M, hook=w)
    T2 = Table(chk, I, w.idle, st=st, tag="idle")
    for k, x, v in T2.paths:
        v = I.rv(x, v)
        got = v[1] != 0 if is_c(v) else None
        tri(chk, T2, x, None if got is None else got == want, "with %d tasks" % len(q), "the executor is idle exactly when it has no task", "IsIdle gives %s" % got)


def put_list(st, loc, els):
    """A list or vector with these elements at a location."""
    s = st.copy()
    s.env[("size", loc)] = C(len(els))
    s.env[("log", loc)] = tuple(("w", C(i), e) for i, e in enumerate(els))
    return s


def nm(o):
    """Name of an object reached from a named one."""
    if isinstance(o, tuple) and o[0] in ("deref", "par"):
        return nm(o[1])
    return str(o)


EXEC, RUNNER = "TSerialClientTaskExecutor", "TSerialClientTaskRunner"


class RunnerWorld:
    def __init__(self, M):
        self.M = M

    def __call__(self, I, st, fn, obj, args, node):
        sh, c = fn.short, fn.cls or ""
        ev = st.ev or ()
        o = I.deref_loc(st, obj) if obj is not None else None
        if c == "Json::Value":
            if sh == "operator[]":
                a = I.rv(st, args[0])
                return [(st, ("obj", ("json", a[1] if a[0] == "s" else str(a))))]
            if isinstance(o, tuple) and o[0] == "v":
                f = st.env.get(("from", o))
                o = f[1] if f is not None and f[0] == "ld" else o
            key = o[1] if isinstance(o, tuple) and o[0] == "json" else None
            if key is not None and sh in ("isString", "asString"):
                return [(st, ("par", sh + " " + key, "b" if sh[0] == "i" else "str"))]
            return None
        if sh == "GetRequestPortDescription":
            return [(st, ("par", "desc", "str"))]
        if sh == "InitPort":
            return [(st, ("par", "newport", ""))]
        if c == EXEC:
            if sh == "AddTask":
                return [(st.withev(ev + (("add", o, I.rv(st, args[0])),)), ("void",))]
            if sh == "GetPort":
                return [(st, ("par", "port of " + nm(o), ""))]
            if sh == "IsIdle":
                return [(st.withev(ev + (("idle", o, r),)), C(r)) for r in (0, 1)]
        if sh == "GetPortDrivers":
            return [(put_list(st, ("drivers",), [("par", "drv%d" % i, "") for i in range(2)]), ("obj", ("drivers",)))]
        if sh == "GetSerialClient":
            return [(st, ("par", "client of " + nm(o), ""))]
        if sh == "GetDevices":
            n = nm(o)
            return [(put_list(st, ("devices", n), [("par", "dev%d of %s" % (i, n), "") for i in range(2 if n.endswith("drv1") else 1)]), ("obj", ("devices", n)))]
        if sh == "GetPort" or sh in ("DeviceConfig", "Protocol"):
            return [(st, ("par", "%s of %s" % (sh, nm(o)), ""))]
        if sh in ("GetDescription", "GetName"):
            return [(st, ("par", "%s of %s" % (sh, nm(o)), "str"))]
        if sh == "StringStartsWith":
            return [(st, ("app", "starts", I.rv(st, args[0]), I.rv(st, args[1]), "b"))]
        return None


def ask(sts, t):
    """[(state, truth)] over states."""
    return [r for s in sts for r in decide(s, t)]


def same_str(a, b):
    return ("eq", sub(a, b))


def dev_field(d, f):
    return ("ld", ("fld", ("deref", ("par", "DeviceConfig of " + d, "")), f), 0, "")


@check("W05", "all paths of the lookup of a request's port and device and of the choice of its task executor, for every equality of descriptions, ids and types",
       "the client, device or executor used is the first that the request names; only idle executors are removed")
def w05(chk, M):
    w = RunnerWorld(M)
    rec = next(r for r in M.records.values() if r.n == RUNNER)

    def lookup():
        b = M.one(RUNNER + "::GetSerialClientParams")
        pd = next((f["n"] for f in rec.f if f["t"] is not None and "TMQTTSerialDriver" in f["t"].s), None)
        for have in (False, True):
            st = St(ev=())
            st.env[("fld", THIS, pd)] = ("par", "driver", "") if have else ("null",)
            if have:
                st = add_fact(st, ("ne", ("par", "driver", "")))
            T = Table(chk, Interp(M, hook=w), b, overrides={0: ("obj", ("req",))}, st=st, tag="lookup%s" % ("" if have else " without ports"))
            if T.unknown:
                raise AnalysisError("%s: not followed: %s" % (b.fn.n, T.unknown[:2]))
            devs = {"drv0": ["dev0 of client of drv0"], "drv1": ["dev0 of client of drv1", "dev1 of client of drv1"]}
            js = lambda k: ("par", "asString " + k, "str")
            for k, x, v in T.paths:
                if k == "ret":
                    got = tuple(x.env.get(("fld", v[1], f)) for f in ("SerialClient", "Device"))
                    got = tuple(nm(g) if isinstance(g, tuple) and g[0] == "par" else None for g in got)
                else:
                    got = "raises " + str(v.type)
                # the reference
                res = []
                cur = [x]
                if have:
                    named = ask(cur, ("par", "isString device_id", "b"))
                    cur = [s for s, t in named if not t]
                    ys = [s for s, t in named if t]
                    for drv in sorted(devs):
                        for d in devs[drv]:
                            q = ask(ys, same_str(dev_field(d, "Id"), js("device_id")))
                            res += [(s, ("client of " + drv, d)) for s, t in q if t]
                            ys = [s for s, t in q if not t]
                    cur += ys
                    for drv in sorted(devs):
                        q = ask(cur, same_str(("par", "GetDescription of GetPort of client of %s" % drv, "str"), ("par", "desc", "str")))
                        cur = [s for s, t in q if not t]
                        ys = [s for s, t in q if t]
                        for d in devs[drv]:
                            q = ask(ys, same_str(dev_field(d, "SlaveId"), js("slave_id")))
                            ys = [s for s, t in q if not t]
                            q = ask([s for s, t in q if t], same_str(dev_field(d, "DeviceType"), js("device_type")))
                            hit = [s for s, t in q if t]
                            q = ask([s for s, t in q if not t], ("eq", ("app", "len", js("device_type"))))
                            ys += [s for s, t in q if not t]
                            q = ask([s for s, t in q if t], ("app", "starts", ("par", "GetName of Protocol of " + d, "str"), ("s", "modbus"), "b"))
                            hit += [s for s, t in q if t]
                            ys += [s for s, t in q if not t]
                            res += [(s, ("client of " + drv, d)) for s in hit]
                        res += [(s, ("client of " + drv, None)) for s in ys]
                res += [(s, (None, None)) for s in cur]
                for s, want in res:
                    tri(chk, T, s, got == want, "found", "the port and device are the first that the request names: by device id, else by port and by address and type",
                        "found %s, named %s" % (got, want))
    part(chk, "lookup", lookup)

    def choice():
        b = M.one(RUNNER + "::RunTask")
        vec = next((f["n"] for f in rec.f if f["t"] is not None and EXEC in f["t"].s), None)
        loc = ("fld", THIS, vec)
        task = ("par", "task", "")

        def hook(I, st, fn, obj, args, node):
            if fn.short == "GetSerialClientParams":
                s = st.copy()
                s.env[("fld", ("prm",), "SerialClient")] = s.env[("fld", ("prm",), "Device")] = ("null",)
                return [(s, ("obj", ("prm",)))]
            return w(I, st, fn, obj, args, node)
        for n in (0, 1, 2, 5) + ((6,) if chk.tier == "thorough" else ()):
            exs = [("par", "ex%d" % i, "") for i in range(n)]
            T = Table(chk, Interp(M, hook=hook), b, overrides={0: ("par", "req", ""), 1: task}, st=put_list(St(ev=()), loc, exs), tag="choice of %d" % n)
            if T.unknown:
                raise AnalysisError("%s: not followed: %s" % (b.fn.n, T.unknown[:2]))
            for k, x, v in T.paths:
                if poly.infeasible(x.facts):
                    continue
                if k != "ret":
                    tri(chk, T, x, False, "run", "the task is given to an executor", "raises %s" % v.type)
                    continue
                now = queued(T.I, x, [vec])
                adds = [e[1:] for e in x.ev if e[0] == "add"]
                idle = {("par", e[1][1][1], "") for e in x.ev if e[0] == "idle" and e[2] and e[1][0] == "deref"}
                cur, res = [x], []
                for e in exs:
                    q = ask(cur, same_str(("par", "GetDescription of port of " + e[1], "str"), ("par", "desc", "str")))
                    res += [(s, e) for s, t in q if t]
                    cur = [s for s, t in q if not t]
                for s, e in res:
                    tri(chk, T, s, adds == [(("deref", e), task)] and now == exs, "existing", "a task is given to the executor of its port, which is kept",
                        "given to %s, executors then %s" % (short(adds), short(now)))
                for s in cur:
                    new = [e for e in now or () if e not in exs]
                    kept = [e for e in now or () if e in exs]
                    ok = len(new) == 1 and len(adds) == 1 and adds[0][1] == task and adds[0][0] not in [("deref", e) for e in exs] and \
                        adds[0][0] in [f for f in (new[0], new[0][1])] and kept == [e for e in exs if e in kept]
                    tri(chk, T, s, ok, "new", "a task for another port is given to a new executor, which is kept", "given to %s, executors then %s" % (short(adds), short(now)))
                    gone = [e for e in exs if e not in kept]
                    tri(chk, T, s, all(e in idle for e in gone), "removed", "only idle executors are removed", "removed %s, idle %s" % (short(gone), short(sorted(idle))))
    part(chk, "choice", choice)
