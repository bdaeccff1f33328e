"""W-properties: whole-program dataflow (exceptions, replies, locks, settings)."""
from common import *
from flow import Program, Sites, Flow, Client, Throw, walk, children

PARSE = {"stoi", "stol", "stoul", "stoll", "stoull", "stod", "stof", "stold"}
EXITS = {"exit", "_exit", "abort", "quick_exit", "terminate", "std::terminate", "std::exit", "std::abort", "_Exit"}


def parse_errors(f, n):
    if f.short in PARSE and f.n in ("std::" + f.short, f.short, "std::__cxx11::" + f.short):
        return ("std::invalid_argument", "std::out_of_range")
    return ()


_sites = {}


def sites(M):
    if id(M) not in _sites:
        _sites[id(M)] = Sites(M, parse_errors)
        _sites[id(M)].escapes()
    return _sites[id(M)]


def derived(P, cls, base):
    return cls is not None and P.is_a(cls, base)


def callables(P, a, b):
    """Functions in a callable argument; a local variable holding one is looked up."""
    r = P.functions_in(a)
    if r:
        return r
    ids = {x["v"].id for x in walk(a) if x.get("k") == "ref"}
    for x in walk(b.s):
        if x.get("k") == "decl":
            for d in x["d"]:
                if d["v"].id in ids and d.get("i") is not None:
                    r += P.functions_in(d["i"])
    return r


def threads(P):
    """[(body that starts it, line, function of the thread)]"""
    out = []
    for b in P.allb.values():
        for part in [b.s] + [i["e"] for i in b.inits or []]:
            for n in walk(part):
                f = n.get("f")
                if n.get("k") not in ("call", "ctor") or f is None:
                    continue
                o = n.get("o")
                cont = o.get("t").s if isinstance(o, dict) and o.get("t") is not None else ""
                if f.ctor and f.cls in ("std::thread", "std::jthread") or f.n == "std::async" \
                        or f.short in ("emplace_back", "push_back", "emplace", "emplace_front", "push_front") and ("std::thread" in cont or "std::jthread" in cont) \
                        or f.n in ("std::make_shared", "std::make_unique") and f.ta and getattr(f.ta[0], "r", None) in ("std::thread", "std::jthread"):
                    for a in n["a"]:
                        for l in callables(P, a, b):
                            if (b, n.get("l"), l) not in out:
                                out.append((b, n.get("l"), l))
    return out


def device_error(P, x):
    """Is it an error that a device, a port or a value of theirs can cause?  None: by a broken rule of the program itself."""
    t, u, line, ext = x
    o = P.allb[u]
    if P.precondition(o, x) and o.fn.cls in ("TRegisterConfig", "TRegister"):
        return False            # judged where the object comes from
    if not t.startswith("std::"):
        return not P.is_a(t, "Modbus::TMalformedRequestError")
    if ext:
        return P.is_a(t, "std::out_of_range") or derived(P, o.fn.cls, "TSerialDevice") or "/devices/" in o.file
    return P.is_a(t, "std::runtime_error") and derived(P, o.fn.cls, "TPort")


@check("W01", "every thread of the program, every exception raised in the functions it can reach, by a fixpoint over the call graph",
       "an exception a device, a port or a value can cause is handled inside the thread, by a handler that does not end the process")
def w01(chk, M):
    P = sites(M)
    esc = P.escapes()
    ths = threads(P)
    if not any(l for _, _, l in ths):
        raise AnalysisError("no thread is started")
    chk.count("threads", len(ths))
    for b, line, l in ths:
        reach = P.reachable(l.fn.u)
        chk.count("functions_reached", len(reach))
        name = "%s" % b.fn.n
        left = {}
        inside = set()
        for u in reach:
            f = P.allb[u]
            chk.saw(f)
            for x in esc.get(u, ()):
                inside.add(x)
        for x in esc[l.fn.u]:
            left[x] = (l.fn.u, "leaves the thread started in %s" % b.fn.n)
        # handlers that end the process
        for u in reach:
            f = P.allb[u]
            for n in walk(f.s):
                if n.get("k") != "try":
                    continue
                P._cur = f
                got = set(P.esc_node(n["s"], {}, ()))
                for h in n["h"]:
                    hn = h["t"].noref.r if h["t"] is not None else None
                    mine = {x for x in got if hn is None or P.is_a(x, hn)}
                    got -= mine
                    if any(y.get("k") == "call" and y.get("f") is not None and y["f"].n in EXITS for y in walk(h["s"])):
                        for x in mine:
                            left.setdefault(x, (u, "reaches the handler in %s that ends the process" % f.fn.n))
        inside |= set(left)
        for x in sorted(inside, key=str):
            if not device_error(P, x):
                continue
            o, ln = P.where(x)
            chk.expect("%s/%s in %s" % (name, x[0], o.fn.n), x not in left, chk.where(o, ln),
                       "%s is handled before it ends a thread or the process" % x[0],
                       "" if x not in left else "%s: %s" % (left[x][1], " > ".join(P.path(left[x][0], x))))
    def registers():
        """Registers of a device are of any kind: accessors with a precondition are guarded where a thread goes through all of them."""
        reach = set()
        for _, _, l in ths:
            reach |= P.reachable(l.fn.u)
        for u in sorted(reach):
            f = P.allb[u]
            for n in walk(f.s):
                if n.get("k") != "rfor" or not any(y.get("k") == "call" and y.get("f") is not None and y["f"].short == "GetRegisters" for y in walk(n["r"])):
                    continue
                P.pre, P._cur = [], f
                P.esc_node(n["s"], {}, ())
                bad, P.pre = [x for x in P.pre if x[3][:2] == ("v", n["d"]["v"].id)], None
                chk.expect("registers/%s" % f.fn.n, not bad, chk.where(f, bad[0][1].get("l") if bad else n.get("l")),
                           "going through all registers, nothing is asked of a register that is in the wrong state for it",
                           "; ".join("%s raises %s" % (x[2].fn.n, x[4][0]) for x in bad))
    part(chk, "registers", registers)
    chk.count("throw_sites", len({(x[1], x[2]) for s in esc.values() for x in s}))


# ---------------------------------------------------------------- RPC replies
REPLY = ("std::function<void (const Json::Value &)>", "std::function<void (WBMQTT::TMqttRpcErrorCode, const std::basic_string<char> &)>",
         "std::function<void (WBMQTT::TMqttRpcErrorCode, const std::string &)>")


def reply_type(t):
    return t is not None and Program.signature(t) in REPLY


class Replies(Client):
    """Automaton: (answers given: 0, 1 or 2 for more; handed over to a task)."""

    def __init__(self, P):
        self.P = P

    def event(self, e):
        f = e.get("f")
        if e.get("k") == "call" and f is not None:
            if f.short == "operator()" and (f.cls or "").startswith("std::function") and e.get("o") is not None and reply_type(e["o"].get("t")):
                return True
            return self.hand(f)
        return False

    @staticmethod
    def hand(f):
        return f.short in ("RunTask", "AddTask") and any(p is not None and "ISerialClientTask" in p.s for p in f.p or ())

    def call(self, fl, st, e, obj, args, fr):
        f = e.get("f")
        if f is None:
            return None
        if f.short == "operator()" and (f.cls or "").startswith("std::function") and e.get("o") is not None and reply_type(e["o"].get("t")):
            if obj is not None and obj[0] == "k" and fl.fact(st, obj[1] + ("moved",)):
                return [(st, Throw("std::bad_function_call"))]
            n, h = st[0]
            return [(((min(n + 1, 2), h), st[1]), None)]
        if self.hand(f):
            n, h = st[0]
            r = [(((n, min(h + 1, 2)), st[1]), None)]
            for t in sorted({x for b in self.P.targets(e) or [] for x in self.P.escapes().get(b.fn.u, ())}):
                r.append((st, Throw(t)))
            return r
        if f.short == "operator bool" and e.get("o") is not None and reply_type(e["o"].get("t")):
            return [(st, ("c", int(not (obj is not None and obj[0] == "k" and fl.fact(st, obj[1] + ("moved",))))))]
        if f.n == "std::move" and args and args[0] is not None and args[0][0] == "k" and e["a"] and reply_type(e["a"][0].get("t")):
            return [(fl.setfact(st, args[0][1] + ("moved",), 1), args[0])]
        return None

    def same(self, fl, st, xs, fr):
        if any(reply_type(x.get("t")) for x in xs) and any(x.get("k") == "null" or x.get("k") == "cast" and x["e"].get("k") == "null" for x in xs):
            return False
        return None

    def truth(self, fl, st, key, e, fr):
        if reply_type(e.get("t")):
            return not fl.fact(st, key + ("moved",))
        return None


def show(st):
    return "%s answer%s%s" % (("no", "one", "more than one")[st[0][0]], "s" if st[0][0] > 1 else "", ", handed over to a task" if st[0][1] else "")


@check("W03", "every path, normal and exceptional, of every task run on a port and every asynchronous request handler, calls followed",
       "a finished task has answered exactly once and a repeated one not at all; a handler answers or hands the request over, exactly once")
def w03(chk, M):
    P = Program(M, parse_errors)
    cl = Replies(P)
    fl = Flow(P, cl)
    runs = [M.bodies[u] for u in sorted(M.overriders.get(next(b.u for b in M.fns.values() if b.n == "ISerialClientTask::Run"), ())) if u in M.bodies]
    if not runs:
        raise AnalysisError("no task found")
    for b in runs:
        if b.fn.u not in fl.relevant():
            continue
        def f(b=b):
            out = fl.run(b, (0, 0), [("k", ("v", p.id)) for p in b.ps])
            name = b.fn.cls
            chk.saw(b)
            for (k, v), ss in sorted(out.items(), key=str):
                for st in ss:
                    if k == "throw":
                        good = False
                    elif v == ("c", 0) or v is None:
                        good = st[0] == (1, 0)
                    elif v[0] == "c":
                        good = st[0] == (0, 0)
                    else:
                        good = None
                    chk.expect("%s/%s/%s" % (name, "raises " + v if k == "throw" else "done" if v in (None, ("c", 0)) else "repeat", show(st)), good, chk.where(b),
                               "a task answers its request exactly once before it is done", "%s with %s" % ("leaves by an exception " + v if k == "throw" else "returns", show(st)))
        part(chk, b.fn.n, f)
    # the handlers
    for b, name in async_handlers(P):
        def f(b=b, name=name):
            out = fl.run(b, (0, 0), [("k", ("v", p.id)) for p in b.ps])
            chk.saw(b)
            for (k, v), ss in sorted(out.items(), key=str):
                for st in ss:
                    # a handler that raises before it did anything leaves the answer to the RPC server
                    good = st[0] == (0, 0) and v != "std::bad_function_call" if k == "throw" else st[0] in ((1, 0), (0, 1))
                    chk.expect("%s/%s/%s" % (b.fn.n, "raises " + v if k == "throw" else "returns", show(st)), good, chk.where(b),
                               "a handler answers the request or hands it over to a task, exactly once",
                               "%s with %s" % ("leaves by an exception " + v if k == "throw" else "returns", show(st)))
        part(chk, b.fn.n, f)
    # handing over
    run = [M.bodies[u] for u in sorted(M.overriders.get(next(b.u for b in M.fns.values() if b.n == "ITaskRunner::RunTask"), ())) if u in M.bodies]
    for b in run:
        def f(b=b):
            out = fl.run(b, (0, 0), [("k", ("v", p.id)) for p in b.ps])
            chk.saw(b)
            for (k, v), ss in sorted(out.items(), key=str):
                for st in ss:
                    chk.expect("%s/%s/given %d times" % (b.fn.n, "raises " + v if k == "throw" else "returns", st[0][1]), st[0][1] == (k != "throw"), chk.where(b),
                               "a task to run is given to exactly one port, or refused with an error", "%s with %s" % ("raises" if k == "throw" else "returns", show(st)))
        part(chk, b.fn.n, f)
    for c in sorted(set(fl.cut)):
        chk.notes.append("not followed: " + c)


def async_handlers(P):
    """Functions registered as asynchronous RPC methods."""
    out = []
    for b in P.allb.values():
        for n in walk(b.s):
            f = n.get("f")
            if n.get("k") == "call" and f is not None and f.short == "RegisterAsyncMethod":
                for a in n["a"]:
                    for h in callables(P, a, b):
                        if h not in [x for x, _ in out]:
                            out.append((h, b.fn.n))
    if not out:
        raise AnalysisError("no asynchronous RPC method found")
    return out
