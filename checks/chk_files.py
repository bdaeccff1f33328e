"""F01: file and directory helpers; X01: the classes of communication errors."""
from common import *
from stdmodels import construct as std_construct

FEXPL = "all paths over directories of up to %d entries and lists of up to %d names, every outcome of opening, matching and the callback"


class Fs:
    """Streams, directories and callbacks as recorded events with arbitrary outcomes."""

    def __init__(self, M, n, fail=True):
        self.M, self.n, self.fail = M, n, fail

    def ev(self, st, *e):
        return st.withev((st.ev or ()) + (e,))

    def __call__(self, I, st, fn, obj, args, node):
        cls = fn.cls or ""
        if cls.startswith(("std::basic_ifstream", "std::basic_ofstream", "std::basic_fstream", "std::basic_ios", "std::basic_ofstream")) or \
                fn.short in ("open", "is_open") and cls.startswith("std::basic_"):
            if fn.short == "open":
                st = self.ev(st, "open", I.rv(st, args[0], fn.p[0]))
                return [(self.ev(st, "ok"), ("void",)), (self.ev(st, "failed"), ("void",))]
            if fn.short == "is_open":
                last = [e for e in st.ev or () if e[0] in ("ok", "failed")]
                return [(st, C(1 if last and last[-1][0] == "ok" else 0))]
            if fn.short in ("good", "fail", "operator bool", "operator!", "bad"):
                last = [e for e in st.ev or () if e[0] in ("ok", "failed", "clear")]
                failed = bool(last) and last[-1][0] == "failed"
                return [(st, C(1 if (failed if fn.short in ("fail", "operator!") else False if fn.short == "bad" else not failed) else 0))]
            if fn.short == "close":
                return [(self.ev(st, "close"), ("void",))]
            if fn.short in ("clear",):
                return [(self.ev(st, "clear"), ("void",))]
        if fn.short == "operator<<" and args and obj is None or fn.short == "operator<<" and cls.startswith("std::basic_ostream"):
            v = I.rv(st, args[-1], fn.p[-1])
            return [(self.ev(st, "write", v), ("ref", obj) if obj is not None else args[0])]
        if fn.ctor and cls.endswith("directory_iterator"):
            if fn.p and not fn.p[0].noref.r == cls:
                if self.fail:
                    I.throw(st, exc_(self.M, "std::filesystem::filesystem_error", node, I))
                return None
        if cls.startswith("std::function") and fn.short == "operator()":
            v = I.load(st, obj)
            if v[0] in ("lam", "fn"):
                return None
            a = tuple(self.text(I, st, x, p) for x, p in zip(args, fn.p))
            return [(self.ev(st, "call", a, t), C(1 if t else 0)) for t in (True, False)]
        if fn.n in ("std::sort", "std::stable_sort"):
            vs = [I.rv(st, a) for a in args[:2]]
            if vs[0][0] == "ptr" and vs[1][0] == "ptr" and vs[0][1] == vs[1][1]:
                whole = vs[0][2] == ZERO and entails_eq(st, sub(vs[1][2], I.size_of(st, vs[0][1])))
                return [(self.ev(st, "sort", whole and len(args) == 2), ("void",))]
        return None

    def text(self, I, st, a, t):
        return I.rv(st, a, t.noref) if a[0] != "obj" else a


def exc_(M, name, node, I):
    from strmodels import exc
    return exc(I, name, node)


def ref_named(t):
    """Indices of the directory entries mentioned in a term."""
    r = set()
    w = [t]
    while w:
        x = w.pop()
        if isinstance(x, tuple):
            if len(x) > 3 and x[0] == "app" and x[1] == "nth":
                r.add(x[3])
            w += [y for y in x if isinstance(y, tuple)]
    return r


def mentions_name(t, n):
    return n in repr(t)


@check("F01", FEXPL % (3, 3), "the sequence of opens, callbacks and results equals the documented one", only=CORE)
def f01(chk, M):
    part(chk, "TryOpen", lambda: try_open(chk, M))
    part(chk, "OpenWithException", lambda: open_exc(chk, M))
    part(chk, "IterateDir", lambda: iterate(chk, M))
    part(chk, "IterateDirByPattern", lambda: pattern(chk, M))


FS_NAMES = ("std::filesystem::path::string", "std::filesystem::path::filename", "std::filesystem::directory_entry::path", "nth", "find", "len", "ep")
NPOS = C(2**64 - 1)


def finds(t):
    """The searches mentioned in a term."""
    w, r = [t], []
    while w:
        x = w.pop()
        if isinstance(x, tuple):
            if x[:2] == ("app", "find"):
                r.append(x)
            w += [y for y in x if isinstance(y, tuple)]
    return r


def contains(s, i):
    """Does entry i's name contain the pattern in state s?  None: no such search is among its conditions."""
    for f in s.facts:
        for t in finds(f):
            if ref_named(t) == {C(i)} and mentions_name(t[2], "path::filename") and t[3] == ("ld", ("p", "pattern"), 0, "") and t[4] == ZERO:
                return True if entails_ne(s, sub(t, NPOS)) else False if entails_eq(s, sub(t, NPOS)) else "either"
    return None


def done(chk, T, s, ok, name, rule, detail):
    if ok is False and (not T.clean(s) or T.unknown):
        ok = None
    chk.expect("%s/%s" % (T.tag, name), ok, chk.where(T.body), rule, "" if ok is True else detail)


def shown(ev):
    return "; ".join(" ".join(fmt(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x) for x in e) for e in ev or ())[:300]


def try_open(chk, M):
    body = M.one("TryOpen")
    for n in range(4):
        st = St(ev=())
        names = [P("name%d" % i, "") for i in range(n)]
        st.env[("size", ("p", "fnames"))] = C(n)
        I = Interp(M, hook=Fs(M, n), fork_loops=True)
        T = Table(chk, I, body, ["fnames", "file"], st=st, tag="TryOpen of %d names" % n)
        for k, s, v in T.paths:
            ev = [e for e in s.ev or ()]
            ok = k == "ret"
            i, good = 0, False
            seq = []
            opens = [e for e in ev if e[0] == "open"]
            res = [e[0] for e in ev if e[0] in ("ok", "failed")]
            want = [("ok" if j == len(res) - 1 and res[-1:] == ["ok"] else "failed") for j in range(len(res))]
            ok = ok and len(opens) == len(res) and res == want and (res[-1:] == ["ok"] or len(res) == n)
            ok = ok and not [e for e in ev if e[0] == "close" and res[-1:] == ["ok"] and ev.index(e) > len(ev) - 2]
            for j, o in enumerate(opens):
                ok = ok and is_el(o[1], "fnames", j)
            if ok:
                v = I.rv(s, v)
                ok = v == C(1 if res[-1:] == ["ok"] else 0)
            done(chk, T, s, ok, "order", "names are tried in order until one opens; the result tells whether one did", "%s -> %s" % (shown(ev), v if k != "ret" else fmt(v)))


def is_el(t, base, i):
    """The value of element i of a parameter."""
    return t == ("ld", ("el", ("p", base), C(i)), 0, "") or (t[0] == "obj" and t[1] == ("el", ("p", base), C(i)))


def open_exc(chk, M):
    for b in [b for b in M.bodies.values() if b.fn.n.startswith("OpenWithException")]:
        I = Interp(M, hook=Fs(M, 0))
        T = Table(chk, I, b, ["f", "fileName"], st=St(ev=()), tag="OpenWithException")
        for k, s, v in T.paths:
            ev = s.ev or ()
            res = [e[0] for e in ev if e[0] in ("ok", "failed")]
            ok = [e[0] for e in ev if e[0] == "open"] == ["open"] and len(res) == 1 and (res == ["ok"]) == (k == "ret")
            if ok and k == "throw":
                ok = "std::runtime_error" in (exc_types(M, v) or ())
            if ok:
                ok = mentions_name([e for e in ev if e[0] == "open"][0][1], "fileName")
            done(chk, T, s, ok, "result", "a file that cannot be opened raises an error", shown(ev))
    b = M.one("WriteToFile")
    I = Interp(M, hook=Fs(M, 0))
    T = Table(chk, I, b, ["fileName", "value"], st=St(ev=()), tag="WriteToFile")
    for k, s, v in T.paths:
        ev = s.ev or ()
        w = [e for e in ev if e[0] == "write"]
        opened = any(e[0] == "ok" for e in ev)
        ok = (k == "ret") == opened and len(w) == (1 if opened else 0) and (not w or w[0][1] == ("ld", ("p", "value"), 0, ""))
        done(chk, T, s, ok, "written", "exactly the value is written to the opened file; failing to open it raises an error", shown(ev))


def with_entries(n):
    """Directory iterators over n entries."""
    def size(I, st, loc):
        return C(n)
    return size


class Dir(Interp):
    """Range-for over a directory iterator of n entries."""
    entries = 0

    def size_of(self, st, loc, type_=None):
        if type_ is not None and (type_.noref.r or "").endswith("directory_iterator"):
            return C(self.entries)
        return Interp.size_of(self, st, loc, type_)


def iterate(chk, M):
    body = M.one("IterateDir")
    for n in range(4):
        I = Dir(M, hook=Fs(M, n), fork_loops=True)
        I.entries = n
        T = Table(chk, I, body, ["dirName", "fn"], allow=FS_NAMES, st=St(ev=()), tag="IterateDir of %d entries" % n)
        thrown = 0
        for k, s, v in T.paths:
            calls = [e for e in s.ev or () if e[0] == "call"]
            if k == "throw":
                ts = exc_types(M, v)
                if ts is None or v.why == "std::filesystem::filesystem_error":
                    done(chk, T, s, False if ts is not None else None, "error", "a directory that cannot be read raises TNoDirError", "throws %s" % v.type.s)
                    continue
                thrown += "TNoDirError" in ts
                done(chk, T, s, "TNoDirError" in ts, "error", "a directory that cannot be read raises TNoDirError", "throws %s" % v.type.s)
                continue
            ok = all(not c[2] for c in calls[:-1]) and (len(calls) == n or bool(calls) and calls[-1][2])
            for i, c in enumerate(calls):
                ok = ok and ref_named(c[1][0]) == {C(i)} and mentions_name(c[1][0], "filename")
            done(chk, T, s, ok, "calls", "the callback sees every entry's name in turn until it returns true", shown(calls))
        chk.expect("%s/unreadable" % T.tag, True if thrown else None, chk.where(body), "the unreadable directory is analysed", "no path")


def pattern(chk, M):
    body = M.one("IterateDirByPattern")
    for srt in (0, 1):
        for n in range(3):
            I = Dir(M, hook=Fs(M, n, fail=False), fork_loops=True)
            I.entries = n
            T = Table(chk, I, body, ["dirName", "pattern", "fn", C(srt)], st=St(ev=()), overrides={3: C(srt)}, allow=FS_NAMES,
                      tag="IterateDirByPattern, %d entries%s" % (n, ", sorted" if srt else ""))
            for k, s, v in T.paths:
                ev = s.ev or ()
                calls = [e for e in ev if e[0] == "call"]
                hits = [e for e in calls if e[2]]
                ok = k == "ret" and len(hits) <= 1 and (not hits or calls[-1] is hits[0])
                names = [ref_named(c[1][0]) for c in calls]
                ok = ok and all(len(x) == 1 for x in names) and all(mentions_name(c[1][0], "dirName") and mentions_name(c[1][0], "filename") for c in calls)
                if ok and not srt:
                    ix = [list(x)[0][1] for x in names]
                    ok = ix == sorted(set(ix))
                if ok and srt and calls:
                    ok = [e for e in ev if e[0] in ("sort", "call")][0] == ("sort", True)
                if ok:
                    r = I.load(s, v[1]) if v[0] == "obj" else v
                    ok = r == (hits[0][1][0] if hits else ("s", ""))
                if ok:
                    # exactly the entries whose name contains the pattern are offered, up to the one accepted
                    seen = [list(x)[0][1] for x in names]
                    for i in range(n):
                        c = contains(s, i)
                        if (i in seen and c is not True) or (i not in seen and c is not False and not (hits and (srt or i > seen[-1]))):
                            ok = False
                done(chk, T, s, ok, "calls", "the callback sees the path of every entry whose name contains the pattern (in order when sorted) until it "
                     "returns true; that path is the result", "%s -> %s" % (shown(ev), fmt(v) if k == "ret" else "throws"))


# --------------------------------------------------------------------------- X01
BASES = {"TSerialDeviceException": "std::runtime_error", "TSerialDeviceErrnoException": "TSerialDeviceException",
         "TSerialDeviceTransientErrorException": "TSerialDeviceException", "TSerialDeviceInternalErrorException": "TSerialDeviceTransientErrorException",
         "TSerialDevicePermanentRegisterException": "TSerialDeviceException", "TResponseTimeoutException": "TSerialDeviceTransientErrorException",
         "Modbus::TErrorBase": "std::runtime_error", "Modbus::TMalformedResponseError": "Modbus::TErrorBase",
         "Modbus::TMalformedRequestError": "Modbus::TErrorBase", "Modbus::TUnexpectedResponseError": "Modbus::TErrorBase",
         "Modbus::TModbusExceptionError": "Modbus::TErrorBase"}
NOT = [("TSerialDevicePermanentRegisterException", "TSerialDeviceTransientErrorException"), ("TResponseTimeoutException", "TSerialDeviceInternalErrorException"),
       ("TSerialDeviceErrnoException", "TSerialDeviceTransientErrorException"),
       ("TSerialDeviceTransientErrorException", "TSerialDeviceInternalErrorException"),
       ("TResponseTimeoutException", "TSerialDevicePermanentRegisterException")]


def bases(M, name):
    r, w = [], [name]
    while w:
        n = w.pop()
        rec = next((x for x in M.records.values() if x.n == n), None)
        for t in (rec.bt if rec else ()):
            b = t.noref.r
            if b and b not in r:
                r.append(b)
                w.append(b)
    return r


def walk(n):
    """All nodes of a syntax tree."""
    w = [n]
    while w:
        x = w.pop()
        if isinstance(x, dict):
            yield x
            w += [v for k, v in x.items() if k != "t" and isinstance(v, (dict, list))]
        elif isinstance(x, list):
            w += x


@check("X01", "the class hierarchy and constructors of the error classes; every catch clause of the program",
       "each error class keeps its place in the hierarchy and its code, and no catch clause is shadowed by an earlier one of its try block")
def x01(chk, M):
    recs = {r.n: r for r in M.records.values()}
    for n, b in BASES.items():
        if n not in recs:
            chk.expect("class/%s" % n, None, "", "error classes keep their place in the hierarchy", "class not found")
            continue
        r = recs[n]
        bs = bases(M, n)
        chk.expect("class/%s" % n, b in bs, "%s:%s" % (r.file, r.line), "%s is a %s" % (n, b), "its bases are %s" % bs)
    for n, b in NOT:
        if n in recs:
            chk.expect("class/%s not %s" % (n, b), b not in bases(M, n), "%s:%s" % (recs[n].file, recs[n].line),
                       "a handler of %s does not catch %s" % (b, n), "it does")
    # the codes carried
    for cls, get, tag in (("TSerialDeviceErrnoException", "GetErrnoValue", "i32"), ("Modbus::TModbusExceptionError", "GetExceptionCode", "u8")):
        def f(cls=cls, get=get, tag=tag):
            short = cls.split("::")[-1]
            c = M.one("%s::%s" % (cls, short))
            g = M.one("%s::%s" % (cls, get))
            x = P("code", tag)
            T = Table(chk, Interp(M), c, overrides={len(c.ps) - 1: x}, tag=short)
            for k, s, v in T.paths:
                G = Table(chk, Interp(M), g, st=s, tag=get)
                for k2, s2, v2 in G.paths:
                    v2 = G.I.rv(s2, v2) if k2 == "ret" else v2
                    done(chk, G, s2, k2 == "ret" and eq_terms(s2, v2, x), "code", "the error carries the code it was made with", fmt(v2) if k2 == "ret" else "throws")
        part(chk, cls, f)
    # shadowed handlers
    n = 0
    for b in list(M.bodies.values()) + [x for l in M.lambdas.values() for x in l]:
        for t in walk(b.s):
            if t.get("k") != "try":
                continue
            seen = []
            for h in t["h"]:
                n += 1
                ht = h.get("t")
                hn = ht.noref.r if ht is not None else None
                hit = None
                for p in seen:
                    if p is None or hn is not None and (hn == p or p in bases(M, hn) or p == "std::exception" and any(x in bases(M, hn) + [hn] for x in STDEXC)):
                        hit = p or "..."
                if hit or len(seen) > 0:
                    chk.expect("handler/%s/%s" % (b.fn.n, hn or "..."), hit is None, "%s:%s %s" % (b.file, h["s"].get("l", t.get("l")) if isinstance(h.get("s"), dict) else t.get("l"), b.fn.n),
                               "every handler can be reached", "%s is caught by the earlier handler of %s" % (hn or "...", hit))
                seen.append(hn)
    chk.count("handlers", n)


STDEXC = ("std::runtime_error", "std::logic_error", "std::invalid_argument", "std::out_of_range", "std::system_error", "std::bad_alloc",
          "std::filesystem::filesystem_error")
