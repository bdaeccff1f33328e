"""Builds and loads the resolved program model of /repo/src.

Every C++ source under <repo>/src is parsed by frontend/wbsa (clang 18 libTooling) with stub declarations for the
libraries that are not installed here; the per-unit JSON is cached by content hash of the unit and everything it
includes, so a check re-reads exactly what changed.  Nothing of the repository is executed.
"""
import hashlib, json, os, pickle, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WBSA_REPO", "/repo")
BUILD = os.environ.get("WBSA_BUILD", os.path.join(VERIF, "build"))
LLVM = "/usr/lib/llvm-18"


class AnalysisError(Exception):
    """The analysis cannot give an answer (anchor vanished, front end failed, ...): an error exit, never a verdict."""


def _sha(b):
    return hashlib.sha256(b).hexdigest()


def file_sha(path, _cache={}):
    st = None
    try:
        st = os.stat(path)
    except OSError:
        return "absent"
    key = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    if key not in _cache:
        with open(path, "rb") as f:
            _cache[key] = _sha(f.read())
    return _cache[key]


def frontend():
    src = os.path.join(VERIF, "frontend", "wbsa.cpp")
    h = file_sha(src)[:16]
    out = os.path.join(BUILD, "wbsa-" + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + ".tmp%d" % os.getpid()
        cmd = ["/usr/bin/g++", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I" + LLVM + "/include",
               "-D__STDC_CONSTANT_MACROS", "-D__STDC_LIMIT_MACROS", "-D_GNU_SOURCE", src, "-o", tmp,
               LLVM + "/lib/libclang-cpp.so.18.1", "-L" + LLVM + "/lib", "-lLLVM-18",
               "-Wl,-rpath," + LLVM + "/lib"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisError("front end does not build: " + r.stderr[-2000:])
        os.replace(tmp, out)
    return out, h


def compile_args():
    return ["-std=c++20", "-w", "-ferror-limit=0", "-I" + os.path.join(REPO, "src"), "-I" + os.path.join(VERIF, "stubs"),
            "-DWBMQTT_COMMIT=x", "-DWBMQTT_VERSION=y", "-resource-dir", LLVM + "/lib/clang/18"]


def units():
    res = []
    for d, _, fs in os.walk(os.path.join(REPO, "src")):
        for f in fs:
            if f.endswith(".cpp"):
                res.append(os.path.join(d, f))
    return sorted(res)


def _unit_out(path):
    rel = os.path.relpath(path, REPO if path.startswith(REPO) else VERIF)
    return os.path.join(BUILD, "model", rel.replace("/", "__") + ".json")


def _stamp(files, base):
    h = hashlib.sha256(base.encode())
    for f in files:
        if f.startswith("/usr/"):
            continue
        h.update(f.encode())
        h.update(file_sha(f).encode())
    return h.hexdigest()


def _dump(path, tool, th, force=False):
    out = _unit_out(path)
    base = th + " ".join(compile_args())
    meta = out + ".dep"
    if not force and os.path.exists(out) and os.path.exists(meta):
        try:
            m = json.load(open(meta))
            if m["stamp"] == _stamp(m["files"], base):
                return out, m["stamp"], False, m["errors"]
        except Exception:
            pass
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".tmp%d" % os.getpid()
    if os.path.exists(tmp):
        os.remove(tmp)
    r = subprocess.run([tool, os.path.join(REPO, "src"), tmp, path, "--"] + compile_args(), capture_output=True,
                       text=True, cwd=BUILD)
    if not os.path.exists(tmp):
        raise AnalysisError("front end failed on %s: %s" % (path, r.stderr[-1500:]))
    d = json.load(open(tmp))
    files = sorted(f for f in d["files"] if f.startswith("/") and not f.startswith("/usr/"))
    os.replace(tmp, out)
    st = _stamp(files, base)
    json.dump({"stamp": st, "files": files, "errors": d["errors"]}, open(meta + ".tmp", "w"))
    os.replace(meta + ".tmp", meta)
    return out, st, True, d["errors"]


class Type:
    __slots__ = ("s", "k", "w", "u", "p", "r", "n", "ta", "c", "lam", "ru", "id")

    def __repr__(self):
        return "T<%s>" % self.s

    @property
    def noref(self):
        t = self
        while t is not None and t.k in ("ref", "rref"):
            t = t.p
        return t

    @property
    def is_int(self):
        return self.k in ("int", "bool", "enum")


class Fn:
    """A function, identified by its USR across units."""
    __slots__ = ("n", "u", "r", "p", "va", "repo", "ne", "ta", "nr", "cls", "clsu", "st", "cst", "v", "pv", "ov",
                 "ctor", "copy", "move", "def_", "dtor", "lam", "op", "acc", "bodies")

    def __repr__(self):
        return "Fn<%s>" % self.n

    @property
    def short(self):
        return self.n.rsplit("::", 1)[-1]


class Var:
    __slots__ = ("n", "t", "k", "q", "u", "ic", "id")

    def __repr__(self):
        return "Var<%s>" % self.n


class Body:
    """One function definition."""
    __slots__ = ("fn", "file", "line", "end", "ps", "inits", "s", "dep", "unit", "parent", "lam")

    def __repr__(self):
        return "Body<%s %s:%d>" % (self.fn.n, self.file, self.line)


class Record:
    __slots__ = ("n", "u", "b", "bt", "file", "line", "lam", "f", "m", "dtor")

    def __repr__(self):
        return "Rec<%s>" % self.n


class Model:
    def __init__(self):
        self.types = {}      # string -> Type
        self.fns = {}        # usr -> Fn
        self.bodies = {}     # usr -> Body (non-lambda)
        self.lambdas = {}    # id -> list of Body
        self.globals = {}    # usr -> dict(v, i, file, line)
        self.records = {}    # usr -> Record
        self.enums = {}      # name -> dict
        self.units = []
        self.errors = {}
        self.overriders = {} # usr -> set(usr) (transitive)
        self._nvar = 0

    # ---- queries
    def fn_by_name(self, name, must=True):
        r = [b for b in self.bodies.values() if b.fn.n == name]
        if must and not r:
            raise AnalysisError("anchor vanished: function %s is not defined in the current tree" % name)
        return r

    def one(self, name, nparams=None):
        r = self.fn_by_name(name)
        if nparams is not None:
            r = [b for b in r if len(b.ps) == nparams]
        if not r:
            raise AnalysisError("anchor vanished: function %s/%s" % (name, nparams))
        return r[0]

    def rec_by_name(self, name):
        for r in self.records.values():
            if r.n == name:
                return r
        return None

    def bases(self, usr, seen=None):
        """All transitive base record usrs including itself."""
        seen = set() if seen is None else seen
        if usr in seen:
            return seen
        seen.add(usr)
        r = self.records.get(usr)
        if r:
            for b in r.b:
                self.bases(b, seen)
        return seen

    def base_names(self, usr):
        return {self.records[u].n for u in self.bases(usr) if u in self.records}


def _merge_unit(M, d, unit):
    types, fns, vars_ = d["types"], d["fns"], d["vars"]
    tmap = [None] * len(types)

    def T(i):
        if i is None or i < 0:
            return None
        if tmap[i] is not None:
            return tmap[i]
        o = types[i]
        key = o["s"] + ("|" + o["ru"] if o.get("ru") and "lambda" in o["s"] else "")
        t = M.types.get(key)
        if t is None:
            t = Type()
            t.id = len(M.types)
            t.s = o["s"]
            t.k = o["k"]
            t.w = o.get("w")
            t.u = o.get("u")
            t.r = o.get("r")
            t.n = o.get("n")
            t.c = o.get("c", 0)
            t.lam = o.get("lam")
            t.ru = o.get("ru")
            t.p = None
            t.ta = None
            M.types[key] = t
            tmap[i] = t
            if "p" in o:
                t.p = T(o["p"])
            if "ta" in o:
                t.ta = [T(a) if isinstance(a, int) else (a["i"] if isinstance(a, dict) else None) for a in o["ta"]]
        tmap[i] = t
        return t

    fmap = [None] * len(fns)

    def F(i):
        if i is None:
            return None
        if fmap[i] is not None:
            return fmap[i]
        o = fns[i]
        f = M.fns.get(o["u"])
        if f is None:
            f = Fn()
            M.fns[o["u"]] = f
            f.n = o["n"]
            f.u = o["u"]
            f.r = T(o["r"])
            f.p = [T(x) for x in o["p"]]
            f.va = o.get("va", 0)
            f.repo = o.get("repo", 0)
            f.ne = o.get("ne", 0)
            f.nr = o.get("nr", 0)
            f.ta = [T(a) if isinstance(a, int) else (a["i"] if isinstance(a, dict) else None) for a in o["ta"]] if "ta" in o else None
            f.cls = o.get("cls")
            f.clsu = o.get("clsu")
            f.st = o.get("st", 0)
            f.cst = o.get("cst", 0)
            f.v = o.get("v", 0)
            f.pv = o.get("pv", 0)
            f.ov = o.get("ov", [])
            f.ctor = o.get("ctor", 0)
            f.copy = o.get("copy", 0)
            f.move = o.get("move", 0)
            f.def_ = o.get("def", 0)
            f.dtor = o.get("dtor", 0)
            f.lam = o.get("lam")
            f.op = o.get("op")
            f.acc = o.get("acc", 0)
        fmap[i] = f
        return f

    vmap = [None] * len(vars_)

    def V(i):
        if i is None:
            return None
        if vmap[i] is not None:
            return vmap[i]
        o = vars_[i]
        if o.get("u"):
            key = ("g", o["u"])
            v = M._gvars.get(key)
            if v is not None:
                vmap[i] = v
                return v
        v = Var()
        M._nvar += 1
        v.id = M._nvar
        v.n = o["n"]
        v.t = T(o["t"])
        v.k = o["k"]
        v.q = o.get("q")
        v.u = o.get("u")
        v.ic = o.get("ic", 0)
        if v.u:
            M._gvars[("g", v.u)] = v
        vmap[i] = v
        return v

    def B(o, parent, lamid=None):
        b = Body()
        b.fn = F(o["f"])
        b.file = o["file"]
        b.line = o["line"]
        b.end = o["end"]
        b.dep = o.get("dep", 0)
        b.ps = [V(x) for x in o["ps"]]
        b.unit = unit
        b.parent = parent
        b.lam = lamid
        b.inits = None
        if "inits" in o:
            b.inits = []
            for i in o["inits"]:
                b.inits.append({"l": i["l"], "m": i.get("m"), "d": i.get("d"), "b": T(i["b"]) if "b" in i else None,
                                "e": X(i.get("e"), b), "w": i.get("w", 0)})
        b.s = X(o["s"], b)
        return b

    def X(n, owner):
        """Rewrites a node in place: indices become objects."""
        if n is None:
            return None
        if isinstance(n, list):
            return [X(x, owner) for x in n]
        if not isinstance(n, dict):
            return n
        k = n.get("k")
        if "t" in n and isinstance(n["t"], int):
            n["t"] = T(n["t"])
        if k is None:
            # decl / handler / capture
            if "v" in n:
                n["v"] = V(n["v"])
            for key in ("i", "s"):
                if key in n:
                    n[key] = X(n[key], owner)
            if "bind" in n:
                n["bind"] = [V(x) for x in n["bind"]]
            return n
        if k == "ref":
            n["v"] = V(n["v"])
        elif k in ("fnref", "call", "ctor") and "f" in n:
            n["f"] = F(n["f"])
        if k == "lambda":
            caps = []
            for c in n["cap"]:
                if "v" in c:
                    c["v"] = V(c["v"])
                if "i" in c:
                    c["i"] = X(c["i"], owner)
                caps.append(c)
            n["cap"] = caps
            while n["id"] in M.lambdas:     # the same lambda in another instantiation of its function
                n["id"] += "'"
            n["fn"] = [B(x, owner, n["id"]) for x in n["fn"]]
            M.lambdas.setdefault(n["id"], [])
            have = {(b.fn.u) for b in M.lambdas[n["id"]]}
            for b in n["fn"]:
                if b.fn.u not in have:
                    M.lambdas[n["id"]].append(b)
            return n
        for key in ("ct", "tt", "bt"):
            if key in n and isinstance(n[key], int):
                n[key] = T(n[key])
        for key in ("e", "a", "b", "c", "o", "ce", "s", "i", "n", "r"):
            if key in n and isinstance(n[key], (dict, list)):
                n[key] = X(n[key], owner)
        if k in ("decl",):
            n["d"] = [X(x, owner) for x in n["d"]]
        elif k == "rfor":
            n["d"] = X(n["d"], owner)
        if "cv" in n and isinstance(n["cv"], dict):
            n["cv"] = X(n["cv"], owner)
        if k == "try":
            hs = []
            for h in n["h"]:
                h["t"] = T(h["t"]) if "t" in h else None
                h["v"] = V(h["v"]) if "v" in h else None
                h["s"] = X(h["s"], owner)
                hs.append(h)
            n["h"] = hs
        return n

    for i in range(len(fns)):
        F(i)
    for o in d["functions"]:
        u = fns[o["f"]]["u"]
        if u in M.bodies:
            continue
        M.bodies[u] = B(o, None)
    for g in d["globals"]:
        v = V(g["v"])
        key = v.u or ("%s:%s:%d" % (v.n, g["file"], g["line"]))
        if key in M.globals:
            continue
        M.globals[key] = {"v": v, "i": X(g["i"], None), "file": g["file"], "line": g["line"], "const": g.get("const", 0)}
    for u, o in d["records"].items():
        if u in M.records and (M.records[u].file or not o.get("file")):
            continue
        r = Record()
        r.n = o["n"]
        r.u = u
        r.b = [b["u"] for b in o["b"]]
        r.bt = [T(b["t"]) for b in o["b"]]
        r.file = o.get("file")
        r.line = o.get("line")
        r.lam = o.get("lam")
        r.f = [{"n": f["n"], "t": T(f["t"]), "i": X(f.get("i"), None), "acc": f.get("acc"), "mut": f.get("mut", 0)} for f in o.get("f", [])]
        r.m = [F(m) for m in o.get("m", [])]
        r.dtor = F(o["dtor"]) if "dtor" in o else None
        M.records[u] = r
    for e in d["enums"]:
        M.enums.setdefault(e["n"], {"file": e["file"], "line": e["line"], "c": [tuple(x) for x in e["c"]]})


CORE = ["src/%s.cpp" % n for n in ("bcd_utils", "bin_utils", "common_utils", "crc16", "expression_evaluator", "file_utils",
                                   "modbus_base", "serial_exc", "serial_client_register_poller", "serial_client_device_access_handler")]


def load(verbose=False, only=None):
    """The resolved program.  only: restrict to these units (plus any unit added since this framework was written)."""
    sys.setrecursionlimit(20000)
    t0 = time.time()
    tool, th = frontend()
    us = units()
    if len(us) < 60:
        raise AnalysisError("only %d source units found under %s/src" % (len(us), REPO))
    suffix = ""
    if only:
        known = set(open(os.path.join(VERIF, "lib", "known_units.txt")).read().split())
        us = [u for u in us if os.path.relpath(u, REPO) in only or os.path.relpath(u, REPO) not in known]
        missing = [o for o in only if not os.path.exists(os.path.join(REPO, o))]
        if len(missing) > 3:
            raise AnalysisError("source units missing: %s" % missing)
        suffix = "-" + _sha(" ".join(sorted(only)).encode())[:8]
    us.append(os.path.join(VERIF, "units", "inst.cpp"))
    with ThreadPoolExecutor(max_workers=max(2, os.cpu_count() or 4)) as ex:
        outs = list(ex.map(lambda p: _dump(p, tool, th), us))
    stamp = _sha(("".join(o[1] for o in outs) + file_sha(os.path.abspath(__file__))).encode())
    pk = os.path.join(BUILD, "model", "merged%s.pickle" % suffix)
    M = None
    if os.path.exists(pk + ".stamp") and open(pk + ".stamp").read() == stamp:
        try:
            import gc
            gc.disable()
            with open(pk, "rb") as f:
                M = pickle.load(f)
            gc.enable()
        except Exception:
            M = None
    if M is None:
        import gc
        gc.disable()
        M = Model()
        M._gvars = {}
        for p, (o, st, _, err) in zip(us, outs):
            d = json.load(open(o))
            rel = os.path.relpath(p, REPO if p.startswith(REPO) else VERIF)
            M.units.append(rel)
            if err:
                M.errors[rel] = err
            _merge_unit(M, d, rel)
        for f in M.fns.values():
            for o in f.ov:
                M.overriders.setdefault(o, set()).add(f.u)
        changed = True
        while changed:
            changed = False
            for k, s in list(M.overriders.items()):
                for x in list(s):
                    for y in M.overriders.get(x, ()):
                        if y not in s:
                            s.add(y)
                            changed = True
        # stable node ids
        n = 0
        for b in list(M.bodies.values()):
            n = number(b.s, n)
            for i in b.inits or []:
                n = number(i["e"], n)
        for g in M.globals.values():
            n = number(g["i"], n)
        for r in M.records.values():
            for f in r.f:
                n = number(f["i"], n)
        tmp = pk + ".tmp%d" % os.getpid()
        with open(tmp, "wb") as f:
            pickle.dump(M, f, protocol=pickle.HIGHEST_PROTOCOL)
        os.replace(tmp, pk)
        with open(tmp, "w") as f:
            f.write(stamp)
        os.replace(tmp, pk + ".stamp")
        gc.enable()
    if M.errors and verbose:
        print("front-end errors:", M.errors)
    M.load_s = time.time() - t0
    return M


def number(n, c):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, list):
            st.extend(reversed(x))
        elif isinstance(x, dict):
            if "id" not in x or x.get("k") == "lambda":
                if x.get("k") == "lambda":
                    x["nid"] = c
                else:
                    x["id"] = c
                c += 1
            for key, v in x.items():
                if key in ("e", "a", "b", "c", "o", "ce", "s", "i", "n", "r", "d", "cv", "h"):
                    if isinstance(v, (dict, list)):
                        st.append(v)
                elif key == "fn":
                    for b in v:
                        st.append(b.s)
                elif key == "cap":
                    for cc in v:
                        if "i" in cc:
                            st.append(cc["i"])
    return c


if __name__ == "__main__":
    M = load(True, CORE if "--core" in sys.argv else None)
    print("units %d, functions %d, lambdas %d, records %d, globals %d, errors %s, %.1fs" %
          (len(M.units), len(M.bodies), len(M.lambdas), len(M.records), len(M.globals), M.errors, M.load_s))

