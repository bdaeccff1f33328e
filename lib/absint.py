"""Structured abstract interpreter over the resolved program model.

Domain: environment (abstract location -> term), a set of linear and boolean facts, and a client typestate `ev`.
States are joined at merge points (bounded trace partitioning keyed by the typestate); loops are analysed to a fixpoint
with induction variables recognised as affine functions of the iteration count; calls to functions of the repository
are analysed in place, calls elsewhere go through models or havoc what they may change.
"""
import poly
from math import gcd
from terms import *
from model import AnalysisError


class St:
    __slots__ = ("env", "facts", "ev", "opq")

    def __init__(self, env=None, facts=(), ev=None, opq=()):
        self.env = env if env is not None else {}
        self.facts = facts      # tuple of facts
        self.ev = ev
        self.opq = opq          # conditions assumed that the domain does not understand

    def copy(self):
        return St(dict(self.env), self.facts, self.ev, self.opq)

    def set(self, loc, v):
        s = self.copy()
        s.env[loc] = v
        return s

    def withev(self, ev):
        return St(self.env, self.facts, ev, self.opq)

    def key(self):
        return (frozenset(self.env.items()), self.facts, self.ev)


class Exc:
    """A thrown exception value."""
    __slots__ = ("type", "val", "line", "file", "why")

    def __init__(self, type_, val, line, file=None, why=""):
        self.type, self.val, self.line, self.file, self.why = type_, val, line, file, why


class Out:
    def __init__(self):
        self.n, self.b, self.c, self.r = [], [], [], []


# --------------------------------------------------------------------------- facts
def neg_lin(l):
    return add(ONE, l, -1)  # not (l <= 0)  <=>  1 - l <= 0


def tight(l):
    """l <= 0 over the integers, divided by the common factor of its coefficients."""
    if l[0] != "lin":
        return l
    g = 0
    for _, c in l[2]:
        g = gcd(g, c)
        if g == 1:
            return l
    return mk_lin(-(-l[1] // g), {a: c // g for a, c in l[2]})


def entails_le(st, l, depth=4, extra=()):
    """Does the state entail l <= 0 ?"""
    lo, hi = rng(l)
    if hi is not None and hi <= 0:
        return True
    if not is_num(l):
        return False
    les = [f[1] for f in st.facts if f[0] == "le"]
    for f in st.facts:
        if f[0] == "eq":
            les.append(f[1])
            les.append(scale(f[1], -1))
    les += list(extra)
    les = [tight(x) for x in les]
    seen = set()

    def go(g, d):
        g = tight(g)
        lo, hi = rng(g)
        if hi is not None and hi <= 0:
            return True
        if d == 0 or g in seen:
            return False
        seen.add(g)
        k, dg = lin_parts(g)
        # eliminate an atom: g <= 0 follows from  m*f <= 0 and g - m*f <= 0
        for a, c in dg.items():
            al, ah = atom_range(a)
            for f in les:
                kf, df = lin_parts(f)
                cf = df.get(a)
                if cf is None or (cf > 0) != (c > 0):
                    continue
                if c % cf == 0:
                    m, q = c // cf, 1
                elif cf % c == 0:
                    m, q = 1, cf // c
                else:
                    m, q = abs(c), abs(cf)
                    m, q = abs(c), abs(cf)
                g2 = add(scale(g, q), scale(f, m), -1)
                if go(g2, d - 1):
                    return True
        return False

    return go(l, depth)


def entails_eq(st, l):
    if l[0] == "c":
        return l[1] == 0
    for f in st.facts:
        if f[0] == "eq" and (f[1] == l or f[1] == scale(l, -1)):
            return True
    return entails_le(st, l) and entails_le(st, scale(l, -1))


def entails_ne(st, l):
    lo, hi = rng(l)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return True
    for f in st.facts:
        if f[0] == "ne" and (f[1] == l or f[1] == scale(l, -1)):
            return True
    if entails_le(st, add(ONE, l, 1)) or entails_le(st, add(ONE, l, -1)):
        return True
    # substitute equalities over a single atom
    l2 = subst_eqs(st, l)
    if l2 != l:
        lo, hi = rng(l2)
        return (lo is not None and lo > 0) or (hi is not None and hi < 0)
    return False


def subst_eqs(st, l):
    if not is_num(l):
        return l
    for f in st.facts:
        if f[0] != "eq":
            continue
        kf, df = lin_parts(f[1])
        if len(df) == 1:
            (a, c), = df.items()
            k, d = lin_parts(l)
            if a in d and kf % c == 0:
                l = add(l, scale(add(a, C(kf // c)), d[a]), -1)
    return l


def frame_dependent(e):
    """Does the expression mention a parameter, an automatic variable or this?"""
    w = [e]
    while w:
        x = w.pop()
        if isinstance(x, list):
            w += x
        elif isinstance(x, dict):
            if x.get("k") == "this":
                return True
            if x.get("k") == "lambda":
                continue
            v = x.get("v")
            if hasattr(v, "k") and v.k in ("param", "local"):
                return True
            w += [y for key, y in x.items() if isinstance(y, (dict, list)) and key != "t"]
    return False


def add_fact(st, f):
    """Adds a fact; returns None when the state becomes infeasible."""
    k = f[0]
    if k == "le":
        if f[1][0] == "c":
            return st if f[1][1] <= 0 else None
        if entails_le(st, f[1], 2):
            return st
        if entails_le(st, neg_lin(f[1])):
            return None
        # le and ne: sharpen
        facts = st.facts + (f,)
        s = St(st.env, facts, st.ev, st.opq)
        for g in st.facts:
            if g[0] == "ne" and (g[1] == f[1] or g[1] == scale(f[1], -1)):
                s = St(st.env, facts + (("le", add(f[1], ONE)),), st.ev, st.opq)
        return s
    if k == "eq":
        if f[1][0] == "c":
            return st if f[1][1] == 0 else None
        if f in st.facts:
            return st
        if entails_ne(st, f[1]):
            return None
        lo, hi = rng(f[1])
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return None
        s = St(st.env, st.facts + (f,), st.ev, st.opq)
        # contradiction with known single-atom facts
        for g in st.facts:
            if g[0] == "ne" and subst_eqs(s, g[1]) == ZERO:
                return None
            if g[0] == "le":
                v = subst_eqs(s, g[1])
                if v[0] == "c" and v[1] > 0:
                    return None
            if g[0] == "eq":
                v = subst_eqs(s, g[1])
                if v[0] == "c" and v[1] != 0:
                    return None
        return s
    if k == "ne":
        if f[1][0] == "c":
            return st if f[1][1] != 0 else None
        if entails_eq(st, f[1]):
            return None
        if f in st.facts:
            return st
        lo, hi = rng(f[1])
        facts = st.facts + (f,)
        if lo == 0 or entails_le(st, scale(f[1], -1), 2):
            facts += (("le", sub(ONE, f[1])),)
        elif hi == 0 or entails_le(st, f[1], 2):
            facts += (("le", add(f[1], ONE)),)
        return St(st.env, facts, st.ev, st.opq)
    if k == "b":
        for g in st.facts:
            if g[0] == "b" and g[1] == f[1]:
                return st if g[2] == f[2] else None
        return St(st.env, st.facts + (f,), st.ev, st.opq)
    raise ValueError(k)


def root_loc(l):
    while isinstance(l, tuple) and len(l) > 1 and l[0] in ("fld", "el") and isinstance(l[1], tuple):
        l = l[1]
    return l


def assume(st, t, truth):
    """List of states in which boolean/integer term t has the given truth value."""
    k = t[0]
    if k == "c":
        return [st] if bool(t[1]) == truth else []
    if k == "not":
        return assume(st, t[1], not truth)
    if k == "le":
        s = add_fact(st, ("le", t[1]) if truth else ("le", neg_lin(t[1])))
        return [s] if s else []
    if k == "eq":
        s = add_fact(st, ("eq" if truth else "ne", t[1]))
        return [s] if s else []
    if k == "and":
        if truth:
            return [s2 for s in assume(st, t[1], True) for s2 in assume(s, t[2], True)]
        return assume(st, t[1], False) + [s2 for s in assume(st, t[1], True) for s2 in assume(s, t[2], False)]
    if k == "or":
        return assume(st, ("and", ("not", t[1]), ("not", t[2])), not truth)
    if k in ("ptr", "addr", "obj", "lam", "fn", "some", "it"):
        return [st] if truth else []
    if k in ("none", "null"):
        return [] if truth else [st]
    if k == "s":
        return [st] if truth else []
    lo, hi = rng(t)
    if is_num(t) and (lo, hi) != (None, None) and k in ("lin", "bits", "par", "ld", "sym", "ind") and (lo, hi) != (0, 1):
        s = add_fact(st, ("ne" if truth else "eq", t))
        return [s] if s else []
    s = add_fact(st, ("b", t, truth))
    if s is None:
        return []
    if (lo, hi) == (0, 1) and k in ("par", "ld", "sym"):
        s2 = add_fact(s, ("eq", sub(t, ONE) if truth else t))
        return [s2] if s2 else []
    return [s]


def has_unknown(t):
    if isinstance(t, tuple):
        if t and t[0] == "unk":
            return True
        return any(has_unknown(x) for x in t if isinstance(x, tuple))
    return False


def mentions(t, sub_):
    if t == sub_:
        return True
    if isinstance(t, tuple):
        return any(mentions(x, sub_) for x in t if isinstance(x, tuple))
    return False


def substitute(t, m):
    """Rebuilds term t with atoms replaced per dict m."""
    if not isinstance(t, tuple):
        return t
    if t in m:
        return m[t]
    if t and t[0] == "lin":
        r = C(t[1])
        for a, c in t[2]:
            r = add(r, scale(substitute(a, m), c))
        return r
    if t and t[0] == "bits":
        return bits(substitute(t[1], m), t[2], t[3])
    return tuple(substitute(x, m) if isinstance(x, tuple) else x for x in t)


# --------------------------------------------------------------------------- interpreter
def char_at(v, i):
    """Character i of a string value whose pieces up to it have known lengths."""
    if v is None or i < 0:
        return None
    for x in (v[1:] if v[0] == "cat" else (v,)):
        if x[0] == "s":
            if i < len(x[1]):
                c = ord(x[1][i])
                return C(c - 256 if c > 127 else c)
            i -= len(x[1])
        elif x[0] == "app" and x[1] == "chr":
            if i == 0:
                return x[2]
            i -= 1
        else:
            return None
    return ZERO if i == 0 else ("oob",)      # the terminating NUL, or past it


class OutOfBounds(AnalysisError):
    """A read past the end of a string of known length."""
    def __init__(self, st, what):
        AnalysisError.__init__(self, what)
        self.st = st


def record_outside(I, st, obj, idx, node, kind):
    """Notes element accesses whose constant index is beyond the container's constant size."""
    n = st.env.get(("size", obj))
    if n is None or n[0] != "c":
        return
    lo, ln = (idx[1], idx[2]) if idx[0] == "range" else (idx, ONE)
    if lo[0] != "c" or ln[0] != "c":
        return
    I.accesses += 1
    if ln[1] > 0 and (lo[1] < 0 or lo[1] + ln[1] > n[1]):
        I.outside.append((st, obj, lo[1], n[1], node.get("l", 0) if isinstance(node, dict) else 0, I.stack[-1][3].file if I.stack else None))


class Interp:
    MAXP = 24         # states kept apart per program point
    DEPTH = 12        # inlining depth
    UNROLL = 12
    BCAP = 8          # states kept apart per outcome of a boolean expression

    def __init__(self, model, **kw):
        self.M = model
        self.exc = []           # stack of lists of (St, Exc)
        self.stack = []         # call stack of (usr, frame)
        self.implicit_throw = kw.get("implicit_throw", False)
        self.no_inline = kw.get("no_inline", lambda fn: False)
        self.strict = kw.get("strict", False)   # stop at a read past the end of a string of known length
        self.fork_loops = kw.get("fork_loops", False)   # unroll loops whose condition is not constant (inputs of bounded length)
        self.rec = kw.get("rec", 1)                # how often one function may be on the inlining stack
        self.hook = kw.get("hook", None)           # hook(interp, st, fn, obj, args, node) -> [(st, val)] or None
        self.on_access = kw.get("on_access", record_outside) # on_access(interp, st, loc, idx, node, kind)
        self.outside = []       # accesses beyond the end of a container of known size: (state, container, index, size, line, file)
        self.accesses = 0
        self.on_dtor = kw.get("on_dtor", None)
        self.resolve_virtual = kw.get("resolve_virtual", lambda fn: None)
        self.unknown = []       # constructs not modelled (node, reason)
        self.visited_fns = set()
        self.calls_seen = 0
        self.frames = 0
        self.fields = None
        self.widen_tag = 0
        self.steps = 0
        self.loops = []         # (node, entry, head, after condition, next heads, iteration symbol)
        self.peel = kw.get("peel", False)
        self.MAXSTEPS = kw.get("max_steps", 400000)
        import stdmodels
        self.std = stdmodels

    # ---- names
    def loc_of_var(self, v, frame):
        if v.k in ("global",) or v.k == "slocal":
            return ("g", v.u or v.q or v.n, v.n)
        return ("v", frame, v.id, v.n)

    def fresh(self, st, name, tag=""):
        """A symbol not mentioned in st."""
        base = ("sym",) + tuple(name)
        i = 0
        used = getattr(self, "_used", None)
        sym = base + (0, tag)
        # symbols are minted per program point; re-minting while an older instance is alive gets a new index
        while self._alive(st, sym):
            i += 1
            sym = base + (i, tag)
        return sym

    def _alive(self, st, sym):
        for v in st.env.values():
            if isinstance(v, tuple) and mentions(v, sym):
                return True
        for f in st.facts:
            if mentions(f, sym):
                return True
        return False

    def heap_loc(self, st, nid):
        """Location for a new object; distinct from every object of the same site still known to this path."""
        loc, j = ("heap", self.frame(), nid), 0
        while self._alive(st, loc) or any(mentions(k, loc) for k in st.env):
            j += 1
            loc = ("heap", self.frame(), nid, j)
        return loc

    def frame(self):
        return self.stack[-1][1] if self.stack else 0

    def cur(self):
        return self.stack[-1][0] if self.stack else None

    # ---- memory
    def epoch(self, st, loc):
        e = 0
        while True:
            x = st.env.get(("ep", loc))
            if x:
                e = max(e, x)
            if loc[0] in ("fld", "el", "size", "log", "str"):
                loc = loc[1]
            else:
                return e

    def deref_loc(self, st, loc):
        """Follows reference bindings."""
        n = 0
        while n < 20:
            v = st.env.get(loc)
            if isinstance(v, tuple) and v and v[0] == "ref":
                loc = v[1]
                n += 1
                continue
            return loc
        return loc

    def load(self, st, loc, type_=None):
        loc = self.deref_loc(st, loc)
        v = st.env.get(loc)
        if v is not None:
            return v
        t = type_.noref if type_ is not None else None
        if loc[0] == "el":
            return self.load_el(st, loc[1], loc[2], t)
        if loc[0] == "g":
            r = self.global_value(st, loc, t)
            if r is not None:
                return r
        if loc[0] == "fld":
            r = self.const_field(st, loc)
            if r is not None:
                return r
        if t is not None and t.k in ("rec", "arr") and not self.scalar_rec(t):
            return ("obj", loc)
        return ("ld", loc, self.epoch(st, loc), tag_of(t) if t else "")

    def scalar_rec(self, t):
        """Record types represented by a single term."""
        r = t.r or ""
        return (r.startswith("std::basic_string") or r.startswith("std::optional") or r.startswith("std::chrono::") or
                r.startswith("std::unique_ptr") or r.startswith("std::shared_ptr") or
                r.startswith("std::function") or r.startswith("__gnu_cxx::__normal_iterator") or
                r in ("std::string",) or "iterator" in r.rsplit("::", 1)[-1].lower() or
                (t.lam is not None) or r.startswith("std::weak_ptr") or r.startswith("std::_Bind") or
                r.startswith("std::basic_string_view") or r.startswith("std::atomic") or r.startswith("std::__atomic_base") or r in ("std::strong_ordering", "std::partial_ordering", "std::weak_ordering"))

    def const_field(self, st, loc):
        """const data members with a constant in-class initialiser."""
        if self.fields is None:
            self.fields = {}
            for r in self.M.records.values():
                for f in r.f:
                    if f["t"] is not None and f["t"].c and f["i"] is not None:
                        c = const_of(f["i"])
                        if c is not None:
                            self.fields[f["n"]] = c if f["n"] not in self.fields or self.fields[f["n"]] == c else None
        c = self.fields.get(loc[2])
        if c is not None and self.epoch(st, loc) == 0:
            return c
        return None

    def global_value(self, st, loc, t):
        if loc[-1] == "npos" and "basic_string" in str(loc[1]):
            return C(2**64 - 1)
        if loc[-1] == "value" and "@integral_constant>#b#Vb" in str(loc[1]):
            return C(int(str(loc[1]).split("@integral_constant>#b#Vb")[1][:1]))
        g = self.M.globals.get(loc[1])
        if g is None or not g["const"]:
            return None
        c = const_of(g["i"])
        if c is not None and (t is None or t.k != "arr"):
            return c
        if g["i"] is None:
            return None
        if t is not None and (t.k not in ("rec", "arr") or self.scalar_rec(t)):
            if getattr(self, "_ing", None) == loc:
                return None
            self._ing = loc
            self.exc.append([])
            try:
                rs = self.eval(g["i"], St())
            finally:
                self.exc.pop()
                self._ing = None
            if len(rs) == 1 and not has_unknown(rs[0][1]) and rs[0][1][0] in ("c", "s", "lin", "f"):
                return rs[0][1]
        return None

    def load_el(self, st, base, idx, t):
        base = self.deref_loc(st, base)
        log = st.env.get(("log", base))
        if log is None and base[0] == "g":
            v = self.global_el(base, idx)
            if v is not None:
                return v
        if log is None and is_c(idx):
            v = char_at(st.env.get(base), idx[1])
            if v == ("oob",):
                if self.strict and not poly.infeasible(st.facts):
                    raise OutOfBounds(st, "reads character %d of %s in %s" % (idx[1], fmt(st.env[base]), self.stack[-1][3].fn.n if self.stack else "?"))
            elif v is not None:
                return v
        if log is not None:
            for w in reversed(log):
                if w[0] == "w":
                    d = sub(idx, w[1])
                    if d == ZERO or entails_eq(st, d):
                        return w[2]
                    if entails_ne(st, d):
                        continue
                    break
                if w[0] == "rng":      # ("rng", lo, len, srcbase, srclogid, srcoff, elsym) element i in [lo,lo+len) = src[off + i-lo]
                    d = sub(idx, w[1])
                    if entails_le(st, add(d, ONE)):  # idx < lo
                        continue
                    inside = entails_le(st, scale(d, -1)) and entails_le(st, add(sub(d, w[2]), ONE))
                    if inside:
                        return self.rng_el(st, w, d)
                    if entails_le(st, sub(w[2], d)):
                        continue
                    break
                if w[0] == "fill":
                    return w[1]
                if w[0] == "mem":
                    return ("ld", ("el", w[1], idx), w[2], w[3] if len(w) > 3 else tag_of(t))
                break
            tag = tag_of(t) if t is not None else ""
            return ("ld", ("el", ("mix", base, log), idx), 0, tag)
        if t is not None and t.k in ("rec", "arr") and not self.scalar_rec(t):
            return ("obj", ("el", base, idx))
        return ("ld", ("el", base, idx), self.epoch(st, base), tag_of(t) if t is not None else "")

    def rng_el(self, st, w, d):
        src = w[3]
        if src[0] == "snap":       # snapshot of a source log
            tmp = St({("log", ("snapobj",)): src[1]}, st.facts)
            return self.load_el(tmp, ("snapobj",), add(w[4], d), None)
        if src[0] == "fn":         # per-element term with symbol ("ind","#el")
            return substitute(src[1], {("ind", "#el", "sz"): d})
        return ("ld", ("el", src[1], add(w[4], d)), src[2], src[3])

    def global_el(self, base, idx):
        g = self.M.globals.get(base[1])
        if g is None or not g["const"] or not is_c(idx) or not g["i"]:
            return None
        i = g["i"]
        while i and i.get("k") == "il" and len(i["a"]) == 1 and i["a"][0] and i["a"][0].get("k") == "il":
            i = i["a"][0]
        if i.get("k") == "il":
            if 0 <= idx[1] < len(i["a"]):
                return const_of(i["a"][idx[1]])
        return None

    def elem_tag(self, t):
        """Range tag of elements of container/pointer type t."""
        if t is None:
            return ""
        t = t.noref
        if t.k in ("ptr", "arr"):
            return tag_of(t.p)
        if t.ta and hasattr(t.ta[0], "k"):
            return tag_of(t.ta[0])
        return ""

    def store(self, st, loc, v, type_=None):
        loc = self.deref_loc(st, loc)
        if loc[0] == "el" and v[0] != "obj":
            s = st.copy()
            base = self.deref_loc(st, loc[1])
            log = st.env.get(("log", base))
            if log is None:
                log = (("mem", base, self.epoch(st, base), tag_of(type_) if type_ is not None else ""),)
            s.env[("log", base)] = log + (("w", loc[2], v),)
            s.env.pop(("el", base, loc[2]), None)
            return s
        if v[0] == "obj":
            return self.copy_obj(st, v[1], loc)
        s = st.copy()
        s.env[loc] = v
        return s

    def is_under(self, k, loc):
        while True:
            if k == loc:
                return True
            if isinstance(k, tuple) and k and k[0] in ("fld", "el", "size", "log", "str", "ep", "hask", "ents", "mapent"):
                k = k[1]
            else:
                return False

    def rebase(self, k, a, b):
        if k == a:
            return b
        return (k[0], self.rebase(k[1], a, b)) + k[2:]

    def copy_obj(self, st, src, dst):
        src = self.deref_loc(st, src)
        if src == dst:
            return st
        s = st.copy()
        for k in [k for k in s.env if self.is_under(k, dst) and k[0] != "ep"]:
            del s.env[k]
        n = 0
        for k, v in st.env.items():
            if self.is_under(k, src) and k[0] != "ep":
                s.env[self.rebase(k, src, dst)] = v
                n += 1
        if ("log", src) not in st.env:
            # contents not tracked: alias the source's memory at this epoch
            s.env[("log", dst)] = (("mem", src, self.epoch(st, src)),)
        if ("size", src) not in st.env:
            s.env[("size", dst)] = self.size_of(st, src)
        s.env[("from", dst)] = ("ld", src, self.epoch(st, src), "")
        return s

    def havoc(self, st, loc, why=None):
        loc = self.deref_loc(st, loc)
        s = st.copy()
        for k in [k for k in s.env if isinstance(k, tuple) and self.is_under(k, loc)]:
            if k[0] == "ep" or s.env[k][:1] == ("ref",):
                continue
            del s.env[k]
        self.widen_tag += 1
        s.env[("ep", loc)] = self.widen_tag_for(why)
        return s

    def widen_tag_for(self, why):
        # deterministic epoch per program point where possible
        if why is None:
            return self.widen_tag
        d = self.__dict__.setdefault("_eps", {})
        return d.setdefault(why, 100000 + len(d))

    def size_of(self, st, loc, type_=None):
        loc = self.deref_loc(st, loc)
        v = st.env.get(("size", loc))
        if v is not None:
            return v
        if loc[0] == "g":
            g = self.M.globals.get(loc[1])
            if g and g["const"] and g["i"] and g["i"].get("k") == "il":
                return C(len(g["i"]["a"]))
        if type_ is not None:
            t = type_.noref
            if t.k == "arr" and t.n is not None:
                return C(t.n)
            if t.r == "std::array" and t.ta and isinstance(t.ta[1], int):
                return C(t.ta[1])
        sv = st.env.get(("sizek", loc))
        if sv:
            return sv
        sv = st.env.get(loc)
        if sv is not None and (sv[0] in ("s", "cat") or sv[0] == "app" and sv[1] == "chr"):
            import strmodels
            cs = strmodels.chars(sv)
            if cs is not None:
                return C(len(cs))
        return ("ld", ("size", loc), self.epoch(st, loc), "sz")

    # ---- control
    def throw(self, st, exc):
        self.exc[-1].append((st, exc))

    def reduce(self, states, cap=None):
        cap = cap or self.MAXP
        if len(states) <= 1:
            return states
        seen, res = set(), []
        for s in states:
            k = s.key()
            if k not in seen:
                seen.add(k)
                res.append(s)
        if len(res) <= cap:
            return res
        groups = {}
        for s in res:
            groups.setdefault(s.ev, []).append(s)
        out = []
        for ev, g in groups.items():
            while len(g) > max(1, cap // max(1, len(groups))):
                a, b = g.pop(0), g.pop(0)
                g.append(self.join(a, b))
            out += g
        return out

    def reduce_ret(self, rs, cap=None):
        cap = cap or self.MAXP
        seen, res = set(), []
        for s, v in rs:
            k = (s.key(), v)
            if k not in seen:
                seen.add(k)
                res.append((s, v))
        if len(res) <= cap:
            return res
        groups = {}
        for s, v in res:
            groups.setdefault((s.ev, v), []).append(s)
        out = []
        for (ev, v), g in groups.items():
            for s in self.reduce(g, max(1, cap // len(groups))):
                out.append((s, v))
        return out

    def join(self, a, b):
        env = {}
        n = 0
        for k in set(a.env) | set(b.env):
            va, vb = a.env.get(k), b.env.get(k)
            if va == vb:
                env[k] = va
                continue
            if k[0] in ("ep",):
                env[k] = max(va or 0, vb or 0)
                continue
            if va is None or vb is None:
                # location not tracked in one of the branches
                if k[0] in ("v",):
                    continue  # declared in one branch only: out of scope after the merge
                if k[0] in ("log", "size", "fld", "el", "g", "deref"):
                    va = va if va is not None else self.default(a, k)
                    vb = vb if vb is not None else self.default(b, k)
                    if va == vb:
                        env[k] = va
                        continue
                else:
                    continue
            if k[0] == "log":
                env[k] = (("mem", ("phi", k[1], hash((va, vb)) & 0xffffff), 0),)
                continue
            tag = ""
            for v in (va, vb):
                if isinstance(v, tuple) and v and isinstance(v[-1], str) and v[-1] in RANGES:
                    tag = v[-1]
            lo = None
            if isinstance(va, tuple) and va and va[0] == "ref" or isinstance(vb, tuple) and vb and vb[0] == "ref":
                env[k] = ("unk", "ref-join", 0)
                continue
            if not is_num(va) or not is_num(vb):
                if va[0] == "ptr" and vb[0] == "ptr" and va[1] == vb[1]:
                    env[k] = ("ptr", va[1], ("phi", k, hash((va, vb)) & 0xffffffff, ""))
                else:
                    env[k] = ("phi", k, hash((va, vb)) & 0xffffffff, "")
                continue
            la, ha = rng(va)
            lb, hb = rng(vb)
            p = ("phi", k, hash((va, vb)) & 0xffffffff, tag)
            env[k] = p
        facts = tuple(f for f in a.facts if f in b.facts)
        for f in a.facts:
            if f not in facts and f[0] == "le" and entails_le(b, f[1], 3):
                facts += (f,)
        for f in b.facts:
            if f not in facts and f[0] == "le" and entails_le(a, f[1], 3):
                facts += (f,)
        opq = a.opq + tuple(o for o in b.opq if o not in a.opq)
        if ("joined",) not in opq:
            opq += (("joined",),)      # the conditions of the two paths are merged: no longer one exact path
        s = St(env, facts, a.ev if a.ev == b.ev else None, opq)
        # bounds of merged values
        for k, v in env.items():
            if isinstance(v, tuple) and v and v[0] == "phi":
                va = a.env.get(k) or self.default(a, k)
                vb = b.env.get(k) or self.default(b, k)
                if va and vb and is_num(va) and is_num(vb):
                    la, ha = rng(va)
                    lb, hb = rng(vb)
                    nf = []
                    if la is not None and lb is not None:
                        nf.append(("le", sub(C(min(la, lb)), v)))
                    if ha is not None and hb is not None:
                        nf.append(("le", sub(v, C(max(ha, hb)))))
                    for f in nf:
                        if not entails_le(s, f[1], 1):
                            s.facts += (f,)
        return s

    def default(self, st, k):
        if k[0] == "size":
            return self.size_of(st, k[1])
        if k[0] == "log":
            return (("mem", k[1], self.epoch(st, k[1])),)
        if k[0] in ("fld", "el", "g", "deref"):
            return ("ld", k, self.epoch(st, k), "")
        return None

    # ---- functions
    def call_body(self, body, st, this, args, node=None, captures=None):
        """Analyses body with argument values; args are rvalue terms or ('ref', loc).  Returns [(st, val)]."""
        self.visited_fns.add(body.fn.u)
        fr = (self.frame(), node.get("id", node.get("nid", 0)) if node else 0, body.fn.u if body.lam else body.fn.u)
        fr = hash(fr) & 0xffffffffffff
        st = st.copy()
        for p, a in zip(body.ps, args):
            loc = ("v", fr, p.id, p.n)
            for k in [k for k in st.env if self.is_under(k, loc)]:
                del st.env[k]
            if a[0] == "ref":
                if p.t.k in ("ref", "rref"):
                    st.env[loc] = a
                else:
                    v = self.load(st, a[1], p.t)
                    st = self.store(st, loc, v, p.t)
            elif a[0] == "obj":
                if p.t.k in ("ref", "rref"):
                    st.env[loc] = ("ref", a[1])
                else:
                    st = self.copy_obj(st, a[1], loc)
            else:
                st.env[loc] = a
        if captures:
            for vloc, val in captures:
                st.env[("v", fr, vloc.id, vloc.n)] = val
        self.stack.append((body.fn.u, fr, this, body))
        try:
            states = [st]
            if body.inits is not None:
                for i in body.inits:
                    nst = []
                    for s in states:
                        nst += self.ctor_init(s, this, i, body)
                    states = self.reduce(nst)
            rets = []
            for s in states:
                o = self.exec(body.s, s)
                rets += o.r
                rets += [(x, ("void",)) for x in o.n]
            return self.reduce_ret(rets)
        finally:
            self.stack.pop()

    def ctor_init(self, st, this, i, body):
        if i.get("m"):
            loc = ("fld", this, i["m"])
            if i["e"] is None:
                return [st]
            return [self.init_loc(s, loc, v, i["e"].get("t")) for s, v in self.eval(i["e"], st)]
        if i["e"] is not None:
            # base or delegating constructor on the same object
            e = i["e"]
            if e.get("k") == "ctor":
                return [s for s, _ in self.construct(e, st, this)]
            return [s for s, _ in self.eval(e, st)]
        return [st]

    def init_loc(self, st, loc, v, t=None):
        s = st.copy()
        for k in [k for k in s.env if self.is_under(k, loc)]:
            del s.env[k]
        if v[0] == "obj":
            return self.copy_obj(s, v[1], loc)
        s.env[loc] = v
        return s

    def entry_args(self, body, st, overrides=None):
        overrides = overrides or {}
        args = []
        for i, p in enumerate(body.ps):
            if i in overrides:
                args.append(overrides[i])
                continue
            if p.n in overrides:
                args.append(overrides[p.n])
                continue
            t = p.t
            b = t.noref
            if t.k in ("ref", "rref") or (b.k in ("rec", "arr") and not self.scalar_rec(b)):
                args.append(("ref", ("p", p.n or str(i))) if t.k in ("ref", "rref") else ("obj", ("p", p.n or str(i))))
            elif b.k == "ptr" and b.p is not None and (b.p.is_int or b.p.k == "float"):
                args.append(("ptr", ("p", p.n or str(i)), ZERO))
            else:
                args.append(("par", p.n or str(i), tag_of(t)))
        return args

    def analyse(self, body, overrides=None, this=("this",), ev=None, st=None):
        """Entry point: returns (returns [(St,val)], throws [(St,Exc)])."""
        st = st or St(ev=ev)
        self.exc = [[]]
        self.steps = 0
        args = self.entry_args(body, st, overrides)
        rets = self.call_body(body, st, this, args)
        thr = self.exc.pop()
        return rets, thr

    # ---- statements
    def exec_list(self, stmts, states):
        """Runs statements over a list of states; returns Out.  Locals with destructors are released in reverse order."""
        out = Out()
        cur = list(states)
        for s in stmts:
            if not cur:
                break
            nxt = []
            for st in cur:
                o = self.exec(s, st)
                nxt += o.n
                out.b += o.b
                out.c += o.c
                out.r += o.r
            cur = self.reduce(nxt)
        out.n = cur
        out.r = self.reduce_ret(out.r)
        return out

    def dtor_vars(self, stmts):
        res = []
        for s in stmts:
            if s and s["k"] == "decl":
                for d in s["d"]:
                    t = d["v"].t
                    if d.get("st") or t is None or t.k != "rec":
                        continue
                    res.append(d["v"])
        return res

    def run_dtors(self, st, vars_):
        """Destructors of the locals that are alive in st."""
        states = [st]
        for v in reversed(vars_):
            loc = self.loc_of_var(v, self.frame())
            nst = []
            for s in states:
                if ("alive", loc) not in s.env:
                    nst.append(s)
                    continue
                s = s.copy()
                del s.env[("alive", loc)]
                if self.on_dtor:
                    r = self.on_dtor(self, s, v, loc)
                    if r is not None:
                        nst += r
                        continue
                rec = self.M.records.get(v.t.ru)
                if rec and rec.dtor and rec.dtor.u in self.M.bodies and len(self.stack) < self.DEPTH:
                    rets = self.call_body(self.M.bodies[rec.dtor.u], s, loc, [], {"id": -v.id})
                    nst += [x for x, _ in rets]
                else:
                    nst.append(s)
            states = nst
        return states

    def exec(self, s, st):
        out = Out()
        if s is None:
            out.n = [st]
            return out
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise AnalysisError("analysis budget exceeded in %s" % (self.stack[-1][3].fn.n if self.stack else "?"))
        k = s["k"]
        if k == "blk":
            dv = self.dtor_vars(s["s"])
            if not dv:
                return self.exec_list(s["s"], [st])
            self.exc.append([])
            o = self.exec_list(s["s"], [st])
            thr = self.exc.pop()
            # a throwing destructor during normal exit propagates
            res = Out()
            for x in o.n:
                res.n += self.run_dtors(x, dv)
            for x in o.b:
                res.b += self.run_dtors(x, dv)
            for x in o.c:
                res.c += self.run_dtors(x, dv)
            for x, v in o.r:
                res.r += [(y, v) for y in self.run_dtors(x, dv)]
            for x, e in thr:
                self.exc.append([])
                ys = self.run_dtors(x, dv)
                self.exc.pop()
                for y in ys:
                    self.throw(y, e)
            return res
        if k == "expr":
            out.n = self.reduce([x for x, _ in self.eval(s["e"], st)])
            return out
        if k == "decl":
            states = [st]
            for d in s["d"]:
                nst = []
                for x in states:
                    nst += self.declare(d, x)
                states = self.reduce(nst)
            out.n = states
            return out
        if k == "if":
            states = [st]
            if s.get("i"):
                states = self.exec(s["i"], st).n
            cvd = s.get("cv") if isinstance(s.get("cv"), dict) else None
            if cvd:
                states = [y for x in states for y in self.declare(cvd, x)]
            T, F = [], []
            for x in states:
                t, f = self.cond(s["c"], x)
                T += t
                F += f
            T, F = self.reduce(T), self.reduce(F)
            a = self.exec_list([s["a"]], T) if T else Out()
            b = self.exec_list([s["b"]], F) if F else Out()
            out.n = self.reduce(a.n + b.n)
            out.b, out.c, out.r = a.b + b.b, a.c + b.c, a.r + b.r
            return out
        if k == "ret":
            if s["e"] is None:
                out.r = [(st, ("void",))]
                return out
            body = self.stack[-1][3] if self.stack else None
            rt = body.fn.r if body is not None else None
            if rt is not None and rt.k in ("ref", "rref"):
                for x, loc in self.lval(s["e"], st):
                    out.r.append((x, ("ref", loc)))
                return out
            for x, v in self.eval(s["e"], st):
                if v[0] == "obj":
                    # move the result out of the frame
                    t = ("tmp", self.frame(), "ret")
                    if v[1] != t:
                        x = self.init_loc(x, t, v)
                    v = ("obj", t)
                out.r.append((x, v))
            return out
        if k == "break":
            out.b = [st]
            return out
        if k == "cont":
            out.c = [st]
            return out
        if k == "nop":
            out.n = [st]
            return out
        if k == "while":
            return self.loop(s, st, s["c"], None, s["s"], cvd=s.get("cv") if isinstance(s.get("cv"), dict) else None)
        if k == "do":
            o = self.exec(s["s"], st)
            out.r += o.r
            cur = self.reduce(o.n + o.c)
            out.n += o.b
            for x in cur:
                o2 = self.loop(s, x, s["c"], None, s["s"])
                out.n += o2.n
                out.r += o2.r
            return out
        if k == "for":
            states = [st]
            if s.get("i"):
                states = self.exec(s["i"], st).n
            for x in states:
                o = self.loop(s, x, s.get("c"), s.get("n"), s["s"])
                out.n += o.n
                out.r += o.r
            return out
        if k == "rfor":
            return self.range_for(s, st)
        if k == "switch":
            return self.switch(s, st)
        if k in ("case", "default"):
            return self.exec(s["s"], st)
        if k == "try":
            return self.try_(s, st)
        if k == "label":
            return self.exec(s["s"], st)
        self.unknown.append((s, "statement " + k + str(s.get("sc", ""))))
        out.n = [st]
        return out

    def declare(self, d, st):
        v = d["v"]
        loc = self.loc_of_var(v, self.frame())
        if d.get("st"):
            loc = ("g", v.u or v.n + str(v.id), v.n)
            # a static local keeps its value between calls: the initialiser gives it only when the value is const
            # and the same in every call, i.e. does not depend on this call's objects
            if (v.t.c or v.t.noref.c) and d.get("i") and not frame_dependent(d["i"]):
                return self.bind_decl(d, st, loc)
            return [st]
        return self.bind_decl(d, st, loc)

    def bind_decl(self, d, st, loc):
        v = d["v"]
        res = []
        t = v.t
        s0 = st.copy()
        for k in [k for k in s0.env if isinstance(k, tuple) and k[0] != "ep" and self.is_under(k, loc)]:
            del s0.env[k]
        s0.env.pop(("ep", loc), None)
        if "bind" in d:
            init = d.get("i")
            if init is None:
                return [s0]
            outs = []
            if t.k in ("ref", "rref"):
                pairs = self.lval(init, s0)
            else:
                pairs = []
                for s, val in self.eval(init, s0):
                    if val[0] == "obj":
                        s = self.copy_obj(s, val[1], loc)
                        pairs.append((s, loc))
                    elif val[0] == "ref":
                        pairs.append((s, val[1]))
                    else:
                        s = s.set(loc, val)
                        pairs.append((s, loc))
            rt = t.noref
            names = None
            if rt is not None and rt.r in ("std::pair",):
                names = ["first", "second"]
            elif rt is not None and rt.ru in self.M.records and self.M.records[rt.ru].f:
                names = [f["n"] for f in self.M.records[rt.ru].f]
            for s, l in pairs:
                s = s.copy()
                for i, b in enumerate(d["bind"]):
                    bl = self.loc_of_var(b, self.frame())
                    s.env[bl] = ("ref", ("fld", l, names[i] if names and i < len(names) else "get%d" % i))
                outs.append(s)
            return outs
        if d.get("i") is None:
            if t.k == "arr":
                s0.env[("log", loc)] = (("mem", loc, 0, tag_of(t.p)),)
                if t.n is not None:
                    s0.env[("size", loc)] = C(t.n)
            elif t.k == "rec":
                s0.env[("alive", loc)] = ("c", 1)
            return [s0]
        if t.k in ("ref", "rref"):
            for s, l in self.lval(d["i"], s0):
                s = s.copy()
                s.env[loc] = ("ref", l)
                res.append(s)
            return res
        e = d["i"]
        if e.get("k") == "ctor" and t.k == "rec" and not self.scalar_rec(t):
            for s, _ in self.construct(e, s0, loc):
                s = s.copy()
                s.env[("alive", loc)] = ("c", 1)
                if t.r == "std::array" and t.ta and isinstance(t.ta[1], int) and ("size", loc) not in s.env:
                    s.env[("size", loc)] = C(t.ta[1])
                res.append(s)
            return res
        for s, val in self.eval(e, s0):
            s = self.init_loc(s, loc, val, t)
            if t.k == "arr" and t.n is not None and ("size", loc) not in s.env:
                s.env[("size", loc)] = C(t.n)
            if t.k == "rec":
                s.env[("alive", loc)] = ("c", 1)
            res.append(s)
        return res

    def switch(self, s, st):
        out = Out()
        states = [st]
        if s.get("i"):
            states = self.exec(s["i"], st).n
        if isinstance(s.get("cv"), dict):
            states = [y for x in states for y in self.declare(s["cv"], x)]
        items = []   # flattened: ('case', value|None, isdefault) markers and statements

        def flat(n):
            if n is None:
                return
            if n["k"] == "blk":
                for x in n["s"]:
                    flat(x)
            elif n["k"] == "case":
                items.append(("case", n.get("v"), n.get("v2")))
                flat_sub(n["s"])
            elif n["k"] == "default":
                items.append(("default", None, None))
                flat_sub(n["s"])
            else:
                items.append(("stmt", n, None))

        def flat_sub(n):
            if n is not None and n["k"] in ("case", "default"):
                flat(n)
            elif n is not None:
                items.append(("stmt", n, None))

        body = s["s"]
        for x in (body["s"] if body and body["k"] == "blk" else [body]):
            flat(x)
        cases = [i for i in items if i[0] == "case"]
        entry = {}
        default_states = []
        for x in states:
            for y, v in self.eval(s["c"], x):
                rest = [y]
                for c in cases:
                    nrest = []
                    if c[1] is None:
                        continue
                    for r in rest:
                        if c[2] is not None:
                            cond = ("and", ("le", sub(C(c[1]), v)), ("le", sub(v, C(c[2]))))
                        else:
                            cond = self.eq_term(r, v, C(c[1]))
                        entry.setdefault((c[1], c[2]), []).extend(assume(r, cond, True))
                        nrest += assume(r, cond, False)
                    rest = nrest
                # an enum class switch that covers every enumerator has no other value
                default_states += rest
        has_default = any(i[0] == "default" for i in items)
        dv = self.dtor_vars([i[1] for i in items if i[0] == "stmt"])
        cur = []
        for it in items:
            if it[0] == "case":
                cur = self.reduce(cur + entry.get((it[1], it[2]), []))
            elif it[0] == "default":
                cur = self.reduce(cur + default_states)
            else:
                o = self.exec_list([it[1]], cur) if cur else Out()
                cur = o.n
                out.n += o.b
                out.c += o.c
                out.r += o.r
        out.n += cur
        if not has_default:
            out.n += default_states
        out.n = self.reduce(out.n)
        return out

    def try_(self, s, st):
        out = Out()
        self.exc.append([])
        o = self.exec(s["s"], st)
        thr = self.exc.pop()
        out.n, out.b, out.c, out.r = list(o.n), list(o.b), list(o.c), list(o.r)
        # group thrown states per handler
        buckets = [[] for _ in s["h"]]
        for x, e in thr:
            caught = False
            for i, h in enumerate(s["h"]):
                m = self.catches(h, e)
                if m == "yes":
                    buckets[i].append((x, e))
                    caught = True
                    break
                if m == "maybe":
                    buckets[i].append((x, e))
            if not caught:
                self.throw(x, e)
        for h, b in zip(s["h"], buckets):
            seen = set()
            bystate = []
            for x, e in b:
                key = (x.key(), e.type.s if e.type else None, e.val)
                if key not in seen:
                    seen.add(key)
                    bystate.append((x, e))
            if len(bystate) > self.MAXP:
                groups = {}
                for x, e in bystate:
                    groups.setdefault((e.type.s if e.type else None, x.ev), []).append((x, e))
                bystate = []
                for g in groups.values():
                    xs = self.reduce([x for x, _ in g], max(1, self.MAXP // len(groups)))
                    bystate += [(x, g[0][1]) for x in xs]
            for x, e in bystate:
                x = x.copy()
                if h["v"] is not None:
                    loc = self.loc_of_var(h["v"], self.frame())
                    x.env[loc] = ("ref", e.val[1]) if e.val and e.val[0] == "obj" else ("obj", ("exc", loc))
                self.cur_exc = getattr(self, "cur_exc", [])
                self.cur_exc.append(e)
                o = self.exec(h["s"], x)
                self.cur_exc.pop()
                out.n += o.n
                out.b += o.b
                out.c += o.c
                out.r += o.r
        out.n = self.reduce(out.n)
        return out

    def catches(self, h, e):
        if h["t"] is None:
            return "yes"
        if e.type is None:
            # unknown exception derived from std::exception
            if h["t"].r == "std::exception":
                return "yes"
            return "maybe"
        t = e.type
        names = self.M.base_names(t.ru) if t.ru else set()
        if t.ru == h["t"].ru and t.ru or t.s == h["t"].s or h["t"].r in names:
            return "yes"
        if t.r == "std::exception" and e.why == "any":
            return "maybe"
        return "no"

    # ---- loops
    def loop(self, node, st, condE, incE, body, cvd=None, pre=None):
        """while/for.  pre: extra callback(st)->[st] binding the loop variable (range-for)."""
        out = Out()

        def head(x):
            xs = [x]
            if cvd:
                xs = [y for z in xs for y in self.declare(cvd, z)]
            if condE is None:
                return xs, []
            T, F = [], []
            for y in xs:
                t, f = self.cond(condE, y)
                T += t
                F += f
            return T, F

        def once(xs):
            """One iteration from states where the condition holds: (next heads, breaks, returns)."""
            o = Out()
            ys = xs
            if pre:
                ys = [z for y in ys for z in pre(y)]
            o1 = self.exec_list([body], ys)
            nx = self.reduce(o1.n + o1.c)
            if incE is not None:
                nx = self.reduce([z for y in nx for z, _ in self.eval(incE, y)])
            return nx, o1.b, o1.r

        # 1. full unrolling while the condition is decided by constants
        cur = [st]
        n = 0
        while n < self.UNROLL and cur:
            T, F = [], []
            decided = True
            self.exc.append([])
            for x in cur:
                t, f = head(x)
                T += t
                F += f
                if t and f and not self.fork_loops:
                    decided = False
            thr = self.exc.pop()
            if not decided or (n == 0 and not self.fork_loops and T and not self.const_trip(condE, st, cur)):
                break
            for t in thr:
                self.exc[-1].append(t)
            out.n += F
            if not T:
                cur = []
                break
            nx, br, rt = once(self.reduce(T))
            out.n += br
            out.r += rt
            cur = nx
            n += 1
        if not cur:
            out.n = self.reduce(out.n)
            return out
        # 2. fixpoint
        bykey = {}
        for x in self.reduce(cur, 4):
            bykey.setdefault(x.ev, []).append(x)
        starts = []
        for ev, xs in bykey.items():
            a = xs[0]
            for b in xs[1:]:
                a = self.join(a, b)
            starts.append(a)
        if self.peel:
            # the first iteration once more, exactly: early exits are then free of loop approximations
            for a in starts:
                self.exc.append([])
                T0, _ = head(a)
                self.exc.pop()
                if T0:
                    _, br, rt = once(self.reduce(T0))
                    out.n += br
                    out.r += rt
        done_ev = set()
        work = list(starts)
        rounds = 0
        while work and rounds < 12:
            s0 = work.pop(0)
            if s0.ev in done_ev:
                continue
            done_ev.add(s0.ev)
            rounds += 1
            newev = self.loop_fix(node, s0, head, once, out)
            for x in newev:
                if x.ev not in done_ev:
                    work.append(x)
        out.n = self.reduce(out.n)
        out.r = self.reduce_ret(out.r)
        return out

    def const_trip(self, condE, st, cur):
        return True

    def loop_fix(self, node, s0, head, once, out):
        nid0 = node.get("id", 0)
        j = 0
        while True:      # a name for this execution of the loop, unused in the state so far
            nid = "%d_%d_%d" % (nid0, self.frame() % 100000, j)
            K = ("ind", "k" + nid, "sz")
            if not any(isinstance(v, tuple) and (loop_varying(v, nid) or mentions(v, K)) for v in s0.env.values()) and \
                    not any(loop_varying(f, nid) or mentions(f, K) for f in s0.facts):
                break
            j += 1
        # variables modified by the body
        changed = set()
        for _ in range(6):
            h = self.havoc_keys(s0, changed, nid)
            self.exc.append([])
            T, F = head(h)
            nx, br, rt = once(self.reduce(T)) if T else ([], [], [])
            self.exc.pop()
            new = set()
            for y in nx:
                for k2 in set(y.env) | set(h.env):
                    if y.env.get(k2) != h.env.get(k2) and k2 not in changed and self.outlives(k2, s0):
                        new.add(k2)
            if not new:
                break
            changed |= new
        # inductions
        ind = {}
        for k2 in changed:
            if k2[0] in ("log", "ep", "alive", "from"):
                continue
            hv = h.env.get(k2)
            iv = s0.env.get(k2)
            if iv is None:
                iv = self.default(s0, k2)
            if hv is None or iv is None:
                continue
            steps = set()
            for y in nx:
                yv = y.env.get(k2)
                if yv is None:
                    steps.add(None)
                    continue
                if hv[0] == "ptr" and yv[0] == "ptr" and iv[0] == "ptr" and hv[1] == yv[1] == iv[1]:
                    d = sub(yv[2], hv[2])
                elif is_num(hv) and is_num(yv):
                    if yv[0] == "bits" and yv[2] == 0:
                        top = C(2 ** yv[3] - 1)
                        if entails_le(s0, scale(iv, -1)) and entails_le(s0, sub(iv, top)):      # an unsigned variable of that width
                            y = St(y.env, y.facts + (("le", scale(hv, -1)), ("le", sub(hv, top))), y.ev, y.opq)
                            for f in y.facts:
                                if (f[0] == "ne" and f[1] in (hv, scale(hv, -1))) or (f[0] == "b" and f[1] == hv and f[2]):
                                    y = St(y.env, y.facts + (("le", sub(ONE, hv)),), y.ev, y.opq)
                                    break
                        for x in (yv[1], sub(yv[1], C(2 ** yv[3]))):
                            if entails_le(y, scale(x, -1)) and entails_le(y, sub(x, C(2 ** yv[3] - 1))):
                                yv = x   # the machine operation did not wrap
                                break
                    d = sub(yv, hv)
                else:
                    d = None
                steps.add(d)
            if len(steps) == 1:
                d = steps.pop()
                if d is not None and is_c(d):
                    ind[k2] = (iv, d[1])
                elif d is not None and is_num(d) and self.loop_invariant(d, h, changed):
                    ind[k2] = (iv, d)
        tags = {}
        for k2 in changed:
            if k2[0] in ("log", "ep", "alive", "from") or k2 in ind:
                continue
            iv = s0.env.get(k2)
            vs = [iv if iv is not None else self.default(s0, k2)] + [y.env.get(k2) for y in nx]
            if any(v is None or not is_num(v) or None in rng(v) for v in vs):
                continue
            for tg in ("b", "u8", "u16", "u32", "u64"):
                if all(rng(v)[0] >= RANGES[tg][0] and rng(v)[1] <= RANGES[tg][1] for v in vs):
                    tags[k2] = tg
                    break
        h = self.havoc_keys(s0, changed, nid, tags)
        h = h.copy()
        for k2, (iv, d) in ind.items():
            dk = scale(K, d) if isinstance(d, int) else mul(K, d)
            if iv[0] == "ptr":
                h.env[k2] = ("ptr", iv[1], add(iv[2], dk))
            else:
                h.env[k2] = add(iv, dk)
        h.facts = h.facts + (("le", scale(K, -1)),)
        for k2, (iv, d) in ind.items():
            # the variable stays within its type
            v = h.env[k2]
            if v[0] != "ptr" and isinstance(iv[-1], str) and iv[-1] in RANGES:
                lo, hi = RANGES[iv[-1]]
                h.facts += tuple(("le", f) for f in (sub(C(lo), v), sub(v, C(hi))) if rng(f)[1] is None or rng(f)[1] > 0)
        logs = [k2 for k2 in changed if k2[0] == "log"]
        for k2 in logs:
            h.env[k2] = (("mem", ("loopmem", nid, k2[1]), 0),)
        T, F = head(h)
        nx, br, rt = once(self.reduce(T)) if T else ([], [], [])
        self.loops.append((nid0, s0, h, T, nx, K))
        out.n += br
        out.r += rt
        # monotone variables keep a one-sided bound
        # exits: zero iterations
        self.exc.append([])
        T0, F0 = head(s0)
        self.exc.pop()
        out.n += F0
        # exits after k >= 1 iterations: condition true at k-1, false at k
        prevfacts = None
        if T:
            fs = None
            for t in T:
                extra = [f for f in t.facts if f not in h.facts]
                fs = set(extra) if fs is None else fs & set(extra)
            prevfacts = [self.subst_fact(f, {K: sub(K, ONE)}) for f in fs if not loop_varying(f, nid)]
        sums = {}
        for k2 in logs:
            sums[k2] = self.summarise_log(k2, s0, h, nx, K, nid)
        if nx:   # the body can complete
            for f in F:
                g = f
                ok = True
                for pf in prevfacts or []:
                    g2 = add_fact(g, pf) if pf else g
                    if g2 is None:
                        ok = False
                        break
                    g = g2
                if not ok:
                    continue
                g = add_fact(g, ("le", sub(ONE, K)))
                if g is None:
                    continue
                g = g.copy()
                for k2 in logs:
                    g.env[k2] = sums[k2] if sums[k2] else (("mem", ("loopout", nid, k2[1]), 0),)
                g = self.solve_k(g, K)
                out.n.append(g)
            # breaks inside the loop see partially written logs already
        return [y for y in nx if y.ev != s0.ev]

    def solve_k(self, g, K):
        """When an equality pins K, substitute it everywhere."""
        val = None
        for f in g.facts:
            if f[0] == "eq":
                k, d = lin_parts(f[1])
                if K in d and abs(d[K]) == 1:
                    val = scale(add(f[1], scale(K, -d[K])), -d[K])
                    break
        if val is None:
            # two inequalities  K >= e  and  K <= e
            les = [f[1] for f in g.facts if f[0] == "le"]
            for l in les:
                k, d = lin_parts(l)
                if d.get(K) == 1:
                    e = scale(add(l, scale(K, -1)), -1)   # K <= e
                    if entails_le(g, sub(e, K), 3):
                        val = e
                        break
        if val is None or mentions(val, K):
            return g
        m = {K: val}
        s = St({self.sub_key(k, m): self.sub_val(v, m) for k, v in g.env.items()}, tuple(self.subst_fact(f, m) for f in g.facts), g.ev, g.opq)
        s.facts = tuple(f for f in s.facts if not (f[0] in ("le", "eq", "ne") and f[1][0] == "c"))
        s.env[("exitk", K[1])] = val
        return s

    def sub_key(self, k, m):
        return substitute(k, m)

    def sub_val(self, v, m):
        return substitute(v, m) if isinstance(v, tuple) else v

    def subst_fact(self, f, m):
        return tuple(substitute(x, m) if isinstance(x, tuple) else x for x in f)

    def loop_invariant(self, d, h, changed):
        vals = {h.env.get(k) for k in changed}
        return not any(v is not None and mentions(d, v) for v in vals)

    def summarise_log(self, k2, s0, h, nx, K, nid):
        """Closed form of a container's contents after the loop when each iteration writes one affine element."""
        base = h.env[k2]
        init = s0.env.get(k2)
        if init is None:
            init = (("mem", k2[1], self.epoch(s0, k2[1])),)
        pats = set()
        for y in nx:
            l = y.env.get(k2)
            if l is None or l[:len(base)] != base:
                return None
            pats.add(l[len(base):])
        if len(pats) != 1:
            return None
        ws = pats.pop()
        if len(ws) != 1 or ws[0][0] != "w":
            if not ws:
                return init
            return None
        idx, val = ws[0][1], ws[0][2]
        k, d = lin_parts(idx)
        if d.get(K) != 1:
            return None
        lo = substitute(idx, {K: ZERO})
        if mentions(lo, K) or loop_varying(val, nid):
            return None
        el = ("ind", "#el", "sz")
        v = substitute(val, {K: el})
        return init + (("rng", lo, K, ("fn", v), ZERO),)

    def outlives(self, k, s0):
        """Does the location exist before the loop (rather than being local to its body)?"""
        r = k
        while r[0] in ("fld", "el", "size", "log", "ep", "str", "alive", "from", "sizek", "hask", "ents", "mapent"):
            r = r[1]
        if r[0] == "v":
            return any(isinstance(x, tuple) and self.root(x) == r for x in s0.env)
        return r[0] not in ("tmp",)

    def root(self, r):
        while r[0] in ("fld", "el", "size", "log", "ep", "str", "alive", "from", "sizek", "hask", "ents", "mapent") and isinstance(r[1], tuple):
            r = r[1]
        return r

    def havoc_keys(self, s0, keys, nid, tags=None):
        s = s0.copy()
        for k in keys:
            if k[0] == "log":
                s.env[k] = (("mem", ("loopmem", nid, k[1]), 0),)
            elif k[0] == "ep":
                s.env[k] = self.widen_tag_for(("loop", nid, k))
            elif k[0] in ("alive",):
                if k not in s0.env:
                    s.env.pop(k, None)
            elif k[0] == "from":
                s.env.pop(k, None)
            else:
                iv = s0.env.get(k)
                if iv is None:
                    iv = self.default(s0, k)
                tag = ""
                if isinstance(iv, tuple) and iv:
                    if iv[0] == "ref":
                        s.env[k] = ("ref", ("unk", "loopref", nid))
                        continue
                    if iv[0] == "ptr":
                        s.env[k] = ("ptr", iv[1], ("sym", "loop", nid, k, ""))
                        continue
                    if isinstance(iv[-1], str) and iv[-1] in RANGES:
                        tag = iv[-1]
                if k[0] == "size":
                    tag = "sz"
                s.env[k] = ("sym", "loop", nid, k, tag or (tags or {}).get(k, ""))
        return s

    def range_for(self, s, st):
        out = Out()
        states = [st]
        if s.get("i"):
            states = self.exec(s["i"], st).n
        rt = s["r"].get("t")
        vt = s["d"]["v"].t
        for x in states:
            if s["r"].get("k") == "il":
                # braced list: unroll
                o = self.rf_unroll(s, [x], s["r"]["a"])
                out.n += o.n
                out.r += o.r
                continue
            for y, rl in self.lval(s["r"], x):
                rl = self.deref_loc(y, rl)
                sv = y.env.get(rl)
                if isinstance(sv, tuple) and sv and sv[0] == "s":
                    y = y.copy()
                g = self.M.globals.get(rl[1]) if rl[0] == "g" else None
                if g and g["const"] and g["i"] and g["i"].get("k") == "il" and len(g["i"]["a"]) <= 24 and rt.noref.k == "arr":
                    o = self.rf_unroll(s, [y], g["i"]["a"])
                    out.n += o.n
                    out.r += o.r
                    continue
                if not self.is_seq(rt):
                    from stdmodels import known_entries
                    base = y.env.get(("entries", rl))       # the entries are kept by a check as a sequence
                    if base is not None:
                        o = self.rf_entries(s, y, base, y.env[("size", base)][1], "el")
                        out.n += o.n
                        out.r += o.r
                        continue
                    ke = known_entries(self, y, rl)
                    if ke is not None:
                        o = self.rf_entries(s, ke[0], rl, len(ke[1]))
                        out.n += o.n
                        out.r += o.r
                        continue
                sz = self.size_of(y, rl, rt)
                seq = self.is_seq(rt) or is_c(sz) and ("log", rl) in y.env and (rt.noref.r or "") in ("std::list", "std::__cxx11::list", "std::deque", "std::set", "std::multiset")
                var = s["d"]["v"]
                vloc = self.loc_of_var(var, self.frame())
                cnt = ("rf", self.frame(), s["id"])
                y = y.copy()
                y.env[cnt] = ZERO

                def pre(z, rl=rl, vloc=vloc, var=var, seq=seq):
                    i = z.env[cnt]
                    z = z.copy()
                    for k in [k for k in z.env if self.is_under(k, vloc)]:
                        del z.env[k]
                    el = ("el", rl, i if seq else ("app", "nth", rl_term(rl), i))
                    if "bind" in s["d"]:
                        rtt = var.t.noref
                        names = ["first", "second"] if rtt is not None and rtt.r == "std::pair" else None
                        if names is None and rtt is not None and rtt.ru in self.M.records:
                            names = [f["n"] for f in self.M.records[rtt.ru].f]
                        for j, b in enumerate(s["d"]["bind"]):
                            z.env[self.loc_of_var(b, self.frame())] = ("ref", ("fld", el, names[j] if names and j < len(names) else "get%d" % j))
                        return [z]
                    if var.t.k in ("ref", "rref"):
                        z.env[vloc] = ("ref", el)
                    else:
                        v = self.load(z, el, var.t)
                        if v[0] == "obj":
                            z = self.copy_obj(z, v[1], vloc)
                            z.env[("alive", vloc)] = ("c", 1)
                        else:
                            z.env[vloc] = v
                    z.env[cnt] = add(i, ONE)
                    return [z]

                cond = {"k": "$lt", "cnt": cnt, "sz": sz, "l": s["l"], "rl": rl, "rt": rt}
                o = self.loop(s, y, cond, None, s["s"], pre=pre)
                out.n += o.n
                out.r += o.r
        out.n = self.reduce(out.n)
        return out

    def is_seq(self, t):
        t = t.noref
        return t.k == "arr" or (t.r or "") in ("std::vector", "std::array", "std::basic_string", "std::deque", "std::initializer_list", "std::span")

    def rf_entries(self, s, st, rl, n, kind="mapent"):
        """Range-for over a map whose entries are known."""
        out = Out()
        var = s["d"]["v"]
        vloc = self.loc_of_var(var, self.frame())
        cur = [st]
        for i in range(n):
            el = ("mapent", rl, i) if kind == "mapent" else ("el", rl, C(i))
            nst = []
            for z in cur:
                z = z.copy()
                for k in [k for k in z.env if self.is_under(k, vloc)]:
                    del z.env[k]
                if "bind" in s["d"]:
                    for b, f in zip(s["d"]["bind"], ("first", "second")):
                        z.env[self.loc_of_var(b, self.frame())] = ("ref", ("fld", el, f))
                elif var.t.k in ("ref", "rref"):
                    z.env[vloc] = ("ref", el)
                else:
                    z = self.copy_obj(z, el, vloc)
                    z.env[("alive", vloc)] = ("c", 1)
                nst.append(z)
            o = self.exec_list([s["s"]], nst)
            out.n += o.b
            out.r += o.r
            cur = self.reduce(o.n + o.c)
        out.n += cur
        return out

    def rf_unroll(self, s, states, elems):
        out = Out()
        var = s["d"]["v"]
        vloc = self.loc_of_var(var, self.frame())
        cur = states
        for e in elems:
            nst = []
            for x in cur:
                for y, v in self.eval(e, x):
                    nst.append(self.init_loc(y, vloc, v))
            o = self.exec_list([s["s"]], nst)
            out.n += o.b
            out.r += o.r
            cur = self.reduce(o.n + o.c)
        out.n += cur
        return out

    # ---- conditions
    def cond(self, e, st):
        k = e["k"]
        if k == "$lt":
            i = st.env[e["cnt"]]
            c = ("le", add(sub(i, self.size_of(st, e["rl"], e["rt"])), ONE))
            return assume(st, c, True), assume(st, c, False)
        if "cv" in e and e["k"] not in ("call",) and not isinstance(e.get("cv"), dict):
            return ([st], []) if e["cv"] else ([], [st])
        if k == "un" and e["op"] == "!":
            t, f = self.cond(e["e"], st)
            return f, t
        if k == "bin" and e["op"] == "&&":
            t, f = self.cond(e["a"], st)
            T, F = [], list(f)
            for x in self.reduce(t):
                a, b = self.cond(e["b"], x)
                T += a
                F += b
            return self.reduce(T), self.reduce(F)
        if k == "bin" and e["op"] == "||":
            t, f = self.cond(e["a"], st)
            T, F = list(t), []
            for x in self.reduce(f):
                a, b = self.cond(e["b"], x)
                T += a
                F += b
            return self.reduce(T), self.reduce(F)
        if k == "cast" and e["ck"] in ("IntegralToBoolean", "PointerToBoolean"):
            return self.cond(e["e"], st)
        T, F = [], []
        for x, v in self.eval(e, st):
            v = self.rv(x, v, e.get("t"))
            if has_unknown(v):
                x = St(x.env, x.facts, x.ev, x.opq + (v,))
            T += assume(x, v, True)
            F += assume(x, v, False)
        return T, F

    def rv(self, st, v, t=None):
        if v[0] == "ref":
            return self.load(st, v[1], t)
        return v

    # ---- expressions
    def eval(self, e, st):
        """[(st, rvalue)]; exceptions go to self.exc[-1]."""
        if e is None:
            return [(st, ("void",))]
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise AnalysisError("analysis budget exceeded in %s" % (self.stack[-1][3].fn.n if self.stack else "?"))
        k = e["k"]
        if "cv" in e and not isinstance(e["cv"], dict) and k != "call":
            return [(st, C(wrapc(e["cv"], e.get("t"))))]
        m = getattr(self, "e_" + k, None)
        if m is None:
            self.unknown.append((e, "expression " + k + " " + str(e.get("sc", ""))))
            states = [st]
            for a in e.get("a", []) if isinstance(e.get("a"), list) else []:
                states = [y for x in states for y, _ in self.eval(a, x)]
            return [(x, ("unk", k, e.get("id", 0))) for x in states]
        return m(e, st)

    def e_int(self, e, st):
        return [(st, C(wrapc(e["v"], e.get("t"))))]

    def e_float(self, e, st):
        return [(st, ("f", e["v"]))]

    def e_str(self, e, st):
        return [(st, ("s", e["v"]))]

    def e_null(self, e, st):
        return [(st, ZERO)]

    def e_enumc(self, e, st):
        return [(st, C(e["v"]))]

    def e_zero(self, e, st):
        t = e.get("t")
        if t is not None and t.k == "rec":
            return self.default_obj(e, st, t)
        return [(st, ZERO)]

    def default_obj(self, e, st, t):
        if (t.r or "").startswith("std::optional"):
            return [(st, ("none",))]
        if (t.r or "").startswith("std::basic_string"):
            return [(st, ("s", ""))]
        if self.scalar_rec(t):
            return [(st, ZERO)]
        loc = ("tmp", self.frame(), e.get("id", 0))
        return [(st, ("obj", loc))]

    def e_sizeof(self, e, st):
        return [(st, ("unk", "sizeof", e["id"]))]

    def e_typeid(self, e, st):
        return [(st, ("unk", "typeid", e["id"]))]

    def e_this(self, e, st):
        return [(st, ("addr", self.this_loc()))]

    def this_loc(self):
        for fr in reversed(self.stack):
            if fr[2] is not None:
                return fr[2]
        return ("this",)

    def e_ref(self, e, st):
        return [(x, self.load(x, l, e["t"])) for x, l in self.lval(e, st)]

    def e_mem(self, e, st):
        return [(x, self.load(x, l, e["t"])) for x, l in self.lval(e, st)]

    def e_sub(self, e, st):
        return [(x, self.load(x, l, e["t"])) for x, l in self.lval(e, st)]

    def e_fnref(self, e, st):
        return [(st, ("fn", e["f"].u))]

    def e_lambda(self, e, st):
        caps = []
        s = st
        for c in e["cap"]:
            if c.get("this"):
                continue
            if "i" in c and c["i"] is not None:
                rs = self.eval(c["i"], s)
                if rs:
                    s, v = rs[0]
                    caps.append((c["v"].id, c["v"].n, v if v[0] != "obj" else ("ref", v[1])))
                continue
            if "v" in c:
                loc = self.loc_of_var(c["v"], self.frame())
                if c.get("ref"):
                    l = self.deref_loc(s, loc)
                    caps.append((c["v"].id, c["v"].n, ("ref", l)))
                else:
                    v = self.load(s, loc, c["v"].t)
                    if v[0] == "obj":
                        cl = ("cap", e["nid"], self.frame(), c["v"].id)
                        s = self.init_loc(s, cl, v)
                        v = ("ref", cl)
                    caps.append((c["v"].id, c["v"].n, v))
        return [(s, ("lam", e["id"], tuple(caps), self.this_loc()))]

    def e_throw(self, e, st):
        if e.get("e") is None:
            ce = getattr(self, "cur_exc", None)
            if ce:
                self.throw(st, ce[-1])
            else:
                self.throw(st, Exc(None, None, e["l"], why="rethrow"))
            return []
        for x, v in self.eval(e["e"], st):
            if v[0] == "obj":
                el = ("excobj", e["id"])
                x = self.init_loc(x, el, v)
                v = ("obj", el)
            self.throw(x, Exc(e.get("tt"), v, e["l"], self.stack[-1][3].file if self.stack else None))
        return []

    def e_cond(self, e, st):
        T, F = self.cond(e["c"], st)
        res = []
        for x in T:
            res += self.eval(e["a"], x)
        for x in F:
            res += self.eval(e["b"], x)
        return res

    def e_new(self, e, st):
        loc = self.heap_loc(st, e["id"])
        if e.get("e") is not None and e["e"]["k"] == "ctor":
            return [(x, ("addr", loc)) for x, _ in self.construct(e["e"], self.clear(st, loc), loc)]
        t = e.get("t")
        if t is not None and t.p is not None and t.p.noref.k in ("int", "bool", "float", "enum"):
            return [(self.clear(st, loc), ("ptr", loc, ZERO))]
        return [(self.clear(st, loc), ("addr", loc))]

    def clear(self, st, loc):
        s = st.copy()
        for k in [k for k in s.env if isinstance(k, tuple) and self.is_under(k, loc)]:
            del s.env[k]
        return s

    def e_delete(self, e, st):
        return [(x, ("void",)) for x, _ in self.eval(e["e"], st)]

    def e_il(self, e, st):
        t = e.get("t")
        a = e["a"]
        if t is not None and t.k not in ("rec", "arr"):
            if len(a) == 1:
                return self.eval(a[0], st)
            if not a:
                return [(st, ZERO)]
        loc = ("tmp", self.frame(), e["id"])
        states = [self.clear(st, loc)]
        if t is not None and t.k == "rec" and "fs" in e and (t.r or "") not in ("std::array", "std::initializer_list"):
            for i, x in enumerate(a):
                nm = e["fs"][i] if i < len(e["fs"]) else None
                ns = []
                for s in states:
                    for y, v in self.eval(x, s):
                        if nm is None:
                            ns.append(self.copy_obj(y, v[1], loc) if v[0] == "obj" else y)
                        else:
                            ns.append(self.init_loc(y, ("fld", loc, nm), v))
                states = ns
            return [(s, ("obj", loc)) for s in states]
        if t is not None and (t.r == "std::array") and len(a) == 1 and a[0] and a[0].get("k") == "il":
            a = a[0]["a"]
        # array / initializer_list
        out = []
        log0 = (("fill", ZERO),)
        for s in states:
            s = s.copy()
            s.env[("log", loc)] = log0
            n = t.n if t is not None and t.k == "arr" and t.n is not None else len(a)
            if t is not None and t.r == "std::array" and t.ta and isinstance(t.ta[1], int):
                n = t.ta[1]
            s.env[("size", loc)] = C(n)
            out.append(s)
        states = out
        for i, x in enumerate(a):
            ns = []
            for s in states:
                for y, v in self.eval(x, s):
                    ns.append(self.store_new_el(y, loc, C(i), v))
            states = ns
        return [(s, ("obj", loc)) for s in states]

    def store_new_el(self, st, loc, idx, v):
        if v[0] == "obj":
            return self.copy_obj(st, v[1], ("el", loc, idx))
        if v[0] == "ref":
            v = self.load(st, v[1])
            if v[0] == "obj":
                return self.copy_obj(st, v[1], ("el", loc, idx))
        s = st.copy()
        s.env[("log", loc)] = s.env.get(("log", loc), (("mem", loc, self.epoch(st, loc)),)) + (("w", idx, v),)
        return s

    # ---- operators
    def e_un(self, e, st):
        op = e["op"]
        if op == "*":
            return [(x, self.load(x, l, e["t"])) for x, l in self.lval(e, st)]
        if op == "&":
            res = []
            if e["e"]["k"] == "fnref":
                return self.eval(e["e"], st)
            for x, l in self.lval(e["e"], st):
                if l[0] == "el":
                    res.append((x, ("ptr", l[1], l[2])))
                else:
                    res.append((x, ("addr", l)))
            return res
        if op in ("++", "--"):
            res = []
            d = 1 if op == "++" else -1
            for x, l in self.lval(e["e"], st):
                old = self.load(x, l, e["e"]["t"])
                new = self.arith(x, "+", old, C(d), e["e"]["t"])
                y = self.store(x, l, new, e["e"]["t"])
                res.append((y, old if e.get("post") else new))
            return res
        if op == "!":
            t, f = self.cond(e["e"], st)
            return [(x, ZERO) for x in self.reduce(t, self.BCAP)] + [(x, ONE) for x in self.reduce(f, self.BCAP)]
        res = []
        for x, v in self.eval(e["e"], st):
            v = self.rv(x, v, e["e"].get("t"))
            if op == "-":
                res.append((x, wrap(x, scale(v, -1), e["t"]) if is_num(v) else (("f", -v[1]) if v[0] == "f" else ("app", "neg", v))))
            elif op == "+":
                res.append((x, v))
            elif op == "~":
                t = e["t"]
                if is_num(v):
                    r = add(scale(v, -1), C(-1))
                    res.append((x, wrap(x, r, t)))
                else:
                    res.append((x, ("app", "~", v)))
            else:
                res.append((x, ("unk", "un" + op, e["id"])))
        return res

    def e_bin(self, e, st):
        op = e["op"]
        if op == "=":
            return self.assign(e, st)
        if op in ("&&", "||"):
            t, f = self.cond(e, st)
            return [(x, ONE) for x in self.reduce(t, self.BCAP)] + [(x, ZERO) for x in self.reduce(f, self.BCAP)]
        if op == ",":
            return [r for x, _ in self.eval(e["a"], st) for r in self.eval(e["b"], x)]
        res = []
        for x, a in self.eval(e["a"], st):
            a = self.rv(x, a, e["a"].get("t"))
            for y, b in self.eval(e["b"], x):
                b = self.rv(y, b, e["b"].get("t"))
                res.append((y, self.binop(y, op, a, b, e)))
        return res

    def eq_term(self, st, a, b):
        if a == b:
            return ONE
        if a[0] == "s" and b[0] == "s":
            return C(a[1] == b[1])
        if a[0] == "ptr" and b[0] == "ptr":
            if a[1] == b[1]:
                d = sub(a[2], b[2])
                return C(d[1] == 0) if d[0] == "c" else ("eq", d)
        if a[0] == "none" and b[0] == "none":
            return ONE
        if (a[0] == "none" and b[0] == "some") or (a[0] == "some" and b[0] == "none"):
            return ZERO
        if a[0] == "some" and b[0] == "some":
            return self.eq_term(st, a[1], b[1])
        if a[0] in ("addr", "ptr", "lam", "fn", "obj") and b == ZERO or b[0] in ("addr", "ptr", "lam", "fn", "obj") and a == ZERO:
            return ZERO
        if a[0] == "addr" and b[0] == "addr":
            ra, rb = root_loc(a[1]), root_loc(b[1])
            if ra != rb and all(len(r) == 1 or r[0] in ("v", "tmp", "new", "exc") for r in (ra, rb)):
                return ZERO         # different objects
        if a[0] == "null" or b[0] == "null":
            o = b if a[0] == "null" else a
            if o[0] == "null" or o == ZERO:
                return ONE
            if o[0] in ("addr", "ptr", "lam", "fn", "obj", "some", "s"):
                return ZERO
            if is_num(o):
                return ("eq", o)
        if is_num(a) and is_num(b) and not opaque_nonint(a) and not opaque_nonint(b):
            d = sub(a, b)
            if d[0] == "c":
                return C(d[1] == 0)
            lo, hi = rng(d)
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return ZERO
            d = zero_form(d)
            if d[0] == "c":
                return C(d[1] == 0)
            k, dd = lin_parts(d)
            # canonical sign
            first = sorted(dd.items(), key=lambda x: repr(x[0]))[0]
            if first[1] < 0:
                d = scale(d, -1)
            return ("eq", d)
        if {a[0], b[0]} == {"it", "itend"} and a[1][0] in ("mapent",):
            return ZERO
        if {a[0], b[0]} == {"it", "itend"} and b[1][0] in ("mapent",):
            return ZERO
        x, y = sorted((a, b), key=repr)
        return ("eqv", x, y)

    def binop(self, st, op, a, b, e):
        t = e.get("t")
        ta = e["a"].get("t") if isinstance(e.get("a"), dict) else None
        if op == "==":
            return self.eq_term(st, a, b)
        if op == "!=":
            r = self.eq_term(st, a, b)
            return C(1 - r[1]) if is_c(r) else ("not", r)
        if op in ("<", ">", "<=", ">="):
            if a[0] == "ptr" and b[0] == "ptr" and a[1] == b[1]:
                a, b = a[2], b[2]
            if a[0] == "f" or b[0] == "f" or (ta is not None and ta.noref.k == "float") or not (is_num(a) and is_num(b)):
                if op in (">", ">="):
                    a, b, op = b, a, {">": "<", ">=": "<="}[op]
                return ("app", op, a, b)
            if op == "<":
                l = add(sub(a, b), ONE)
            elif op == "<=":
                l = sub(a, b)
            elif op == ">":
                l = add(sub(b, a), ONE)
            else:
                l = sub(b, a)
            if l[0] == "c":
                return C(l[1] <= 0)
            lo, hi = rng(l)
            if hi is not None and hi <= 0:
                return ONE
            if lo is not None and lo > 0:
                return ZERO
            return ("le", l)
        if op == "<=>":
            if a[0] == "ptr" and b[0] == "ptr" and a[1] == b[1]:
                return sub(a[2], b[2])       # the sign is the order
            if is_num(a) and is_num(b) and a[0] != "f" and b[0] != "f" and not (ta is not None and ta.noref.k == "float"):
                return sub(a, b)
            return ("app", "<=>", a, b)
        return self.arith(st, op, a, b, t)

    def arith(self, st, op, a, b, t):
        if t is not None and t.k == "float" or a[0] == "f" or b[0] == "f":
            if op in ("+", "*"):
                a, b = sorted((a, b), key=repr)
            return ("app", "f" + op, a, b)
        if op in ("+", "-"):
            if a[0] == "ptr" and b[0] == "ptr" and op == "-" and a[1] == b[1]:
                return sub(a[2], b[2])
            if a[0] == "ptr":
                return ("ptr", a[1], add(a[2], b, 1 if op == "+" else -1))
            if b[0] == "ptr" and op == "+":
                return ("ptr", b[1], add(b[2], a))
            if not is_num(a) or not is_num(b):
                return ("app", op, a, b)
            return wrap(st, add(a, b, 1 if op == "+" else -1), t)
        if not is_num(a) or not is_num(b):
            return ("app", op, a, b)
        if op == "*":
            return wrap(st, mul(a, b), t)
        if op == "<<":
            if is_c(b) and 0 <= b[1] < 64:
                return wrap(st, shl(a, b[1]), t, shift=True)
            return ("app", "<<", a, b)
        if op == ">>":
            if is_c(b) and 0 <= b[1] < 64:
                return shr(a, b[1], True, t.w if t is not None and t.w else 64)
            return ("app", ">>", a, b)
        if op == "|":
            return bor(a, b)
        if op == "&":
            return band(a, b)
        if op == "^":
            return bxor(a, b)
        if op == "/":
            if is_c(a) and is_c(b) and b[1] != 0:
                q = abs(a[1]) // abs(b[1])
                return C(q if (a[1] >= 0) == (b[1] > 0) else -q)
            if is_c(b) and b[1] == 1:
                return a
            lo, _ = rng(a)
            if is_c(b) and b[1] > 0 and lo is not None and lo >= 0:
                if (b[1] & (b[1] - 1)) == 0:
                    return shr(a, b[1].bit_length() - 1, True, t.w if t is not None and t.w else 64)
                return idiv(a, b[1])
            return ("app", "/", a, b)
        if op == "%":
            if is_c(a) and is_c(b) and b[1] != 0:
                r = abs(a[1]) % abs(b[1])
                return C(r if a[1] >= 0 else -r)
            lo, _ = rng(a)
            if is_c(b) and b[1] > 0 and lo is not None and lo >= 0:
                return imod(a, b[1])
            return ("app", "%", a, b)
        return ("unk", "op" + op, 0)

    def assign(self, e, st):
        res = []
        t = e["a"].get("t")
        for x, v in self.eval(e["b"], st):
            v = self.rv(x, v, t)
            for y, l in self.lval(e["a"], x):
                res.append((self.store(y, l, v, t), v))
        return res

    def e_cas(self, e, st):
        op = e["op"][:-1]
        res = []
        t = e["a"].get("t")
        for x, v in self.eval(e["b"], st):
            v = self.rv(x, v, e["b"].get("t"))
            for y, l in self.lval(e["a"], x):
                old = self.load(y, l, t)
                ct = e.get("ct")
                nv = self.arith(y, op, old, v, ct)
                if t is not None and t.is_int:
                    nv = cast_int(y, nv, t)
                res.append((self.store(y, l, nv, t), nv))
        return res

    def e_cast(self, e, st):
        ck = e["ck"]
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean", "MemberPointerToBoolean"):
            t, f = self.cond(e["e"], st)
            if len(t) == 1 and len(f) == 1 and e["e"]["k"] == "ref":
                pass
            return [(x, ONE) for x in t] + [(x, ZERO) for x in f]
        if ck in ("ToVoid",):
            return [(x, ("void",)) for x, _ in self.eval(e["e"], st)]
        res = []
        for x, v in self.eval(e["e"], st):
            v = self.rv(x, v, e["e"].get("t"))
            if ck == "IntegralCast":
                res.append((x, cast_int(x, v, e["t"])))
            elif ck == "IntegralToFloating":
                res.append((x, ("f", float(v[1])) if is_c(v) else ("app", "tofloat", v)))
            elif ck == "FloatingToIntegral":
                res.append((x, C(int(v[1])) if v[0] == "f" else ("app", "toint", v, tag_of(e["t"]))))
            elif ck == "FloatingCast":
                if v[0] == "f":
                    res.append((x, v))
                else:
                    w = e["t"].w
                    res.append((x, ("app", "fcast", C(w or 0), v)))
            elif ck in ("BitCast", "ReinterpretMemberPointer", "LValueBitCast", "NullToPointer", "BaseToDerived", "Dynamic",
                        "PointerToIntegral", "IntegralToPointer", "NullToMemberPointer", "AddressSpaceConversion"):
                if ck == "Dynamic" and v[0] == "addr":
                    v = ("app", "dyncast", v, ("s", (e["t"].p or e["t"]).s if e["t"].k == "ptr" else e["t"].s))
                res.append((x, v))
            else:
                res.append((x, v))
        return res

    # ---- lvalues
    def lval(self, e, st):
        """[(st, loc)]"""
        k = e["k"]
        if k == "ref":
            v = e["v"]
            if v.k == "slocal":
                return [(st, ("g", v.u or v.n + str(v.id), v.n))]
            return [(st, self.deref_loc(st, self.loc_of_var(v, self.frame_of(v, st))))]
        if k == "mem":
            if e.get("ar"):
                res = []
                for x, p in self.eval(e["b"], st):
                    p = self.rv(x, p, e["b"].get("t"))
                    res.append((x, self.deref_loc(x, ("fld", self.pointee(x, p), e["n"]))))
                return res
            return [(x, self.deref_loc(x, ("fld", l, e["n"]))) for x, l in self.lval(e["b"], st)]
        if k == "sub":
            res = []
            for x, b in self.eval_base(e["a"], st):
                for y, i in self.eval(e["b"], x):
                    i = self.rv(y, i, e["b"].get("t"))
                    if b[0] == "ptr":
                        idx = add(b[2], i)
                        base = b[1]
                    elif b[0] == "obj":
                        base, idx = b[1], i
                    elif b[0] == "addr":
                        base, idx = b[1], i
                    elif b[0] == "s":
                        base, idx = ("strc", b[1]), i
                    else:
                        base, idx = ("deref", b), i
                    base = self.deref_loc(y, base)
                    if self.on_access:
                        self.on_access(self, y, base, idx, e, e.get("bt"))
                    res.append((y, ("el", base, idx)))
            return res
        if k == "un" and e["op"] == "*":
            res = []
            for x, p in self.eval(e["e"], st):
                p = self.rv(x, p, e["e"].get("t"))
                l = self.pointee(x, p)
                if l[0] == "el" and self.on_access:
                    self.on_access(self, x, l[1], l[2], e, None)
                res.append((x, l))
            return res
        if k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            res = []
            for x, _ in self.eval(e, st):
                res += self.lval(e["e"], x)
            return res
        if k == "bin" and e["op"] in ("=",) or k == "cas":
            res = []
            for x, _ in self.eval(e, st):
                res += self.lval(e["a"], x)
            return res
        if k == "bin" and e["op"] == ",":
            return [r for x, _ in self.eval(e["a"], st) for r in self.lval(e["b"], x)]
        if k == "cond":
            T, F = self.cond(e["c"], st)
            return [r for x in T for r in self.lval(e["a"], x)] + [r for x in F for r in self.lval(e["b"], x)]
        if k == "cast":
            if e["ck"] in ("Dynamic", "BaseToDerived", "NoOp", "LValueBitCast", "BitCast"):
                return self.lval(e["e"], st)
        if k == "this":
            return [(st, self.this_loc())]
        # rvalue materialised into a temporary
        res = []
        for x, v in self.eval(e, st):
            if v[0] == "obj":
                res.append((x, v[1]))
            elif v[0] == "ref":
                res.append((x, v[1]))
            else:
                loc = ("tmp", self.frame(), e.get("id", e.get("nid", 0)))
                res.append((x.set(loc, v), loc))
        return res

    def frame_of(self, v, st):
        """Variables of enclosing functions are bound in the closure's frame by reference."""
        fr = self.frame()
        return fr

    def eval_base(self, e, st):
        """Array/pointer expression of a subscript."""
        t = e.get("t")
        if t is not None and t.noref.k == "arr" or (e["k"] in ("ref", "mem", "sub") and t is not None and t.k == "arr"):
            return [(x, ("obj", l)) for x, l in self.lval(e, st)]
        # the front end drops array decay: look at the declared type
        if e["k"] in ("ref",) and e["v"].t is not None and e["v"].t.noref.k == "arr":
            return [(x, ("obj", l)) for x, l in self.lval(e, st)]
        return [(x, self.rv(x, v, t)) for x, v in self.eval(e, st)]

    def pointee(self, st, p):
        if p[0] == "addr":
            return self.deref_loc(st, p[1])
        if p[0] == "ptr":
            return ("el", self.deref_loc(st, p[1]), p[2])
        if p[0] == "obj":     # decayed array
            return ("el", self.deref_loc(st, p[1]), ZERO)
        if p[0] == "app" and p[1] == "dyncast" and p[2][0] == "addr":
            return self.deref_loc(st, p[2][1])
        if p[0] == "some":
            return ("someval", p)
        return ("deref", p)

    # ---- calls
    def e_ctor(self, e, st):
        t = e.get("t")
        return self.construct(e, st, ("tmp", self.frame(), e["id"]))

    def eval_args(self, args, ptypes, st):
        """Evaluates call arguments: reference parameters get ('ref', loc)."""
        outs = [(st, [])]
        for i, a in enumerate(args):
            pt = ptypes[i] if i < len(ptypes) else None
            nxt = []
            for x, vs in outs:
                if pt is not None and pt.k in ("ref", "rref"):
                    for y, l in self.lval(a, x):
                        nxt.append((y, vs + [("ref", l)]))
                else:
                    for y, v in self.eval(a, x):
                        if v[0] == "ref":
                            v = self.load(y, v[1], a.get("t"))
                        nxt.append((y, vs + [v]))
            outs = nxt
        return outs

    def construct(self, e, st, loc):
        """Runs constructor expression e on the object at loc: [(st, ('obj', loc) or scalar)]."""
        fn = e["f"]
        res = []
        for x, args in self.eval_args(e["a"], fn.p, st):
            res += self.do_construct(e, x, fn, args, loc)
        return res

    def do_construct(self, e, x, fn, args, loc):
        t = e.get("t")
        if self.hook:
            r = self.hook(self, x, fn, loc, args, e)
            if r is not None:
                return r
        r = self.std.construct(self, x, fn, args, e, loc)
        if r is not None:
            return r
        if fn.u in self.M.bodies and len(self.stack) < self.DEPTH and sum(f[0] == fn.u for f in self.stack) < self.rec:
            y = self.clear(x, loc)
            y = self.field_defaults(y, fn, loc)
            rets = self.call_body(self.M.bodies[fn.u], y, loc, args, e)
            return [(s, ("obj", loc)) for s, _ in rets]
        if (fn.copy or fn.move) and args:
            v = args[0]
            if v[0] == "ref":
                v = self.load(x, v[1], t)
            if v[0] == "obj":
                return [(self.init_loc(x, loc, v), ("obj", loc))]
            return [(x, v)]
        if fn.def_ and not args:
            y = self.clear(x, loc)
            y = self.field_defaults(y, fn, loc)
            y = y.copy()
            y.env[("ep", loc)] = self.widen_tag_for(("dflt", e["id"]))
            return [(y, ("obj", loc))]
        self.may_throw(x, fn, e)
        y = self.clear(x, loc)
        y.env[("ep", loc)] = self.widen_tag_for(("ctor", e["id"], self.frame()))
        y.env[("made", loc)] = ("app", "ctor:" + (fn.cls or fn.n)) + tuple(self.val_of(x, a) for a in args)
        if t is not None and self.scalar_rec(t):
            return [(y, ("app", "ctor:" + fn.n) + tuple(self.val_of(x, a) for a in args))]
        return [(y, ("obj", loc))]

    def field_defaults(self, st, fn, loc):
        rec = self.M.records.get(fn.clsu)
        if not rec:
            return st
        written = set()
        b = self.M.bodies.get(fn.u)
        if b is not None and b.inits is not None:
            written = {i["m"] for i in b.inits if i.get("m")}
        for f in rec.f:
            if f["i"] is not None and f["n"] not in written:
                c = const_of(f["i"])
                if c is not None:
                    st = st.set(("fld", loc, f["n"]), c)
                else:
                    self.exc.append([])
                    rs = self.eval(f["i"], st)
                    self.exc.pop()
                    if len(rs) == 1:
                        st = self.init_loc(rs[0][0], ("fld", loc, f["n"]), rs[0][1])
        return st

    def val_of(self, st, a):
        """A value term describing an argument."""
        if a[0] == "ref":
            v = self.load(st, a[1])
            if v[0] == "ld" and v[1] == a[1]:
                return v
            if v[0] != "obj":
                return v
            return self.obj_term(st, v[1])
        if a[0] == "obj":
            return self.obj_term(st, a[1])
        return a

    def obj_term(self, st, loc):
        loc = self.deref_loc(st, loc)
        m = st.env.get(("made", loc))
        if m is not None:
            return m
        log = st.env.get(("log", loc))
        if log is not None:
            return ("contents", loc if not log else log, self.size_of(st, loc))
        return ("ld", loc, self.epoch(st, loc), "")

    def may_throw(self, st, fn, node):
        if self.implicit_throw and not fn.ne and not (fn.n in self.std.NOTHROW):
            self.throw(st, Exc(None, None, node.get("l", 0), self.stack[-1][3].file if self.stack else None, why=fn.n))

    def e_call(self, e, st):
        fn = e.get("f")
        if fn is None:
            return self.call_value(e, st)
        self.calls_seen += 1
        res = []
        if e.get("o") is not None:
            # object expression
            objs = []
            ot = e["o"].get("t")
            if e.get("ar") or (ot is not None and ot.noref.k == "ptr" and not e.get("oc")):
                for x, p in self.eval(e["o"], st):
                    p = self.rv(x, p, ot)
                    objs.append((x, self.pointee(x, p)))
            else:
                objs = self.lval(e["o"], st)
            for x, o in objs:
                o = self.deref_loc(x, o)
                for y, args in self.eval_args(e["a"], fn.p, x):
                    res += self.dispatch(e, y, fn, o, args)
        else:
            for y, args in self.eval_args(e["a"], fn.p, st):
                res += self.dispatch(e, y, fn, None, args)
        return self.reduce_ret(res)

    def dispatch(self, e, st, fn, obj, args):
        if self.hook:
            r = self.hook(self, st, fn, obj, args, e)
            if r is not None:
                return r
        r = self.std.call(self, st, fn, obj, args, e)
        if r is not None:
            return r
        target = fn
        if fn.v and not e.get("nv"):
            target = self.resolve_virtual(fn)
            if target is None:
                ov = [u for u in self.M.overriders.get(fn.u, ()) if u in self.M.bodies]
                cands = ov + ([fn.u] if fn.u in self.M.bodies else [])
                if len(cands) == 1 and not (obj is not None and obj[0] == "p" and False):
                    target = self.M.fns[cands[0]]
                elif obj == ("this",) and getattr(self, "this_class", None):
                    target = self.final_overrider(fn, self.this_class)
        if fn.short == "operator=" and obj is not None and len(args) == 1 and fn.u not in self.M.bodies and \
                fn.p[0].noref.ru and fn.p[0].noref.ru == fn.clsu and args[0][0] in ("ref", "obj"):
            # implicit copy or move assignment
            src = self.deref_loc(st, args[0][1])
            return [(self.copy_obj(st, src, self.deref_loc(st, obj)), ("ref", obj))]
        if target is not None and target.u in self.M.bodies and not self.no_inline(target) and len(self.stack) < self.DEPTH \
                and sum(f[0] == target.u for f in self.stack) < self.rec:
            b = self.M.bodies[target.u]
            # the last user-visible object parameter
            return self.call_body(b, st, obj if not target.st else None, args, e)
        if fn.lam and fn.short == "operator()":
            v = self.load(st, obj) if obj is not None else None
            if v and v[0] == "lam":
                return self.call_lambda(st, v, args, e)
        return self.opaque_call(e, st, fn, obj, args)

    def final_overrider(self, fn, clsu):
        """The implementation of virtual fn in class clsu."""
        todo = [clsu]
        seen = set()
        while todo:
            c = todo.pop(0)
            if c in seen:
                continue
            seen.add(c)
            r = self.M.records.get(c)
            if not r:
                continue
            for m in r.m:
                if m.u == fn.u or fn.u in self.all_overridden(m):
                    return m if m.u in self.M.bodies else None
            todo += r.b
        return None

    def all_overridden(self, m):
        res = set()
        todo = list(m.ov)
        while todo:
            u = todo.pop()
            if u in res:
                continue
            res.add(u)
            if u in self.M.fns:
                todo += self.M.fns[u].ov
        return res

    def call_lambda(self, st, v, args, node):
        bodies = self.M.lambdas.get(v[1], [])
        if not bodies or len(self.stack) >= self.DEPTH or sum(f[0] == bodies[0].fn.u for f in self.stack) >= self.rec:
            return [(st, ("unk", "lambda", node.get("id", 0)))]
        b = bodies[0]
        if len(bodies) > 1:
            for c in bodies:
                if not c.dep and self.arity_match(st, c, args):
                    b = c
                    break
        caps = []
        for vid, vn, val in v[2]:
            class _V:
                pass
            vv = _V()
            vv.id, vv.n = vid, vn
            caps.append((vv, val))
        return self.call_body(b, st, v[3] if len(v) > 3 else None, args, node, caps)

    def arity_match(self, st, body, args):
        return len(body.ps) == len(args)

    def call_value(self, e, st):
        res = []
        ce = e.get("ce")
        for x, v in self.eval(ce, st) if ce else [(st, ("unk", "callee", e["id"]))]:
            v = self.rv(x, v)
            outs = [(x, [])]
            for a in e["a"]:
                outs = [(z, vs + [w]) for y, vs in outs for z, w in self.eval(a, y)]
            for y, args in outs:
                res += self.invoke(y, v, args, e)
        return res

    def invoke(self, st, v, args, node):
        """Calls a callable value."""
        if v[0] == "lam":
            return self.call_lambda(st, v, args, node)
        if v[0] == "fn" and v[1] in self.M.fns:
            fn = self.M.fns[v[1]]
            return self.dispatch(node, st, fn, None, args)
        self.may_throw(st, _ANY, node)
        y = st
        for a in args:
            if a[0] == "ref":
                y = self.havoc(y, a[1], ("inv", node.get("id", 0)))
            elif a[0] == "ptr":
                y = self.havoc(y, a[1], ("inv", node.get("id", 0)))
        return [(y, self.fresh(y, ("inv", node.get("id", 0))))]

    def opaque_call(self, e, st, fn, obj, args):
        self.may_throw(st, fn, e)
        if fn.nr:
            return []
        y = st
        tag = tag_of(fn.r)
        pure = (fn.cls is None or fn.cst or fn.st)
        for a, pt in zip(args, fn.p):
            if a[0] == "ref" and pt.k in ("ref", "rref") and not (pt.p is not None and pt.p.c):
                pure = False
            elif a[0] in ("ptr", "addr", "obj") and pt.k == "ptr" and not (pt.p is not None and pt.p.c):
                pure = False
        if fn.cls is None and not fn.repo and not args:
            pure = False
        if pure:
            v = ("app", fn.n) + ((self.obj_val(st, obj),) if obj is not None else ()) + tuple(self.val_of(st, a) for a in args) + (tag,)
            return [(y, self.result(y, v, fn, e))]
        for a, pt in zip(args, fn.p):
            if a[0] == "ref" and pt.k in ("ref", "rref") and not (pt.p is not None and pt.p.c):
                y = self.havoc(y, a[1], ("call", e["id"], self.frame()))
            elif a[0] in ("ptr", "obj") and pt.k == "ptr" and not (pt.p is not None and pt.p.c):
                y = self.havoc(y, a[1], ("call", e["id"], self.frame()))
            elif a[0] == "addr" and pt.k == "ptr" and not (pt.p is not None and pt.p.c):
                y = self.havoc(y, a[1], ("call", e["id"], self.frame()))
        if obj is not None and not fn.cst and not fn.st:
            y = self.havoc(y, obj, ("call", e["id"], self.frame()))
        v = self.fresh(y, ("res", fn.short, e["id"], self.frame()), tag)
        return [(y, self.result(y, v, fn, e))]

    def obj_val(self, st, obj):
        if obj is None:
            return ("void",)
        v = st.env.get(self.deref_loc(st, obj))
        if v is not None and v[0] != "ref":
            return v
        return ("ld", obj, self.epoch(st, obj), "")

    def result(self, st, v, fn, e):
        """Result of an unmodelled call, typed."""
        rt = fn.r
        if rt is None or rt.k == "void":
            return ("void",)
        if rt.k in ("ref", "rref"):
            return ("ref", ("deref", v))
        if rt.k == "rec" and not self.scalar_rec(rt):
            return ("obj", ("deref", v))
        return v


class _Any:
    ne = 0
    n = "std::function::operator()"


_ANY = _Any()


def rl_term(rl):
    return ("ld", rl, 0, "")


def loop_varying(t, nid):
    """Mentions a value that differs between iterations in an unknown way."""
    if not isinstance(t, tuple):
        return False
    if t[:3] == ("sym", "loop", nid) or t[:2] in (("loopmem", nid), ("loopout", nid)):
        return True
    return any(loop_varying(x, nid) for x in t)



def opaque_nonint(v):
    return v[0] in ("s", "f", "cat")


def wrapc(v, t):
    """Constant as stored in type t."""
    if t is not None and t.is_int and t.w:
        v &= (1 << t.w) - 1
        if not t.u and v >= 1 << (t.w - 1):
            v -= 1 << t.w
    return v


def cast_int(st, v, t):
    if not is_num(v) or t is None or not t.w:
        return v
    if is_c(v):
        return C(wrapc(v[1], t))
    if t.k == "bool":
        return v
    lo, hi = rng(v)
    tl, th = RANGES[("u" if t.u else "i") + str(t.w)] if t.w in (8, 16, 32, 64) else (None, None)
    if tl is None:
        return v
    if lo is not None and hi is not None and lo >= tl and hi <= th:
        return v
    if t.w == 64:
        if not t.u:
            if lo is not None and lo >= 0 and not counts(v):
                return v if entails_le(st, sub(v, C(th))) else signed(v, 64)
            return v            # no overflow assumed
        if lo is not None and lo >= 0:
            return v
        if entails_le(st, scale(v, -1)):
            return v
        return ("bits", v, 0, 64)
    if t.u:
        if entails_le(st, scale(v, -1), 3) and entails_le(st, sub(v, C(th)), 3):
            return v
        return bits(v, 0, t.w)
    if entails_le(st, sub(C(tl), v), 2) and entails_le(st, sub(v, C(th)), 2):
        return v
    if t.w >= 32 and (counts(v) or lo is None or lo < 0):
        return v
    return signed(v, t.w)


def signed(v, w):
    """The low w bits of v as a two's complement number."""
    return sub(bits(v, 0, w), scale(bits(v, w - 1, 1), 1 << w))


def counts(v):
    """Is the value made of sizes and loop counters (which stay far below the limits of int)?"""
    k, d = lin_parts(v)
    return any(a[-1] in ("sz", "") or a[0] == "ind" for a in d)


def wrap(st, v, t, shift=False):
    """Result of arithmetic in type t."""
    if t is None or not t.is_int or not t.w or not is_num(v) or is_c(v):
        if t is not None and t.is_int and t.w and is_c(v):
            return C(wrapc(v[1], t))
        return v
    if not t.u:
        return v               # signed overflow is undefined: mathematical result
    lo, hi = rng(v)
    if t.w == 64:
        if lo is not None and lo >= 0:
            return v
        if entails_le(st, scale(v, -1)):
            return v
        return ("bits", v, 0, 64)
    if lo is not None and hi is not None and lo >= 0 and hi < (1 << t.w):
        return v
    if entails_le(st, scale(v, -1), 3) and entails_le(st, sub(v, C((1 << t.w) - 1)), 3):
        return v
    return bits(v, 0, t.w)


def const_of(n):
    """Constant value of an initialiser node, or None."""
    if n is None:
        return None
    if "cv" in n and not isinstance(n["cv"], dict):
        return C(wrapc(n["cv"], n.get("t")))
    k = n.get("k")
    if k == "int":
        return C(wrapc(n["v"], n.get("t")))
    if k == "enumc":
        return C(n["v"])
    if k == "str":
        return ("s", n["v"])
    if k == "float":
        return ("f", n["v"])
    if k == "cast":
        c = const_of(n["e"])
        if c is not None and c[0] == "c" and n.get("t") is not None and n["t"].is_int:
            return C(wrapc(c[1], n["t"]))
        if c is not None and n["ck"] in ("IntegralToFloating",):
            return ("f", float(c[1]))
        return c if n["ck"] in ("FloatingCast",) else None
    if k == "il" and len(n["a"]) == 1 and n.get("t") is not None and n["t"].k not in ("arr", "rec"):
        return const_of(n["a"][0])
    if k == "ctor" and n["a"] and (n.get("t") is not None) and (n["t"].r or "").startswith("std::basic_string"):
        return const_of(n["a"][0])
    if k == "un" and n["op"] == "-":
        c = const_of(n["e"])
        if c is not None and c[0] in ("c", "f"):
            return (c[0], -c[1])
    return None
