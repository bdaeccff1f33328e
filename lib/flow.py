"""Interprocedural finite-state dataflow over the syntax tree.

A state is (automaton, facts): the automaton's value is the client's (events seen, locks held, ...), facts are the
constants known for access paths (booleans, enumerators, nullness).  Statements map sets of states to sets of states
per outcome (falls through, break, continue, return value, exception of a type); loops are run to a fixpoint, so the
result covers every path.  Calls of functions that can change the automaton are followed (virtual calls into every
overrider, lambdas, destructors of locals); all others contribute the exceptions that can leave them, computed by a
fixpoint over the whole program.
"""
from model import AnalysisError

STD = {"std::exception": None, "std::runtime_error": "std::exception", "std::logic_error": "std::exception",
       "std::invalid_argument": "std::logic_error", "std::out_of_range": "std::logic_error", "std::length_error": "std::logic_error",
       "std::domain_error": "std::logic_error", "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error",
       "std::system_error": "std::runtime_error", "std::bad_alloc": "std::exception", "std::bad_cast": "std::exception",
       "std::bad_optional_access": "std::exception", "std::bad_function_call": "std::exception", "std::bad_variant_access": "std::exception",
       "std::filesystem::filesystem_error": "std::system_error", "std::ios_base::failure": "std::system_error",
       "std::regex_error": "std::runtime_error", "std::underflow_error": "std::runtime_error"}

PASS = ("std::move", "std::forward", "std::ref", "std::cref", "std::addressof", "std::static_pointer_cast", "std::as_const", "std::const_pointer_cast",
        "std::dynamic_pointer_cast")


def children(n):
    """Sub-expressions and statements of a node, in order; lambda bodies are not entered."""
    if isinstance(n, list):
        for x in n:
            yield from children(x) if isinstance(x, list) else ([x] if isinstance(x, dict) else ())
        return
    if n.get("k") == "lambda":
        for c in n["cap"]:
            if isinstance(c.get("i"), dict):
                yield c["i"]
        return
    for key in ("o", "ce", "i", "cv", "r", "e", "a", "c", "b", "d", "n", "s", "h"):
        v = n.get(key)
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


def walk(n, lambdas=False):
    w = [n]
    while w:
        x = w.pop()
        if isinstance(x, list):
            w.extend(reversed([y for y in x if isinstance(y, (dict, list))]))
            continue
        if not isinstance(x, dict):
            continue
        yield x
        if lambdas and x.get("k") == "lambda":
            for b in x["fn"]:
                w.append(b.s)
        w.extend(reversed(list(children(x))))


class Program:
    """Call targets, exception hierarchy and escaping exceptions."""

    def __init__(self, M, external=None):
        self.M = M
        self.external = external or (lambda fn, node: ())
        self._bases = {}
        self._esc = None
        self.pre = None
        self._fv = None
        self.lams = {b.fn.u: b for bs in M.lambdas.values() for b in bs}
        self.allb = dict(M.bodies)
        self.allb.update(self.lams)
        self.rec_u = {r.n: r for r in M.records.values()}
        self.fields = {}

    # ---- types
    def bases(self, name):
        if name in self._bases:
            return self._bases[name]
        r = []
        self._bases[name] = r
        if name in STD:
            b = STD[name]
            if b:
                r += [b] + self.bases(b)
        rec = self.rec_u.get(name)
        if rec:
            for t in rec.bt:
                b = t.noref.r
                if b and b not in r:
                    r += [b] + [x for x in self.bases(b) if x not in r]
        return r

    def is_a(self, t, b):
        return t == b or b in self.bases(t)

    # ---- targets
    def targets(self, e):
        """Bodies a call can reach; None: unknown (no body in the program)."""
        f = e.get("f")
        if f is None:
            return None
        M = self.M
        us = [f.u]
        if f.v and not e.get("nv") and e.get("k") == "call":
            us += sorted(M.overriders.get(f.u, ()))
            # the static type of the object narrows the overriders
            cls = self.static_class(e)
            if cls:
                us = [u for u in us if M.fns[u].cls is None or self.is_a(cls, M.fns[u].cls) or self.is_a(M.fns[u].cls, cls)] or us
        r = [self.allb[u] for u in us if u in self.allb and self.allb[u].s is not None]
        return r or None

    def stored_calls(self, e):
        """Bodies a call through a std::function can reach: every function converted to that std::function type."""
        f = e.get("f")
        if f is None or f.short != "operator()" or not (f.cls or "").startswith("std::function") or e.get("o") is None:
            return None
        if self._fv is None:
            self._fv = {}
            for b in self.allb.values():
                for part in [b.s] + [i["e"] for i in b.inits or []]:
                    for n in walk(part):
                        if n.get("k") == "ctor" and n.get("f") is not None and (n["f"].cls or "").startswith("std::function") and len(n["a"]) == 1 \
                                and n.get("t") is not None:
                            sig = self.signature(n["t"])
                            for x in self.functions_in(n["a"][0]):
                                l = self._fv.setdefault(sig, [])
                                if x not in l:
                                    l.append(x)
        return self._fv.get(self.signature(e["o"].get("t")), [])

    @staticmethod
    def signature(t):
        return "" if t is None else t.noref.s.replace("const std::function", "std::function").strip()

    def functions_in(self, a):
        """Bodies of the lambdas and function names in an expression that makes a callable."""
        w, r = [a], []
        while w:
            x = w.pop()
            if not isinstance(x, dict):
                continue
            k = x.get("k")
            if k == "lambda":
                r += list(x["fn"])
            elif k == "fnref" and x.get("f") is not None:
                us = [x["f"].u] + (sorted(self.M.overriders.get(x["f"].u, ())) if x["f"].v else [])
                r += [self.allb[u] for u in us if u in self.allb]
            elif k in ("cast", "ctor", "un"):
                w += [y for y in ([x.get("e")] + list(x.get("a") or ())) if isinstance(y, dict)]
            elif k == "call" and x.get("f") is not None and x["f"].n in PASS + ("std::bind",):
                w += list(x.get("a") or ())[:1]
        return r

    def static_class(self, e):
        o = e.get("o")
        while isinstance(o, dict):
            t = o.get("t")
            if t is not None:
                t = t.noref
                if t.k == "ptr" and t.p is not None:
                    t = t.p
                if t.r in self.rec_u:
                    n = t.r
                    if o.get("k") == "cast" and o.get("ck") in ("UncheckedDerivedToBase", "DerivedToBase"):
                        o = o.get("e")
                        continue
                    return n
            if o.get("k") == "cast":
                o = o.get("e")
                continue
            return None
        return None

    def made(self, e):
        """Constructor bodies run by make_shared/make_unique."""
        f = e.get("f")
        if f is None or f.n not in ("std::make_shared", "std::make_unique") or not f.ta or f.ta[0] is None or not hasattr(f.ta[0], "r"):
            return None
        n = f.ta[0].r
        cs = [b for b in self.M.bodies.values() if b.fn.ctor and b.fn.cls == n and len(b.ps) >= len(e["a"])]
        ex = [b for b in cs if len(b.ps) == len(e["a"])]
        return ex or cs

    # ---- exceptions leaving functions
    def escapes(self):
        if self._esc is not None:
            return self._esc
        M = self.M
        esc = {u: frozenset() for u in M.bodies}
        self._esc = esc
        lam = self.lams
        for u in lam:
            esc.setdefault(u, frozenset())
        self.condthrow = {u: {} for u in self.allb}
        changed = True
        n = 0
        while changed:
            changed = False
            n += 1
            for u, b in self.allb.items():
                self._cur = b
                r = self.esc_body(b)
                if r != self.condthrow[u]:
                    self.condthrow[u] = r
                    esc[u] = frozenset(r)
                    changed = True
            if n > 60:
                raise AnalysisError("exception summaries do not converge")
        return esc

    @staticmethod
    def alt(r, t, conds):
        """Join: t can be raised when all of one of the sets of comparisons hold."""
        if frozenset() in conds:
            r[t] = {frozenset()}
            return
        x = r.setdefault(t, set())
        if frozenset() in x:
            return
        x |= conds
        if len(x) > 8:
            r[t] = {frozenset()}

    def merge(self, r, o):
        for t, c in o.items():
            self.alt(r, t, c)
        return r

    def esc_body(self, b):
        if b.fn.ne and not b.fn.dtor:
            return {}
        r = {}
        for i in b.inits or []:
            self.merge(r, self.esc_node(i["e"], {}, ()))
        self.merge(r, self.esc_node(b.s, {}, ()))
        return r

    def stable_params(self, b):
        """Parameters passed by value (or const reference) that the body never assigns."""
        c = self.__dict__.setdefault("_stable", {})
        if b.fn.u not in c:
            ok = {v.id for v in b.ps if v.t is not None and (v.t.k not in ("ref", "rref") or v.t.p is not None and v.t.p.c)}
            for x in walk(b.s, True):
                k = x.get("k")
                l = x.get("a") if k == "bin" and x["op"] == "=" or k == "cas" else x.get("e") if k == "un" and x["op"] in ("++", "--", "&") else None
                while isinstance(l, dict) and l.get("k") == "cast":
                    l = l["e"]
                if isinstance(l, dict) and l.get("k") == "ref":
                    ok.discard(l["v"].id)
            c[b.fn.u] = ok
        return c[b.fn.u]

    def visible(self, known):
        """The comparisons a caller can judge: on members and on unchanged parameters."""
        ps = self.stable_params(self._cur)
        return frozenset(x for x in known if x[0][0] == "this" and len(x[0]) == 2 or x[0][0] == "v" and x[0][1] in ps and len(x[0]) == 2)

    def esc_node(self, n, cur, known):
        """{type: conditions} that can leave node n; cur: what the innermost handler may be handling; known: comparisons that hold."""
        if n is None:
            return {}
        if isinstance(n, list):
            r = {}
            for x in n:
                if x is None:
                    continue
                self.merge(r, self.esc_node(x, cur, known))
                if isinstance(x, dict) and x.get("k") == "if" and x.get("b") is None and self.leaves(x["a"]):
                    known = known + self.implied(x["c"], False)
            return r
        k = n.get("k")
        if k == "lambda":
            return {}
        if k == "blk":
            return self.esc_node(n["s"], cur, known)
        if k == "if":
            r = dict(self.esc_node(n.get("i"), cur, known))
            for key in ("cv", "c"):
                if isinstance(n.get(key), dict):
                    self.merge(r, self.esc_node(n[key], cur, known))
            self.merge(r, self.esc_node(n["a"], cur, known + self.implied(n["c"], True)))
            if n.get("b") is not None:
                self.merge(r, self.esc_node(n["b"], cur, known + self.implied(n["c"], False)))
            return r
        if k == "cond":
            r = dict(self.esc_node(n["c"], cur, known))
            self.merge(r, self.esc_node(n["a"], cur, known + self.implied(n["c"], True)))
            return self.merge(r, self.esc_node(n["b"], cur, known + self.implied(n["c"], False)))
        if k == "bin" and n["op"] in ("&&", "||"):
            r = dict(self.esc_node(n["a"], cur, known))
            return self.merge(r, self.esc_node(n["b"], cur, known + self.implied(n["a"], n["op"] == "&&")))
        if k == "try":
            left = dict(self.esc_node(n["s"], cur, known))
            out = {}
            for h in n["h"]:
                hn = h["t"].noref.r if h["t"] is not None else None
                got = {t: c for t, c in left.items() if hn is None or self.is_a(t, hn)}
                may = {t: c for t, c in left.items() if hn is not None and not self.is_a(t, hn) and self.is_a(hn, t)}
                if got or may or hn is None:
                    self.merge(out, self.esc_node(h["s"], {**got, **self.narrowed(may, hn)} if may else got, known))
                for t in got:
                    del left[t]
            return self.merge(out, left)
        r = {}
        for c in children(n):
            self.merge(r, self.esc_node(c, cur, known))
        if k == "throw":
            vis = self.visible(known)
            if n.get("e") is None:
                for t, c in cur.items():
                    self.alt(r, t, {x | vis for x in c})
            else:
                self.alt(r, self.mk(n["tt"].noref.r or n["tt"].s, n, False), {vis})
        elif k in ("call", "ctor", "new"):
            self.merge(r, self.esc_call(n, known))
        return r

    def mk(self, t, n, ext):
        return t

    def narrowed(self, may, hn):
        return {hn: {frozenset()}}

    @staticmethod
    def leaves(s):
        """Does the statement never fall through?"""
        while s is not None and s["k"] == "blk":
            ss = [x for x in s["s"] if x is not None]
            s = ss[-1] if ss else None
        return s is not None and (s["k"] in ("ret", "break", "cont") or s["k"] == "expr" and s["e"]["k"] == "throw")

    def key(self, e):
        """A name for an expression without effects, None if it is not one."""
        if not isinstance(e, dict):
            return None
        k = e.get("k")
        if k == "this":
            return ("this",)
        if k == "ref":
            return ("v", e["v"].id)
        if k == "mem":
            b = self.key(e["b"])
            return b + (e["n"],) if b else None
        if k == "cast" or k == "un" and e["op"] in ("*", "&"):
            return self.key(e["e"])
        if k == "ctor" and len(e["a"]) == 1 and e["f"].cp:
            return self.key(e["a"][0])
        if k == "call" and e.get("o") is not None and not e.get("a") and e["f"].cst:
            b = self.key(e["o"])
            return b if b is None or e["f"].short in ("operator->", "operator*", "get") else b + (e["f"].short + "()",)
        return None

    def implied(self, c, truth):
        """Comparisons of names with constants that hold when the condition is (not) true: ((name), equal?, constant)"""
        if c is None:
            return ()
        k = c.get("k")
        if k == "cast":
            return self.implied(c["e"], truth)
        if k == "un" and c["op"] == "!":
            return self.implied(c["e"], not truth)
        if k == "bin" and c["op"] == ("&&" if truth else "||"):
            return self.implied(c["a"], truth) + self.implied(c["b"], truth)
        if k == "bin" and c["op"] in ("==", "!="):
            for x, y in ((c["a"], c["b"]), (c["b"], c["a"])):
                v = self.const(y)
                if v is not None:
                    n = self.key(x)
                    if n:
                        return ((n, (c["op"] == "==") == truth, v),)
        if k in ("ref", "mem") and c.get("t") is not None and c["t"].noref.k == "bool":
            n = self.key(c)
            if n:
                return ((n, True, 1 if truth else 0),)
        return ()

    @staticmethod
    def const(y):
        while isinstance(y, dict) and y.get("k") == "cast":
            y = y["e"]
        return y["v"] if isinstance(y, dict) and y.get("k") in ("enumc", "int") else None

    @staticmethod
    def contradict(a, b):
        """Can the two comparisons of one name not both hold?"""
        return a[2] == b[2] and a[1] != b[1] or a[1] and b[1] and a[2] != b[2]

    def esc_call(self, n, known=()):
        r = {}
        if n.get("f") is None:
            return r
        if self._esc is None:
            self.escapes()
        t = self.targets(n)
        m = self.made(n)
        if m:
            t = m
        if t is None:
            t = self.stored_calls(n)
        vis = self.visible(known)
        if t is not None:
            o = self.key(n["o"]) if n.get("o") is not None else None
            args = n.get("a") or ()
            for b in t:
                if not self.condthrow[b.fn.u]:
                    continue
                par = {v.id: args[i] for i, v in enumerate(b.ps) if i < len(args)} if not m else {}
                for ty, alts in self.condthrow[b.fn.u].items():
                    for f in alts:
                        g = self.translate(f, o, par, known)
                        if g is not None:
                            self.alt(r, ty, {g | vis})
                            if f and o and self.pre is not None and self.precondition(b, ty):
                                self.pre.append((self._cur, n, b, o, ty))
        else:
            for x in self.external(n["f"], n):
                self.alt(r, self.mk(x, n, True), {vis})
            # lambdas handed to a function without a body are run by it, unless it merely stores them
            if not self.stores(n):
                for a in n.get("a", ()):
                    for b in self.functions_in(a) if n["k"] == "call" else ():
                        for ty in self.condthrow[b.fn.u]:
                            self.alt(r, ty, {vis})
        return r

    def precondition(self, b, ty):
        """Is it raised by a const member function exactly when the object is in a wrong state?"""
        c = self.condthrow[b.fn.u].get(ty, ())
        return b.fn.cst and bool(c) and all(f and all(x[0][0] == "this" for x in f) for f in c)

    def translate(self, f, o, par, known):
        """A condition of a callee at a call; None: it cannot hold here."""
        out = set()
        for name, eq, val in f:
            if name[0] == "this":
                k = o + name[1:] if o else None
            else:
                a = par.get(name[1])
                c = self.const(a)
                if c is not None:
                    if (c == val) != eq:
                        return None
                    continue
                k = self.key(a)
            if k is None:
                continue
            if any(y[0] == k and self.contradict(y, (k, eq, val)) for y in known):
                return None
            out.add((k, eq, val))
        return self.visible(out)

    @staticmethod
    def stores(n):
        f = n["f"]
        return f.ctor or n["k"] == "new" or f.n in ("std::bind", "std::make_shared", "std::make_unique", "std::make_pair", "std::thread::thread") + PASS \
            or f.short in ("emplace_back", "push_back", "insert", "emplace", "operator=", "emplace_front", "push_front", "reset", "swap")

    @staticmethod
    def lambda_args(a):
        w = [a]
        while w:
            x = w.pop()
            if not isinstance(x, dict):
                continue
            k = x.get("k")
            if k == "lambda":
                yield x
            elif k in ("cast", "ctor"):
                w += [y for y in ([x.get("e")] + list(x.get("a") or ())) if isinstance(y, dict)]


class Sites(Program):
    """The same, with every exception labelled by where it is raised: (type, function, line, raised outside the program)."""

    def mk(self, t, n, ext):
        return (t, self._cur.fn.u, n.get("l") or 0, ext)

    def narrowed(self, may, hn):
        return may

    def is_a(self, t, b):
        return super().is_a(t[0] if isinstance(t, tuple) else t, b[0] if isinstance(b, tuple) else b)

    def where(self, x):
        b = self.allb[x[1]]
        return b, x[2]

    def path(self, root, x):
        """A call chain from root along which x leaves: function names."""
        esc = self.escapes()
        seen, w = {root: None}, [root]
        while w:
            u = w.pop(0)
            if u == x[1]:
                r = []
                while u is not None:
                    r.append(self.allb[u].fn.n.split("(")[0])
                    u = seen[u]
                return list(reversed(r))
            b = self.allb[u]
            for part in [b.s] + [i["e"] for i in b.inits or []]:
                for n in walk(part):
                    if n.get("k") in ("call", "ctor", "new") and n.get("f") is not None:
                        for t in (self.made(n) or self.targets(n) or self.stored_calls(n) or []):
                            if x in esc.get(t.fn.u, ()) and t.fn.u not in seen:
                                seen[t.fn.u] = u
                                w.append(t.fn.u)
        return [self.allb[root].fn.n, "...", self.allb[x[1]].fn.n]

    def reachable(self, root):
        seen, w = {root}, [root]
        while w:
            b = self.allb[w.pop()]
            for part in [b.s] + [i["e"] for i in b.inits or []]:
                for n in walk(part):
                    k = n.get("k")
                    ts = ()
                    if k in ("call", "ctor", "new") and n.get("f") is not None:
                        ts = self.made(n) or self.targets(n) or self.stored_calls(n) or ()
                    elif k == "lambda":
                        ts = n["fn"]
                    for t in ts:
                        if t.fn.u not in seen:
                            seen.add(t.fn.u)
                            w.append(t.fn.u)
        return seen


class Client:
    """What the automaton reacts to."""
    follow_all = False

    def event(self, e):
        """Does this call/constructor node itself matter (makes its function relevant)?"""
        return False

    def call(self, fl, st, e, obj, args, fr):
        """[(state, value)] or [(state, Throw(type))], or None for the default treatment."""
        return None

    def declared(self, fl, st, d, fr):
        """A local variable was initialised: state."""
        return st

    def scope_end(self, fl, st, d, fr):
        """A local variable goes out of scope: state."""
        return st

    def scoped(self, d):
        """Does the end of this local's life matter?"""
        return False

    def truth(self, fl, st, key, e, fr):
        """Truth of an access path if the client knows it."""
        return None

    def same(self, fl, st, xs, fr):
        """Outcome of an operator== of two expressions if the client knows it."""
        return None

    def load(self, fl, st, key, e, fr):
        return None

    def assign(self, fl, st, key, val, e, fr):
        return st


class Throw:
    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, Throw) and o.t == self.t

    def __hash__(self):
        return hash(("throw", self.t))


class Frame:
    def __init__(self, body, this=None, up=None):
        self.body, self.this, self.up = body, this, up
        self.alias = {}
        self.thr = []
        self.handling = []
        self.depth = up.depth + 1 if up else 0

    def stack(self):
        r, f = [], self
        while f:
            r.append(f.body.fn.n.split("::")[-1] if f.body.fn else "lambda")
            f = f.up
        return list(reversed(r))


NORM, BRK, CONT = "norm", "break", "cont"


class Flow:
    MAXDEPTH = 14
    MAXSTATES = 4000

    def __init__(self, P, client):
        self.P, self.M, self.cl = P, P.M, client
        P.escapes()
        self._rel = None
        self.memo = {}
        self.followed = set()
        self.cut = []

    # ---- which functions can change the automaton
    def relevant(self):
        if self._rel is not None:
            return self._rel
        M = self.M
        lam = {b.fn.u: b for bs in M.lambdas.values() for b in bs}
        allb = dict(M.bodies)
        allb.update(lam)
        rel = set()
        callers = {}
        for u, b in allb.items():
            for part in [b.s] + [i["e"] for i in b.inits or []]:
                for x in walk(part):
                    k = x.get("k")
                    if k in ("call", "ctor"):
                        if self.cl.event(x):
                            rel.add(u)
                        for t in (self.P.targets(x) or []) + (self.P.made(x) or []):
                            callers.setdefault(t.fn.u, set()).add(u)
                    elif k == "lambda":
                        for lb in x["fn"]:
                            callers.setdefault(lb.fn.u, set()).add(u)
                    elif k == "decl":
                        for d in x["d"]:
                            if self.cl.scoped(d):
                                rel.add(u)
                            t = d["v"].t
                            if t is not None and t.k == "rec":
                                db = self.dtor(t)
                                if db is not None:
                                    callers.setdefault(db.fn.u, set()).add(u)
                    elif k in ("bin", "mem") and self.cl.event(x):
                        rel.add(u)
        w = list(rel)
        while w:
            for c in callers.get(w.pop(), ()):
                if c not in rel:
                    rel.add(c)
                    w.append(c)
        self._rel = rel
        return rel

    def dtor(self, t):
        r = self.P.rec_u.get(t.noref.r)
        if r is None or r.dtor is None:
            return None
        return self.M.bodies.get(r.dtor.u)

    # ---- facts
    @staticmethod
    def fact(st, key):
        for k, v in st[1]:
            if k == key:
                return v
        return None

    @staticmethod
    def setfact(st, key, v):
        return (st[0], frozenset([x for x in st[1] if x[0] != key] + [(key, v)]))

    @staticmethod
    def under(k, key):
        return k[:len(key)] == key

    def kill(self, st, key, keep_self=False):
        return (st[0], frozenset(x for x in st[1] if not (x[0] == key and not keep_self or self.under(x[0], key) and x[0] != key)))

    # ---- entry
    def run(self, body, auto, args=(), this=("this",), facts=()):
        """{(outcome, value/type)} -> set of states"""
        fr = Frame(body, this)
        for v, a in zip(body.ps, args):
            if a is not None:
                fr.alias[v.id] = a
        return self.body(body, (auto, frozenset(facts)), fr)

    def body(self, b, st, fr):
        self.followed.add(b)
        sts = {st}
        out = {}
        for i in b.inits or []:
            nxt = set()
            for s in sts:
                for s2, v in self.ev(i["e"], s, fr) if i["e"] is not None else [(s, None)]:
                    if i.get("m") and fr.this is not None and v is not None and v[0] == "c":
                        s2 = self.setfact(s2, fr.this + (i["m"],), v[1])
                    nxt.add(s2)
            sts = nxt
        r = self.ex(b.s, sts, fr)
        for (k, v), ss in r.items():
            if k == NORM:
                out.setdefault(("ret", None), set()).update(ss)
            else:
                out.setdefault((k, v), set()).update(ss)
        for t, s in fr.thr:
            out.setdefault(("throw", t), set()).add(s)
        fr.thr = []
        return out

    # ---- statements
    def ex(self, s, sts, fr):
        out = {}
        if s is None:
            return {(NORM, None): set(sts)}
        if len(sts) > self.MAXSTATES:
            raise AnalysisError("too many states in %s" % fr.body.fn.n)
        k = s["k"]
        if k == "blk":
            return self.block(s["s"], sts, fr)
        if k in ("nop", "label"):
            return self.ex(s.get("s"), sts, fr) if k == "label" else {(NORM, None): set(sts)}
        if k == "expr":
            n = set()
            for st in sts:
                n.update(x for x, _ in self.ev(s["e"], st, fr))
            return self.done({(NORM, None): n}, fr)
        if k == "decl":
            n = set(sts)
            for d in s["d"]:
                n = self.decl(d, n, fr)
            return self.done({(NORM, None): n}, fr)
        if k == "ret":
            for st in sts:
                for x, v in self.ev(s["e"], st, fr) if s.get("e") is not None else [(st, None)]:
                    out.setdefault(("ret", self.retval(x, v, fr)), set()).add(x)
            return self.done(out, fr)
        if k in ("break", "cont"):
            return {(BRK if k == "break" else CONT, None): set(sts)}
        if k == "if":
            cur = set(sts)
            if s.get("i") is not None:
                r = self.ex(s["i"], cur, fr)
                cur = r.pop((NORM, None), set())
                self.join(out, r)
            ds = []
            if s.get("cv") is not None:
                cur = self.decl(s["cv"], cur, fr)
                ds.append(s["cv"])
            T, F = set(), set()
            for st in cur:
                t, f = self.cond(s["c"], st, fr)
                T.update(t)
                F.update(f)
            r = {}
            self.join(r, self.ex(s["a"], T, fr) if T else {})
            self.join(r, (self.ex(s["b"], F, fr) if s.get("b") is not None else {(NORM, None): F}) if F else {})
            self.join(out, r)
            return self.done(self.leave(out, ds, fr), fr)
        if k in ("while", "for", "do", "rfor"):
            return self.loop(s, sts, fr)
        if k == "switch":
            return self.switch(s, sts, fr)
        if k in ("case", "default"):
            return self.ex(s["s"], sts, fr)
        if k == "try":
            return self.try_(s, sts, fr)
        if k == "unkS":
            return {(NORM, None): set(sts)}
        raise AnalysisError("statement %s in %s" % (k, fr.body.fn.n))

    def join(self, a, b):
        for k, v in b.items():
            if v:
                a.setdefault(k, set()).update(v)
        return a

    def done(self, out, fr):
        for t, s in fr.thr:
            out.setdefault(("throw", t), set()).add(s)
        fr.thr = []
        return {k: v for k, v in out.items() if v}

    def block(self, ss, sts, fr):
        out = {}
        cur = set(sts)
        ds = []
        for s in ss:
            if s is None:
                continue
            if not cur:
                break
            r = self.ex(s, cur, fr)
            if s["k"] == "decl":
                cur = r.pop((NORM, None), set())
                self.join(out, self.leave(r, ds, fr))
                ds += s["d"]
            else:
                cur = r.pop((NORM, None), set())
                self.join(out, self.leave(r, ds, fr))
        self.join(out, self.leave({(NORM, None): cur}, ds, fr) if cur else {})
        return self.done(out, fr)

    def leave(self, out, ds, fr):
        """Locals declared in ds end their life."""
        ds = [d for d in ds if self.cl.scoped(d) or (d["v"].t is not None and d["v"].t.k == "rec" and self.dtor(d["v"].t) is not None
                                                     and self.dtor(d["v"].t).fn.u in self.relevant())]
        if not ds:
            return out
        r = {}
        for k, ss in out.items():
            cur = set(ss)
            for d in reversed(ds):
                nxt = set()
                for st in cur:
                    if self.cl.scoped(d):
                        nxt.add(self.cl.scope_end(self, st, d, fr))
                    else:
                        for (kk, v), xs in self.inline(self.dtor(d["v"].t), st, [], ("v", d["v"].id), fr).items():
                            if kk == "throw":
                                continue
                            nxt.update(xs)
                cur = nxt
            r[k] = cur
        return r

    def decl(self, d, sts, fr):
        out = set()
        v = d["v"]
        key = ("v", v.id)
        for st in sts:
            if d.get("i") is None:
                x = self.kill(st, key)
                out.add(self.cl.declared(self, x, d, fr))
                continue
            for x, val in self.ev(d["i"], st, fr):
                x = self.kill(x, key)
                t = v.t
                pointer = t is not None and (t.k in ("ref", "rref", "ptr") or (t.r or "") in ("std::shared_ptr", "std::unique_ptr", "std::function", "std::reference_wrapper"))
                fr.alias.pop(v.id, None)
                if val is not None and val[0] == "c":
                    x = self.setfact(x, key, val[1])
                elif val is not None and (pointer or val[0] in ("lam", "obj")):
                    fr.alias[v.id] = val
                elif val is not None and val[0] == "k":
                    f = self.fact(x, val[1])
                    if f is not None:
                        x = self.setfact(x, key, f)
                out.add(self.cl.declared(self, x, d, fr))
        return out

    def retval(self, st, v, fr):
        if v is None:
            return None
        if v[0] == "k":
            f = self.fact(st, v[1])
            return ("c", f) if f is not None else v
        return v

    def loop(self, s, sts, fr):
        k = s["k"]
        out = {}
        cur = set(sts)
        if s.get("i") is not None:
            r = self.ex(s["i"], cur, fr)
            cur = r.pop((NORM, None), set())
            self.join(out, r)
        if k == "rfor":
            n = set()
            for st in cur:
                n.update(x for x, _ in self.ev(s["r"], st, fr))
            cur = n
        seen, work, exit_ = set(), set(cur), set()
        first = k == "do"
        while work:
            seen |= work
            T = set()
            if k == "rfor":
                T |= work
                exit_ |= work
            elif first or s.get("c") is None:
                T |= work
            else:
                if s.get("cv") is not None:
                    work = self.decl(s["cv"], work, fr)
                for st in work:
                    t, f = self.cond(s["c"], st, fr)
                    T.update(t)
                    exit_.update(f)
            if k == "rfor":
                T = self.decl(s["d"], T, fr)
            r = self.ex(s["s"], T, fr) if T else {}
            nxt = r.pop((NORM, None), set()) | r.pop((CONT, None), set())
            exit_ |= r.pop((BRK, None), set())
            self.join(out, r)
            if k == "for" and s.get("n") is not None:
                m = set()
                for st in nxt:
                    m.update(x for x, _ in self.ev(s["n"], st, fr))
                nxt = m
            if k == "do":
                m = set()
                for st in nxt:
                    t, f = self.cond(s["c"], st, fr)
                    m.update(t)
                    exit_.update(f)
                nxt = m
            work = nxt - seen
        self.join(out, {(NORM, None): exit_})
        return self.done(out, fr)

    def switch(self, s, sts, fr):
        out = {}
        cur = set(sts)
        if s.get("i") is not None:
            r = self.ex(s["i"], cur, fr)
            cur = r.pop((NORM, None), set())
            self.join(out, r)
        vals = []
        for st in cur:
            vals += self.ev(s["c"], st, fr)
        body = s["s"]["s"] if s["s"] is not None and s["s"]["k"] == "blk" else [s["s"]]
        labels = []

        def labs(x, i):
            while x is not None and x["k"] in ("case", "default"):
                labels.append((i, x.get("v") if x["k"] == "case" else None, x["k"], x.get("v2")))
                x = x["s"]
        for i, x in enumerate(body):
            labs(x, i)
        entry = {}
        for st, v in vals:
            f = v[1] if v is not None and v[0] == "c" else self.fact(st, v[1]) if v is not None and v[0] == "k" else None
            hit = False
            for i, c, kind, c2 in labels:
                if kind == "case" and (f is None or c is None or f == c or c2 is not None and c <= f <= c2):
                    x = self.setfact(st, v[1], c) if f is None and v is not None and v[0] == "k" and c is not None and c2 is None else st
                    entry.setdefault(i, set()).add(x)
                    hit = hit or (f is not None and f == c)
            if not hit or f is None:
                d = [i for i, c, kind, _ in labels if kind == "default"]
                if d:
                    entry.setdefault(d[0], set()).add(st)
                else:
                    self.join(out, {(NORM, None): {st}})
        cur = set()
        for i, x in enumerate(body):
            cur |= entry.get(i, set())
            if not cur:
                continue
            r = self.ex(x, cur, fr)
            cur = r.pop((NORM, None), set())
            self.join(out, {(NORM, None): r.pop((BRK, None), set())})
            self.join(out, r)
        self.join(out, {(NORM, None): cur})
        return self.done(out, fr)

    def try_(self, s, sts, fr):
        r = self.ex(s["s"], sts, fr)
        out = {}
        thrown = [(k[1], v) for k, v in r.items() if k[0] == "throw"]
        self.join(out, {k: v for k, v in r.items() if k[0] != "throw"})
        for h in s["h"]:
            hn = h["t"].noref.r if h["t"] is not None else None
            left = []
            for t, ss in thrown:
                if hn is None or self.P.is_a(t, hn):
                    fr.handling.append(t)
                    self.join(out, self.ex(h["s"], ss, fr))
                    fr.handling.pop()
                else:
                    left.append((t, ss))
                    if self.P.is_a(hn, t):          # declared type of a rethrown exception may be more derived
                        fr.handling.append(hn)
                        self.join(out, self.ex(h["s"], ss, fr))
                        fr.handling.pop()
            thrown = left
        for t, ss in thrown:
            self.join(out, {("throw", t): ss})
        return self.done(out, fr)

    # ---- conditions
    def cond(self, e, st, fr):
        """(states where it holds, states where it does not)"""
        if e is None:
            return {st}, set()
        k = e.get("k")
        if k == "un" and e["op"] == "!":
            t, f = self.cond(e["e"], st, fr)
            return f, t
        if k == "bin" and e["op"] in ("&&", "||"):
            t, f = self.cond(e["a"], st, fr)
            T, F = set(), set()
            go, stay = (t, f) if e["op"] == "&&" else (f, t)
            for x in go:
                a, b = self.cond(e["b"], x, fr)
                T |= a
                F |= b
            if e["op"] == "&&":
                return T, F | stay
            return T | stay, F
        if k == "cast" and e.get("ck") not in ("UserDefinedConversion", "ConstructorConversion"):
            return self.cond(e["e"], st, fr)
        if k == "cast":
            return self.cond(e["e"], st, fr)
        if k == "bin" and e["op"] in ("==", "!="):
            T, F = set(), set()
            for s1, a in self.ev(e["a"], st, fr):
                for s2, b in self.ev(e["b"], s1, fr):
                    t, f = self.equal(s2, a, b)
                    T |= t
                    F |= f
            return (T, F) if e["op"] == "==" else (F, T)
        if k == "call" and e.get("f") is not None:
            sh = e["f"].short
            if sh in ("operator==", "operator!=") and len(e["a"]) + (e.get("o") is not None) == 2:
                xs = ([e["o"]] if e.get("o") is not None else []) + list(e["a"])
                same = self.cl.same(self, st, xs, fr)
                if same is not None:
                    return ({st}, set()) if same == (sh == "operator==") else (set(), {st})
                T, F = set(), set()
                for s1, a in self.ev(xs[0], st, fr):
                    for s2, b in self.ev(xs[1], s1, fr):
                        t, f = self.equal(s2, a, b)
                        T |= t
                        F |= f
                return (T, F) if sh == "operator==" else (F, T)
        T, F = set(), set()
        for s, v in self.ev(e, st, fr):
            t, f = self.truth(s, v, e, fr)
            T |= t
            F |= f
        return T, F

    def truth(self, s, v, e, fr):
        if v is None:
            return {s}, {s}
        if v[0] == "c":
            return ({s}, set()) if v[1] else (set(), {s})
        if v[0] in ("lam", "obj", "addr"):
            return {s}, set()
        c = self.cl.truth(self, s, v[1], e, fr)
        if c is not None:
            return ({s}, set()) if c else (set(), {s})
        f = self.fact(s, v[1])
        if f is None:
            f = self.fact(s, v[1] + ("?",))
        if f is not None:
            return ({s}, set()) if f else (set(), {s})
        boolean = e.get("t") is not None and e["t"].noref.k == "bool" and e.get("k") in ("ref", "mem")
        return {self.setfact(s, v[1] + (() if boolean else ("?",)), 1)}, {self.setfact(s, v[1] + (() if boolean else ("?",)), 0)}

    def equal(self, s, a, b):
        if a is not None and b is not None:
            ca = a[1] if a[0] == "c" else self.fact(s, a[1]) if a[0] == "k" else None
            cb = b[1] if b[0] == "c" else self.fact(s, b[1]) if b[0] == "k" else None
            if ca is not None and cb is not None:
                return ({s}, set()) if ca == cb else (set(), {s})
            for (x, cx), cy in (((a, ca), cb), ((b, cb), ca)):
                if x[0] == "k" and cx is None and cy is not None:
                    if cy == 0:
                        f = self.fact(s, x[1] + ("?",))
                        if f is not None:
                            return (set(), {s}) if f else ({s}, set())
                        return {self.setfact(s, x[1] + ("?",), 0)}, {self.setfact(s, x[1] + ("?",), 1)}
                    ne = self.fact(s, x[1] + ("!=", cy))
                    if ne:
                        return set(), {s}
                    return {self.setfact(s, x[1], cy)}, {self.setfact(s, x[1] + ("!=", cy), 1)}
        return {s}, {s}

    # ---- expressions
    def ev(self, e, st, fr):
        """[(state, value)]; value: ("c", n), ("k", path), ("lam", node, frame), ("obj", type) or None"""
        if e is None:
            return [(st, None)]
        k = e["k"]
        if k in ("int", "enumc"):
            return [(st, ("c", e["v"]))]
        if k == "null":
            return [(st, ("c", 0))]
        if k == "this":
            return [(st, ("k", fr.this) if fr.this is not None else None)]
        if k == "ref":
            a = fr.alias.get(e["v"].id)
            if a is None:
                f = fr.up if fr.body.lam is not None or fr.body.parent is not None else None
                key = ("v", e["v"].id)
                a = ("k", key)
            if a[0] == "k":
                f = self.fact(st, a[1])
                if f is not None:
                    return [(st, ("c", f))]
                v = self.cl.load(self, st, a[1], e, fr)
                if v is not None:
                    return [(st, v)]
            return [(st, a)]
        if k == "mem":
            r = []
            for s, b in self.ev(e["b"], st, fr):
                v = ("k", b[1] + (e["n"],)) if b is not None and b[0] == "k" else None
                if v is not None:
                    f = self.fact(s, v[1])
                    if f is not None:
                        v = ("c", f)
                    else:
                        v = self.cl.load(self, s, v[1], e, fr) or v
                r.append((s, v))
            return r
        if k == "lambda":
            return [(st, ("lam", e["id"], fr))]
        if k == "cast":
            if e.get("ck") in ("ToVoid",):
                return [(s, None) for s, _ in self.ev(e["e"], st, fr)]
            return self.ev(e["e"], st, fr)
        if k == "un":
            if e["op"] == "!":
                t, f = self.cond(e["e"], st, fr)
                return [(s, ("c", 1)) for s in t if s not in f] + [(s, ("c", 0)) for s in f if s not in t] + [(s, None) for s in t if s in f]
            r = []
            for s, v in self.ev(e["e"], st, fr):
                if e["op"] in ("*", "&"):
                    r.append((s, v))
                elif e["op"] in ("++", "--"):
                    kk = self.lkey(e["e"], st, fr)
                    r.append((self.kill(s, kk) if kk else s, None))
                elif e["op"] == "-" and v is not None and v[0] == "c":
                    r.append((s, ("c", -v[1])))
                else:
                    r.append((s, None))
            return r
        if k == "bin":
            if e["op"] in ("&&", "||", "==", "!="):
                t, f = self.cond(e, st, fr)
                return [(s, ("c", 1)) for s in t if s not in f] + [(s, ("c", 0)) for s in f if s not in t] + [(s, None) for s in t if s in f]
            if e["op"] == "=":
                return self.assign(e, e["a"], e["b"], st, fr)
            r = []
            for s, a in self.ev(e["a"], st, fr):
                for s2, b in self.ev(e["b"], s, fr):
                    v = b if e["op"] == "," else None
                    if a is not None and b is not None and a[0] == b[0] == "c" and e["op"] in ("<", ">", "<=", ">=", "+", "-"):
                        x, y = a[1], b[1]
                        v = ("c", int({"<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y, "+": x + y, "-": x - y}[e["op"]]))
                    r.append((s2, v))
            return r
        if k == "cas":
            r = []
            for s, _ in self.ev(e["b"], st, fr):
                for s2, _ in self.ev(e["a"], s, fr):
                    kk = self.lkey(e["a"], s2, fr)
                    r.append((self.kill(s2, kk) if kk else s2, None))
            return r
        if k == "cond":
            t, f = self.cond(e["c"], st, fr)
            r = []
            for s in t:
                r += self.ev(e["a"], s, fr)
            for s in f:
                r += self.ev(e["b"], s, fr)
            return list(dict.fromkeys(r)) if all(v is None or v[0] != "lam" for _, v in r) else r
        if k == "throw":
            if e.get("e") is None:
                if fr.handling:
                    fr.thr.append((fr.handling[-1], st))
                else:
                    f = fr.up
                    while f and not f.handling:
                        f = f.up
                    fr.thr.append((f.handling[-1] if f else "std::exception", st))
                return []
            for s, _ in self.ev(e["e"], st, fr):
                fr.thr.append((e["tt"].noref.r or e["tt"].s, s))
            return []
        if k in ("call", "ctor"):
            return self.call(e, st, fr)
        if k == "new":
            return [(s, ("obj", None)) for s, _ in self.ev(e.get("e"), st, fr)]
        if k == "sub":
            r = []
            for s, a in self.ev(e["a"], st, fr):
                for s2, b in self.ev(e["b"], s, fr):
                    r.append((s2, None))
            return r
        if k == "il":
            sts = [st]
            for x in e["a"]:
                sts = list({s for y in sts for s, _ in self.ev(x, y, fr)})
            if len(e["a"]) == 1:
                return self.ev(e["a"][0], st, fr)
            return [(s, None) for s in sts]
        if k in ("str", "float", "zero", "sizeof", "typeid"):
            if k == "zero" and e.get("t") is not None and e["t"].is_int:
                return [(st, ("c", 0))]
            return [(st, None)]
        if k == "fnref":
            return [(st, None)]
        sts = [st]
        for c in children(e):
            if c.get("k") and "l" in c:
                sts = list({s for y in sts for s, _ in self.ev(c, y, fr)})
        return [(s, None) for s in sts]

    def lkey(self, e, st, fr):
        k = e["k"]
        if k == "ref":
            a = fr.alias.get(e["v"].id)
            if a is not None and a[0] == "k" and e["v"].t is not None and e["v"].t.k in ("ref", "rref"):
                return a[1]
            return ("v", e["v"].id)
        if k == "mem":
            b = self.lkey2(e["b"], st, fr)
            return b + (e["n"],) if b is not None else None
        if k == "cast":
            return self.lkey(e["e"], st, fr)
        if k == "un" and e["op"] == "*":
            return self.lkey2(e["e"], st, fr)
        if k == "call" and e.get("o") is not None and e["f"].short in ("operator*", "operator->", "value", "get"):
            return self.lkey2(e["o"], st, fr)
        return None

    def lkey2(self, e, st, fr):
        k = e["k"]
        if k == "this":
            return fr.this
        if k == "ref":
            a = fr.alias.get(e["v"].id)
            return a[1] if a is not None and a[0] == "k" else None if a is not None else ("v", e["v"].id)
        return self.lkey(e, st, fr)

    def assign(self, e, lhs, rhs, st, fr):
        r = []
        for s, v in self.ev(rhs, st, fr):
            for s2, _ in (self.ev(lhs["b"], s, fr) if lhs["k"] == "mem" else [(s, None)]):
                kk = self.lkey(lhs, s2, fr)
                if kk is None:
                    r.append((s2, v))
                    continue
                s3 = self.kill(s2, kk)
                if lhs["k"] == "ref" and lhs["v"].id in fr.alias and kk == ("v", lhs["v"].id):
                    fr.alias.pop(lhs["v"].id)
                s3 = self.kill(s3, kk)
                if v is not None and v[0] == "c":
                    s3 = self.setfact(s3, kk, v[1])
                s3 = self.cl.assign(self, s3, kk, v, e, fr)
                r.append((s3, v))
        return r

    # ---- calls
    def args(self, xs, st, fr):
        """[(state, [values])]"""
        cur = [(st, [])]
        for x in xs:
            cur = [(s2, vs + [v]) for s, vs in cur for s2, v in self.ev(x, s, fr)]
        return cur

    def call(self, e, st, fr):
        f = e.get("f")
        r = []
        objs = self.ev(e["o"], st, fr) if e.get("o") is not None else self.ev(e["ce"], st, fr) if e.get("ce") is not None else [(st, None)]
        for s0, obj in objs:
            for s, args in self.args(e.get("a") or (), s0, fr):
                c = self.cl.call(self, s, e, obj, args, fr)
                if c is not None:
                    for s2, v in c:
                        if isinstance(v, Throw):
                            fr.thr.append((v.t, s2))
                        else:
                            r.append((s2, v))
                    continue
                r += self.default(e, f, s, obj, args, fr)
        return r

    def default(self, e, f, s, obj, args, fr):
        if f is None:
            return [(s, None)]
        sh, n, cls = f.short, f.n, f.cls or ""
        std = n.startswith("std::") or cls.startswith(("std::", "__gnu_cxx::"))
        if std:
            if sh in ("operator->", "operator*", "get", "value", "operator bool", "has_value") and obj is not None and not e.get("a"):
                if sh == "value":
                    return [(s, obj)]
                return [(s, obj)]
            if n in PASS and args:
                return [(s, args[0])]
            if sh == "operator=" and e.get("o") is not None and args:
                kk = self.lkey(e["o"], s, fr)
                if kk is not None:
                    if e["o"]["k"] == "ref":
                        fr.alias.pop(e["o"]["v"].id, None)
                    s = self.kill(s, kk)
                    if args[0] is not None and args[0][0] == "c":
                        s = self.setfact(s, kk, args[0][1])
                    elif args[0] is not None and args[0][0] == "obj":
                        s = self.setfact(s, kk + ("?",), 1)
                    s = self.cl.assign(self, s, kk, args[0], e, fr)
                return [(s, obj)]
            if sh == "operator()" and obj is not None and obj[0] == "lam":
                return self.calllam(obj, args, s, fr)
            if n in ("std::make_shared", "std::make_unique"):
                m = [b for b in self.P.made(e) or [] if b.fn.u in self.relevant()]
                if m:
                    return self.follow(m, s, args, None, fr, val=("obj", f.ta[0].r))
            if f.ctor:
                # conversions of callbacks and smart pointers keep identity
                if len(args) == 1 and args[0] is not None and (cls.startswith(("std::function", "std::shared_ptr", "std::unique_ptr", "std::optional"))):
                    return [(s, args[0])]
                if not args and cls.startswith(("std::function", "std::shared_ptr", "std::unique_ptr", "std::optional")):
                    return [(s, ("c", 0))]
        t = self.P.targets(e)
        if t:
            if e["k"] == "call" and f.op and False:
                pass
            rel = [b for b in t if b.fn.u in self.relevant()]
            irr = [b for b in t if b.fn.u not in self.relevant()]
            r = []
            if rel:
                this = obj[1] if obj is not None and obj[0] == "k" else ("tmp", e.get("id"))
                r += self.follow(rel, s, args, this, fr)
            if irr:
                esc = self.P.escapes()
                s2 = self.clobber(e, s, obj, args, fr)
                for b in irr:
                    for ty in sorted(esc.get(b.fn.u, ())):
                        fr.thr.append((ty, s2))
                if not f.nr:
                    r.append((s2, ("obj", cls) if f.ctor else None))
                if any(a is not None and a[0] == "lam" for a in args):
                    r = self.maybe_run(r, args, fr)
            return r
        # not defined in the program
        s = self.clobber(e, s, obj, args, fr)
        for ty in sorted(set(self.P.external(f, e))):
            fr.thr.append((ty, s))
        r = [(s, ("obj", cls) if f.ctor and not std else None)] if not f.nr else []
        if any(a is not None and a[0] == "lam" for a in args) and std and cls not in ("std::thread", "std::jthread"):
            r = self.maybe_run(r, args, fr)
        return r

    def maybe_run(self, r, args, fr):
        """A callee that may run the lambdas it is given, any number of times."""
        seen = {s for s, _ in r}
        work = list(seen)
        while work:
            s = work.pop()
            for a in args:
                if a is not None and a[0] == "lam":
                    for s2, _ in self.calllam(a, [], s, fr):
                        if s2 not in seen:
                            seen.add(s2)
                            work.append(s2)
        return [(s, None) for s in seen]

    def clobber(self, e, s, obj, args, fr):
        """A callee that is not followed may change what it is given to change."""
        f = e["f"]
        ks = []
        if obj is not None and obj[0] == "k" and not f.cst and not f.st:
            ks.append((obj[1], True))
        for a, t in zip(args, f.p or ()):
            if a is not None and a[0] == "k" and t is not None and t.k in ("ref", "ptr") and t.p is not None and not t.p.c:
                ks.append((a[1], False))
        for key, keep in ks:
            s = self.kill(s, key, keep)
        # call by reference hides the path when the value is known
        for x, t in zip(e.get("a") or (), f.p or ()):
            if t is not None and t.k == "ref" and t.p is not None and not t.p.c and x["k"] in ("ref", "mem"):
                kk = self.lkey(x, s, fr)
                if kk is not None:
                    s = self.kill(s, kk)
        if obj is None and f.cls and not f.st and not f.cst and e.get("o") is not None and e["o"]["k"] == "this" and fr.this:
            s = self.kill(s, fr.this, True)
        return s

    def calllam(self, lam, args, s, fr):
        bs = self.M.lambdas.get(lam[1]) or []
        r = []
        for b in bs[:1] if len(bs) == 1 else [x for x in bs if len(x.ps) == len(args)] or bs:
            r += self.unwind(self.inline(b, s, args, lam[2].this, fr, lam[2]), fr)
        return r

    def follow(self, bodies, s, args, this, fr, val=None):
        r = []
        for b in bodies:
            r += [(x, v if val is None else val) for x, v in self.unwind(self.inline(b, s, args, this, fr), fr)]
        return r

    def unwind(self, out, fr):
        r = []
        for (k, v), ss in out.items():
            for x in ss:
                if k == "throw":
                    fr.thr.append((v, x))
                else:
                    r.append((x, v))
        return r

    def inline(self, b, s, args, this, fr, closure=None):
        if fr.depth > self.MAXDEPTH or self.recursive(b, fr):
            self.cut.append("%s from %s" % (b.fn.n, fr.body.fn.n))
            out = {("ret", None): {s}}
            for t in self.P.escapes().get(b.fn.u, ()):
                out.setdefault(("throw", t), set()).add(s)
            return out
        n = Frame(b, this, fr)
        if closure is not None:
            n.alias.update(closure.alias)
        key = None
        kill = []
        for v, a in zip(b.ps, list(args) + [None] * (len(b.ps) - len(args))):
            if a is not None and a[0] == "c" and (v.t is None or v.t.k not in ("ref", "rref")):
                s = self.setfact(s, ("v", v.id), a[1])
                n.alias.pop(v.id, None)
            elif a is not None:
                n.alias[v.id] = a
            else:
                n.alias.pop(v.id, None)
                s = self.kill(s, ("v", v.id))
        mk = None
        if closure is None and not any(a is not None and a[0] == "lam" for a in args):
            mk = (b.fn.u, s, tuple((i, n.alias.get(v.id)) for i, v in enumerate(b.ps)), this, tuple(self.handling(fr)))
            if mk in self.memo:
                return self.memo[mk]
        out = self.body(b, s, n)
        # locals of the callee are gone
        res = {}
        ids = self.locals_of(b)
        for k, ss in out.items():
            res[k] = {(x[0], frozenset(f for f in x[1] if not (f[0][0] == "v" and f[0][1] in ids))) for x in ss}
        if mk is not None:
            self.memo[mk] = res
        return res

    def handling(self, fr):
        while fr is not None:
            if fr.handling:
                return fr.handling[-1:]
            fr = fr.up
        return []

    def recursive(self, b, fr):
        n = 0
        while fr:
            n += fr.body is b
            fr = fr.up
        return n >= 1

    def locals_of(self, b):
        c = self.__dict__.setdefault("_loc", {})
        if b.fn.u not in c:
            ids = {v.id for v in b.ps}
            for x in walk(b.s):
                if x.get("k") == "decl":
                    ids |= {d["v"].id for d in x["d"]}
                elif x.get("k") in ("rfor",):
                    ids.add(x["d"]["v"].id)
                elif isinstance(x.get("cv"), dict):
                    ids.add(x["cv"]["v"].id)
            c[b.fn.u] = ids
        return c[b.fn.u]
