"""Comparison of a function's abstract path table with a specification table."""
from terms import *
from absint import Interp, St, assume, add_fact, entails_eq, entails_le, entails_ne, mentions, substitute, has_unknown
from model import AnalysisError
import poly, witness
from poly import cuts, split_slices

PURE_OPS = {"+", "-", "*", "/", "%", "and", "or", "xor", "shr", "shl", "strlen", "len", "ite", "<=>", "neg", "floorq", "ceilq"}


def int_type(M, tag):
    c = M.__dict__.setdefault("_inttypes", {})
    if tag not in c:
        from terms import tag_of
        for t in (M.types.values() if isinstance(M.types, dict) else M.types):
            if t.k == "int" and tag_of(t) == tag:
                c[tag] = t
                break
        else:
            raise AnalysisError("no type " + tag)
    return c[tag]


def entry(I, body, names):
    """Entry arguments with canonical names, by position."""
    ov = {}
    for i, p in enumerate(body.ps):
        n = names[i] if i < len(names) else "a%d" % i
        if not isinstance(n, str):
            ov[i] = n
            continue
        t, b = p.t, p.t.noref
        if t.k in ("ref", "rref") or (b.k in ("rec", "arr") and not I.scalar_rec(b)):
            ov[i] = ("ref", ("p", n)) if t.k in ("ref", "rref") else ("obj", ("p", n))
        elif b.k == "ptr" and b.p is not None and (b.p.is_int or b.p.k == "float"):
            ov[i] = ("ptr", ("p", n), ZERO)
        else:
            ov[i] = ("par", n, tag_of(t))
    return ov


def unclean(t, allow=frozenset()):
    """Does the term contain a value the analysis does not model exactly?"""
    if not isinstance(t, tuple) or not t:
        return False
    h = t[0]
    if h in ("unk", "phi", "mix", "loopmem", "loopout"):
        return True
    if h == "sym" and len(t) > 1 and t[1] in ("loop", "inv"):
        return True
    if h == "ld" and isinstance(t[2], int) and t[2] >= 100000 and not ("ep", t[2]) in allow and "ep" not in allow:      # after an operation that is not modelled
        return True
    if h == "app" and t[1] not in PURE_OPS and t[1] not in allow:
        return True
    return any(unclean(x, allow) for x in t if isinstance(x, tuple))


def clean_state(st, allow=frozenset()):
    return not st.opq and not any(unclean(f, allow) for f in st.facts)


def eq_terms(st, a, b, allow=frozenset()):
    """True: equal under the facts; False: the analysis models both and they are not equal; None: undecided."""
    if a == b:
        return True
    if a is None or b is None:
        return None
    if is_num(a) and is_num(b):
        if is_bool(a) or is_bool(b):
            return eq_bool(st, a, b, allow)
        d = sub(a, b)
        if entails_eq(st, d):
            return True
        d1 = same_cells(st, d)
        if d1 != d:
            if entails_eq(st, d1):
                return True
            d = d1
        if unclean(a, allow) or unclean(b, allow):
            return False if entails_ne(st, d) and clean_state(st, allow) else None
        acc = {}
        cuts(d, acc)
        if acc:
            d2 = split_slices(d, acc)
            if entails_eq(st, d2):
                return True
            d = d2
        if poly.proves_zero(st.facts, d):
            return True
        if entails_ne(st, d):
            return False
        if complex_(a) or complex_(b):
            return False if witness.find(st.facts, d) else None
        return False
    if unclean(a, allow) or unclean(b, allow):
        return None
    if a[0] in ("some", "none", "null", "s", "f", "c", "enumc") and b[0] in ("some", "none", "null", "s", "f", "c", "enumc"):
        if a[0] == b[0] == "some":
            return eq_terms(st, a[1], b[1], allow)
        return False
    return None if (a[0] == "ptr") != (b[0] == "ptr") else False


def same_cells(st, d):
    """d with elements of one container at provably equal positions written as one atom."""
    k, m = lin_parts(d)
    cells = [a for a in m if a[0] == "ld" and isinstance(a[1], tuple) and a[1][0] == "el"]
    for i, a in enumerate(cells):
        for b in cells[:i]:
            if a[1][1] == b[1][1] and a[2:] == b[2:] and is_num(a[1][2]) and is_num(b[1][2]):
                e = sub(a[1][2], b[1][2])
                if entails_eq(st, e) or poly.proves_zero(st.facts, e):
                    return same_cells(st, add(sub(d, scale(a, m[a])), scale(b, m[a])))
    return d


def is_bool(t):
    return t[0] in ("le", "eq", "not", "and", "or", "has", "eqv")


def eq_bool(st, a, b, allow):
    try:
        for x, y in ((a, b), (b, a)):
            for v in (True, False):
                for s in assume(st, x, v):
                    if any(not poly.infeasible(z.facts) for z in assume(s, y, not v)):
                        if unclean(a, allow) or unclean(b, allow):
                            return None
                        if (complex_(a) or complex_(b)) and not witness.find(st.facts, ("not", ("eq", sub(a, b)))):
                            return None
                        return False
    except ValueError:
        return None
    return True


def complex_(t):
    """Contains an operation whose canonical form is not unique."""
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] == "app" and t[1] in PURE_OPS:
        return True
    if t[0] == "bits":
        return complex_(t[1]) or t[1][0] == "lin"
    if t[0] == "lin":
        return any(complex_(a) for a, _ in t[2])
    return False


class Table:
    """Paths of one function."""

    def __init__(self, chk, I, body, names=(), this=("this",), allow=(), st=None, overrides=None, tag=""):
        self.chk, self.I, self.body, self.allow = chk, I, body, frozenset(allow)
        self.tag = tag or body.fn.short
        chk.saw(body)
        I.unknown.clear()
        I.outside.clear()
        I.MAXP = max(I.MAXP, 200)
        I.BCAP = max(I.BCAP, 64)
        ov = entry(I, body, names)
        ov.update(overrides or {})
        self.args = ov
        self.rets, self.throws = I.analyse(body, overrides=ov, this=this, st=st)
        self.unknown = list(I.unknown)
        self.paths = [("ret", s, v) for s, v in self.rets] + [("throw", s, e) for s, e in self.throws]
        chk.count("paths", len(self.paths))
        chk.count("steps", I.steps)
        chk.count("element_accesses_in_bounds", I.accesses - len(I.outside))
        for s, obj, i, n, line, file in I.outside:
            if not poly.infeasible(s.facts) and self.clean(s) and not self.unknown:
                chk.expect("%s/bounds" % self.tag, False, chk.where(body, line), "no element beyond the end of a container is accessed",
                           "element %d of %d is accessed" % (i, n))
        if self.unknown:
            chk.notes.append("%s: constructs not modelled: %s" % (self.tag, [u[1] if isinstance(u, tuple) and len(u) > 1 else str(u)[:60] for u in self.unknown][:5]))

    def clean(self, st):
        return clean_state(st, self.allow)

    def case(self, name, guard, expect, rule):
        """Every path consistent with guard must satisfy expect(st, kind, value) -> (True/False/None, detail)."""
        matched = 0
        for kind, s, v in self.paths:
            ss = [s]
            for t, truth in guard:
                ss = [y for x in ss for y in assume(x, t, truth)]
            for y in ss:
                if poly.infeasible(y.facts):
                    continue
                matched += 1
                r = expect(y, kind, v)
                ok, detail = r if isinstance(r, tuple) else (r, "")
                if ok is False and not self.clean(y):
                    ok = None
                line = v.line if kind == "throw" else None
                self.chk.count("path_case_pairs")
                if ok is not True:
                    facts = "; ".join("%s %s %s" % (f[0], fmt(f[1]), f[2] if len(f) > 2 else "") for f in y.facts[-8:])
                    detail = "%s -- on the path where %s, %s" % (detail, facts, ("throws %s" % v.type) if kind == "throw" else "returns " + fmt(v))
                self.chk.expect("%s/%s" % (self.tag, name), ok, self.chk.where(self.body, line), rule, detail)
        if not matched:
            self.chk.expect("%s/%s" % (self.tag, name), None, self.chk.where(self.body), rule, "no path of the analysis matches this case")
        return matched

    # ---- expectations
    def throws_type(self, names, M=None):
        M = self.I.M

        def f(st, kind, v):
            if kind != "throw":
                return False, "expected %s to be thrown" % "/".join(names)
            ts = exc_types(M, v)
            if ts is None:
                return None, "type of the exception unknown"
            return any(n in ts for n in names), "expected %s" % "/".join(names)
        return f

    def returns(self, term):
        def f(st, kind, v):
            if kind != "ret":
                return False, "expected a result"
            t = term(st) if callable(term) else term
            return eq_terms(st, v, t, self.allow), "expected " + fmt(t)
        return f

    def bytes_(self, size, elems, ranges=(), also=None):
        """Result is a byte sequence: size term, [(index, term)], [(lo, len, fn(i) -> term)]."""
        I = self.I

        def f(st, kind, v):
            if kind != "ret":
                return False, "expected a result"
            if v[0] != "obj":
                return None, "result not modelled"
            return seq_is(I, st, v[1], size, elems, ranges, self.allow)
        return f


def seq_is(I, st, loc, size, elems, ranges=(), allow=frozenset(), et="u8"):
    et = int_type(I.M, et)
    r = eq_terms(st, I.size_of(st, loc), size, allow)
    if r is not True:
        return r, "length is %s, expected %s" % (fmt(I.size_of(st, loc)), fmt(size))
    worst, det = True, ""
    for i, t in elems:
        v = I.load_el(st, loc, i if isinstance(i, tuple) else C(i), et)
        q = eq_terms(st, v, t, allow)
        if q is not True:
            d = "element %s is %s, expected %s" % (fmt(i) if isinstance(i, tuple) else i, fmt(v), fmt(t))
            if q is False:
                return False, d
            worst, det = None, d
    for lo, n, fn in ranges:
        i = ("sym", "spec_i", "sz")
        s = st
        for f in (scale(i, -1), add(sub(i, n), ONE)):
            s = add_fact(s, ("le", f))
            if s is None:
                break
        if s is None:
            continue
        for s2, v in elem_cases(I, s, loc, add(lo, i), et):
            q = eq_terms(s2, v, fn(i), allow)
            if q is not True:
                d = "element %s+i is %s, expected %s" % (fmt(lo), fmt(v), fmt(fn(i)))
                if q is False:
                    return False, d
                worst, det = None, d
    return worst, det


def elem_cases(I, st, loc, idx, et, depth=6):
    """Element at a symbolic index: [(state, value)], split at the positions written separately."""
    v = I.load_el(st, loc, idx, et)
    if depth == 0 or not (v[0] == "ld" and v[1][0] == "el" and v[1][1][0] == "mix"):
        return [(st, v)]
    base = I.deref_loc(st, loc)
    log = st.env.get(("log", base), ())
    for w in reversed(log):
        pts = []
        if w[0] == "w":
            d = sub(idx, w[1])
            if d == ZERO or entails_eq(st, d) or entails_ne(st, d) or poly.infeasible(st.facts, extra_eq=[d]):
                if poly.infeasible(st.facts, extra_eq=[d]) and not entails_ne(st, d):
                    st2 = add_fact(st, ("ne", d))
                    return elem_cases(I, st2, loc, idx, et, depth - 1) if st2 else []
                continue
            pts = [("eq", d), ("le", add(d, ONE)), ("le", sub(ONE, d))]
        elif w[0] == "rng":
            d = sub(idx, w[1])
            below, above = ("le", add(d, ONE)), ("le", sub(w[2], d))
            if entails_le(st, below[1]) or entails_le(st, above[1]) or \
                    (entails_le(st, scale(d, -1)) and entails_le(st, add(sub(d, w[2]), ONE))):
                continue
            pts = [below, above, None]
        else:
            break
        out = []
        for f in pts:
            if f is None:
                s = add_fact(st, ("le", scale(d, -1)))
                s = add_fact(s, ("le", add(sub(d, w[2]), ONE))) if s is not None else None
            else:
                s = add_fact(st, f)
            if s is None or poly.infeasible(s.facts):
                continue
            out += elem_cases(I, s, loc, idx, et, depth - 1)
        return out
    return [(st, v)]


def exc_types(M, e):
    """Names of the type thrown and all its bases."""
    t = e.type
    if not t:
        return None
    t = t.noref
    res = {t.r}
    if t.ru:
        res |= set(M.base_names(t.ru))
    for n in list(res):
        res |= STD_EXC.get(n, set())
    return res


STD_EXC = {"std::runtime_error": {"std::exception"}, "std::logic_error": {"std::exception"},
           "std::out_of_range": {"std::logic_error", "std::exception"},
           "std::invalid_argument": {"std::logic_error", "std::exception"}}
