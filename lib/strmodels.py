"""Strings whose characters are known terms: searching, cutting, number conversion, splitting streams and regular expressions.

Every operation forks on the characters it inspects, so that the result on each path is exact.
"""
from terms import *

NPOS = C(2**64 - 1)


def chars(v):
    """The characters of a string value as terms, or None when its length is not known."""
    if v is None:
        return None
    r = []
    for x in (v[1:] if v[0] == "cat" else (v,)):
        if x[0] == "s":
            for ch in x[1]:
                c = ord(ch)
                r.append(C(c - 256 if c > 127 else c))
        elif x[0] == "app" and x[1] == "chr":
            r.append(x[2])
        else:
            return None
    return r


def string(cs):
    xs = []
    for c in cs:
        p = ("s", chr(c[1] & 255)) if c[0] == "c" else ("app", "chr", c)
        if xs and xs[-1][0] == "s" and p[0] == "s":
            xs[-1] = ("s", xs[-1][1] + p[1])
        else:
            xs.append(p)
    return ("s", "") if not xs else (xs[0] if len(xs) == 1 else ("cat",) + tuple(xs))


def decide(st, t):
    import absint, poly
    if t[0] == "c":
        return [(st, bool(t[1]))]
    r = []
    for v in (True, False):
        for s in absint.assume(st, t, v):
            if not poly.infeasible(s.facts):
                r.append((s, v))
    return r


def same(a, b):
    d = sub(a, b)
    return C(1 if d == ZERO else 0) if d[0] == "c" else ("eq", d)


def in_ranges(c, rs):
    if c[0] == "c":
        return C(1 if any(lo <= (c[1] & 255) <= hi for lo, hi in rs) else 0)
    t = None
    for lo, hi in rs:
        # characters are signed: codes above 127 are negative
        for a, b in ((lo, min(hi, 127)), (max(lo, 128) - 256, hi - 256)):
            if a > b or (b < 0) != (a < 0):
                continue
            x = ("eq", sub(c, C(a))) if a == b else ("and", ("le", sub(C(a), c)), ("le", sub(c, C(b))))
            t = x if t is None else ("or", t, x)
    return t if t is not None else ZERO


def match_at(st, h, i, n):
    """[(st, bool)]: does needle n stand at position i of h?"""
    if i < 0 or i + len(n) > len(h):
        return [(st, False)]
    res, cur = [], [st]
    for a, b in zip(h[i:i + len(n)], n):
        nxt = []
        for s in cur:
            for x, t in decide(s, same(a, b)):
                (nxt if t else res).append(x if t else (x, False))
        cur = nxt
    return res + [(s, True) for s in cur]


def search(st, h, n, positions):
    """[(st, index)]: the first of the positions where n stands, NPOS if none."""
    res, cur = [], [st]
    for i in positions:
        nxt = []
        for s in cur:
            for x, t in match_at(s, h, i, n):
                if t:
                    res.append((x, C(i)))
                else:
                    nxt.append(x)
        cur = nxt
    return res + [(s, NPOS) for s in cur]


def search_set(st, h, n, positions, inv):
    res, cur = [], [st]
    for i in positions:
        nxt = []
        for s in cur:
            t = None
            for c in n:
                x = same(h[i], c)
                t = x if t is None else ("or", t, x)
            t = t if t is not None else ZERO
            for x, v in decide(s, t):
                if v != inv:
                    res.append((x, C(i)))
                else:
                    nxt.append(x)
        cur = nxt
    return res + [(s, NPOS) for s in cur]


def concretes(st, t, lo, hi):
    """Splits an integer term that must be a known number: [(st, int)]."""
    if t[0] == "c":
        return [(st, t[1])]
    return None


def method(I, st, fn, sh, v, vs, node):
    """A const method of std::string on a value of known characters."""
    h = chars(v)
    if h is None:
        return None
    if sh == "substr":
        pos = vs[0] if vs else ZERO
        cnt = vs[1] if len(vs) > 1 else NPOS
        if pos[0] != "c" or cnt[0] != "c":
            return None
        p, c = pos[1] & (2**64 - 1), cnt[1] & (2**64 - 1)
        if p > len(h):
            I.throw(st, exc(I, "std::out_of_range", node))
            return []
        return [(st, string(h[p:p + min(c, len(h) - p)]))]
    if sh in ("starts_with", "ends_with", "contains", "find", "rfind", "find_first_of", "find_last_of", "find_first_not_of",
              "find_last_not_of", "compare"):
        if not vs or (len(vs) > 2 and sh != "compare") or len(vs) > 1 and sh == "compare":
            return None
        n = chars(vs[0])
        if n is None and is_num(vs[0]):
            n = [vs[0]]
        if n is None:
            return None
        if sh == "starts_with":
            return [(s, ONE if t else ZERO) for s, t in match_at(st, h, 0, n)]
        if sh == "ends_with":
            return [(s, ONE if t else ZERO) for s, t in match_at(st, h, len(h) - len(n), n)]
        if sh == "contains":
            return [(s, ZERO if i == NPOS else ONE) for s, i in search(st, h, n, range(len(h) - len(n) + 1))]
        if sh == "compare":
            return compare(st, h, n)
        p = 0 if "last" not in sh and sh != "rfind" else 2**64 - 1
        if len(vs) > 1:
            if vs[1][0] != "c":
                return None
            p = vs[1][1] & (2**64 - 1)
        if sh == "find":
            return search(st, h, n, range(p, len(h) - len(n) + 1))
        if sh == "rfind":
            return search(st, h, n, range(min(p, len(h) - len(n)), -1, -1))
        inv = "not" in sh
        if "first" in sh:
            return search_set(st, h, n, range(p, len(h)), inv)
        return search_set(st, h, n, range(min(p, len(h) - 1), -1, -1), inv)
    return None


def compare(st, h, n):
    """[(st, -1/0/1)]: lexicographic order of unsigned characters."""
    res, cur = [], [st]
    for a, b in zip(h, n):
        ua, ub = uns(st, a), uns(st, b)
        if ua is None or ub is None:
            return None
        nxt = []
        for s in cur:
            for x, t in decide(s, same(a, b)):
                if t:
                    nxt.append(x)
                else:
                    for y, less in decide(x, ("le", add(sub(ua, ub), ONE))):
                        res.append((y, C(-1 if less else 1)))
        cur = nxt
    d = len(h) - len(n)
    return res + [(s, C((d > 0) - (d < 0))) for s in cur]


def uns(st, c):
    import absint
    if c[0] == "c":
        return C(c[1] & 255)
    return c if absint.entails_le(st, sub(ZERO, c)) else None


def exc(I, name, node):
    from absint import Exc
    from hooks import rec_type
    return Exc(rec_type(I.M, name) or _named(name), ("sym", "exc", node.get("id", 0), ""), node.get("l", 0),
               I.stack[-1][3].file if I.stack else None, why=name)


class _T:
    def __init__(self, n):
        self.r = self.s = n
        self.k, self.c, self.ru, self.p, self.lam = "rec", 0, None, None, None

    @property
    def noref(self):
        return self


def _named(n):
    return _T(n)


DIGITS = {8: ((48, 55),), 10: ((48, 57),), 16: ((48, 57), (65, 70), (97, 102))}
SPACE = ((9, 13), (32, 32))
LIMITS = {"stoi": (-2**31, 2**31 - 1), "stol": (-2**63, 2**63 - 1), "stoll": (-2**63, 2**63 - 1), "stoul": (0, 2**64 - 1),
          "stoull": (0, 2**64 - 1), "atoi": (None, None), "atol": (None, None), "atoll": (None, None),
          "strtol": (None, None), "strtoll": (None, None), "strtoul": (None, None), "strtoull": (None, None)}


def to_number(I, st, sh, v, node, base=10):
    """std::stoi and friends: [(st, value)], throwing like them."""
    h = chars(v)
    if h is None or base not in (0, 8, 10, 16):
        return None
    auto = base == 0
    lo, hi = LIMITS[sh]
    res = []
    cur = [(st, 0)]
    # white space
    start = []
    while cur:
        s, i = cur.pop()
        if i == len(h):
            start.append((s, i, 1))
            continue
        for x, t in decide(s, in_ranges(h[i], SPACE)):
            if t:
                cur.append((x, i + 1))
            else:
                for y, m in decide(x, same(h[i], C(45))):
                    if m:
                        start.append((y, i + 1, -1))
                    else:
                        for z, p in decide(y, same(h[i], C(43))):
                            start.append((z, i + 1 if p else i, 1))
    # the base prefix: 0x (bases 0 and 16), 0 (base 0)
    first = []
    for s, i, sg in start:
        if base in (8, 10) or i + 1 >= len(h):
            first.append((s, i, sg, 10 if auto else base))
            continue
        for x, z in decide(s, same(h[i], C(48))):
            if not z:
                first.append((x, i, sg, 10 if auto else 16))
                continue
            for y, hx in decide(x, in_ranges(h[i + 1], ((88, 88), (120, 120)))):
                hexd = [(y, False)]
                if hx and i + 2 < len(h):
                    hexd = decide(y, in_ranges(h[i + 2], DIGITS[16]))
                for z2, ok in hexd:
                    first.append((z2, i + 2, sg, 16) if hx and ok else (z2, i, sg, 8 if auto else 16))
    for s, i, sg, b in first:
        cur = [(s, i, ZERO)]
        while cur:
            s, j, val = cur.pop()
            ends = []
            if j < len(h):
                for x, t in decide(s, in_ranges(h[j], DIGITS[b])):
                    if not t:
                        ends.append(x)
                        continue
                    for r, off in ((DIGITS[b][0], 48),) + (((DIGITS[16][1], 55), (DIGITS[16][2], 87)) if b == 16 else ()):
                        for y, t2 in decide(x, in_ranges(h[j], (r,))):
                            if t2:
                                cur.append((y, j + 1, add(scale(val, b), sub(h[j], C(off)))))
            else:
                ends.append(s)
            for x in ends:
                if j == i and lo is not None:
                    I.throw(x, exc(I, "std::invalid_argument", node))
                    continue
                n = scale(val, sg)
                if sg < 0 and "u" in sh:          # unsigned conversions wrap
                    for y, z in decide(x, same(val, ZERO)):
                        res.append((y, ZERO if z else add(C(2**64), n)))
                    continue
                if lo is None:
                    res.append((x, n))
                    continue
                for y, big in decide(x, ("le", sub(C(hi + 1), n))):
                    if big:
                        I.throw(y, exc(I, "std::out_of_range", node))
                        continue
                    for z, small in decide(y, ("le", sub(n, C(lo - 1)))):
                        if small:
                            I.throw(z, exc(I, "std::out_of_range", node))
                        else:
                            res.append((z, n))
    return res


def getline(I, st, is_, buf, delim):
    """std::getline on a string stream of known contents: [(st, None)]; the stream's state is ("fld", is_, "$ok")."""
    v, pos = st.env.get(("fld", is_, "$is")), st.env.get(("fld", is_, "$pos"))
    h = chars(v) if v is not None else None
    if h is None or pos is None:
        return None
    ok, eof = st.env.get(("fld", is_, "$ok")), st.env.get(("fld", is_, "$eof"))
    p = pos[1]

    def put(s, cs, np, good, ateof):
        s = s.copy()
        if cs is not None:
            s.env[buf] = string(cs)
            s.env.pop(("log", buf), None)
            s.env.pop(("size", buf), None)
            s.env[("ep", buf)] = I.widen_tag_for(("getline", p, np))
        s.env[("fld", is_, "$pos")] = C(np)
        s.env[("fld", is_, "$ok")] = C(1 if good else 0)
        s.env[("fld", is_, "$eof")] = C(1 if ateof else 0)
        return s
    if ok != ONE or eof == ONE:
        return [put(st, None, p, False, eof == ONE)]
    if p >= len(h):
        return [put(st, [], p, False, True)]
    res, cur = [], [st]
    for i in range(p, len(h)):
        nxt = []
        for s in cur:
            for x, t in decide(s, same(h[i], delim)):
                if t:
                    res.append(put(x, h[p:i], i + 1, True, False))
                else:
                    nxt.append(x)
        cur = nxt
    return res + [put(s, h[p:], len(h), True, True) for s in cur]


# --------------------------------------------------------------------------- regular expressions
class Rx:
    """A regular expression of the ECMAScript subset without references, as an NFA over bytes."""

    def __init__(self, pat):
        self.p, self.i = pat, 0
        self.eps, self.tr = [], []
        self.start, self.end = self.alt()
        if self.i != len(pat):
            raise ValueError(pat)

    def st(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def alt(self):
        a, b = self.seq()
        while self.i < len(self.p) and self.p[self.i] == "|":
            self.i += 1
            c, d = self.seq()
            s, e = self.st(), self.st()
            self.eps[s] += [(a, None), (c, None)]
            self.eps[b].append((e, None))
            self.eps[d].append((e, None))
            a, b = s, e
        return a, b

    def seq(self):
        s = e = self.st()
        while self.i < len(self.p) and self.p[self.i] not in "|)":
            a, b = self.rep()
            self.eps[e].append((a, None))
            e = b
        return s, e

    def rep(self):
        at = self.i
        a, b = self.atom()
        end = self.i
        lo, hi = 1, 1
        if self.i < len(self.p) and self.p[self.i] in "*+?{":
            c = self.p[self.i]
            if c == "{":
                j = self.p.index("}", self.i)
                m = self.p[self.i + 1:j].split(",")
                lo = int(m[0])
                hi = lo if len(m) == 1 else (None if not m[1] else int(m[1]))
                self.i = j + 1
            else:
                self.i += 1
                lo, hi = {"*": (0, None), "+": (1, None), "?": (0, 1)}[c]
            if self.i < len(self.p) and self.p[self.i] == "?":
                self.i += 1
        nxt = self.i
        if (lo, hi) == (1, 1):
            return a, b
        s = e = self.st()
        parts = []
        for k in range(max(lo, 1 if hi is None else hi)):
            self.i = at
            parts.append(self.atom())
        self.i = nxt
        for k, (x, y) in enumerate(parts):
            self.eps[e].append((x, None))
            if k >= lo:
                parts[k] = (x, y, e)
            n = self.st()
            self.eps[y].append((n, None))
            if k >= lo:
                self.eps[e].append((n, None))
            if hi is None and k == len(parts) - 1:
                self.eps[y].append((x, None))
            e = n
        return s, e

    def atom(self):
        c = self.p[self.i]
        s = self.st()
        if c == "(":
            self.i += 1
            if self.p[self.i:self.i + 2] == "?:":
                self.i += 2
            elif self.p[self.i] == "?":
                raise ValueError(self.p)
            a, b = self.alt()
            if self.p[self.i] != ")":
                raise ValueError(self.p)
            self.i += 1
            return a, b
        e = self.st()
        if c in "^$":
            self.i += 1
            self.eps[s].append((e, c))
            return s, e
        if c == "[":
            rs = self.cls()
        elif c == "\\":
            rs = self.esc()
        elif c == ".":
            self.i += 1
            rs = ((0, 9), (11, 12), (14, 255))
        elif c in "*+?{":
            raise ValueError(self.p)
        else:
            self.i += 1
            rs = ((ord(c), ord(c)),)
        self.tr[s].append((rs, e))
        return s, e

    ESC = {"d": ((48, 57),), "w": ((48, 57), (65, 90), (95, 95), (97, 122)), "s": ((9, 13), (32, 32)), "n": ((10, 10),),
           "t": ((9, 9),), "r": ((13, 13),)}

    def esc(self):
        c = self.p[self.i + 1]
        self.i += 2
        if c in self.ESC:
            return self.ESC[c]
        if c in "DWS":
            return neg_ranges(self.ESC[c.lower()])
        if c.isalnum():
            raise ValueError(self.p)
        return ((ord(c), ord(c)),)

    def cls(self):
        self.i += 1
        inv = self.p[self.i] == "^"
        self.i += inv
        rs = []
        while self.p[self.i] != "]":
            if self.p[self.i] == "\\":
                r = self.esc()
            elif self.p[self.i] == "[":
                raise ValueError(self.p)
            else:
                r = ((ord(self.p[self.i]),) * 2,)
                self.i += 1
            if len(r) == 1 and r[0][0] == r[0][1] and self.p[self.i] == "-" and self.p[self.i + 1] != "]":
                self.i += 1
                if self.p[self.i] == "\\":
                    h = self.esc()[0][0]
                else:
                    h = ord(self.p[self.i])
                    self.i += 1
                r = ((r[0][0], h),)
            rs += r
        self.i += 1
        return neg_ranges(rs) if inv else tuple(rs)

    def close(self, states, first, last):
        w, seen = list(states), set(states)
        while w:
            x = w.pop()
            for y, g in self.eps[x]:
                if (g == "^" and not first) or (g == "$" and not last) or y in seen:
                    continue
                seen.add(y)
                w.append(y)
        return frozenset(seen)


def neg_ranges(rs):
    ok = set(range(256))
    for a, b in rs:
        ok -= set(range(a, b + 1))
    r, lo = [], None
    for i in range(257):
        if i in ok and lo is None:
            lo = i
        elif i not in ok and lo is not None:
            r.append((lo, i - 1))
            lo = None
    return tuple(r)


def regex(I, st, v, pat, whole):
    """[(st, bool)]"""
    h = chars(v)
    if h is None:
        return None
    try:
        rx = Rx(pat)
    except (ValueError, IndexError):
        return None
    n = len(h)
    res = []
    cur = [(st, rx.close({rx.start}, True, n == 0), 0, rx.end in rx.close({rx.start}, True, n == 0))]
    while cur:
        s, q, i, hit = cur.pop()
        if not whole and (hit or rx.end in q):
            res.append((s, True))
            continue
        if i == n:
            res.append((s, rx.end in q))
            continue
        if not q:
            res.append((s, False))
            continue
        sets = sorted({rs for x in q for rs, _ in rx.tr[x]})
        outs = [(s, ())]
        for rs in sets:
            nxt = []
            for y, sel in outs:
                if h[i][0] != "c" and sel and overlap_none(rs, sel):
                    nxt.append((y, sel))
                    continue
                for z, t in decide(y, in_ranges(h[i], rs)):
                    nxt.append((z, sel + (rs,) if t else sel))
            outs = nxt
        for y, sel in outs:
            to = {e for x in q for rs, e in rx.tr[x] if rs in sel}
            if not whole:
                to.add(rx.start)
            cur.append((y, rx.close(to, False, i + 1 == n), i + 1, False))
    return res


def overlap_none(rs, sel):
    """Is rs disjoint from one of the ranges already known to hold the character?"""
    for s in sel:
        if all(b < c or d < a for a, b in rs for c, d in s):
            return True
    return False
