"""U01-U03: version comparison, MQTT topic strings, time measurement."""
from common import *
from stdmodels import rounded
import strmodels

EXPL = "all paths of the function over strings of known length whose characters are symbolic or constrained to a character class"


def D(name):
    """A decimal digit."""
    return ("dig", name)


def build(spec, pre):
    """A template: digits are 'd', arbitrary characters '?', everything else is itself."""
    cs, facts = [], []
    for i, c in enumerate(spec):
        if c == "d":
            x = P("%s%d" % (pre, i), "s8")
            facts += [LE(48, x), LE(x, 57)]
            cs.append(x)
        elif c == "?":
            cs.append(P("%s%d" % (pre, i), "s8"))
        else:
            cs.append(C(ord(c)))
    return cs, facts


def digit(c):
    return strmodels.in_ranges(c, ((48, 57),))


def split(st, cs):
    """[(st, [component, ...])] separated by dots."""
    out = [(st, [[]])]
    for c in cs:
        nxt = []
        for s, parts in out:
            for x, t in decide(s, strmodels.same(c, C(46))):
                nxt.append((x, parts + [[]] if t else parts[:-1] + [parts[-1] + [c]]))
        out = nxt
    return out


def digits(st, cs):
    """[(st, n)]: length of the leading run of digits."""
    out, cur = [], [st]
    for i, c in enumerate(cs):
        nxt = []
        for s in cur:
            for x, t in decide(s, digit(c)):
                if t:
                    nxt.append(x)
                else:
                    out.append((x, i))
        cur = nxt
    return out + [(s, len(cs)) for s in cur]


def num(cs):
    v = ZERO
    for c in cs:
        v = add(scale(v, 10), sub(c, C(48)))
    return v


def component(st, cs):
    """[(st, [values])]"""
    for s, n in digits(st, cs):
        if n == 0:
            yield s, [ZERO]
        elif n == len(cs):
            yield s, [num(cs)]
        else:
            rest = cs[n:]
            cur = [(s, None)]
            hits = []
            for suf, off in (("-rc", -128), ("+wb", 128)):
                nxt = []
                for x, _ in cur:
                    for y, t in strmodels.match_at(x, rest, 0, [C(ord(c)) for c in suf]):
                        if t:
                            hits.append((y, off))
                        else:
                            nxt.append((y, None))
                cur = nxt
            for x, _ in cur:
                yield x, [ZERO]
            for x, off in hits:
                tail = rest[3:]
                for y, m in digits(x, tail):
                    if m == len(tail) and m > 0:
                        yield y, [num(cs[:n]), add(num(tail), C(off))]
                    else:
                        yield y, [ZERO]


def parts(st, cs):
    out = [(st, p, []) for st, p in split(st, cs)]
    res = []
    for s, comps, _ in out:
        cur = [(s, [])]
        for c in comps:
            cur = [(y, vals + w) for x, vals in cur for y, w in component(x, c)]
        res += cur
    return res


def ref_compare(st, a, b):
    """[(st, -1/0/1)]"""
    if not a or not b:
        yield st, (len(a) > 0) - (len(b) > 0)
        return
    for s, pa in parts(st, a):
        for x, pb in parts(s, b):
            n = max(len(pa), len(pb))
            pa2, pb2 = pa + [ZERO] * (n - len(pa)), pb + [ZERO] * (n - len(pb))
            cur = [x]
            for u, v in zip(pa2, pb2):
                nxt = []
                for y in cur:
                    for z, gt in decide(y, ("le", add(sub(v, u), ONE))):
                        if gt:
                            yield z, 1
                            continue
                        for w, lt in decide(z, ("le", add(sub(u, v), ONE))):
                            if lt:
                                yield w, -1
                            else:
                                nxt.append(w)
                cur = nxt
            for y in cur:
                yield y, 0


ONEPART = ["", "d", "dd", "ddd", "d-rcd", "d-rcdd", "d+wbd", "dd+wbdd", "x", "dx", "-rcd", "d-rc", "d+wb", "d-rcdx", " d", "d-RCd", "d+wbd-rcd", "?"]
MULTI = ["d.d", "d.d.d", "d.d.dd", "d.d.d-rcd", "d.d.d+wbd", "d..d", ".d", "d.", "d.x.d", "d.d-rcd.d", "d.d.0.0", "."]
PAIRS1 = [("d.d.d-rcd", "d.d.d-rcdd"), ("d.d.d-rcd", "d.d.d"), ("d.d.d", "d.d.d+wbd"), ("d.d.d+wbd", "d.d.d+wbdd"), ("d.d.d-rcd", "d.d.d+wbd"),
          ("d.dd", "d.d"), ("d.d", "d.d.d"), ("d", "d.d"), ("d.d.0", "d.d"), ("d..d", "d.d.d"), ("d.x.d", "d.d.d"), (".d", "d.d"), ("d.", "d"),
          ("d.d.d.d", "d.d.d.d"), ("d+wbd", "d.ddd"), ("d-rcddd", "d.d"), ("d.d.d-rcddd", "d.d.d.d"), ("d.d-rcd.d", "d.d-rcd.d"), ("", "d.d.d"), ("d.d", ""), ("??", "d"), ("d", "??"), ("d.d.d", "d.d.d")]


def longer():
    """Versions of many parts and long numbers, different at one place."""
    r = []
    for k in (4, 5, 6, 7, 9, 12):
        base = ["1"] * k
        for tail in ("d", "d-rcd", "d+wb1"):
            r.append((".".join(base + ["d"]), ".".join(base + [tail])))
        r.append((".".join(base + ["d"]), ".".join(base)))
        r.append((".".join(base), ".".join(["1", "1"] + ["0"] * (k - 3) + ["d"])))
        r.append((".".join(["1"] + ["0"] * k + ["d"]), "1"))
        r.append((".".join(["1", "d"] + ["7"] * k), ".".join(["1", "d"] + ["3"] * k)))
    for k in (3, 6, 9):
        r.append(("1" * k + "d"[:k < 9], "1" * (k - 1) + "d" * (1 + (k < 9))))
        r.append(("2.%s-rc%sd" % ("3" * k, "4" * min(k, 8)), "2.%s-rc%sd" % ("3" * k, "4" * min(k, 8))))
        r.append(("2.%s+wb%sd" % ("3" * k, "4" * min(k, 8)), "2.%s.d" % ("3" * k)))
        r.append(("0" * k + "d", "d"))
    # numbers that do not fit in int are bigger than all that do
    big = "9999999999"
    r += [(big + "d", "dd"), ("d", "1.%sd" % big), ("1.%sd" % big, "1.ddd"), ("1.%s-rcd" % big, "1.d"), ("1.1-rc%sd" % big, "1.1-rcd"),
          ("1.1+wb%sd" % big, "1.1+wbd"), ("1.d", "1.2147483648")]
    return r


LONG = longer()


@check("U01", EXPL, "the result equals that of the reference comparison: part by part, missing and invalid parts 0, -rcN as N-128, +wbN as N+128", only=CORE)
def u01(chk, M):
    body = M.one("util::CompareVersionStrings")
    pairs = list(PAIRS1)
    if chk.tier == "thorough":
        pairs += [(a, b) for a in ONEPART for b in ONEPART] + [(a, b) for a in MULTI for b in MULTI] + [("???", "d.d"), ("d.d", "???")]
    else:
        pairs += [(a, b) for i, a in enumerate(ONEPART) for j, b in enumerate(ONEPART) if (i + j) % 3 == 0 or b in ("d", "")]
        pairs += [(a, b) for i, a in enumerate(MULTI) for j, b in enumerate(MULTI) if (i * 5 + j) % 8 == 0]
    pairs += LONG
    seen = set()
    for a, b in pairs:
        if (a, b) in seen:
            continue
        seen.add((a, b))
        st = St()
        ca, fa = build(a, "a")
        cb, fb = build(b, "b")
        for f in fa + fb:
            st = add_fact(st, f)
        st = st.copy()
        st.env[("p", "v1")], st.env[("p", "v2")] = strv(ca), strv(cb)
        I = Interp(M, fork_loops=True, max_steps=4000000)
        I.UNROLL = 40
        I.MAXP = I.BCAP = 4000
        T = Table(chk, I, body, ["v1", "v2"], st=st, tag='"%s" with "%s"' % (a, b))
        rule = "the sign of the comparison of the version parts"
        for k, s, v in T.paths:
            for x, want in ref_compare(s, ca, cb):
                ok = k == "ret" and v == C(want)
                if not ok and k == "ret" and not is_c(v):
                    ok = None
                if ok is False and (not T.clean(x) or T.unknown):
                    ok = None
                chk.expect("%s/sign" % T.tag, ok, chk.where(body, v.line if k == "throw" else None), rule,
                           "" if ok else "%s, expected %d -- where %s" % (("throws %s" % v.type.s) if k == "throw" else "returns " + fmt(v), want, facts_of(x)))
        live = [p for p in T.paths if not poly.infeasible(p[1].facts)]
        for x, want in ref_compare(st, ca, cb):
            if poly.infeasible(x.facts):
                continue
            some = any(together(x, s) for _, s, _ in live)
            ok = True if some else False if not T.unknown and T.clean(x) else None
            chk.expect("%s/ends" % T.tag, ok, chk.where(body), "every pair of versions gets a result",
                       "" if ok else "no path ends in a result where %s" % facts_of(x))


def together(a, b):
    """Can the facts of both states hold at once?"""
    r = a
    for f in b.facts:
        if f not in a.facts:
            r = add_fact(r, f)
            if r is None:
                return False
    return not poly.infeasible(r.facts)


def facts_of(s):
    return "; ".join("%s %s" % (f[0], fmt(f[1])) for f in s.facts[-8:])


# --------------------------------------------------------------------------- U02
REPL = {"'": "|", '"': "|", "/": "|", "+": "_plus_", "$": "_", "#": "_"}


@check("U02", EXPL, "a topic name is valid iff it has none of the six special characters; each of them is replaced as documented", only=CORE)
def u02(chk, M):
    for tpl in ["?" * n for n in range(0, 3 if chk.tier == "quick" else 4)] + ["a" * k + t for k in (3, 7, 15, 16, 31, 64) for t in ("?", "+b?")] + ["?" + "b" * k for k in (7, 16, 64)] + \
            ["a//b?", "##?", "$+'/\"#$+'?"]:
        ch, fs = build(tpl, "c")
        n = len(ch)
        st = St()
        st.env[("p", "src")] = strv(ch)
        for fn in ("IsValidMqttTopicString", "ConvertToValidMqttTopicString"):
            body = M.one("util::" + fn)
            I = Interp(M, fork_loops=True)
            I.UNROLL = 80
            I.MAXP = I.BCAP = 4000
            T = Table(chk, I, body, ["src"], st=st, tag="%s of %s" % (fn, "%d characters" % n if tpl == "?" * n else tpl))
            for k, s, v in T.paths:
                for x, out, valid in ref_topic(s, ch):
                    if k != "ret":
                        ok, got = False, "throws"
                    elif fn.startswith("Is"):
                        r = {t for _, t in decide(x, I.rv(x, v))}
                        ok, got = True if r == {valid} else None if valid in r else False, fmt(v)
                    else:
                        g = strmodels.chars(I.load(x, v[1]) if v[0] == "obj" else v)
                        got = fmt(v)
                        ok = None if g is None else len(g) == len(out) and all(eq_terms(x, p, q) for p, q in zip(g, out))
                    if ok is False and (not T.clean(x) or T.unknown):
                        ok = None
                    chk.expect("%s/result" % T.tag, ok, chk.where(body), "the result for every character",
                               "" if ok else "gives %s where %s" % (got, facts_of(x)))


def ref_topic(st, ch):
    out = [(st, [], True)]
    for c in ch:
        nxt = []
        for s, o, valid in out:
            rest = [s]
            for sp, to in REPL.items():
                keep = []
                for x in rest:
                    for y, t in decide(x, strmodels.same(c, C(ord(sp)))):
                        if t:
                            nxt.append((y, o + [C(ord(z)) for z in to], False))
                        else:
                            keep.append(y)
                rest = keep
            nxt += [(x, o + [c], valid) for x in rest]
        out = nxt
    return out


# --------------------------------------------------------------------------- U03
@check("U03", "all paths of the time meter over an arbitrary clock", "the spent time is the time since the latest start, rounded up to whole microseconds", only=CORE)
def u03(chk, M):
    clock = []

    def hook(I, st, fn, obj, args, node):
        if fn.short == "operator()" and (fn.cls or "").startswith("std::function"):
            n = (st.ev or 0)
            return [(st.withev(n + 1), P("now%d" % n, ""))]
        return None
    big = C(2**62)
    st = St(ev=0)
    for i in range(4):
        st = add_fact(add_fact(st, LE(ZERO, P("now%d" % i, ""))), LE(P("now%d" % i, ""), big))
    start, spent, get = (M.one("util::TSpentTimeMeter::" + x) for x in ("Start", "GetSpentTime", "GetStartTime"))
    for starts in (1, 2):
        s0 = [st]
        for i in range(starts):
            nxt = []
            for s in s0:
                T = Table(chk, Interp(M, hook=hook), start, st=s)
                for k, x, v in T.paths:
                    ok = k == "ret" and x.ev == i + 1
                    chk.expect("Start reads the clock", ok or (None if T.unknown else False), chk.where(start), "starting reads the clock once",
                               "" if ok else "%s reads" % (x.ev - i))
                    nxt.append(x)
            s0 = nxt
        now, at = P("now%d" % starts, ""), P("now%d" % (starts - 1), "")
        for s in s0:
            T = Table(chk, Interp(M, hook=hook), get, st=s, tag="GetStartTime")
            for k, x, v in T.paths:
                ok = k == "ret" and v == at
                chk.expect("start time", ok if ok or T.clean(x) and not T.unknown else None, chk.where(get), "the start time is that of the latest start", fmt(v))
            T = Table(chk, Interp(M, hook=hook), spent, st=s, tag="GetSpentTime")
            for k, x, v in T.paths:
                d = sub(now, at)
                ok = k == "ret" and v == rounded(x, d, 1000, "ceil")[1]
                if k == "ret" and not ok:
                    ok = entails_le(x, sub(d, v)) and entails_le(x, sub(sub(v, d), C(999))) and None
                    ok = None if ok is None else False
                if ok is False and (not T.clean(x) or T.unknown):
                    ok = None
                chk.expect("spent time", ok, chk.where(spent), "the time since the latest start, rounded up to microseconds", fmt(v))
