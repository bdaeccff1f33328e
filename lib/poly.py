"""Emptiness of a system of integer linear constraints over atoms with known ranges (Fourier-Motzkin with integer tightening).

Used to discard combinations of path conditions that cannot occur.  Bit slices of one value are first rewritten into their
common refinement, so that slices and the whole value are related.
"""
from math import gcd
from terms import *

CAP = 700


def rows(les, eqs):
    """Constraint rows {atom: coef}, k meaning sum + k <= 0; equality rows."""
    atoms = set()
    L, E = [], []
    for l in les:
        k, d = lin_parts(l)
        L.append((d, k))
        atoms |= set(d)
    for l in eqs:
        k, d = lin_parts(l)
        E.append((d, k))
        atoms |= set(d)
    for a in atoms:
        lo, hi = atom_range(a)
        if lo is not None:
            L.append(({a: -1}, lo))
        if hi is not None:
            L.append(({a: 1}, -hi))
    return L, E


def norm(d, k):
    g = 0
    for c in d.values():
        g = gcd(g, abs(c))
    if g > 1:
        d = {a: c // g for a, c in d.items()}
        k = -((-k) // g)      # sum + k <= 0  with sum multiple of g:  ceil
    return d, k


def empty(les, eqs):
    L, E = rows(les, eqs)
    # Gaussian elimination on equalities with a unit coefficient
    E = list(E)
    while E:
        pick = None
        for i, (d, k) in enumerate(E):
            if not d:
                if k != 0:
                    return True
                pick = (i, None)
                break
            g = 0
            for c in d.values():
                g = gcd(g, abs(c))
            if k % g:
                return True
            if g > 1:
                d = {a: c // g for a, c in d.items()}
                k //= g
                E[i] = (d, k)
            u = [a for a, c in d.items() if abs(c) == 1]
            if u and pick is None:
                # prefer the atom with the widest range: eliminating it loses no tight bound
                u.sort(key=lambda a: -(width(a)))
                pick = (i, u[0])
        if pick is None:
            for d, k in E:      # no unit coefficient: use both inequalities
                L.append((dict(d), k))
                L.append(({a: -c for a, c in d.items()}, -k))
            break
        i, a = pick
        d, k = E.pop(i)
        if a is None:
            continue
        c = d[a]
        rest = {x: -y * c for x, y in d.items() if x != a}   # a = sum(rest) - k*c   (c is +-1)
        rk = -k * c

        def sub_(dd, kk):
            q = dd.get(a)
            if not q:
                return dd, kk
            nd = {x: y for x, y in dd.items() if x != a}
            for x, y in rest.items():
                nd[x] = nd.get(x, 0) + q * y
                if nd[x] == 0:
                    del nd[x]
            return nd, kk + q * rk
        L = [sub_(*r) for r in L]
        E = [sub_(*r) for r in E]
    L = tighten(L)
    if L is None:
        return True
    # Fourier-Motzkin
    cur = set()
    for d, k in L:
        d, k = norm(d, k)
        if not d:
            if k > 0:
                return True
            continue
        cur.add((frozenset(d.items()), k))
    cur = strongest(cur)
    while cur:
        cnt = {}
        for d, k in cur:
            for a, c in d:
                p, n = cnt.get(a, (0, 0))
                cnt[a] = (p + (c > 0), n + (c < 0))
        if not cnt:
            break
        a = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1])
        pos = [(dict(d), k) for d, k in cur if dict(d).get(a, 0) > 0]
        neg = [(dict(d), k) for d, k in cur if dict(d).get(a, 0) < 0]
        new = {(d, k) for d, k in cur if a not in dict(d)}
        if len(new) + len(pos) * len(neg) > CAP:
            return False
        for dp, kp in pos:
            for dn, kn in neg:
                cp, cn = dp[a], -dn[a]
                g = gcd(cp, cn)
                m, q = cn // g, cp // g
                d = {}
                for x, y in dp.items():
                    d[x] = d.get(x, 0) + y * m
                for x, y in dn.items():
                    d[x] = d.get(x, 0) + y * q
                d = {x: y for x, y in d.items() if y}
                k = kp * m + kn * q
                d, k = norm(d, k)
                if not d:
                    if k > 0:
                        return True
                    continue
                new.add((frozenset(d.items()), k))
        cur = strongest(new)
    return False


def tighten(L, rounds=12):
    """Interval propagation with integer rounding; adds the bounds found, substitutes fixed atoms; None: empty."""
    lo, hi = {}, {}
    for _ in range(rounds):
        ch = False
        for d, k in L:
            # sum c*x + k <= 0: each term is at most -k minus the minimum of the others
            mins = {}
            inf = None
            tot = k
            for a, c in d.items():
                b = lo.get(a) if c > 0 else hi.get(a)
                if b is None:
                    if inf is not None:
                        inf = "many"
                        break
                    inf = a
                else:
                    tot += c * b
            if inf == "many":
                continue
            if inf is None and tot > 0:
                return None
            for a, c in d.items():
                if inf is not None and a != inf:
                    continue
                b = lo.get(a) if c > 0 else hi.get(a)
                rest = tot - (c * b if b is not None else 0)
                # c*x <= -rest
                if c > 0:
                    n = (-rest) // c
                    if a not in hi or n < hi[a]:
                        hi[a] = n
                        ch = True
                else:
                    n = ceil_div(rest, -c)
                    if a not in lo or n > lo[a]:
                        lo[a] = n
                        ch = True
                if a in lo and a in hi and lo[a] > hi[a]:
                    return None
        if not ch:
            break
    fixed = {a: lo[a] for a in lo if a in hi and lo[a] == hi[a]}
    out = []
    for d, k in L:
        nd = {}
        for a, c in d.items():
            if a in fixed:
                k += c * fixed[a]
            else:
                nd[a] = c
        if not nd:
            if k > 0:
                return None
            continue
        out.append((nd, k))
    for a in set(lo) | set(hi):
        if a in fixed:
            continue
        if a in lo:
            out.append(({a: -1}, lo[a]))
        if a in hi:
            out.append(({a: 1}, -hi[a]))
    return out


def ceil_div(a, b):
    return -((-a) // b)


def strongest(s):
    best = {}
    for d, k in s:
        if d not in best or best[d] < k:
            best[d] = k
    return set(best.items())


def width(a):
    lo, hi = atom_range(a)
    return 2 ** 70 if lo is None or hi is None else hi - lo


def cuts(t, acc):
    if not isinstance(t, tuple):
        return
    if t and t[0] == "bits":
        acc.setdefault(t[1], set()).update((t[2], t[2] + t[3]))
    for x in t:
        if isinstance(x, tuple):
            cuts(x, acc)


def split_slices(t, acc):
    """Rewrites bit slices (and whole atoms) into the common refinement of the slices of the same value."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "lin":
        r = C(t[1])
        for a, c in t[2]:
            r = add(r, scale(split_slices(a, acc), c))
        return r
    if t[0] == "bits" and t[1] in acc:
        lo, n = t[2], t[3]
        pts = sorted(p for p in acc[t[1]] | {lo, lo + n} if lo <= p <= lo + n)
        r = ZERO
        for a, b in zip(pts, pts[1:]):
            r = add(r, scale(bits(t[1], a, b - a), 1 << (a - lo)))
        return r
    if t in acc:
        l, h = rng(t)
        if l is not None and h is not None and l >= 0:
            w = h.bit_length()
            pts = sorted(p for p in acc[t] | {0, w} if 0 <= p <= w)
            r = ZERO
            for a, b in zip(pts, pts[1:]):
                r = add(r, scale(bits(t, a, b - a), 1 << a))
            return r
    return t


def div_facts(t, acc):
    """x = n*(x / n) + x % n for the quotients and remainders that occur."""
    if not isinstance(t, tuple):
        return
    if t and t[0] == "app" and t[1] in ("/", "%") and len(t) > 3 and t[3][0] == "c" and t[3][1] > 0:
        l, _ = rng(t[2])
        if l is not None and l >= 0:
            acc.add((t[2], t[3][1], t[4:]))
    for x in t:
        if isinstance(x, tuple):
            div_facts(x, acc)


def system(facts, extra_le=(), extra_eq=(), also=()):
    les = [f[1] for f in facts if f[0] == "le" and is_num(f[1])] + list(extra_le)
    eqs = [f[1] for f in facts if f[0] == "eq" and is_num(f[1])] + list(extra_eq)
    nes = [f[1] for f in facts if f[0] == "ne" and is_num(f[1])]
    allt = les + eqs + nes + list(also)
    divs = set()
    for t in allt:
        div_facts(t, divs)
    for x, n, rest in divs:
        q, r = ("app", "/", x, C(n)) + rest, ("app", "%", x, C(n)) + rest
        eqs.append(sub(x, add(scale(q, n), r)))
        les += [scale(r, -1), sub(r, C(n - 1)), scale(q, -1)]
    acc = {}
    for t in les + eqs + nes + list(also):
        cuts(t, acc)
    # a slice of a sum that fits relates to the sum
    if acc:
        les = [split_slices(t, acc) for t in les]
        eqs = [split_slices(t, acc) for t in eqs]
        nes = [split_slices(t, acc) for t in nes]
        for base, pts in acc.items():
            if base[0] != "lin":
                continue
            l, h = rng(base)
            if l is not None and l >= 0 and h is not None:
                w = split_slices(("bits", base, 0, h.bit_length()), acc) if h.bit_length() not in () else base
                eqs.append(sub(split_slices_inner(base, acc), w))
    return les, eqs, nes


def split_slices_inner(t, acc):
    acc2 = {k: v for k, v in acc.items() if k != t}
    return split_slices(t, acc2)


def relevant(les, eqs, seed):
    """Constraints connected with the atoms of seed (None: all)."""
    if seed is None:
        return les, eqs
    atoms = set()
    for t in seed:
        atoms |= set(lin_parts(t)[1])
    items = [(t, set(lin_parts(t)[1]), k) for k, ts in (("l", les), ("e", eqs)) for t in ts]
    used = [False] * len(items)
    ch = True
    while ch:
        ch = False
        for i, (t, a, k) in enumerate(items):
            if not used[i] and (a & atoms or not a):
                used[i] = True
                atoms |= a
                ch = True
    return [t for i, (t, a, k) in enumerate(items) if used[i] and k == "l"], [t for i, (t, a, k) in enumerate(items) if used[i] and k == "e"]


def infeasible(facts, extra_le=(), extra_eq=(), depth=2):
    les, eqs, nes = system(facts, extra_le, extra_eq)
    for e in eqs:
        if e[0] == "c" and e[1] != 0:
            return True
    if empty(les, eqs):
        return True
    for _ in range(depth):
        changed = False
        rest = []
        for n in nes:
            if n[0] == "c":
                if n[1] == 0:
                    return True
                continue
            rl, re = relevant(les, eqs, [n])
            if not rl and not re:
                continue
            below = empty(rl + [add(n, ONE)], re)       # n <= -1 impossible
            above = empty(rl + [sub(ONE, n)], re)       # n >= 1 impossible
            if below and above:
                return True
            if below:
                les.append(sub(ONE, n))
                changed = True
            elif above:
                les.append(add(n, ONE))
                changed = True
            else:
                rest.append(n)
        nes = rest
        if not changed:
            break
        if empty(les, eqs):
            return True
    return False


def proves_zero(facts, l):
    """Do the facts entail l == 0 ?"""
    return infeasible(facts, extra_le=[add(l, ONE)], depth=1) and infeasible(facts, extra_le=[sub(ONE, l)], depth=1)


def proves_le(facts, l):
    return infeasible(facts, extra_le=[sub(ONE, l)], depth=1)
