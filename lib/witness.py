"""Refutation of term equalities: two closed value terms that differ are told apart by a point of the abstract state.

Works on the analysis' own terms and facts only.  It never decides that something holds; it turns "the normal forms
differ" into "and here are input values, allowed by the facts of the path, for which the values differ".
"""
import random
from terms import *


class NoValue(Exception):
    pass


LEAF = ("par", "ld", "sym", "ind")


def leaves(t, acc):
    if not isinstance(t, tuple) or not t:
        return
    h = t[0]
    if h in ("unk", "phi", "mix", "loopmem", "loopout"):
        raise NoValue(h)
    if h in LEAF:
        if has_bad(t):
            raise NoValue("loop value")
        acc.add(t)
        return
    if h in ("c",):
        return
    if h == "lin":
        for a, _ in t[2]:
            leaves(a, acc)
    elif h == "bits":
        leaves(t[1], acc)
    elif h == "app":
        if t[1] not in OPS:
            raise NoValue(t[1])
        for x in t[2:]:
            if isinstance(x, tuple):
                leaves(x, acc)
    elif h in ("le", "eq", "not"):
        leaves(t[1], acc)
    elif h in ("and", "or"):
        leaves(t[1], acc)
        leaves(t[2], acc)
    else:
        raise NoValue(h)


def has_bad(t):
    if not isinstance(t, tuple) or not t:
        return False
    if t[0] in ("unk", "phi", "mix", "loopmem", "loopout") or (t[0] == "sym" and len(t) > 1 and t[1] in ("loop", "inv")):
        return True
    return any(has_bad(x) for x in t if isinstance(x, tuple))


def tdiv(a, b):
    if b == 0:
        raise NoValue("division by zero")
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b > 0) else -q


OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": tdiv, "%": lambda a, b: a - b * tdiv(a, b),
       "and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": None, "shr": lambda a, b: a >> b,
       "<<": lambda a, b: a << b if 0 <= b < 64 else nov(), ">>": lambda a, b: a >> b if 0 <= b < 64 else nov(),
       "ite": None, "<=>": lambda a, b: (a > b) - (a < b), "neg": lambda a: -a, "floorq": lambda a, b: a // b,
       "ceilq": lambda a, b: -(-a // b)}


def nov():
    raise NoValue("shift")


def ev(t, env):
    h = t[0]
    if h == "c":
        return t[1]
    if h in LEAF:
        return env[t]
    if h == "lin":
        return t[1] + sum(c * ev(a, env) for a, c in t[2])
    if h == "bits":
        return (ev(t[1], env) >> t[2]) & ((1 << t[3]) - 1)
    if h == "app":
        xs = [ev(x, env) for x in t[2:] if isinstance(x, tuple)]
        if t[1] == "xor":
            r = 0
            for x in xs:
                r ^= x
            return r
        if t[1] == "ite":
            return xs[1] if xs[0] else xs[2]
        return OPS[t[1]](*xs)
    if h == "le":
        return int(ev(t[1], env) <= 0)
    if h == "eq":
        return int(ev(t[1], env) == 0)
    if h == "not":
        return int(not ev(t[1], env))
    if h == "and":
        return int(bool(ev(t[1], env)) and bool(ev(t[2], env)))
    if h == "or":
        return int(bool(ev(t[1], env)) or bool(ev(t[2], env)))
    raise NoValue(h)


def fact_holds(f, env):
    k = f[0]
    if k == "b":
        return bool(ev(f[1], env)) == bool(f[2])
    v = ev(f[1], env)
    return v <= 0 if k == "le" else (v == 0 if k == "eq" else v != 0)


def consts(t, acc):
    if isinstance(t, tuple) and t:
        if t[0] == "c":
            acc.add(t[1])
        elif t[0] == "lin":
            acc.add(t[1])
            acc.add(-t[1])
        elif t[0] == "bits":
            acc.add(1 << t[2])
            acc.add(1 << (t[2] + t[3]))
        for x in t:
            if isinstance(x, tuple):
                consts(x, acc)


def relevant(facts, seeds):
    """Facts connected to the leaves of the question, and whether the others are untouched by it."""
    fl = []
    for f in facts:
        acc = set()
        try:
            leaves(f[1], acc)
            fl.append((f, acc))
        except NoValue:
            # a fact about something that is not modelled: ignorable only when it shares no leaf with the question
            acc = set()
            soft_leaves(f[1], acc)
            fl.append((None, acc))
    keep, left, cur = [], fl, set(seeds)
    while True:
        nxt, rest = [], []
        for f, acc in left:
            (nxt if acc & cur else rest).append((f, acc))
        if not nxt:
            break
        for f, acc in nxt:
            if f is None:
                raise NoValue("a connected fact is not modelled")
            cur |= acc
            keep.append(f)
        left = rest
    return keep, cur


def soft_leaves(t, acc):
    if isinstance(t, tuple) and t:
        if t[0] in LEAF:
            acc.add(t)
            return
        for x in t:
            if isinstance(x, tuple):
                soft_leaves(x, acc)


def find(facts, goal, tries=4000):
    """Values of the leaves under which all (connected) facts hold and the term goal is nonzero; None: none found."""
    try:
        ls = set()
        leaves(goal, ls)
        fs, ls = relevant(facts, ls)
        ls = sorted(ls, key=repr)
        if len(ls) > 40:
            return None
        cs = {0, 1, 2, 3, 7, 8, 9, 10, 11, 15, 16, 99, 100, 127, 128, 255, 256, 1000, 65535, 65536, 1 << 31, (1 << 32) - 1}
        consts(goal, cs)
        for f in fs:
            consts(f[1], cs)
        cs |= {c + 1 for c in cs} | {c - 1 for c in cs} | {-c for c in cs}
        dom = []
        for l in ls:
            lo, hi = rng(l)
            lo, hi = (-(1 << 40) if lo is None else lo), ((1 << 40) if hi is None else hi)
            dom.append((lo, hi, sorted(c for c in cs if lo <= c <= hi)))
        eqs = [f[1] for f in fs if f[0] == "eq"]
        rnd = random.Random(7)
        for n in range(tries):
            env = {}
            for l, (lo, hi, cand) in zip(ls, dom):
                r = rnd.random()
                env[l] = rnd.choice(cand) if cand and r < 0.6 else (rnd.randint(lo, min(hi, lo + 300)) if r < 0.8 else rnd.randint(lo, hi))
            for _ in range(2):
                for e in eqs:       # solve for a leaf with coefficient 1 where there is one
                    k, d = lin_parts(e)
                    for a, c in sorted(d.items(), key=lambda x: repr(x[0])):
                        if a in env and abs(c) == 1:
                            v = ev(e, env)
                            if v:
                                lo, hi = rng(a)
                                x = env[a] - v * c
                                if (lo is None or x >= lo) and (hi is None or x <= hi):
                                    env[a] = x
                                    break
            try:
                if all(fact_holds(f, env) for f in fs) and ev(goal, env) != 0:
                    return env
            except NoValue:
                continue
    except NoValue:
        return None
    return None


def show(env):
    return ", ".join("%s = %d" % (fmt(k), v) for k, v in list(env.items())[:8])
