import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))
sys.setrecursionlimit(20000)
import model
from model import AnalysisError, CORE
from terms import *
from absint import Interp, OutOfBounds, St, assume, entails_le, entails_eq, entails_ne, add_fact
from spec import *
from report import Check
from hooks import *
import poly, witness

REG = {}


def check(prop, explanation, rule, only=None):
    """only: the source units the property depends on (None: the whole program)."""
    def deco(f):
        REG[prop] = (f, explanation, rule, only)
        return f
    return deco


def P(name, tag):
    return ("par", name, tag)


def SZ(name):
    return ("ld", ("size", ("p", name)), 0, "sz")


def EL(name, i, tag="u8"):
    return ("ld", ("el", ("p", name), i if isinstance(i, tuple) else C(i)), 0, tag)


def EQ(a, b):
    return ("eq", sub(a, b if isinstance(b, tuple) else C(b)))


def LE(a, b):
    return ("le", sub(a if isinstance(a, tuple) else C(a), b if isinstance(b, tuple) else C(b)))


def hi(x):
    return bits(x, 8, 8)


def lo(x):
    return bits(x, 0, 8)


def find_one(M, names, pred=None, nparams=None):
    """Body by qualified name; a private function may instead be identified by pred."""
    for n in names:
        r = [b for b in M.bodies.values() if b.fn.n == n and (nparams is None or len(b.ps) == nparams)]
        if r:
            return r[0]
    if pred:
        r = [b for b in M.bodies.values() if pred(b)]
        if len(r) == 1:
            return r[0]
    raise AnalysisError("anchor vanished: %s" % " / ".join(names))


def decide(st, t):
    """[(state, truth)]: the feasible outcomes of a condition."""
    r = []
    for v in (True, False):
        for s in assume(st, t, v):
            if not poly.infeasible(s.facts):
                r.append((s, v))
    return r


def strv(chars):
    """A string value of known length."""
    xs = tuple(("app", "chr", c) if c[0] != "c" else ("s", chr(c[1] & 255)) for c in chars)
    return ("s", "") if not xs else (xs[0] if len(xs) == 1 else ("cat",) + xs)


def what(st, e):
    """The message of an exception."""
    v = e.val
    if v is None:
        return None
    return st.env.get(("fld", v[1], "$what")) if v[0] == "obj" else None


def part(chk, name, f):
    """One part of a check; a construct it cannot find or follow leaves it undecided."""
    try:
        f()
    except AnalysisError as e:
        chk.expect(name, None, "", "the analysis reaches a decision", str(e))
        chk.notes.append("%s: %s" % (name, e))
