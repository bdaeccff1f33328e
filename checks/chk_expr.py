from common import *

EXPL = ("Abstract interpretation of the expression lexer, parser and evaluator: characters, token values and positions, parameter values and "
        "sub-results stay symbolic, control flow is followed on character classes and token kinds, and every path is compared with a reference "
        "grammar and semantics written in the check.")
TT = "LeftBr RightBr Number Equal NotEqual Greater Less GreaterEqual LessEqual Or And Ident EOL".split()
NT = "Number Equal NotEqual Greater Less GreaterEqual LessEqual Or And Ident Func".split()
PRIO = {"Greater": 1, "Less": 1, "GreaterEqual": 1, "LessEqual": 1, "Equal": 2, "NotEqual": 2, "And": 3, "Or": 4}
OPS = list(PRIO)


def enums(M, name, want):
    """The numeric values of the enumerators."""
    if name not in M.enums:
        raise AnalysisError("enumeration vanished: " + name)
    e = dict(M.enums[name]["c"])
    for w in want:
        if w not in e:
            raise AnalysisError("enumerator vanished: %s::%s" % (name, w))
    return e


# ------------------------------------------------------------------ lexer
def between(c, a, b):
    return ("and", ("le", sub(C(ord(a)), c)), ("le", sub(c, C(ord(b)))))


def alpha(c):
    return ("or", between(c, "A", "Z"), between(c, "a", "z"))


def digit_(c):
    return between(c, "0", "9")


def ref_lex(st, ch, i, toks):
    """Reference lexer: yields (state, tokens) or (state, ("error", position or None))."""
    n = len(ch)
    if i == n:
        yield st, toks + [("EOL", i, None)]
        return
    c = ch[i]

    def is_(c, x):
        return ("eq", sub(c, C(ord(x))))

    def two(st, tok, single):
        # second character '='
        second = "=" if tok != "Or" and tok != "And" else ("|" if tok == "Or" else "&")
        if i + 1 == n:
            if single:
                yield from ref_lex(st, ch, i + 1, toks + [(single, i, None)])
            else:
                yield st, ("error", None)
            return
        for s, b in decide(st, is_(ch[i + 1], second)):
            if b:
                yield from ref_lex(s, ch, i + 2, toks + [(tok, i, None)])
            elif single:
                yield from ref_lex(s, ch, i + 1, toks + [(single, i, None)])
            else:
                yield s, ("error", i + 1)

    rest = [st]
    for x, tok, single in (("=", "Equal", None), ("!", "NotEqual", None), ("<", "LessEqual", "Less"), (">", "GreaterEqual", "Greater"),
                           ("|", "Or", None), ("&", "And", None), ("(", "LeftBr", 1), (")", "RightBr", 1)):
        nxt = []
        for s0 in rest:
            for s, b in decide(s0, is_(c, x)):
                if not b:
                    nxt.append(s)
                elif single == 1:
                    yield from ref_lex(s, ch, i + 1, toks + [(tok, i, None)])
                else:
                    yield from two(s, tok, single)
        rest = nxt

    def run(st, j, cond, tok):
        if j == n:
            yield from ref_lex(st, ch, j, toks + [(tok, i, ch[i:j])])
            return
        for s, b in decide(st, cond(ch[j])):
            if b:
                yield from run(s, j + 1, cond, tok)
            else:
                yield from ref_lex(s, ch, j, toks + [(tok, i, ch[i:j])])

    for s0 in rest:
        for s, b in decide(s0, is_(c, "-")):
            if b:
                if i + 1 == n:
                    yield s, ("error", None)
                    continue
                for s2, d in decide(s, digit_(ch[i + 1])):
                    if d:
                        yield from run(s2, i + 2, digit_, "Number")
                    else:
                        yield s2, ("error", i + 1)
                continue
            for s2, d in decide(s, digit_(c)):
                if d:
                    yield from run(s2, i + 1, digit_, "Number")
                    continue
                for s3, a in decide(s2, alpha(c)):
                    if a:
                        yield from run(s3, i + 1, lambda x: ("or", ("or", alpha(x), digit_(x)), is_(x, "_")), "Ident")
                    else:
                        yield s3, ("error", i)


def uniq_states(xs):
    seen = {}
    for s, r in xs:
        seen.setdefault(repr(r), (s, r))
    return list(seen.values())


LONGTEXT = ["abcdefghijklmno_9?", "ab_c?d9", "1234567890123?", "-98765?3", "(isDefined(ab)&&a==-1?2)||b!=3", "a>=1&&b<=2||c>3&&d<4?=5", "((a))?((b))", "x==1&&y!=2?", "zZ9_aA0?", "a_____?",
            "=?=", "a=?1", "1-?1", "a|?|b", "a&?&b", "a!?=b", "<?<", ">?>", "a--?1"]


@check("E01", EXPL, "the token sequence, each token's kind, text and position, or the rejection equal those of the reference lexer", only=CORE)
def e01(chk, M):
    kinds = enums(M, "Expressions::TTokenType", TT)
    body = M.one("Expressions::TLexer::GetTokens")
    ch = [P("c%d" % i, "s8") for i in range(4)]
    runs = [(n, ()) for n in range(0, 4 if chk.tier == "thorough" else 3)]
    if chk.tier != "thorough":
        runs += [(3, ((digit_(ch[0]), digit_(ch[1])),)), (3, ((alpha(ch[0]), ("not", alpha(ch[1]))),)), (3, ((("eq", sub(ch[0], C(ord("-")))), digit_(ch[1])),)),
                 (3, ((("eq", sub(ch[0], C(ord("(")))), alpha(ch[1])),)),]
    for n, pre in runs:
        ch = ch[:n] if len(ch) >= n else [P("c%d" % i, "s8") for i in range(n)]
        sts = [St()]
        for conds in pre:
            for c in conds:
                sts = [y for x in sts for y, b in decide(x, c) if b]
        for st in sts:
            e01_run(chk, M, body, kinds, n, st)
    # longer texts, with one arbitrary character inside or at the end
    for t in LONGTEXT:
        cs = [P("c%d" % i, "s8") if x == "?" else C(ord(x)) for i, x in enumerate(t)]
        e01_run(chk, M, body, kinds, len(t), St(), cs, t)


def e01_run(chk, M, body, kinds, n, st, ch=None, label=None):
    if True:
        ch = ch or [P("c%d" % i, "s8") for i in range(n)]
        label = label or "%d characters" % n
        st.env[("p", "str")] = strv(ch)
        I = Interp(M, fork_loops=True, max_steps=8000000, strict=True)
        I.MAXP = 5000
        I.BCAP = 5000
        I.UNROLL = 64
        try:
            T = Table(chk, I, body, ["str"], st=st, tag="GetTokens")
        except OutOfBounds as e:
            facts = "; ".join("%s %s %s" % (f[0], fmt(f[1]), f[2] if len(f) > 2 else "") for f in e.st.facts[-8:])
            chk.expect(label, False if clean_state(e.st) else None, chk.where(body), "only characters of the string are read", "%s -- where %s" % (e, facts))
            return
        for kind, s, v in T.paths:
            if poly.infeasible(s.facts):
                continue
            outcomes = uniq_states(list(ref_lex(s, ch, 0, [])))
            for s2, want in outcomes:
                ok, det = lex_same(T, kind, s2, v, want, kinds)
                if ok is False and not T.clean(s2):
                    ok = None
                name = want[1] if isinstance(want, tuple) else " ".join(t[0] for t in want)
                name = "error at %s" % (name,) if isinstance(want, tuple) else name
                chk.expect("%s/%s" % (label, name), ok, chk.where(body, v.line if kind == "throw" else None),
                           "kinds, texts and positions of the tokens are those of the reference lexer", det)
        chk.count("character_strings_length_%d_paths" % n if label.endswith("characters") else "long_text_paths", len(T.paths))


def lex_same(T, kind, st, v, want, kinds):
    I = T.I
    if isinstance(want, tuple):
        if kind != "throw":
            return False, "accepts a string the grammar rejects (%s)" % (want,)
        ts = exc_types(I.M, v)
        if ts is None:
            return None, "type of the exception unknown"
        if "std::runtime_error" not in ts:
            return False, "throws %s" % v.type.s
        w = what(st, v)
        if w is None:
            return None, "message not known"
        if want[1] is not None and not says_number(w, C(want[1] + 1)):
            return False, "the message %s does not name position %d" % (fmt(w), want[1] + 1)
        return True, ""
    if kind == "throw":
        return False, "rejects a string the grammar accepts"
    if v[0] != "obj":
        return None, "result not modelled"
    z = I.size_of(st, v[1])
    if z != C(len(want)):
        r = eq_terms(st, z, C(len(want)))
        return (None, "length unknown") if r is not False else (False, "%s tokens, expected %d" % (fmt(z), len(want)))
    for i, (k, pos, text) in enumerate(want):
        el = I.deref_loc(st, ("el", v[1], C(i)))
        ty = I.load(st, ("fld", el, "Type"), int_type(I.M, "i32"))
        r = eq_terms(st, ty, C(kinds[k]))
        if r is not True:
            return r, "token %d has kind %s, expected %s" % (i, fmt(ty), k)
        p = I.load(st, ("fld", el, "Pos"), int_type(I.M, "u64"))
        r = eq_terms(st, p, C(pos))
        if r is not True:
            return r, "token %d is at %s, expected %d" % (i, fmt(p), pos)
        if text is not None:
            t = st.env.get(("fld", el, "Value"))
            if t is None:
                return None, "text of token %d unknown" % i
            if t != strv(text):
                r = eq_str(st, t, text)
                if r is not True:
                    return r, "token %d has text %s, expected %s" % (i, fmt(t), fmt(strv(text)))
    return True, ""


def eq_str(st, v, chars):
    from absint import char_at
    from stdmodels import strlen
    z = strlen(v)
    if z != C(len(chars)):
        return False if z[0] == "c" else None
    for i, c in enumerate(chars):
        x = char_at(v, i)
        if x is None:
            return None
        r = eq_terms(st, x, c)
        if r is not True:
            return r
    return True


def says_number(w, n):
    """Does the message contain the decimal form of n?"""
    parts = w[1:] if w[0] == "cat" else (w,)
    if any(p[:3] in (("app", "str", n), ("app", "to_string", n)) for p in parts):
        return True
    if n[0] == "c":
        import re
        return any(p[0] == "s" and re.search(r"(^|\D)%d(\D|$)" % n[1], p[1]) for p in parts) or \
            any(p[0] == "app" and p[1] in ("str", "to_string") and p[2] == n for p in parts)
    return False


# ------------------------------------------------------------------ parser
class Bad(Exception):
    pass


def ref_parse(kinds):
    """Reference parser over token kinds: a tree of (node kind, token index, left, right), or Bad(token index)."""
    pos = [0]

    def expr():
        items = [operand()]
        while kinds[pos[0]] in PRIO:
            items.append(pos[0])
            pos[0] += 1
            items.append(operand())
        return tree(items)

    def tree(items):
        if len(items) == 1:
            return items[0]
        # operators of equal priority group from the left: the root is the last one of the weakest binding
        best = max(range(1, len(items), 2), key=lambda j: (PRIO[kinds[items[j]]], j))
        return (kinds[items[best]], items[best], tree(items[:best]), tree(items[best + 1:]))

    def operand():
        i = pos[0]
        k = kinds[i]
        if k == "Ident" and kinds[i + 1] == "LeftBr":
            if kinds[i + 2] != "Ident":
                raise Bad(i + 2)
            if kinds[i + 3] != "RightBr":
                raise Bad(i + 3)
            pos[0] += 4
            return ("Func", i, None, ("Ident", i + 2, None, None))
        if k in ("Number", "Ident"):
            pos[0] += 1
            return (k, i, None, None)
        if k == "LeftBr":
            pos[0] += 1
            r = expr()
            if kinds[pos[0]] != "RightBr":
                raise Bad(pos[0])
            pos[0] += 1
            return r
        raise Bad(i)

    r = expr()
    if kinds[pos[0]] != "EOL":
        raise Bad(pos[0])
    return r


def sequences(thorough):
    """Token kind sequences: every operator pair, every priority triple, brackets, functions and every first error."""
    N = "Number"
    for k in TT[:-1]:
        yield [k]
        if k in ("Number", "Ident", "LeftBr"):
            for j in TT[:-1]:
                yield [k, j]
    yield []
    for f in ("Ident LeftBr", "Ident LeftBr Ident", "Ident LeftBr Ident RightBr", "Number Or", "LeftBr Ident", "LeftBr Number And Number", "LeftBr LeftBr Ident",
              "Ident LeftBr Ident RightBr And", "LeftBr Number RightBr"):
        for j in TT[:-1]:
            yield f.split() + [j]
        yield f.split()
    for a in OPS:
        yield [N, a, "Ident"]
        for b in OPS:
            yield ["Ident", a, N, b, N]
    reps = OPS if thorough else ["Greater", "Equal", "And", "Or"]
    for a in reps:
        for b in reps:
            yield ["LeftBr", N, a, N, "RightBr", b, N]
            yield [N, a, "LeftBr", N, b, N, "RightBr"]
            for c in reps:
                yield [N, a, "Ident", b, N, c, N]
                if thorough or c in ("Greater", "Or"):
                    yield [N, a, "LeftBr", N, b, "Ident", "RightBr", c, N]
    for a in ("Equal", "And", "Or"):
        yield ["Ident", "LeftBr", "Ident", "RightBr", a, "LeftBr", "Ident", "Equal", N, "RightBr", "Or", "LeftBr", "Ident", "Greater", N, "RightBr"]
        yield ["LeftBr", "LeftBr", N, a, N, "RightBr", "And", "Ident", "RightBr"]
        yield [N, a, N, a, N, a, N, a, N]
        yield [N, a, "Ident", "LeftBr", "Ident", "RightBr"]


@check("E02", EXPL, "the tree built, or the token at which the input is rejected, equals that of the reference grammar", only=CORE)
def e02(chk, M):
    tk, nk = enums(M, "Expressions::TTokenType", TT), enums(M, "Expressions::TAstNodeType", NT)
    body = M.one("Expressions::TParser::Parse")
    seen = set()
    blown = 0
    for seq in sequences(chk.tier == "thorough"):
        seq = seq + ["EOL"]
        if tuple(seq) in seen:
            continue
        seen.add(tuple(seq))
        st = St()
        toks = ("p", "toks")
        st.env[("size", toks)] = C(len(seq))
        for i, k in enumerate(seq):
            st.env[("fld", ("el", toks, C(i)), "Type")] = C(tk[k])
            st.env[("fld", ("el", toks, C(i)), "Value")] = ("sym", "text", i, "")
            st.env[("fld", ("el", toks, C(i)), "Pos")] = P("pos%d" % i, "u64")

        def hook(I, s, fn, obj, args, node):
            if fn.n == "Expressions::TLexer::GetTokens":
                return [(s, ("obj", toks))]
            return None
        I = Interp(M, hook=hook, rec=16)
        I.DEPTH = 80
        try:
            T = Table(chk, I, body, ["str"], st=st, tag="Parse")
        except AnalysisError as e:
            blown += 1
            chk.expect(" ".join(seq), None, chk.where(body), "the tree follows the grammar", str(e))
            if blown > 3:
                break
            continue
        try:
            want = ref_parse(seq)
        except Bad as e:
            want = e.args[0]
        if not any(not poly.infeasible(s.facts) for _, s, _ in T.paths):
            chk.expect(" ".join(seq), None if T.unknown else False, chk.where(body), "every sequence is either parsed or rejected",
                       "the parser does not return from this sequence")
        for kind, s, v in T.paths:
            if poly.infeasible(s.facts):
                continue
            ok, det = tree_same(T, kind, s, v, want, seq, nk)
            if ok is False and not clean_state(prefix_free(s)):
                ok = None
            chk.expect(" ".join(seq), ok, chk.where(body, v.line if kind == "throw" else None),
                       "the tree has the operands in order, the tightest operators lowest and equal ones grouped from the left", det)


def calls_of(want):
    """Token indices of the function names in a tree."""
    if want is None or isinstance(want, int):
        return []
    return ([want[1]] if want[0] == "Func" else []) + calls_of(want[2]) + calls_of(want[3])


def prefix(f):
    """The token whose text the path has compared with a prefix only."""
    return f[1][2] if f[0] == "b" and f[1][0] == "app" and f[1][1] == "starts_with" and f[1][3] == ("s", "isDefined") else None


def prefix_free(st):
    return St(st.env, tuple(f for f in st.facts if prefix(f) is None and "'order'" not in repr(f)), st.ev, st.opq)


def is_defined(st, i):
    """Does the path know that the name of the function at token i is (not) isDefined?"""
    for f in st.facts:
        if f[0] == "b" and f[1][0] == "eqv" and ("sym", "text", i, "") in f[1] and ("s", "isDefined") in f[1]:
            return f[2]
    return None


def tree_same(T, kind, st, v, want, seq, nk):
    I = T.I
    if kind == "throw":
        ts = exc_types(I.M, v)
        if ts is None:
            return None, "type of the exception unknown"
        if "std::runtime_error" not in ts:
            return False, "throws %s" % v.type.s
        for i, k in enumerate(seq[:-1]):
            if k == "Ident" and seq[i + 1] == "LeftBr" and is_defined(st, i) is False:
                # unknown function: rejected, at its name or at an earlier or later error of the same call
                return True, ""
        if not isinstance(want, int):
            return False, "rejects a sequence the grammar accepts"
        w = what(st, v)
        if w is None:
            return None, "message not known"
        n = add(P("pos%d" % want, "u64"), ONE)
        if not says_number(w, n):
            return False, "the message %s does not name the position of token %d" % (fmt(w), want)
        return True, ""
    if isinstance(want, int):
        return False, "accepts a sequence the grammar rejects at token %d" % want
    for i in calls_of(want):
        d = is_defined(st, i)
        if d is False:
            return False, "accepts a call of a function other than isDefined"
        if d is None:
            sym = ("sym", "text", i, "")
            if all(prefix(f) == sym for f in st.facts if repr(sym) in repr(f)):
                return False, "accepts a call of a function whose name is not known to be isDefined"
            return None, "name of the function not tested on this path"
    return node_same(T, st, v, want, nk)


def node_same(T, st, v, want, nk):
    I = T.I
    if want is None:
        return (True, "") if v in (ZERO, ("null",)) else ((False, "unexpected child") if v[0] == "addr" else (None, "child not modelled"))
    if v in (ZERO, ("null",)):
        return False, "a node %s is missing" % want[0]
    if v[0] != "addr":
        return None, "node not modelled: " + fmt(v)
    l = I.deref_loc(st, v[1])
    ty = st.env.get(("fld", l, "Type"))
    if ty is None:
        return None, "node kind not modelled"
    r = eq_terms(st, ty, C(nk[want[0]]))
    if r is not True:
        return r, "a node has kind %s where %s is expected" % (fmt(ty), want[0])
    if want[0] in ("Number", "Ident", "Func"):
        t = st.env.get(("fld", l, "Value"))
        if t is None:
            return None, "node value not modelled"
        if t != ("sym", "text", want[1], ""):
            if want[0] == "Func" and t == ("s", "isDefined"):
                pass
            else:
                return (False if t[0] in ("sym", "s") else None), "node %s carries %s" % (want[0], fmt(t))
    for side, w in (("Left", want[2]), ("Right", want[3])):
        c = st.env.get(("fld", l, side), ZERO)
        r, d = node_same(T, st, c, w, nk)
        if r is not True:
            return r, d
    return True, ""


# ------------------------------------------------------------------ evaluation
def root_evaluator(M):
    """The internal recursive evaluator: (node pointer, parameters) -> optional value, called from Expressions::Eval."""
    ev = [b for b in M.bodies.values() if b.fn.n == "Expressions::Eval"]
    if not ev:
        raise AnalysisError("anchor vanished: Expressions::Eval")
    names = []

    def walk(n):
        if isinstance(n, dict):
            if n.get("k") in ("call", "mcall") and n.get("f") is not None:
                names.append(n["f"].u)
            for x in n.values():
                walk(x)
        elif isinstance(n, (list, tuple)):
            for x in n:
                walk(x)
    walk(ev[0].s)
    for u in names:
        b = M.bodies.get(u)
        if b is not None and b.ps and b.ps[0].t.noref.k == "ptr" and (b.fn.r.r or "") == "std::optional":
            return ev[0], b
    raise AnalysisError("anchor vanished: the evaluator called by Expressions::Eval")


def sub_results(root, expr):
    """Calls of the evaluator on other nodes: undefined, or an arbitrary number, once per node."""
    def hook(I, s, fn, obj, args, node):
        if fn.u == root.fn.u:
            a = I.rv(s, args[0]) if args[0][0] == "ref" else args[0]
            key = ("evald", a)
            if s.env.get(key) is not None:
                return [(s, s.env[key])]
            s1, s2 = s.copy(), s.copy()
            s1.env[key] = ("none",)
            v = ("some", ("sym", "value", a, "i32"))
            s2.env[key] = v
            I.throw(s, Exc(None, None, node.get("l", 0), root.file, why="any"))
            return [(s1, ("none",)), (s2, v)]
        if fn.n == "Expressions::IParams::Get":
            n = args[0][1] if args[0][0] == "ref" else args[0]
            n = I.deref_loc(s, n)
            key = ("param", n)
            if s.env.get(key) is not None:
                return [(s, s.env[key])]
            s1, s2 = s.copy(), s.copy()
            s1.env[key] = ("none",)
            s2.env[key] = ("some", ("sym", "param", n, "i32"))
            return [(s1, ("none",)), (s2, s2.env[key])]
        return None
    return hook


@check("E03", EXPL, "the value of every kind of node equals the documented operation on the values of its operands", only=CORE)
def e03(chk, M):
    nk = enums(M, "Expressions::TAstNodeType", NT)
    ev, root = root_evaluator(M)
    L, R = ("p", "left"), ("p", "right")
    al, ar = ("addr", L), ("addr", R)
    x, y = ("sym", "value", al, "i32"), ("sym", "value", ar, "i32")
    ops = {"Equal": EQ(x, y), "NotEqual": ("not", EQ(x, y)), "Greater": LE(add(y, ONE), x), "Less": LE(add(x, ONE), y),
           "GreaterEqual": LE(y, x), "LessEqual": LE(x, y), "Or": None, "And": None}
    for k in NT:
        st = St()
        e = ("p", "expr")
        st.env[("fld", e, "Type")] = C(nk[k])
        if k in ops:
            st.env[("fld", e, "Left")], st.env[("fld", e, "Right")] = al, ar
        else:
            st.env[("fld", e, "Left")] = ZERO
            st.env[("fld", e, "Right")] = ar if k == "Func" else ZERO
        I = Interp(M, hook=sub_results(root, e), rec=1)
        T = Table(chk, I, root, ["expr", "params"], overrides={0: ("addr", e)}, st=st, tag="evaluate", allow=("atoi", "stoi", "strtol", "strtoll", "stol"))

        def good(s, kind, v, k=k):
            if kind == "throw":
                return (True, "") if v.why == "any" else (False, "throws")
            a, b = s.env.get(("evald", al)), s.env.get(("evald", ar))
            if k in ops:
                if v == ("none",):
                    return False, "the value of an operation is undefined"
                if v[0] != "some":
                    return None, "result not modelled"
                t = v[1]
                undef = ("none",) in (a, b)
                if undef:
                    want = ONE if k == "NotEqual" else ZERO
                elif k in ("Or", "And"):
                    cases = []
                    # only what the path evaluated matters
                    for p, px in ((a, x), (b, y)):
                        cases.append(("ne", px))
                    want = None
                    for s1, tx in (decide(s, ("not", ("eq", x))) if a else [(s, None)]):
                        for s2, ty in (decide(s1, ("not", ("eq", y))) if b else [(s1, None)]):
                            if k == "And":
                                w = False if False in (tx, ty) else (True if tx and ty else None)
                            else:
                                w = None if None in (tx, ty) else (tx or ty)
                            if w is None:
                                return False, "decided without evaluating both operands"
                            for s3, tv in decide(s2, t if is_bool(t) else ("not", ("eq", t))):
                                if tv != w:
                                    return False, "%s gives %s when the operands are %s and %s" % (k, tv, tx, ty)
                    return True, ""
                else:
                    if a is None or b is None:
                        return False, "decided without evaluating both operands"
                    want = ops[k]
                for s1, w in (decide(s, want) if want[0] != "c" else [(s, bool(want[1]))]):
                    for s2, tv in decide(s1, t if is_bool(t) else ("not", ("eq", t))):
                        if tv != w:
                            return False, "the result is %s where %s is expected" % (fmt(t), w)
                return True, ""
            if k == "Number":
                if v[0] == "some" and v[1][0] == "app" and v[1][1] in ("atoi", "stoi", "strtol", "strtoll", "stol"):
                    src = v[1][2]
                    return ("Value" in repr(src) and repr(e) in repr(src)), "the text converted is " + fmt(src)
                return (None if unclean(v) else False), "is " + fmt(v)
            if k == "Ident":
                p = s.env.get(("param", ("fld", e, "Value")))
                if p is None:
                    return False, "the parameter of that name is not looked up"
                return (v == p) or (eq_terms(s, v, p)), "is %s, expected %s" % (fmt(v), fmt(p))
            if k == "Func":
                p = s.env.get(("param", ("fld", R, "Value")))
                if p is None:
                    return False, "the parameter named by the argument is not looked up"
                if v[0] != "some":
                    return (False if v == ("none",) else None), "is " + fmt(v)
                for s2, tv in decide(s, v[1] if is_bool(v[1]) else ("not", ("eq", v[1]))):
                    if tv != (p != ("none",)):
                        return False, "is %s although the parameter is %s" % (fmt(v), fmt(p))
                return True, ""
        T.case(k, [], good, "operand values combined as documented; a comparison with an undefined operand is false, != is true")
    # numbers: the decimal value of the text
    for n, minus in ((1, 0), (2, 0), (3, 0), (1, 1), (2, 1), (5, 0), (9, 0), (5, 1), (9, 1)):
        e = ("p", "expr")
        st = St()
        st.env[("fld", e, "Type")] = C(nk["Number"])
        st.env[("fld", e, "Left")] = st.env[("fld", e, "Right")] = ZERO
        d = [P("c%d" % i, "s8") for i in range(n)]
        sts = [st]
        for c in d:
            sts = [y for x in sts for y, b in decide(x, digit_(c)) if b]
        sts[0].env[("fld", e, "Value")] = strv([C(45)] * minus + d)
        I = Interp(M, hook=sub_results(root, e), rec=1)
        T = Table(chk, I, root, ["expr", "params"], overrides={0: ("addr", e)}, st=sts[0], tag="evaluate")
        want = ZERO
        for c in d:
            want = add(scale(want, 10), sub(c, C(48)))

        def number(s, kind, v, want=scale(want, -1 if minus else 1)):
            if kind == "throw":
                return False, "throws"
            if v[0] != "some":
                return (False if v == ("none",) else None), "is " + fmt(v)
            return eq_terms(s, v[1], want), "is %s" % fmt(v)
        T.case("number of %d digits%s" % (n, ", negative" if minus else ""), [], number, "the number its decimal digits spell")
    for text in ("70000", "-70000", "2147483647", "-2147483648", "0", "007"):
        e = ("p", "expr")
        st = St()
        st.env[("fld", e, "Type")] = C(nk["Number"])
        st.env[("fld", e, "Left")] = st.env[("fld", e, "Right")] = ZERO
        st.env[("fld", e, "Value")] = ("s", text)
        I = Interp(M, hook=sub_results(root, e), rec=1)
        T = Table(chk, I, root, ["expr", "params"], overrides={0: ("addr", e)}, st=st, tag="evaluate")
        T.case("number " + text, [], lambda s, kind, v, n=int(text): (kind == "ret" and v == ("some", C(n)) or (None if kind == "ret" and not (v[0] == "some" and is_c(v[1])) else False),
               "is %s" % (fmt(v) if kind == "ret" else "rejected")), "the number its decimal digits spell")
    # the public entry: true iff defined and not zero; a missing expression is an error
    e = ("p", "expr")
    I = Interp(M, hook=sub_results(root, e))
    T = Table(chk, I, ev, ["expr", "params"], overrides={0: ("addr", e)}, tag="Eval")

    def truth(s, kind, v):
        if kind == "throw":
            return (True, "") if v.why == "any" else (False, "throws")
        r = s.env.get(("evald", ("addr", e)))
        if r is None:
            return False, "the expression is not evaluated"
        for s1, tv in decide(s, v if is_bool(v) else ("not", ("eq", v))) if v[0] != "c" else [(s, bool(v[1]))]:
            if r == ("none",):
                if tv:
                    return False, "an undefined expression is true"
                continue
            for s2, w in decide(s1, ("not", ("eq", r[1]))):
                if w != tv:
                    return False, "the result is %s for a value that is %s" % (tv, "not zero" if w else "zero")
        return True, ""
    T.case("truth", [], truth, "an expression is true exactly when its value is defined and not zero")
    I = Interp(M)
    T = Table(chk, I, root, ["expr", "params"], overrides={0: ZERO}, tag="evaluate")
    T.case("null", [], T.throws_type(("std::runtime_error",)), "a missing node is an error, not a crash")


def trees():
    """Trees covering every kind of node and every position: (kind, name, left, right)."""
    I = lambda n: ("Ident", n, None, None)
    F = lambda n: ("Func", "isDefined", None, I(n))
    N = ("Number", "7", None, None)
    yield I("b"), {"b"}
    yield N, set()
    yield F("c"), {"c"}
    for k in ("Equal", "NotEqual", "Greater", "Less", "GreaterEqual", "LessEqual", "Or", "And"):
        yield (k, "", I("b"), I("a")), {"a", "b"}
        yield (k, "", I("b"), N), {"b"}
        yield (k, "", N, I("a")), {"a"}
        yield (k, "", F("x1"), I("isDefined")), {"x1", "isDefined"}
        yield (k, "", I("p"), I("p")), {"p"}
    t, names = I("n9"), {"n9"}
    for i, k in enumerate(("And", "Or", "Equal", "Less")):
        t = (k, "", t, ("Greater", "", F("f%d" % i), I("n9"))) if i % 2 else (k, "", (k, "", I("g%d" % i), N), t)
        names = names | {("f%d" if i % 2 else "g%d") % i}
    yield t, names


@check("E04", EXPL, "for every shape of tree listed the result holds each parameter name of the tree once and no other name", only=CORE)
def e04(chk, M):
    nk = enums(M, "Expressions::TAstNodeType", NT)
    body = M.one("Expressions::GetDependencies")
    for i, (t, names) in enumerate(trees()):
        st = St()
        cnt = [0]

        def build(t):
            e = ("p", "node%d" % cnt[0])
            cnt[0] += 1
            k, name, l, r = t
            st.env[("fld", e, "Type")], st.env[("fld", e, "Value")] = C(nk[k]), ("s", name)
            st.env[("fld", e, "Left")] = ("addr", build(l)) if l else ZERO
            st.env[("fld", e, "Right")] = ("addr", build(r)) if r else ZERO
            return e
        root = build(t)
        I = Interp(M, rec=12)
        I.DEPTH = 40
        T = Table(chk, I, body, ["expression"], overrides={0: ("addr", root)}, st=st, tag="GetDependencies")

        def same_names(s, kind, v):
            if kind != "ret":
                return False, "throws"
            if v[0] != "obj":
                return None, "is " + fmt(v)
            n = I.size_of(s, v[1])
            if n[0] != "c":
                return None, "the number of names is " + fmt(n)
            xs = [I.load_el(s, v[1], C(j), None) for j in range(n[1])]
            if any(x[0] != "s" for x in xs):
                return None, "names are " + ", ".join(fmt(x) for x in xs)
            xs = [x[1] for x in xs]
            return sorted(xs) == sorted(names), "the names are %s, expected %s" % (xs, sorted(names))
        T.case("%d %s" % (i, t[0]), [], same_names, "each parameter the condition mentions, exactly once")
    T = Table(chk, Interp(M), body, ["expression"], overrides={0: ZERO}, tag="GetDependencies")
    T.case("no condition", [], lambda s, kind, v: (False, "throws") if kind != "ret" else
           (eq_terms(s, T.I.size_of(s, v[1]), ZERO) if v[0] == "obj" else None), "no names")
