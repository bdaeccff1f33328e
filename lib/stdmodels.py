"""Models of the standard library in the abstract domain of absint.

Containers are (size, write log) pairs at a location, strings/optionals/smart pointers/durations are single terms
(durations and time points in nanoseconds), iterators of sequences are pointers (base, index), iterators of associative
containers name the entry by its key.
"""
import re
import strmodels
from terms import *

NOTHROW = {
    "size", "std::move", "std::forward", "std::min", "std::max", "std::swap", "std::get",
}

RATIO = {"": 10**9, "std::ratio<1, 1000>": 10**6, "std::ratio<1, 1000000>": 10**3, "std::ratio<1, 1000000000>": 1,
         "std::ratio<1>": 10**9, "std::ratio<60>": 60 * 10**9, "std::ratio<3600>": 3600 * 10**9,
         "std::ratio<60, 1>": 60 * 10**9, "std::ratio<3600, 1>": 3600 * 10**9, "std::ratio<1, 1>": 10**9,
         "std::ratio<86400>": 86400 * 10**9}
SEQ = ("std::vector", "std::array", "std::deque", "std::initializer_list", "std::span", "std::list")
ASSOC = ("std::map", "std::unordered_map", "std::set", "std::unordered_set", "std::multimap", "std::unordered_multimap")
PTRS = ("std::unique_ptr", "std::shared_ptr", "std::weak_ptr", "std::__shared_ptr", "std::__shared_ptr_access",
        "std::__uniq_ptr_impl", "std::__uniq_ptr_data")


def ratio_of(s):
    """Nanoseconds per tick of a printed duration/time_point type."""
    m = re.search(r"std::chrono::duration<(?:[a-z ]+)(?:, (std::ratio<[0-9, ]+>))?", s)
    if m:
        return RATIO.get(m.group(1) or "", None)
    if s.endswith("nanoseconds"):
        return 1
    if s.endswith("microseconds"):
        return 10**3
    if s.endswith("milliseconds"):
        return 10**6
    if s.endswith("seconds"):
        return 10**9
    if s.endswith("minutes"):
        return 60 * 10**9
    return None


def is_dur(t):
    t = t.noref if t is not None else None
    return t is not None and (t.r or "").startswith("std::chrono::")


def cls_of(fn):
    return (fn.cls or "").split("<")[0]


def val(I, st, a, t=None):
    if a[0] == "ref":
        return I.load(st, a[1], t.noref if t is not None else None)
    return a


def vals(I, st, fn, args):
    vs = [val(I, st, a, fn.p[i] if i < len(fn.p) else None) for i, a in enumerate(args)]
    for i, v in enumerate(vs):      # the end of a set whose elements are known, next to another position in it
        if v[0] == "itend" and any(w[0] == "ptr" and w[1] == v[1] for w in vs):
            vs[i] = ("ptr", v[1], I.size_of(st, v[1]))
    return vs


def set_elements(st, loc):
    """The elements, in order, of a std::set of known constants."""
    v = st.env.get(("ents", loc))
    if v is None or v[0] != "entsv" or any(x[0] not in ("c", "s") for x in v[1:]):
        return None
    return v[1:]


def set_put(st, loc, xs):
    s = st.copy()
    xs = tuple(sorted(set(xs), key=lambda x: x[1]))
    s.env[("ents", loc)] = ("entsv",) + xs
    s.env[("size", loc)] = C(len(xs))
    s.env[("log", loc)] = tuple(("w", C(i), x) for i, x in enumerate(xs))
    return s


def set_call(I, st, obj, sh, vs, node):
    """A std::set whose elements are all known constants."""
    xs = set_elements(st, obj)
    if xs is None:
        return None
    if sh in ("begin", "cbegin"):
        return [(set_put(st, obj, xs), ("ptr", obj, ZERO))]
    if sh in ("insert", "emplace") and len(vs) == 1 and vs[0][0] in ("c", "s"):
        s = set_put(st, obj, xs + (vs[0],))
        t = ("tmp", I.frame(), node["id"], "ins")
        s.env[("fld", t, "first")] = ("ptr", obj, C(set_elements(s, obj).index(vs[0])))
        s.env[("fld", t, "second")] = C(vs[0] not in xs)
        return [(s, ("obj", t))]
    if sh == "insert" and len(vs) == 2 and vs[0][0] == vs[1][0] == "ptr" and vs[0][1] == vs[1][1] and is_c(vs[0][2]) and is_c(vs[1][2]):
        ys = tuple(I.load_el(st, vs[0][1], C(i), None) for i in range(vs[0][2][1], vs[1][2][1]))
        if all(y[0] in ("c", "s") for y in ys):
            return [(set_put(st, obj, xs + ys), ("void",))]
    if sh == "merge" and len(vs) == 1 and vs[0][0] == "ref":
        o = I.deref_loc(st, vs[0][1])
        ys = set_elements(st, o)
        if ys is not None:
            return [(set_put(set_put(st, obj, xs + ys), o, tuple(y for y in ys if y in xs)), ("void",))]
    if sh in ("count", "contains") and len(vs) == 1 and vs[0][0] in ("c", "s"):
        return [(st, C(vs[0] in xs))]
    if sh == "erase" and len(vs) == 1 and vs[0][0] in ("c", "s"):
        return [(set_put(st, obj, tuple(x for x in xs if x != vs[0])), C(vs[0] in xs))]
    if sh == "clear":
        return [(set_put(st, obj, ()), ("void",))]
    return None


def divides(v, n):
    if not is_num(v):
        return False
    k, d = lin_parts(v)
    return k % n == 0 and all(c % n == 0 for c in d.values())


def rounded(st, v, r, kind):
    """(state, v rounded down or up to a multiple of r): r times a quotient whose bounds become facts of the state."""
    import absint
    k, d = lin_parts(v)
    out = mk_lin((k // r) * r, {a: c for a, c in d.items() if c % r == 0})
    rest = sub(v, out)
    if rest[0] == "c":
        return st, add(out, C(0 if rest[1] == 0 or kind == "floor" else r))
    q = scale(("app", kind + "q", rest, C(r)), r)
    low, high = (q, rest) if kind == "floor" else (rest, q)
    for f in (("le", sub(low, high)), ("le", sub(sub(high, low), C(r - 1)))):
        n = absint.add_fact(st, f)
        st = n if n is not None else st
    return st, add(out, q)


def to_ticks(v, n):
    if n == 1:
        return v
    if divides(v, n):
        k, d = lin_parts(v)
        return mk_lin(k // n, {a: c // n for a, c in d.items()})
    return ("app", "/", v, C(n), "i64")


def strlen(v):
    if v[0] == "s":
        return C(len(v[1]))
    if v[0] == "cat":
        r = ZERO
        for x in v[1:]:
            r = add(r, strlen(x))
        return r
    if v[0] == "app" and v[1] == "chr":
        return ONE
    return ("app", "len", v)


def cat(a, b):
    pa = list(a[1:]) if a[0] == "cat" else [a]
    pb = list(b[1:]) if b[0] == "cat" else [b]
    parts = []
    for p in pa + pb:
        if p == ("s", ""):
            continue
        if parts and parts[-1][0] == "s" and p[0] == "s":
            parts[-1] = ("s", parts[-1][1] + p[1])
        else:
            parts.append(p)
    if not parts:
        return ("s", "")
    return parts[0] if len(parts) == 1 else ("cat",) + tuple(parts)


def has_term(v):
    if v[0] == "some":
        return ONE
    if v[0] == "none":
        return ZERO
    return ("has", v)


def chr_term(v):
    if v[0] == "c":
        return ("s", chr(v[1] & 255))
    return ("app", "chr", v)


# --------------------------------------------------------------------------- sequences
def set_seq(I, st, loc, size, log):
    s = st.copy()
    for k in [k for k in s.env if isinstance(k, tuple) and I.is_under(k, loc) and k[0] not in ("ep", "alive")]:
        if k != loc or s.env[k][0] != "ref":
            del s.env[k]
    s.env[("size", loc)] = size
    s.env[("log", loc)] = log
    return s


def seq_log(I, st, loc):
    l = st.env.get(("log", loc))
    return l if l is not None else (("mem", loc, I.epoch(st, loc)),)


def src_of(I, st, base, etype=None):
    base = I.deref_loc(st, base)
    l = st.env.get(("log", base))
    if l is not None:
        return ("snap", l)
    return ("raw", base, I.epoch(st, base), tag_of(etype) if etype is not None else "u8")


def pointee(t):
    """Element type of a pointer or a std iterator type."""
    t = t.noref
    if t.k == "ptr":
        return t.p
    if t.k == "rec" and t.ta and getattr(t.ta[0], "k", None) in ("ptr", "rec") and "iterator" in (t.r or ""):
        return pointee(t.ta[0])
    return None


def write_range(I, st, dst, off, src, soff, n, etype=None):
    """dst[off, off+n) = src[soff, soff+n)"""
    import absint
    dst = I.deref_loc(st, dst)
    s = st.copy()
    log = seq_log(I, st, dst)
    if is_c(n) and 0 <= n[1] <= 16:
        for i in range(n[1]):
            v = I.load_el(st, src, add(soff, C(i)), etype)
            if v[0] == "obj":
                s = I.copy_obj(s, v[1], ("el", dst, add(off, C(i))))
                log = seq_log(I, s, dst)
            else:
                log = log + (("w", add(off, C(i)), v),)
        s.env[("log", dst)] = log
        return s
    sr = src_of(I, st, src, etype)
    s.env[("log", dst)] = log + (("rng", off, n, sr, soff),)
    return s


def append_range(I, st, loc, src, soff, n, etype=None, t=None):
    loc = I.deref_loc(st, loc)
    sz = I.size_of(st, loc, t)
    s = write_range(I, st, loc, sz, src, soff, n, etype)
    s = s.copy()
    s.env[("size", loc)] = add(sz, n)
    return s


def append_val(I, st, loc, v, t=None):
    loc = I.deref_loc(st, loc)
    sz = I.size_of(st, loc, t)
    if v[0] == "obj":
        s = I.copy_obj(st, v[1], ("el", loc, sz))
        s = s.copy()
        s.env[("log", loc)] = seq_log(I, st, loc)
    else:
        s = st.copy()
        s.env[("log", loc)] = seq_log(I, st, loc) + (("w", sz, v),)
    s.env[("size", loc)] = add(sz, ONE)
    return s


def optional_of(st, t, v):
    """v as an optional of t's argument: integers are converted to it."""
    a = t.noref.ta if t is not None else None
    if v[0] == "some" and a and getattr(a[0], "k", None) in ("int", "enum") and v[1][0] not in ("obj", "addr"):
        from absint import cast_int
        return ("some", cast_int(st, v[1], a[0]))
    return v


def construct_type(I, st, t, args, loc, node):
    """Value-constructs an object of type t from args; returns [(st, value)]."""
    t = t.noref
    if t.k != "rec":
        return [(st, val(I, st, args[0]) if args else ZERO)]
    if I.scalar_rec(t):
        if not args:
            return [(st, empty_of(t))]
        v = val(I, st, args[0])
        if (t.r or "").startswith("std::optional") and v[0] not in ("some", "none", "ld", "par"):
            v = ("some", v)
        return [(st, v)]
    rec = I.M.records.get(t.ru)
    if rec is not None:
        cands = [m for m in rec.m if m.ctor and len(m.p) == len(args)]
        if len(args) == 1:
            v = val(I, st, args[0])
            same = [m for m in cands if m.copy or m.move]
            other = [m for m in cands if not (m.copy or m.move)]
            at = node.get("a", [{}])[0].get("t") if node.get("a") else None
            if at is not None and at.noref is not None and at.noref.ru == t.ru and (v[0] == "obj" or args[0][0] == "ref"):
                v = v if v[0] == "obj" else ("obj", I.deref_loc(st, args[0][1]))
                return [(I.init_loc(st, loc, v), ("obj", loc))]
            cands = other or same
        if cands:
            fn = pick(cands, node, I)
            n2 = {"k": "ctor", "id": node.get("id", 0), "l": node.get("l", 0), "t": t, "f": fn, "a": []}
            st2 = st
            a2 = []
            for a, pt in zip(args, fn.p):
                if pt.k in ("ref", "rref"):
                    if a[0] == "ref":
                        a2.append(a)
                    elif a[0] == "obj":
                        a2.append(("ref", a[1]))
                    else:
                        l = ("tmp", I.frame(), ("arg", node.get("id", 0), len(a2)))
                        st2 = st2.set(l, a)
                        a2.append(("ref", l))
                else:
                    a2.append(val(I, st2, a, pt))
            return I.do_construct(n2, I.clear(st2, loc), fn, a2, loc)
        if not args:
            # implicit default constructor: field initialisers
            dflt = [m for m in rec.m if m.ctor and not m.p]
            s = I.clear(st, loc)
            for f in rec.f:
                if f["i"] is not None:
                    I.exc.append([])
                    rs = I.eval(f["i"], s)
                    I.exc.pop()
                    if len(rs) == 1:
                        s = I.init_loc(rs[0][0], ("fld", loc, f["n"]), rs[0][1])
            return [(s, ("obj", loc))]
        # aggregate
        if rec.f and len(args) <= len(rec.f):
            s = I.clear(st, loc)
            for f, a in zip(rec.f, args):
                s = I.init_loc(s, ("fld", loc, f["n"]), val(I, s, a, f["t"]))
            return [(s, ("obj", loc))]
    if not args:
        return [(set_seq(I, st, loc, ZERO, (("fill", ZERO),)) if (t.r or "") in SEQ else I.clear(st, loc), ("obj", loc))]
    v = val(I, st, args[0])
    if v[0] == "obj" and len(args) == 1:
        return [(I.init_loc(st, loc, v), ("obj", loc))]
    s = I.clear(st, loc)
    s = s.copy()
    s.env[("made", loc)] = ("app", "ctor:" + (t.r or t.s)) + tuple(I.val_of(st, a) for a in args)
    return [(s, ("obj", loc))]


def pick(cands, node, I):
    """Overload choice by argument type names."""
    if len(cands) == 1:
        return cands[0]
    best, bs = cands[0], -1
    a = node.get("a", [])
    for m in cands:
        sc = 0
        for x, pt in zip(a, m.p):
            t = x.get("t")
            if t is None or pt.noref is None:
                continue
            if t.noref.s.replace("const ", "") == pt.noref.s.replace("const ", ""):
                sc += 3
            elif t.noref.k == pt.noref.k:
                sc += 1
        if sc > bs:
            best, bs = m, sc
    return best


def empty_of(t):
    r = t.r or ""
    if r.startswith("std::basic_string"):
        return ("s", "")
    if r.startswith("std::optional"):
        return ("none",)
    return ZERO


# --------------------------------------------------------------------------- constructors
def construct(I, st, fn, args, node, loc):
    cls = cls_of(fn)
    if not cls.startswith("std::") and not cls.startswith("__gnu_cxx::"):
        return None
    if cls in SEQ:
        if not args:
            return [(set_seq(I, st, loc, ZERO, (("fill", ZERO),)), ("obj", loc))] if cls != "std::array" else [(I.clear(st, loc), ("obj", loc))]
        p0 = fn.p[0]
        vs = vals(I, st, fn, args)
        if fn.copy or fn.move or (vs[0][0] == "obj" and p0.noref.k == "rec"):
            if vs[0][0] == "obj":
                return [(I.init_loc(st, loc, vs[0]), ("obj", loc))]
            return None
        if p0.noref.is_int or is_num(vs[0]) and vs[0][0] not in ("ptr",):
            if p0.noref.is_int:
                fill = ZERO
                if len(args) >= 2 and fn.p[1].noref.k != "rec":
                    fill = vs[1]
                elif len(args) >= 3:
                    fill = vs[1]
                return [(set_seq(I, st, loc, vs[0], (("fill", fill),)), ("obj", loc))]
            if p0.noref.k == "rec" and (p0.noref.r or "").startswith("std::allocator"):
                return [(set_seq(I, st, loc, ZERO, (("fill", ZERO),)), ("obj", loc))]
        if len(vs) >= 2 and vs[0][0] == "ptr" and vs[1][0] == "ptr" and vs[0][1] == vs[1][1]:
            s = set_seq(I, st, loc, ZERO, ())
            base = vs[0][1]
            n = sub(vs[1][2], vs[0][2])
            if I.on_access:
                I.on_access(I, st, I.deref_loc(st, base), ("range", vs[0][2], n), node, None)
            s = append_range(I, s, loc, base, vs[0][2], n, elem_type(fn))
            return [(s, ("obj", loc))]
        s = I.clear(st, loc).copy()
        s.env[("ep", loc)] = I.widen_tag_for(("ctor", node.get("id", 0), I.frame()))
        return [(s, ("obj", loc))]
    if cls == "std::basic_string" or cls == "std::basic_string_view":
        vs = vals(I, st, fn, args)
        if not vs or (fn.p[0].noref.r or "").startswith("std::allocator"):
            return [(st, ("s", ""))]
        if len(vs) >= 2 and vs[0][0] == "ptr" and vs[1][0] == "ptr":
            h = strmodels.chars(st.env.get(I.deref_loc(st, vs[0][1])))
            if h is not None and vs[0][1] == vs[1][1] and is_c(vs[0][2]) and is_c(vs[1][2]) and 0 <= vs[0][2][1] <= vs[1][2][1] <= len(h):
                return [(st, strmodels.string(h[vs[0][2][1]:vs[1][2][1]]))]
            return [(st, ("app", "strof", I.obj_term(st, vs[0][1]), vs[0][2], vs[1][2]))]
        if fn.p[0].noref.is_int and len(vs) >= 2 and fn.p[1].noref.is_int:
            return [(st, ("app", "strn", vs[0], vs[1]))]
        if len(vs) >= 2 and len(fn.p) >= 2 and fn.p[1].noref.is_int:
            if fn.p[0].noref.k == "ptr":
                return [(st, ("app", "strpn", ptr_val(I, st, vs[0]), vs[1]))]
            return [(st, ("app", "substr") + tuple(v for v, p in zip(vs, fn.p) if not (p.noref.r or "").startswith("std::allocator")))]
        return [(st, ptr_val(I, st, vs[0]))]
    if cls == "std::optional" or cls == "std::_Optional_base":
        vs = vals(I, st, fn, args)
        if not vs or (fn.p[0].noref.r or "") == "std::nullopt_t":
            return [(st, ("none",))]
        if fn.copy or fn.move or (fn.p[0].noref.r or "") == "std::optional":
            return [(st, optional_of(st, node.get("t"), vs[0]))]
        v = vs[0]
        if v[0] == "obj":
            l = ("optv", I.frame(), node.get("id", 0))
            return [(I.init_loc(st, l, v), ("some", ("obj", l)))]
        return [(st, optional_of(st, node.get("t"), ("some", v)))]
    if cls in PTRS:
        vs = vals(I, st, fn, args)
        return [(st, vs[0] if vs and not (fn.p[0].noref.r or "").startswith("std::nullptr") else ZERO)]
    if cls == "std::chrono::duration" or cls == "std::chrono::time_point":
        vs = vals(I, st, fn, args)
        if not vs:
            return [(st, ZERO)]
        if is_dur(fn.p[0]):
            return [(st, vs[0])]
        t = node.get("t")
        r = ratio_of(fn.cls) or (ratio_of(t.noref.s) if is_dur(t) else None)
        if r is None or not is_num(vs[0]):
            return [(st, ("app", "dur", vs[0]))]
        return [(st, scale(vs[0], r))]
    if cls == "std::function" or cls.startswith("std::function"):
        vs = vals(I, st, fn, args)
        if vs and vs[0][0] == "obj":
            v = st.env.get(I.deref_loc(st, vs[0][1]))
            return [(st, v if v else ("callable", vs[0][1]))]
        return [(st, vs[0] if vs else ZERO)]
    if cls.endswith("__unspec") or cls.startswith("std::__cmp_cat"):
        return [(st, ZERO)]
    if cls == "__gnu_cxx::__normal_iterator" or "iterator" in cls.lower():
        vs = vals(I, st, fn, args)
        if cls == "std::back_insert_iterator":
            if vs and vs[0][0] == "bi":
                return [(st, vs[0])]
            l = args[0][1] if args[0][0] == "ref" else (vs[0][1] if vs[0][0] in ("obj", "addr") else None)
            return [(st, ("bi", l))]
        return [(st, vs[0])] if vs else [(st, ZERO)]
    if cls in ("std::allocator", "std::hash", "std::equal_to", "std::less", "std::nullopt_t", "std::nullptr_t", "std::locale"):
        return [(st, ("obj", loc))]
    if cls == "std::pair":
        vs = vals(I, st, fn, args)
        if len(vs) == 2 and not (fn.copy or fn.move):
            s = I.clear(st, loc)
            s = I.init_loc(s, ("fld", loc, "first"), vs[0])
            s = I.init_loc(s, ("fld", loc, "second"), vs[1])
            return [(s, ("obj", loc))]
        return None
    if cls in ASSOC:
        vs = vals(I, st, fn, args)
        if vs and vs[0][0] == "obj" and (fn.copy or fn.move):
            return [(I.init_loc(st, loc, vs[0]), ("obj", loc))]
        s = I.clear(st, loc).copy()
        if cls == "std::set" and len(vs) >= 2 and vs[0][0] == "ptr":
            s.env[("ents", loc)] = ("entsv",)
            r = set_call(I, s, loc, "insert", vs[:2], node)
            if r is not None:
                return [(x, ("obj", loc)) for x, _ in r]
            del s.env[("ents", loc)]
        if not vs:
            s.env[("size", loc)] = ZERO
            s.env[("ents", loc)] = ("entsv",)
        s.env[("ep", loc)] = I.widen_tag_for(("ctor", node.get("id", 0), I.frame()))
        ents = entries_of(node["a"][0]) if vs and node.get("a") and isinstance(node["a"][0], dict) else None
        if ents is not None and len(ents) <= 40:
            outs = [s]
            for i, (kc, vn) in enumerate(ents):
                outs = [I.init_loc(z, ("fld", ("mapent", loc, i), "second"), w) for y in outs for z, w in I.eval(vn, y)]
            for z in outs:
                for i, (kc, vn) in enumerate(ents):
                    z.env[("fld", ("mapent", loc, i), "first")] = kc
                z.env[("ents", loc)] = ("entsv",) + tuple(kc for kc, _ in ents)
                z.env[("size", loc)] = C(len(ents))
            return [(z, ("obj", loc)) for z in outs]
        return [(s, ("obj", loc))]
    if cls in ("std::runtime_error", "std::logic_error", "std::invalid_argument", "std::out_of_range", "std::exception",
               "std::domain_error", "std::length_error", "std::bad_alloc", "std::range_error", "std::system_error"):
        s = I.clear(st, loc)
        vs = vals(I, st, fn, args)
        if vs:
            s = s.set(("fld", loc, "$what"), vs[0] if vs[0][0] != "obj" else ("what", vs[0][1]))
        return [(s, ("obj", loc))]
    if cls in ("std::basic_istringstream", "std::basic_stringstream"):
        s = I.clear(st, loc)
        vs = vals(I, st, fn, args)
        if vs and strmodels.chars(vs[0]) is not None:
            for f, v in (("$is", vs[0]), ("$pos", ZERO), ("$ok", ONE), ("$eof", ZERO)):
                s = s.set(("fld", loc, f), v)
        return [(s, ("obj", loc))]
    if cls == "std::basic_regex":
        vs = vals(I, st, fn, args)
        s = I.clear(st, loc)
        if len(vs) == 1 or len(vs) == 2 and "flag" not in str(fn.p[1].s) or not vs:
            s = s.set(("fld", loc, "$rx"), vs[0] if vs else ("s", ""))
        return [(s, ("obj", loc))]
    if cls in ("std::unique_lock", "std::lock_guard", "std::scoped_lock", "std::mutex", "std::recursive_mutex",
               "std::basic_stringstream", "std::basic_ostringstream", "std::basic_istringstream", "std::basic_ifstream",
               "std::basic_ofstream", "std::condition_variable", "std::thread"):
        s = I.clear(st, loc)
        if cls == "std::thread" and args and not fn.copy and not fn.move:
            s = s.set(("fld", loc, "$fn"), val(I, st, args[0]))
        return [(s, ("obj", loc))]
    if cls.startswith("std::atomic") or cls.startswith("std::__atomic_base"):
        return [(st, val(I, st, args[0], fn.p[0]) if args else ZERO)]
    return None


def iter_type(t):
    """Element type of an iterator type."""
    t = t.noref
    if t.k == "ptr":
        return t.p
    ta = getattr(t, "ta", None) or []
    return ta[0].p if ta and getattr(ta[0], "k", None) == "ptr" else None


def elem_type(fn):
    return None


def ptr_val(I, st, v):
    """String value behind a const char*."""
    if v[0] == "obj":
        return ("app", "cstr", I.obj_term(st, v[1]))
    if v[0] == "ptr":
        b = I.deref_loc(st, v[1])
        if b[0] == "strc":
            return ("s", b[1])
        return ("app", "cstr", ("ld", b, I.epoch(st, b), ""), v[2])
    return v


# --------------------------------------------------------------------------- calls
def call(I, st, fn, obj, args, node):
    if fn.repo and fn.u in I.M.bodies:
        return None
    cls = cls_of(fn)
    sh = fn.short
    if cls:
        if not (cls.startswith("std::") or cls.startswith("__gnu_cxx::")):
            return None
        if sh.startswith("~"):
            return [(st, ("void",))]
        if cls in SEQ:
            return seq_call(I, st, fn, sh, obj, args, node)
        if cls in ("std::basic_string", "std::basic_string_view"):
            return str_call(I, st, fn, sh, obj, args, node)
        if cls in ("std::optional", "std::_Optional_base", "std::_Optional_base_impl"):
            return opt_call(I, st, fn, sh, obj, args, node)
        if cls in PTRS:
            return ptr_call(I, st, fn, sh, obj, args, node)
        if cls in ASSOC:
            return map_call(I, st, fn, sh, obj, args, node)
        if cls.startswith("std::chrono::"):
            return dur_method(I, st, fn, sh, obj, args, node)
        if cls == "__gnu_cxx::__normal_iterator" or "iterator" in cls.lower():
            return it_call(I, st, fn, sh, obj, args, node)
        if (cls.startswith("std::atomic") or cls.startswith("std::__atomic_base")) and obj is not None:
            if sh == "load" or sh.startswith("operator "):
                return [(st, I.load(st, obj, fn.r))]
            if sh in ("store", "operator=", "exchange") and args:
                v = val(I, st, args[0], fn.p[0])
                old = I.load(st, obj, fn.p[0])
                return [(I.store(st, obj, v), ("void",) if sh == "store" else old if sh == "exchange" else v)]
            return None
        if cls == "std::function" and sh == "operator()":
            v = I.load(st, obj)
            return I.invoke(st, v, args, node)
        if cls == "std::function" and sh in ("operator bool", "operator="):
            if sh == "operator bool":
                v = I.load(st, obj)
                return [(st, ONE if v[0] in ("lam", "fn", "callable") else v)]
            v = val(I, st, args[0])
            return [(I.store(st, obj, v), ("ref", obj))]
        if cls in ("std::mutex", "std::unique_lock", "std::lock_guard", "std::recursive_mutex", "std::condition_variable",
                   "std::scoped_lock"):
            return [(st, ("void",))] if fn.r is None or fn.r.k == "void" else None
        if cls in ("std::less", "std::greater", "std::equal_to"):
            if sh == "operator()" and len(args) == 2:
                vs = vals(I, st, fn, args)
                op = {"std::less": "<", "std::greater": ">", "std::equal_to": "=="}[cls]
                if vs[0][0] != "obj":
                    return [(st, I.binop(st, op, vs[0], vs[1], {"a": {"t": fn.p[0]}}))]
            return None
        if obj is not None and st.env.get(("fld", I.deref_loc(st, obj), "$ok")) is not None:
            l = I.deref_loc(st, obj)
            ok, eof = st.env[("fld", l, "$ok")], st.env[("fld", l, "$eof")]
            if sh == "operator bool":
                return [(st, ok)]
            if sh in ("operator!", "fail"):
                return [(st, C(1 - ok[1]))]
            if sh == "eof":
                return [(st, eof)]
            if sh == "good":
                return [(st, C(1 if ok == ONE and eof == ZERO else 0))]
        if cls.startswith("std::basic_o") or cls.startswith("std::basic_ios") or cls.startswith("std::basic_stringstream"):
            if sh.startswith("operator<<"):
                return [(st, ("ref", obj))]
            return None
        return None
    n = fn.n
    if not (n.startswith("std::") or n.startswith("__gnu_cxx::")):
        return free_c(I, st, fn, n, args, node)
    if n.startswith("std::chrono::") or 'operator""' in n:
        return dur_free(I, st, fn, sh, args, node)
    if n.startswith("__gnu_cxx::operator") or n.startswith("std::__detail::operator"):
        vs = [norm_it(I, st, v) for v in vals(I, st, fn, args)]
        op = sh[len("operator"):]
        return [(st, I.binop(st, op, vs[0], vs[1], {"a": {"t": fn.p[0]}, "t": fn.r}))]
    return free_std(I, st, fn, n, sh, args, node)


def norm_it(I, st, v):
    return v


def seq_call(I, st, fn, sh, obj, args, node):
    ot = node["o"].get("t") if node.get("o") is not None else None
    if ot is not None and ot.noref.k == "ptr":
        ot = ot.noref.p
    vs = vals(I, st, fn, args)
    obj = I.deref_loc(st, obj)
    sz = lambda: I.size_of(st, obj, ot)
    if sh in ("size", "length"):
        return [(st, sz())]
    if sh == "empty":
        return [(st, I.eq_term(st, sz(), ZERO))]
    if sh in ("operator[]", "at"):
        res = []
        states = [st]
        if sh == "at":
            ok = ("le", add(sub(vs[0], sz()), ONE))
            import absint
            for s in absint.assume(st, ok, False):
                I.throw(s, absint.Exc(None, None, node["l"], why="std::out_of_range"))
            states = absint.assume(st, ok, True)
        elif I.on_access:
            I.on_access(I, st, obj, vs[0], node, ot)
        return [(s, ("ref", ("el", obj, vs[0]))) for s in states]
    if sh in ("front", "back"):
        i = ZERO if sh == "front" else sub(sz(), ONE)
        if I.on_access:
            I.on_access(I, st, obj, i, node, ot)
        return [(st, ("ref", ("el", obj, i)))]
    if sh in ("data", "begin", "cbegin"):
        return [(st, ("ptr", obj, ZERO))]
    if sh in ("end", "cend"):
        return [(st, ("ptr", obj, sz()))]
    if sh in ("rbegin", "crbegin"):
        return [(st, ("rptr", obj, sub(sz(), ONE)))]
    if sh in ("rend", "crend"):
        return [(st, ("rptr", obj, C(-1)))]
    if sh in ("reserve", "shrink_to_fit"):
        return [(st, ("void",))]
    if sh in ("push_back",):
        return [(append_val(I, st, obj, vs[0], ot), ("void",))]
    if sh in ("emplace_back",):
        et = ot.ta[0] if ot is not None and ot.ta else None
        res = []
        if et is None:
            return None
        l = ("tmp", I.frame(), ("emp", node["id"]))
        i = sz()
        for s, v in construct_type(I, st, et, args, l, node):
            s = append_val(I, s, obj, v, ot)
            res.append((s, ("ref", ("el", obj, i))))
        return res
    if sh == "pop_back":
        s = st.copy()
        s.env[("size", obj)] = sub(sz(), ONE)
        return [(s, ("void",))]
    if sh == "clear":
        return [(set_seq(I, st, obj, ZERO, (("fill", ZERO),)), ("void",))]
    if sh == "resize":
        s = st.copy()
        old = sz()
        fill = vs[1] if len(vs) > 1 else ZERO
        s.env[("log", obj)] = seq_log(I, st, obj) + (("rng", old, sub(vs[0], old), ("fn", fill), ZERO),)
        s.env[("size", obj)] = vs[0]
        return [(s, ("void",))]
    if sh in ("assign",):
        if len(vs) == 2 and vs[0][0] == "ptr" and vs[1][0] == "ptr" and vs[0][1] == vs[1][1]:
            n = sub(vs[1][2], vs[0][2])
            if I.on_access:
                I.on_access(I, st, I.deref_loc(st, vs[0][1]), ("range", vs[0][2], n), node, None)
            s = set_seq(I, st, obj, ZERO, ())
            s = append_range(I, s, obj, vs[0][1], vs[0][2], n, pointee(fn.p[0]))
            return [(s, ("void",))]
        if len(vs) == 2 and is_num(vs[0]):
            return [(set_seq(I, st, obj, vs[0], (("fill", vs[1]),)), ("void",))]
        if len(vs) == 1 and vs[0][0] == "obj":
            return [(I.init_loc(st, obj, vs[0]), ("void",))]
        return None
    if sh == "insert":
        if len(vs) == 3 and vs[0][0] == "ptr" and vs[1][0] == "ptr" and vs[2][0] == "ptr" and vs[1][1] == vs[2][1] \
                and sub(vs[0][2], sz()) == ZERO:
            n = sub(vs[2][2], vs[1][2])
            if I.on_access:
                I.on_access(I, st, I.deref_loc(st, vs[1][1]), ("range", vs[1][2], n), node, None)
            i = sz()
            return [(append_range(I, st, obj, vs[1][1], vs[1][2], n, pointee(fn.p[1]), ot), ("ptr", obj, i))]
        if len(vs) == 2 and vs[0][0] == "ptr" and sub(vs[0][2], sz()) == ZERO:
            i = sz()
            return [(append_val(I, st, obj, vs[1], ot), ("ptr", obj, i))]
        et = ot.ta[0] if ot is not None and ot.ta else None
        if len(vs) == 2 and vs[0][0] == "ptr" and is_num(vs[0][2]) and vs[1][0] not in ("obj",) and et is not None \
                and (et.k not in ("rec", "arr") or et.k == "rec" and I.scalar_rec(et)):
            n0, i = sz(), vs[0][2]
            src = src_of(I, st, obj, et)
            s = st.copy()
            if is_c(n0) and is_c(i) and n0[1] <= 16:
                xs = [I.load_el(st, obj, C(j), et) for j in range(n0[1])]
                xs.insert(i[1], vs[1])
                s.env[("log", obj)] = tuple(("w", C(j), x) for j, x in enumerate(xs))
            else:
                s.env[("log", obj)] = (("rng", ZERO, i, src, ZERO), ("w", i, vs[1]), ("rng", add(i, ONE), sub(n0, i), src, i))
            s.env[("size", obj)] = add(n0, ONE)
            return [(s, ("ptr", obj, i))]
        s = I.havoc(st, obj, ("ins", node["id"], I.frame()))
        return [(s, ("ptr", obj, ("sym", "ins", node["id"], "sz")))]
    if sh == "operator=":
        if vs and vs[0][0] == "obj":
            return [(I.copy_obj(st, vs[0][1], obj), ("ref", obj))]
        return None
    if sh == "erase":
        n0 = sz()
        et = ot.ta[0] if ot is not None and ot.ta else None
        if vs[0][0] == "ptr" and is_num(vs[0][2]) and et is not None and (et.k not in ("rec", "arr") or et.k == "rec" and I.scalar_rec(et)) and \
                (len(vs) == 1 or vs[1][0] == "ptr" and is_num(vs[1][2])):
            k = ONE if len(vs) == 1 else sub(vs[1][2], vs[0][2])
            src = src_of(I, st, obj, et)
            s = st.copy()
            s.env[("log", obj)] = (("rng", ZERO, vs[0][2], src, ZERO), ("rng", vs[0][2], sub(sub(n0, k), vs[0][2]), src, add(vs[0][2], k)))
            s.env[("size", obj)] = sub(n0, k)
            return [(s, ("ptr", obj, vs[0][2]))]
        s = I.havoc(st, obj, ("erase", node["id"], I.frame()))
        s = s.copy()
        if len(vs) == 1:
            s.env[("size", obj)] = sub(n0, ONE)
        elif vs[0][0] == "ptr" and vs[1][0] == "ptr":
            s.env[("size", obj)] = sub(n0, sub(vs[1][2], vs[0][2]))
        return [(s, ("ptr", obj, vs[0][2]) if vs[0][0] == "ptr" else ("unk", "erase", node["id"]))]
    if sh == "swap" and vs and vs[0][0] == "obj":
        t = ("tmp", I.frame(), ("swap", node["id"]))
        s = I.copy_obj(st, obj, t)
        s = I.copy_obj(s, vs[0][1], obj)
        s = I.copy_obj(s, t, vs[0][1])
        return [(s, ("void",))]
    if sh == "fill" and len(vs) == 1:
        return [(set_seq(I, st, obj, sz(), (("fill", vs[0]),)), ("void",))]
    return None


def str_call(I, st, fn, sh, obj, args, node):
    vs = [ptr_val(I, st, v) if (fn.p[i].noref.k == "ptr" if i < len(fn.p) else False) else v
          for i, v in enumerate(vals(I, st, fn, args))]
    obj = I.deref_loc(st, obj)
    ot = node["o"].get("t") if node.get("o") is not None else None
    v = I.load(st, obj, ot.noref if ot is not None and ot.noref.k == "rec" else None)
    if v[0] == "obj":
        v = ("ld", obj, I.epoch(st, obj), "")

    def setv(nv, r=None):
        s = st.set(obj, nv)
        s.env[("ep", obj)] = I.widen_tag_for(("str", node.get("id", 0), I.frame()))
        s.env.pop(("log", obj), None)
        return [(s, r if r is not None else ("ref", obj))]

    if sh in ("size", "length"):
        sz = st.env.get(("size", obj))
        return [(st, sz if sz is not None else strlen(v))]
    if sh == "empty":
        return [(st, I.eq_term(st, strlen(v), ZERO))]
    if sh in ("c_str", "data"):
        if fn.r is not None and fn.r.k == "ptr" and fn.r.p is not None and not fn.r.p.c:
            return [(st, ("ptr", obj, ZERO))]
        return [(st, v)]
    if sh in ("operator+=", "append"):
        if len(vs) == 1:
            w = vs[0]
            if fn.p[0].noref.is_int:
                w = chr_term(w)
            return setv(cat(v, w))
        return setv(cat(v, ("app", "strargs") + tuple(vs)))
    if sh == "push_back":
        return setv(cat(v, chr_term(vs[0])), ("void",))
    if sh in ("operator=", "assign") and len(vs) == 1:
        w = vs[0]
        if fn.p[0].noref.is_int:
            w = chr_term(w)
        return setv(w)
    if sh == "clear":
        return setv(("s", ""), ("void",))
    if sh in ("begin", "cbegin"):
        return [(st, ("ptr", obj, ZERO))]
    if sh in ("end", "cend"):
        return [(st, ("ptr", obj, strlen(v)))]
    if sh in ("operator[]", "at", "front", "back"):
        i = vs[0] if vs else (ZERO if sh == "front" else sub(strlen(v), ONE))
        if v[0] == "s" and is_c(i) and 0 <= i[1] < len(v[1]):
            return [(st, C(ord(v[1][i[1]])))]
        if I.on_access and sh != "at":
            I.on_access(I, st, obj, i, node, ot)
        return [(st, ("ref", ("el", obj, i)))]
    if sh in ("find", "rfind", "find_first_of", "find_last_of", "find_first_not_of", "find_last_not_of", "compare",
              "substr", "starts_with", "ends_with", "contains"):
        k = strmodels.method(I, st, fn, sh, v, vs, node)
        if k is not None:
            return k
        if sh == "substr":
            if vs[0] == ZERO and len(vs) > 1 and vs[1] in (C(-1), C(2**64 - 1)):
                return [(st, v)]
            return [(st, ("app", "substr", v) + tuple(vs))]
        import absint
        if sh == "compare" and len(vs) == 3 and vs[0] == ZERO and is_c(vs[1]) and vs[2][0] == "s" and len(vs[2][1]) == vs[1][1]:
            t = ("app", "starts_with", v, vs[2], "b")
            return [(s, ZERO if b else ("app", "order", v, vs[2], "i32")) for s0, b in strmodels.decide(st, t)
                    for s in ([s0] if b else absint.assume(s0, ("eq", ("app", "order", v, vs[2], "i32")), False))]
        tag = "u64" if sh.startswith("find") or sh == "rfind" else ("b" if sh.endswith("with") else "i32")
        vs = [chr_term(x) if fn.p[i].noref.is_int and fn.p[i].noref.w == 8 else x for i, x in enumerate(vs)]
        return [(st, ("app", sh, v) + tuple(vs) + (tag,))]
    if sh in ("resize", "insert", "replace", "erase", "pop_back", "swap"):
        if sh == "swap" and args[0][0] == "ref":
            w = I.load(st, args[0][1])
            s = st.set(obj, w)
            s = s.set(I.deref_loc(st, args[0][1]), v)
            return [(s, ("void",))]
        h = strmodels.chars(v)
        if h is not None and sh == "pop_back" and h:
            return setv(strmodels.string(h[:-1]), ("void",))
        if h is not None and sh == "erase" and vs and all(is_c(x) for x in vs) and 0 <= vs[0][1] <= len(h):
            n = (vs[1][1] & (2**64 - 1)) if len(vs) > 1 else 2**64
            return setv(strmodels.string(h[:vs[0][1]] + h[vs[0][1] + min(n, len(h)):]))
        if h is not None and sh == "resize" and len(vs) == 1 and is_c(vs[0]) and 0 <= vs[0][1] <= len(h):
            return setv(strmodels.string(h[:vs[0][1]]), ("void",))
        s = I.havoc(st, obj, ("str", node.get("id", 0), I.frame()))
        s = s.copy()
        s.env[obj] = ("app", "str:" + sh, v) + tuple(vs)
        return [(s, ("ref", obj) if fn.r is not None and fn.r.k == "ref" else ("void",))]
    return None


def opt_call(I, st, fn, sh, obj, args, node):
    import absint
    v = I.load(st, obj)
    if v[0] == "obj":
        v = ("ld", obj, I.epoch(st, obj), "")
    if sh in ("operator bool", "has_value"):
        return [(st, has_term(v))]
    if sh in ("operator*", "operator->", "value"):
        states = [st]
        if sh == "value":
            for s in absint.assume(st, has_term(v), False):
                I.throw(s, absint.Exc(None, None, node["l"], why="std::bad_optional_access"))
            states = absint.assume(st, has_term(v), True)
        res = []
        for s in states:
            if v[0] == "some":
                x = v[1]
                if x[0] == "obj":
                    loc = x[1]
                else:
                    loc = ("optel", obj)
                    s = s.set(loc, x)
            else:
                loc = ("optel", ("deref", v))
            res.append((s, ("addr", loc) if sh == "operator->" else ("ref", loc)))
        return res
    if sh == "value_or":
        d = val(I, st, args[0])
        res = []
        for s in absint.assume(st, has_term(v), True):
            res.append((s, v[1] if v[0] == "some" else ("app", "val", v, tag_of(fn.r))))
        for s in absint.assume(st, has_term(v), False):
            res.append((s, d))
        return res
    if sh == "reset":
        return [(st.set(I.deref_loc(st, obj), ("none",)), ("void",))]
    if sh in ("operator=", "emplace"):
        if not args or (fn.p[0].noref.r or "") == "std::nullopt_t":
            nv = ("none",)
            s = st
        else:
            nv = val(I, st, args[0], fn.p[0])
            s = st
            if (fn.p[0].noref.r or "") != "std::optional":
                if nv[0] == "obj":
                    l = ("optv", I.frame(), node.get("id", 0))
                    s = I.init_loc(st, l, nv)
                    nv = ("obj", l)
                nv = ("some", nv)
        return [(s.set(I.deref_loc(s, obj), nv), ("ref", obj))]
    return None


def ptr_call(I, st, fn, sh, obj, args, node):
    v = I.load(st, obj)
    if v[0] == "obj":
        v = ("ld", obj, I.epoch(st, obj), "")
    if sh in ("get", "operator->", "lock", "_M_get"):
        return [(st, v)]
    if sh == "operator*":
        return [(st, ("ref", I.pointee(st, v)))]
    if sh == "operator bool":
        return [(st, ONE if v[0] in ("addr", "ptr") else (ZERO if v == ZERO else ("not", ("eq", v)) if is_num(v) else v))]
    if sh in ("reset", "operator="):
        nv = val(I, st, args[0], fn.p[0]) if args else ZERO
        s = st.set(I.deref_loc(st, obj), nv)
        if args and args[0][0] == "ref" and fn.p[0].k == "rref" and (fn.p[0].noref.r or "").startswith("std::unique_ptr"):
            s = s.set(I.deref_loc(s, args[0][1]), ZERO)
        return [(s, ("ref", obj) if sh == "operator=" else ("void",))]
    if sh == "release":
        return [(st.set(I.deref_loc(st, obj), ZERO), v)]
    if sh == "swap" and args[0][0] == "ref":
        l2 = I.deref_loc(st, args[0][1])
        w = I.load(st, l2)
        if w[0] == "obj":
            w = ("ld", l2, I.epoch(st, l2), "")
        s = st.set(I.deref_loc(st, obj), w)
        s.env[l2] = v
        return [(s, ("void",))]
    if sh == "operator[]":
        i = val(I, st, args[0])
        b = ("deref", v) if v[0] != "addr" else v[1]
        return [(st, ("ref", ("el", b, i)))]
    return None


def map_entries(I, loc):
    """Literal entries (key, value node) of a constant global map."""
    if loc[0] != "g":
        return None
    g = I.M.globals.get(loc[1])
    if g is None or not g["const"] or g["i"] is None:
        return None
    return entries_of(g["i"])


def known_entries(I, st, loc):
    """(state, keys) with the entries at ("mapent", loc, i) when the whole contents of the map are known."""
    v = st.env.get(("ents", loc))
    if v is not None:
        return (st, v[1:]) if v[0] == "entsv" else None
    if loc[0] == "g" and not any(isinstance(k, tuple) and k[0] in ("hask",) and k[1] == loc for k in st.env):
        ents = map_entries(I, loc)
        if ents is not None and 0 < len(ents) <= 40:
            s = st
            for i, (kc, vn) in enumerate(ents):
                r = I.eval(vn, s)
                if len(r) != 1:
                    return None
                s = I.init_loc(r[0][0], ("fld", ("mapent", loc, i), "second"), r[0][1])
                s.env[("fld", ("mapent", loc, i), "first")] = kc
            s = s.copy()
            s.env[("ents", loc)] = ("entsv",) + tuple(kc for kc, _ in ents)
            s.env[("size", loc)] = C(len(ents))
            return s, tuple(kc for kc, _ in ents)
    return None


def entries_of(n):
    import absint
    while n is not None and n.get("k") in ("ctor", "cast", "il") and not (n["k"] == "il" and n["a"] and n["a"][0] is not None and
            n["a"][0].get("k") in ("ctor", "il") and len(n["a"]) >= 1 and pairish(n["a"][0])):
        nxt = n.get("e") if n["k"] == "cast" else (n["a"][0] if n["a"] else None)
        if nxt is None:
            return None
        n = nxt
    if n is None:
        return None
    res = []
    for p in n["a"]:
        a = p["a"]
        while len(a) == 1 and a[0].get("k") in ("ctor", "il", "cast"):
            a = a[0]["a"] if a[0]["k"] != "cast" else [a[0]["e"]]
        if len(a) < 2:
            return None
        k = absint.const_of(strip(a[0]))
        if k is None:
            return None
        res.append((k, a[1]))
    return res


def strip(n):
    while n is not None and n.get("k") in ("cast",) and "cv" not in n:
        n = n["e"]
    return n


def pairish(n):
    t = n.get("t")
    return t is not None and (t.noref.r or "") == "std::pair"


def map_call(I, st, fn, sh, obj, args, node):
    import absint
    obj = I.deref_loc(st, obj)
    vs = vals(I, st, fn, args)
    vs = [I.obj_term(st, v[1]) if v[0] == "obj" else v for v in vs]
    mt = ("ld", obj, I.epoch(st, obj), "")
    if cls_of(fn) == "std::set":
        r = set_call(I, st, obj, sh, [a if a[0] == "ref" and sh == "merge" else v for a, v in zip(args, vs)], node)
        if r is not None:
            return r
    if sh in ("end", "cend"):
        return [(st, ("itend", obj))]
    ke = known_entries(I, st, obj) if sh in ("find", "count", "contains", "at", "operator[]") else None
    if ke is not None and len(ke[1]) + len(vs) > 0:
        s0, keys = ke
        k = vs[0]
        res, rest = [], [s0]
        for i, kc in enumerate(keys):
            nr = []
            for s in rest:
                c = I.eq_term(s, k, kc)
                for y in absint.assume(s, c, True):
                    l = ("mapent", obj, i)
                    res.append((y, ONE if sh in ("count", "contains") else
                                (("it", l) if sh == "find" else ("ref", ("fld", l, "second")))))
                nr += absint.assume(s, c, False)
            rest = nr
        for s in rest:
            if sh == "at":
                I.throw(s, absint.Exc(I.M.types.get("std::out_of_range"), None, node["l"], why="std::out_of_range"))
            elif sh == "operator[]":
                i = len(keys)
                s = s.copy()
                s.env[("ents", obj)] = ("entsv",) + tuple(keys) + (k,)
                s.env[("size", obj)] = C(i + 1)
                s.env[("fld", ("mapent", obj, i), "first")] = k
                rt = fn.r.noref if fn.r is not None else None
                l = ("fld", ("mapent", obj, i), "second")
                if rt is not None and (rt.is_int or I.scalar_rec(rt)):
                    s.env[l] = empty_of(rt)
                else:
                    s.env[("size", l)] = ZERO
                res.append((s, ("ref", l)))
            else:
                res.append((s, ("itend", obj) if sh == "find" else ZERO))
        return res
    if ("ents", obj) in st.env and sh in ("emplace", "insert", "insert_or_assign", "try_emplace", "erase", "clear", "merge", "extract"):
        # no longer tracked as a whole
        st = st.copy()
        for q in [q for q in st.env if isinstance(q, tuple) and q[0] in ("ents",) and q[1] == obj]:
            del st.env[q]
    if sh in ("find", "count", "contains"):
        k = vs[0]
        ents = map_entries(I, obj)
        res = []
        if ents is not None and len(ents) <= 40:
            rest = [st]
            for i, (kc, vn) in enumerate(ents):
                nr = []
                for s in rest:
                    c = I.eq_term(s, k, kc)
                    for y in absint.assume(s, c, True):
                        if sh == "find":
                            l = ("mapent", obj, i)
                            for z, w in I.eval(vn, y):
                                z = I.init_loc(z, ("fld", l, "second"), w)
                                z.env[("fld", l, "first")] = kc
                                res.append((z, ("it", l)))
                        else:
                            res.append((y, ONE))
                    nr += absint.assume(s, c, False)
                rest = nr
            for s in rest:
                res.append((s, ("itend", obj) if sh == "find" else ZERO))
            return res
        hs, no = has_key(I, st, obj, k)
        for s in hs:
            el = ("el", obj, ("key", k))
            if sh == "find":
                s = s.copy()
                if "set" not in cls_of(fn):
                    s.env[("fld", el, "first")] = k
                else:
                    s.env[el] = k
            res.append((s, ("it", el) if sh == "find" else ONE))
        for s in no:
            res.append((s, ("itend", obj) if sh == "find" else ZERO))
        return res
    if sh in ("operator[]", "at"):
        k = vs[0]
        el = ("fld", ("el", obj, ("key", k)), "second")
        res = []
        if sh == "at":
            hs, no = has_key(I, st, obj, k)
            for s in no:
                I.throw(s, absint.Exc(I.M.types.get("std::out_of_range"), None, node["l"], why="std::out_of_range"))
            return [(s, ("ref", el)) for s in hs]
        rt = fn.r.noref if fn.r is not None else None
        if rt is not None and (rt.is_int or I.scalar_rec(rt)):
            hs, no = has_key(I, st, obj, k)
            res = [(s, ("ref", el)) for s in hs]
            for s in no:
                s = s.copy()
                s.env[el] = empty_of(rt)
                s.env[("hask", obj, k)] = ONE
                res.append((s, ("ref", el)))
            return res
        return [(st, ("ref", el))]
    if sh in ("emplace", "insert_or_assign", "try_emplace", "insert") and "set" not in cls_of(fn):
        k = v = None
        if len(vs) == 2 and sh != "insert":
            k, v = vs
        elif len(vs) == 1 and args[0][0] in ("ref", "obj"):
            p = I.deref_loc(st, args[0][1])
            k, v = I.load(st, ("fld", p, "first")), I.load(st, ("fld", p, "second"))
        if k is None or k[0] == "obj":
            return None
        loc = ("el", obj, ("key", k))
        hs, no = has_key(I, st, obj, k)
        res = []
        for found, ss in ((True, hs), (False, no)):
            for s in ss:
                if not found or sh == "insert_or_assign":
                    s = I.store(s, ("fld", loc, "second"), v)
                    s.env[("fld", loc, "first")] = k
                if not found:
                    s.env[("hask", obj, k)] = ONE
                t = ("tmp", I.frame(), node["id"], "ins")
                s = s.copy()
                s.env[("fld", t, "first")] = ("it", loc)
                s.env[("fld", t, "second")] = ZERO if found else ONE
                res.append((s, ("obj", t)))
        return res
    if sh == "erase" and len(vs) == 1 and vs[0][0] not in ("it", "itend", "bi", "obj"):
        hs, no = has_key(I, st, obj, vs[0])
        res = []
        for n, ss in ((ONE, hs), (ZERO, no)):
            for s in ss:
                s = s.copy()
                for q in [q for q in s.env if isinstance(q, tuple) and I.is_under(q, ("el", obj, ("key", vs[0])))]:
                    del s.env[q]
                s.env[("hask", obj, vs[0])] = ZERO
                res.append((s, n))
        return res
    if sh == "size":
        return [(st, I.size_of(st, obj))]
    if sh == "empty":
        return [(st, I.eq_term(st, I.size_of(st, obj), ZERO))]
    if sh in ("begin", "cbegin", "end", "cend") and fn.cls in ("std::set", "std::multiset") and ("log", obj) in st.env and is_c(I.size_of(st, obj)):
        return [(st, ("ptr", obj, ZERO if "b" in sh else I.size_of(st, obj)))]
    if sh in ("begin", "cbegin"):
        return [(st, ("it", ("el", obj, ("first",))))]
    return None


def has_key(I, st, obj, k):
    """States in which the map has, or lacks, key k."""
    import absint
    o = st.env.get(("hask", obj, k))
    if o is not None and o[0] == "c":
        return ([st], []) if o[1] else ([], [st])
    c = ("has", ("ld", obj, I.epoch(st, obj), ""), k)
    return absint.assume(st, c, True), absint.assume(st, c, False)


def it_call(I, st, fn, sh, obj, args, node):
    obj = I.deref_loc(st, obj)
    v = I.load(st, obj)
    vs = vals(I, st, fn, args)
    if v[0] == "bi":
        if sh in ("operator*", "operator++"):
            return [(st, ("ref", obj))]
        if sh == "operator=":
            return [(append_val(I, st, v[1], vs[0]), ("ref", obj))]
    if v[0] in ("it",):
        if sh == "operator->":
            return [(st, ("addr", v[1]))]
        if sh == "operator*":
            return [(st, ("ref", v[1]))]
    if sh == "operator->":
        return [(st, v)]
    if sh == "operator*":
        l = I.pointee(st, v)
        if l[0] == "el" and I.on_access:
            I.on_access(I, st, l[1], l[2], node, None)
        return [(st, ("ref", l))]
    if sh == "base" and not args:
        return [(st, v)]
    if v[0] == "ptr":
        if sh in ("operator++", "operator--"):
            d = 1 if sh.endswith("++") else -1
            nv = ("ptr", v[1], add(v[2], C(d)))
            s = st.set(obj, nv)
            return [(s, v if args else ("ref", obj))]
        if sh in ("operator+=", "operator-="):
            nv = ("ptr", v[1], add(v[2], vs[0], 1 if sh[8] == "+" else -1))
            return [(st.set(obj, nv), ("ref", obj))]
        if sh in ("operator+", "operator-") and len(vs) == 1:
            return [(st, ("ptr", v[1], add(v[2], vs[0], 1 if sh[8] == "+" else -1)))]
        if sh == "operator[]":
            return [(st, ("ref", ("el", v[1], add(v[2], vs[0]))))]
    if sh == "operator=" and vs:
        return [(st.set(obj, vs[0]), ("ref", obj))]
    if sh in ("operator++", "operator--") and v[0] in ("it", "itend"):
        nv = ("it", ("el", obj, ("next", v)))
        return [(st.set(obj, nv), v if args else ("ref", obj))]
    return None


# --------------------------------------------------------------------------- chrono
def dur_method(I, st, fn, sh, obj, args, node):
    vs = vals(I, st, fn, args)
    if sh == "now":
        v = I.fresh(st, ("now", node.get("id", 0), I.frame()), "")
        return [(st, v)]
    if sh == "zero":
        return [(st, ZERO)]
    if sh in ("max", "min") and not args:
        r = ratio_of(fn.cls) or ratio_of(fn.r.noref.s) or 1
        return [(st, C((2**63 - 1) * r if sh == "max" else -(2**63) * r))]
    if obj is None:
        return None
    v = I.load(st, obj)
    if sh == "count":
        r = ratio_of(fn.cls)
        if r is None and node.get("o") is not None and is_dur(node["o"].get("t")):
            r = ratio_of(node["o"]["t"].noref.s)
        return [(st, to_ticks(v, r) if r else ("app", "count", v))]
    if sh in ("time_since_epoch",):
        return [(st, v)]
    if sh == "operator=" and vs:
        return [(st.set(I.deref_loc(st, obj), vs[0]), ("ref", obj))]
    if sh in ("operator+=", "operator-=") and vs and is_num(v) and is_num(vs[0]):
        return [(st.set(I.deref_loc(st, obj), add(v, vs[0], 1 if sh[8] == "+" else -1)), ("ref", obj))]
    if sh == "operator*=" and vs:
        return [(st.set(I.deref_loc(st, obj), mul(v, vs[0])), ("ref", obj))]
    if sh == "operator-" and not args and is_num(v):
        return [(st, scale(v, -1))]
    if sh == "operator+" and not args:
        return [(st, v)]
    return None


def dur_free(I, st, fn, sh, args, node):
    vs = vals(I, st, fn, args)
    if sh in ("duration_cast", "ceil", "floor", "round", "time_point_cast"):
        r = ratio_of(fn.r.noref.s) or 1
        v = vs[0]
        if r == 1 or divides(v, r) or grain(v, r):
            return [(st, v)]
        if not is_num(v):
            return [(st, ("app", sh, v))]
        if sh in ("ceil", "floor"):
            return [rounded(st, v, r, sh)]
        if sh == "round":
            return [(st, ("app", sh, v, C(r)))]
        import absint
        res = []        # a cast rounds towards zero
        for s in absint.assume(st, ("le", scale(v, -1)), True):
            res.append(rounded(s, v, r, "floor"))
        for s in absint.assume(st, ("le", scale(v, -1)), False):
            res.append(rounded(s, v, r, "ceil"))
        return res
    if sh.startswith('operator""'):
        ds = []
        for a in fn.ta or []:
            if isinstance(a, int):
                ds.append(chr(a))
        r = ratio_of(fn.r.noref.s)
        try:
            return [(st, C(int("".join(ds).replace("'", "")) * r))]
        except (ValueError, TypeError):
            if vs and is_c(vs[0]) and r:
                return [(st, C(vs[0][1] * r))]
            return None
    if sh == "operator<=>":
        if is_num(vs[0]) and is_num(vs[1]):
            return [(st, sub(vs[0], vs[1]))]
        return None
    if len(vs) == 2 and is_num(vs[0]) and is_num(vs[1]):
        a, b = vs
        if sh == "operator+":
            return [(st, add(a, b))]
        if sh == "operator-":
            return [(st, sub(a, b))]
        if sh == "operator*":
            return [(st, mul(a, b))]
        if sh == "operator/":
            if is_c(b) and b[1] and divides(a, b[1]) and not is_dur(fn.p[1]):
                return [(st, to_ticks(a, b[1]))]
            return [(st, ("app", "/", a, b, ""))]
        if sh in ("operator==", "operator!=", "operator<", "operator>", "operator<=", "operator>="):
            return [(st, I.binop(st, sh[8:], a, b, {"a": {"t": fn.p[0]}, "t": fn.r}))]
    return None


def grain(v, r):
    """Is v known to be a multiple of r ns?"""
    return False


# --------------------------------------------------------------------------- free functions
def free_std(I, st, fn, n, sh, args, node):
    import absint
    vs = vals(I, st, fn, args)
    if sh in ("move", "forward", "as_const", "move_if_noexcept", "ref", "cref") and len(args) == 1:
        return [(st, args[0])]
    if sh in ("min", "max") and len(args) == 2:
        a, b = vs
        if is_num(a) and is_num(b):
            c = ("le", sub(a, b))
            if is_c(c[1]):
                first = c[1][1] <= 0
                return [(st, a if (sh == "min") == first else b)]
            res = []
            for s in absint.assume(st, c, True):
                res.append((s, a if sh == "min" else b))
            for s in absint.assume(st, c, False):
                res.append((s, b if sh == "min" else a))
            return res
        return None
    if sh == "swap" and len(args) == 2 and args[0][0] == "ref" and args[1][0] == "ref":
        if vs[0][0] == "obj":
            t = ("tmp", I.frame(), ("swap", node["id"]))
            s = I.copy_obj(st, vs[0][1], t)
            s = I.copy_obj(s, vs[1][1], vs[0][1])
            s = I.copy_obj(s, t, vs[1][1])
            return [(s, ("void",))]
        s = I.store(st, args[0][1], vs[1])
        s = I.store(s, args[1][1], vs[0])
        return [(s, ("void",))]
    if sh == "exchange" and args[0][0] == "ref":
        return [(I.store(st, args[0][1], vs[1]), vs[0])]
    if sh == "to_string":
        v = vs[0]
        return [(st, ("s", str(v[1])) if is_c(v) else ("app", "str", v))]
    if sh in ("begin", "cbegin", "end", "cend", "size", "data") and len(args) == 1 and args[0][0] == "ref":
        l = I.deref_loc(st, args[0][1])
        z = I.size_of(st, l, fn.p[0])
        if sh == "size":
            return [(st, z)]
        return [(st, ("ptr", l, ZERO if sh in ("begin", "cbegin", "data") else z))]
    if sh in ("copy", "copy_n", "move", "move_backward") and len(args) == 3:
        a, b, d = vs
        if sh == "copy_n":
            b, d = ("ptr", a[1], add(a[2], b)) if a[0] == "ptr" and is_num(b) else b, d
        a, b, d = iterv(I, st, a), iterv(I, st, b), iterv(I, st, d)
        if a[0] == "ptr" and b[0] == "ptr" and a[1] == b[1]:
            ln = sub(b[2], a[2])
            if I.on_access:
                I.on_access(I, st, I.deref_loc(st, a[1]), ("range", a[2], ln), node, None)
            if d[0] == "ptr":
                if I.on_access:
                    I.on_access(I, st, I.deref_loc(st, d[1]), ("range", d[2], ln), node, "w")
                return [(write_range(I, st, d[1], d[2], a[1], a[2], ln, pointee(fn.p[0])), ("ptr", d[1], add(d[2], ln)))]
            if d[0] == "bi":
                return [(append_range(I, st, d[1], a[1], a[2], ln, pointee(fn.p[0])), d)]
        if d[0] == "bi":
            return [(I.havoc(st, d[1], ("copy", node["id"])), d)]
        if d[0] == "ptr":
            return [(I.havoc(st, d[1], ("copy", node["id"])), ("unk", "copy", node["id"]))]
        return None
    if sh in ("fill", "fill_n") and len(args) == 3:
        a, b, v = vs
        if a[0] == "ptr":
            ln = sub(b[2], a[2]) if b[0] == "ptr" else b
            s = st.copy()
            base = I.deref_loc(st, a[1])
            s.env[("log", base)] = seq_log(I, st, base) + (("rng", a[2], ln, ("fn", v), ZERO),)
            return [(s, ("ptr", a[1], add(a[2], ln)))]
        return None
    if sh in ("back_inserter", "inserter"):
        if args[0][0] == "ref":
            return [(st, ("bi", I.deref_loc(st, args[0][1])))]
        return None
    if sh in ("reverse",) and len(vs) == 2 and vs[0][0] == "ptr" and vs[1][0] == "ptr":
        base = I.deref_loc(st, vs[0][1])
        ln = sub(vs[1][2], vs[0][2])
        if is_c(ln) and ln[1] <= 16:
            s = st.copy()
            es = [I.load_el(st, base, add(vs[0][2], C(i)), iter_type(fn.p[0])) for i in range(ln[1])]
            log = seq_log(I, st, base)
            for i, e in enumerate(reversed(es)):
                log = log + (("w", add(vs[0][2], C(i)), e),)
            s.env[("log", base)] = log
            return [(s, ("void",))]
        return [(I.havoc(st, base, ("rev", node["id"])), ("void",))]
    if sh == "equal" and len(vs) in (3, 4):
        a, b, c = vs[:3]
        if a[0] == "ptr" and b[0] == "ptr" and c[0] == "ptr":
            ln = sub(b[2], a[2])
            if is_c(ln) and 0 <= ln[1] <= 8:
                t = ONE
                for i in range(ln[1]):
                    x = I.load_el(st, I.deref_loc(st, a[1]), add(a[2], C(i)), iter_type(fn.p[0]))
                    y = I.load_el(st, I.deref_loc(st, c[1]), add(c[2], C(i)), iter_type(fn.p[2]))
                    q = I.eq_term(st, x, y)
                    t = q if t == ONE else ("and", t, q)
                return [(st, t)]
            x = (I.obj_term(st, a[1]), a[2])
            y = (I.obj_term(st, c[1]), c[2])
            x, y = sorted((x, y), key=repr)
            return [(st, ("app", "equal", x[0], x[1], y[0], y[1], ln, "b"))]
        return None
    if sh == "make_unique" or sh == "make_shared":
        t = fn.ta[0] if fn.ta and hasattr(fn.ta[0], "k") else None
        if t is None and fn.r is not None and fn.r.ta:
            t = fn.r.ta[0]
        loc = I.heap_loc(st, node["id"])
        if t is None:
            return [(I.clear(st, loc), ("addr", loc))]
        return [(s, ("addr", loc)) for s, v in construct_type_at(I, st, t, args, loc, node)]
    if sh in ("dynamic_pointer_cast", "static_pointer_cast", "const_pointer_cast"):
        if sh == "dynamic_pointer_cast":
            t = fn.ta[0] if fn.ta and hasattr(fn.ta[0], "k") else None
            return [(st, ("app", "dyncast", vs[0], ("s", t.s if t is not None else "?")))]
        return [(st, vs[0])]
    if sh in ("operator==", "operator!=") and len(vs) == 2:
        a, b = [ptr_val(I, st, v) if (fn.p[i].noref.k == "ptr" and v[0] in ("ptr", "obj")) else v for i, v in enumerate(vs)]
        if (fn.p[1].noref.r or "").endswith("__unspec") or (fn.p[1].noref.r or "").startswith("std::__cmp_cat"):
            t = I.eq_term(st, a, ZERO) if is_num(a) else ("eqv", a, ZERO)
        elif (fn.p[1].noref.r or "") == "std::nullopt_t":
            t = neg(has_term(a))
        elif a[0] == "obj" or b[0] == "obj":
            x, y = sorted((I.val_of(st, a), I.val_of(st, b)), key=repr)
            t = ONE if x == y else ("eqv", x, y)
        elif a[0] in ("it", "itend") or b[0] in ("it", "itend"):
            t = ONE if a == b else (ZERO if {a[0], b[0]} == {"it", "itend"} else ("eqv",) + tuple(sorted((a, b), key=repr)))
        else:
            if (fn.p[0].noref.r or "") == "std::optional" and (fn.p[1].noref.r or "") != "std::optional":
                b = ("some", b)
            t = I.eq_term(st, a, b)
        return [(st, t if sh == "operator==" else neg(t))]
    if sh in ("operator<", "operator>", "operator<=", "operator>=") and len(vs) == 2:
        a, b = vs
        p1 = fn.p[1].noref.r or ""
        if p1.endswith("__unspec") or p1.startswith("std::__cmp_cat"):
            return [(st, I.binop(st, sh[8:], a, ZERO, {"a": {"t": None}}))]
        if (fn.p[0].noref.r or "").endswith("__unspec") or (fn.p[0].noref.r or "").startswith("std::__cmp_cat"):
            return [(st, I.binop(st, sh[8:], ZERO, b, {"a": {"t": None}}))]
        op = sh[8:]
        if op in (">", ">="):
            a, b, op = b, a, {">": "<", ">=": "<="}[op]
        return [(st, ("app", op, I.val_of(st, a), I.val_of(st, b), "b"))]
    if sh == "operator<=>" and len(vs) == 2:
        a, b = vs
        opt = [(fn.p[i].noref.r or "") == "std::optional" for i in (0, 1)]
        if any(opt):
            a, b = [v if o else ("some", v) for v, o in zip((a, b), opt)]
            if a == ("none",) and b[0] in ("none", "some"):
                return [(st, ZERO if b[0] == "none" else C(-1))]
            if b == ("none",) and a[0] == "some":
                return [(st, ONE)]
            if a[0] == b[0] == "some" and is_num(a[1]) and is_num(b[1]):
                x, y = a[1], b[1]
                res = []
                for c, r in ((("le", add(sub(x, y), ONE)), C(-1)), (("eq", sub(x, y)), ZERO), (("le", add(sub(y, x), ONE)), ONE)):
                    for s in absint.assume(st, c, True):
                        res.append((s, r))
                return res
        a, b = I.val_of(st, a), I.val_of(st, b)
        if a[0] == b[0] == "ptr" and a[1] == b[1]:
            return [(st, sub(a[2], b[2]))]       # the sign is the order
        if is_num(a) and is_num(b) and a[0] != "ptr":
            return [(st, sub(a, b))]
        return [(st, ("app", "<=>", a, b, "i32"))]
    if sh == "operator+" and len(vs) == 2:
        r = (fn.r.noref.r or "") if fn.r is not None else ""
        if r.startswith("std::basic_string"):
            a, b = [chr_term(v) if fn.p[i].noref.is_int else ptr_val(I, st, v) for i, v in enumerate(vs)]
            return [(st, cat(a, b))]
        return None
    if sh == "operator<<":
        return [(st, args[0])]
    if sh == "getline" and len(args) in (2, 3) and args[0][0] == "ref" and args[1][0] == "ref":
        is_ = I.deref_loc(st, args[0][1])
        r = strmodels.getline(I, st, is_, I.deref_loc(st, args[1][1]), vs[2] if len(vs) > 2 else C(10))
        if r is not None:
            return [(x, ("ref", is_)) for x in r]
    r = number_conversion(I, st, sh, vs, args, node)
    if r is not None:
        return r
    if sh in ("regex_match", "regex_search") and len(args) >= 2:
        ro = [I.deref_loc(st, a[1]) for a in args if a[0] in ("ref", "obj") and ("fld", I.deref_loc(st, a[1]), "$rx") in st.env]
        if len(ro) == 1 and args[1][0] in ("ref", "obj") and I.deref_loc(st, args[1][1]) == ro[0]:
            pat = st.env[("fld", ro[0], "$rx")]
            if pat[0] == "s":
                r = strmodels.regex(I, st, vs[0], pat[1], sh == "regex_match")
                if r is not None:
                    return [(x, C(1 if t else 0)) for x, t in r]
    if sh in ("find_if", "find_if_not", "find", "any_of", "all_of", "none_of", "count_if", "count") and len(args) == 3:
        r = short_search(I, st, fn, sh, vs, args, node)
        if r is not None:
            return r
    if sh in ("abs",) and vs and is_num(vs[0]):
        lo, _ = rng(vs[0])
        if lo is not None and lo >= 0:
            return [(st, vs[0])]
        return [(st, ("app", "abs", vs[0], tag_of(fn.r)))]
    if sh in ("find_if", "find", "find_if_not", "lower_bound", "upper_bound", "max_element", "min_element", "remove_if", "remove"):
        if vs[0][0] == "ptr" and vs[1][0] == "ptr" and vs[0][1] == vs[1][1]:
            k = I.fresh(st, ("find", node["id"], I.frame()), "sz")
            s = st
            for f in (("le", sub(vs[0][2], k)), ("le", sub(k, vs[1][2]))):
                s2 = absint.add_fact(s, f)
                s = s2 if s2 is not None else s
            if sh in ("remove_if", "remove"):
                s = I.havoc(s, vs[0][1], ("rm", node["id"]))
            return [(s, ("ptr", vs[0][1], k))]
        return None
    if sh in ("make_heap", "sort", "stable_sort", "push_heap", "pop_heap", "shuffle", "unique") and vs[0][0] == "ptr":
        sz = st.env.get(("size", vs[0][1]))
        s = I.havoc(st, vs[0][1], ("perm", node["id"], I.frame()))
        if sz is not None:
            s = s.copy()
            s.env[("size", I.deref_loc(st, vs[0][1]))] = sz
        return [(s, ("void",))]
    if sh in ("memcpy", "memmove", "memset", "strerror", "atoi", "atol", "atoll", "strtol", "strtoll", "strtoul", "strtoull", "tolower", "toupper"):
        return free_c(I, st, fn, sh, args, node)
    if sh in ("distance",) and vs[0][0] == "ptr" and vs[1][0] == "ptr" and vs[0][1] == vs[1][1]:
        return [(st, sub(vs[1][2], vs[0][2]))]
    if sh in ("next", "prev") and vs[0][0] == "ptr":
        d = vs[1] if len(vs) > 1 else ONE
        return [(st, ("ptr", vs[0][1], add(vs[0][2], d, 1 if sh == "next" else -1)))]
    if sh == "get" and args and args[0][0] == "ref":
        i = fn.ta[0] if fn.ta and isinstance(fn.ta[0], int) else None
        if i is not None:
            return [(st, ("ref", ("fld", I.deref_loc(st, args[0][1]), ("first", "second")[i] if i < 2 and
                                  (fn.p[0].noref.r or "") == "std::pair" else "get%d" % i)))]
    return None


def short_search(I, st, fn, sh, vs, args, node):
    """The searching algorithms over a range of known length, one element at a time."""
    a, b = vs[0], vs[1]
    if not (a[0] == "ptr" and b[0] == "ptr" and a[1] == b[1]):
        return None
    n = sub(b[2], a[2])
    if not (is_c(n) and is_c(a[2]) and 0 <= n[1] <= I.UNROLL):
        return None
    et = iter_type(fn.p[0])
    res, cur = [], [(st, 0)]
    for i in range(a[2][1], a[2][1] + n[1]):
        nxt = []
        for s, cnt in cur:
            if sh in ("find", "count"):
                el = I.load(s, ("el", a[1], C(i)), et)
                outs = [(s, I.eq_term(s, el, vs[2]))]
            else:
                outs = I.invoke(s, vs[2], [("ref", ("el", a[1], C(i)))], node)
            for x, r in outs:
                r = I.rv(x, r)
                if not isinstance(r, tuple) or r[0] == "unk":
                    return None
                for y, t in strmodels.decide(x, r):
                    if sh in ("find", "find_if", "find_if_not") and t != (sh == "find_if_not"):
                        res.append((y, ("ptr", a[1], C(i))))
                    elif sh in ("any_of", "none_of") and t:
                        res.append((y, C(1 if sh == "any_of" else 0)))
                    elif sh == "all_of" and not t:
                        res.append((y, ZERO))
                    else:
                        nxt.append((y, cnt + t))
        cur = nxt
    for s, cnt in cur:
        res.append((s, b if sh.startswith("find") else C(cnt) if sh.startswith("count") else C(0 if sh == "any_of" else 1)))
    return res


def construct_type_at(I, st, t, args, loc, node):
    res = []
    for s, v in construct_type(I, st, t, args, loc, node):
        if v[0] != "obj":
            s = s.set(loc, v)
        res.append((s, v))
    return res


def iterv(I, st, v):
    if v[0] == "obj":
        w = st.env.get(I.deref_loc(st, v[1]))
        if w is not None:
            return w
        return ("ptr", v[1], ZERO)
    if v[0] == "addr":
        return ("ptr", v[1], ZERO)
    return v


def neg(t):
    return C(1 - t[1]) if is_c(t) else (t[1] if t[0] == "not" else ("not", t))


def number_conversion(I, st, sh, vs, args, node):
    if sh in strmodels.LIMITS and vs and len(args) <= 3 and all(is_c(x) or x[0] in ("null", "none") for x in vs[1:]) and \
            (len(vs) < 2 or vs[1] == ZERO or vs[1][0] == "null") and (len(vs) < 3 or is_c(vs[2])):
        v0 = vs[0]
        if v0[0] == "app" and v0[1] == "cstr" and len(v0) == 3:
            v0 = v0[2]
        elif v0[0] == "ptr" and v0[2] == ZERO:
            v0 = st.env.get(I.deref_loc(st, v0[1]))
        r = strmodels.to_number(I, st, sh, v0, node, vs[2][1] if len(vs) > 2 else 10)
        return r
    return None


# the "C" locale
CTYPE = {"isdigit": ((48, 57),), "isupper": ((65, 90),), "islower": ((97, 122),), "isalpha": ((65, 90), (97, 122)),
         "isalnum": ((48, 57), (65, 90), (97, 122)), "isspace": ((9, 13), (32, 32)),
         "isxdigit": ((48, 57), (65, 70), (97, 102)), "isprint": ((32, 126),), "iscntrl": ((0, 31), (127, 127))}


def free_c(I, st, fn, n, args, node):
    vs = vals(I, st, fn, args)
    sh = n.rsplit("::", 1)[-1]
    r = number_conversion(I, st, sh, vs, args, node)
    if r is not None:
        return r
    if sh in CTYPE and len(vs) == 1 and is_num(vs[0]):
        t = None
        for lo, hi in CTYPE[sh]:
            r = ("and", ("le", sub(C(lo), vs[0])), ("le", sub(vs[0], C(hi))))
            t = r if t is None else ("or", t, r)
        return [(st, t)]
    if sh in ("tolower", "toupper") and len(vs) == 1 and is_num(vs[0]):
        lo, hi, d = (65, 90, 32) if sh == "tolower" else (97, 122, -32)
        r = ("and", ("le", sub(C(lo), vs[0])), ("le", sub(vs[0], C(hi))))
        return [(s, add(vs[0], C(d)) if t else vs[0]) for s, t in strmodels.decide(st, r)]
    if sh in ("memcpy", "memmove", "__builtin_memcpy") and len(vs) == 3:
        d, s_, ln = iterv(I, st, vs[0]), iterv(I, st, vs[1]), vs[2]
        if d[0] == "ptr" and s_[0] == "ptr":
            if I.on_access:
                I.on_access(I, st, I.deref_loc(st, s_[1]), ("range", s_[2], ln), node, None)
                I.on_access(I, st, I.deref_loc(st, d[1]), ("range", d[2], ln), node, "w")
            return [(write_range(I, st, d[1], d[2], s_[1], s_[2], ln), vs[0])]
        if d[0] == "ptr":
            return [(I.havoc(st, d[1], ("memcpy", node["id"])), vs[0])]
        return None
    if sh == "memset" and len(vs) == 3:
        d = iterv(I, st, vs[0])
        if d[0] == "ptr":
            if I.on_access:
                I.on_access(I, st, I.deref_loc(st, d[1]), ("range", d[2], vs[2]), node, "w")
            base = I.deref_loc(st, d[1])
            s = st.copy()
            s.env[("log", base)] = seq_log(I, st, base) + (("rng", d[2], vs[2], ("fn", vs[1]), ZERO),)
            return [(s, vs[0])]
    if sh in ("memcmp",) and len(vs) == 3:
        a, b = iterv(I, st, vs[0]), iterv(I, st, vs[1])
        if a[0] == "ptr" and b[0] == "ptr":
            return [(st, ("app", "memcmp", I.obj_term(st, a[1]), a[2], I.obj_term(st, b[1]), b[2], vs[2], "i32"))]
    return None
