"""Models of the boundary functions the checks abstract: the port, checksum, clocks, mutexes."""
from terms import *
from absint import Exc, add_fact


def rec_type(M, name):
    c = M.__dict__.setdefault("_rectypes", {})
    if name not in c:
        c[name] = None
        for t in (M.types.values() if isinstance(M.types, dict) else M.types):
            if t.k == "rec" and t.r == name and not t.c:
                c[name] = t
                break
    return c[name]


def fresh_base(I, st, name):
    j = 0
    while I._alive(st, (name, j)) or any(mentions_key(k, (name, j)) for k in st.env):
        j += 1
    return (name, j)


def mentions_key(k, b):
    if k == b:
        return True
    return isinstance(k, tuple) and any(mentions_key(x, b) for x in k if isinstance(x, tuple))


def ptr_arg(I, st, a, t=None):
    v = I.rv(st, a, t) if a[0] == "ref" else a
    if v[0] == "ptr":
        return I.deref_loc(st, v[1]), v[2]
    if v[0] == "addr":
        return I.deref_loc(st, v[1]), ZERO
    return None, None


class Port:
    """TPort: ReadFrame fills the buffer with arbitrary bytes and returns an arbitrary count not above the limit, or throws;
    WriteBytes records what is transmitted."""

    def __init__(self, M, throw=True):
        self.M, self.throw = M, throw
        self.reads, self.ids, self.all = {}, {}, []
        self.writes = []

    def __call__(self, I, st, fn, obj, args, node):
        n = fn.n
        if n == "TPort::ReadFrame" or (n.endswith("::ReadFrame") and fn.ov and "TPort" in str(fn.n)):
            return self.read(I, st, fn, obj, args, node)
        if n == "TPort::WriteBytes":
            base, off = ptr_arg(I, st, args[0])
            if base is None:     # container overload
                base, off = (I.deref_loc(st, args[0][1]) if args[0][0] in ("ref", "obj") else None), ZERO
                cnt = I.size_of(st, base) if base is not None else ("unk", "size", 0)
            else:
                cnt = I.rv(st, args[1])
            rec = (st, base, off, cnt, node, self.when(I, st))
            self.writes.append(rec)
            s = st.copy()
            s.env[("tx", "n")] = C((st.env.get(("tx", "n")) or ZERO)[1] + 1)
            self.thr(I, st, "TSerialDeviceException", node)
            return [(s, ("void",))]
        return None

    def when(self, I, st):
        return (st.env.get(("tx", "n")) or ZERO)[1]

    def thr(self, I, st, tname, node):
        if self.throw:
            I.throw(st, Exc(rec_type(self.M, tname), ("sym", "exc", node["id"], ""), node.get("l", 0),
                            I.stack[-1][3].file if I.stack else None, why="port"))

    def read(self, I, st, fn, obj, args, node):
        base, off = ptr_arg(I, st, args[0])
        size = I.rv(st, args[1])
        st = st.set(("rdn",), add(st.env.get(("rdn",)) or ZERO, ONE))
        self.thr(I, st, "TResponseTimeoutException", node)
        self.thr(I, st, "TSerialDeviceException", node)
        if base is None:
            return [(st, ("unk", "ReadFrame buffer", node["id"]))]
        rx = fresh_base(I, st, "rx")
        same = (rx, base, off, size, node.get("id"), self.when(I, st))
        if same not in self.ids:      # another read on another path gets another name
            self.ids[same] = sum(1 for k in self.ids if k[0] == rx)
        if self.ids[same]:
            rx = rx + (self.ids[same],)
        cnt = ("sym", "count") + rx + ("sz",)
        s = st.copy()
        from stdmodels import seq_log
        s.env[("log", base)] = seq_log(I, st, base) + (("rng", off, size, ("raw", rx, 0, "u8"), ZERO),)
        loc = ("rf",) + rx
        s.env[("fld", loc, "Count")] = cnt
        s.env[("fld", loc, "ResponseTime")] = ("sym", "rtime") + rx + ("",)
        s = add_fact(s, ("le", sub(cnt, size)))
        if s is None:
            return []
        self.all.append((st, base, off, size, node))
        self.reads[rx] = dict(st=st, base=base, off=off, size=size, count=cnt, pred=args[4] if len(args) > 4 else None,
                              args=args, node=node)
        return [(s, ("obj", loc))]


class Crc:
    """CRC16::CalculateCRC16 as an uninterpreted function of a byte range; the range's contents are kept for the rules."""

    def __init__(self, names=("CRC16::CalculateCRC16",)):
        self.names = names
        self.calls = {}

    def __call__(self, I, st, fn, obj, args, node):
        if fn.n not in self.names:
            return None
        base, off = ptr_arg(I, st, args[0])
        n = I.rv(st, args[1])
        if base is None:
            return [(st, ("unk", "crc range", node["id"]))]
        i = len(self.calls)
        self.calls[i] = (st, base, off, n)
        return [(st, ("sym", "crc", i, "u16"))]


def chain(*hs):
    def h(*a):
        for x in hs:
            r = x(*a)
            if r is not None:
                return r
        return None
    return h
