"""protobuf messages (C18, C19): the wire grammar of the protobuf encoding over the same walker.
A message is a list of fields; the reader's grammar is a loop over "tag, then the member with that
number or an unknown field skipped by its wire type" that ends exactly at the end of the message."""
from .spec import *
from .types_ import *
from .absint import CTLZ, IV, PV, TABLE, ATOM_BITS, const, feq, fge, fne, prim_bits, iv_from_bits, const_bits, Unsupported, B0
from .lin import Lin
from .harness import H

DEBUG = False
VARINT, FIX64, LEN, FIX32 = 0, 1, 2, 5


def vbytes(n):
    out = []
    while n >= 0x80:
        out.append(n & 0x7f | 0x80)
        n >>= 7
    return bytes(out + [n])


def leaf(ws, i):
    return ws.vals[("leaf", i)]


class PFixed:
    def __init__(self, i, n, boolean=False):
        self.i, self.n, self.boolean = i, n, boolean

    def size(self):
        return self.n

    def step(self, w, ws):
        for o in w.need(ws, self.n):
            if o[0] == "ok":
                ws2 = o[1]
                ws2.vals[("leaf", self.i)] = w.wire_bits(ws2, ws2.cur, self.n, False)
                ws2.cur = ws2.cur + self.n
            yield o


class PVarint:
    def __init__(self, i, bits, zz=False):
        self.i, self.w, self.zz = i, bits, zz

    def size(self):
        return None

    def step(self, w, ws):
        for o in VarInt(NoCheck(), self.w, self.zz).decode(w, ws):
            if o[0] == "ok":
                o[1].vals[("leaf", self.i)] = o[2]
                yield ("ok", o[1])
            else:
                yield o


class Scalar:
    """kind: fixed (4/8 bytes), varint, bool, enum"""
    def __init__(self, t):
        self.t = t
        self.cpp = t.cpp
        if isinstance(t, VInt):
            self.wt, self.bits = VARINT, t.under.sz * 8
        elif isinstance(t, Enum):
            self.wt, self.bits = VARINT, t.under.sz * 8
        elif t.cpp == "bool":
            self.wt, self.bits = VARINT, 8
        else:
            self.wt, self.bits = (FIX32 if t.sz == 4 else FIX64), t.sz * 8

    def declare(self, g):
        t = self.t
        u = t.under if isinstance(t, VInt) else t
        if isinstance(u, Enum):
            g.declare("enum class %s : %s {};" % (u.cpp, u.under.cpp))

    def source(self, g, i):
        t = self.t
        if isinstance(t, VInt):
            return "%s{zx::src<%s>(%d)}" % (t.cpp, t.under.cpp, i)
        return "zx::src<%s>(%d)" % (t.cpp, i)

    def sink(self, i, x):
        return "zx::sink(%d, %s%s);" % (i, x, ".value" if isinstance(self.t, VInt) else "")

    def items(self, i):
        t = self.t
        if isinstance(t, VInt):
            return [PVarint(i, self.bits, t.zz)]
        if isinstance(t, Enum):
            return [PVarint(i, self.bits)]
        return [PFixed(i, self.bits // 8, t.cpp == "bool")]


class Field:
    def __init__(self, num, t, decl=None):
        self.num, self.t, self.decl = num, t, decl


class Skipped:
    """member without encoding (empty struct)"""
    cpp = "zb::pb_reserved"


class Msg:
    """message: members in declaration order; number None: declaration order"""
    def __init__(self, name, fields, proto="zb::pb_protocol", extra=""):
        self.cpp, self.name, self.proto, self.extra = name, name, proto, extra
        self.fields = []
        for k, f in enumerate(fields):
            if not isinstance(f, Field):
                f = Field(k + 1, f)
            self.fields.append(f)

    def declare(self, g):
        ms = []
        for k, f in enumerate(self.fields):
            if hasattr(f.t, "declare"):
                f.t.declare(g)
            c = f.t.member_cpp(g) if hasattr(f.t, "member_cpp") else f.t.cpp
            if f.decl:
                c = f.decl % c
            ms.append("%s m%d%s;" % (c, k, "{}" if "no_unique" not in c else ""))
        put, n = [], 0
        for k, f in enumerate(self.fields):
            if isinstance(f.t, (Scalar, Msg)):
                put.append("zx::put(l + %d, static_cast<const %s &>(m%d));" % (n, f.t.cpp, k))
                n += len(f.t.leaves(f.t.ids)) if isinstance(f.t, Msg) else 1
        g.declare("struct %s { %s %s using serialize = %s; void zput(unsigned l) const { %s } };" % (self.cpp, " ".join(ms), self.extra, self.proto, " ".join(put)))

    # leaves: one number per scalar member, in order; containers: container number
    def alloc(self, g):
        ids = []
        for f in self.fields:
            ids.append(f.t.alloc(g) if hasattr(f.t, "alloc") else None if isinstance(f.t, Skipped) else g.id())
        self.ids = ids
        return ids

    def assign(self, g, ids, x):
        out = []
        for k, (f, i) in enumerate(zip(self.fields, ids)):
            m = "%s.m%d" % (x, k)
            if isinstance(f.t, Skipped):
                continue
            if isinstance(f.t, Scalar):
                out.append("%s = %s;" % (m, f.t.source(g, i)))
            else:
                out += f.t.assign(g, i, m)
        return out

    def sinks(self, ids, x):
        out = []
        for k, (f, i) in enumerate(zip(self.fields, ids)):
            m = "%s.m%d" % (x, k)
            if isinstance(f.t, Scalar):
                out.append("{ %s & q = %s; %s }" % (f.t.cpp, m, f.t.sink(i, "q")))
            elif not isinstance(f.t, Skipped):
                out += f.t.sinks(i, m)
        return out

    def leaves(self, ids):
        out = []
        for f, i in zip(self.fields, ids):
            if isinstance(f.t, Scalar):
                out.append((i, f.t.bits))
            elif isinstance(f.t, Msg):
                out += f.t.leaves(i)
        return out

    def member_cpp(self, g):
        return self.cpp

    def read_items(self, g, ids):
        return [ReadMsg(self, ids, g, "varint")]

    def inst(self, g):
        ids = self.alloc(g)
        self.declare(g)
        top = g.n
        pre = self.assign(g, ids, "v0")
        st = g.cfg.get("size", "u32")

        def items():
            if g.mode == "r":
                return [Init(self.leaves(ids)), ReadMsg(self, ids, g, st)] + [Final(self.leaves(ids))]
            return [WriteMsg(self, ids, g, st)]
        i = Inst(self.cpp, "{}", lambda x: self.sinks(ids, x), items)
        i.assign = pre
        return i


class Init:
    """the members' values before the operation"""
    def __init__(self, leaves):
        self.leaves = leaves

    def size(self):
        return 0

    def step(self, w, ws):
        for i, b in self.leaves:
            a = TABLE.by_key.get(("src", i))
            bits = prim_bits(a, (TABLE.ub[a]).bit_length()) if a is not None else ()
            ws.vals[("leaf", i)] = (tuple(bits) + (B0,) * b)[:b]
        ws.vals["leaves"] = tuple(self.leaves)
        yield ("ok", ws)


class Final:
    """the members' values after a successful operation"""
    def __init__(self, leaves):
        self.leaves = leaves

    def size(self):
        return 0

    def step(self, w, ws):
        if w.check:
            for i, b in self.leaves:
                val = Id(i).read(w, ws, (b + 7) // 8)
                want = leaf(ws, i)
                if val is None or not same_bits(ws, tuple(val), tuple(want)[:len(val)]) and not (b == 8 and tuple(val[:1]) == tuple(want[:1])):
                    raise Problem("content", "member #%d is %s after reading, the message says %s" % (i, show_bits(val) if val else None, show_bits(want)))
        yield ("ok", ws)


class ReadMsg:
    def __init__(self, msg, ids, g, st):
        self.msg, self.ids, self.g, self.st = msg, ids, g, st

    def key(self):
        return self.msg.name, repr(self.ids), self.st

    def size(self):
        return None

    def step(self, w, ws):
        if self.st == "none":
            yield from self.body(w, ws, ws.size)
            return
        for o in DeclaredSize(self.st, self.g.swap).step(w, ws):
            if o[0] != "ok":
                yield o
                continue
            ws2 = o[1]
            n = ws2.vals["declared"]
            t, f = split(ws2, fge(ws2.size - ws2.cur - n))
            if f is not None:
                yield ("stop", f, ERANGE, "the message's declared size %r exceeds the %r bytes that remain" % (n, f.size - f.cur))
            if t is not None:
                yield from self.body(w, t, t.cur + n)

    def body(self, w, ws, limit):
        outer = ws.size
        ws = ws.fork()
        ws.size = limit
        clears = []
        for f, i in zip(self.msg.fields, self.ids):
            if hasattr(f.t, "clear_items"):
                clears += f.t.clear_items(i)
        fields = While(self.key(), limit, self.field_items, "the message")
        for o in w.run(clears + [fields], ws):
            if o[0] == "done":
                o[1].size = outer
                yield ("ok", o[1])
            else:
                yield o

    def field_items(self, w, ws):
        """outcomes of one field at the cursor"""
        for o in VarInt(NoCheck(), 32).decode(w, ws):
            if o[0] != "ok":
                yield o
                continue
            cur, bits = o[1], o[2]
            cur.vals["wt"] = bits[:3]
            link_bits(cur, iv_from_bits(29, bits[3:]).lin, bits[3:], 3)
            link_bits(cur, iv_from_bits(3, bits[:3]).lin, bits[:3], 3)
            for f, i in zip(self.msg.fields, self.ids):
                if isinstance(f.t, Skipped):
                    its = []
                elif isinstance(f.t, Scalar):
                    its = f.t.items(i)
                else:
                    its = f.t.read_items(self.g, i)
                t, n = bsplit(w, cur, bits[3:], f.num)
                if t is not None:
                    yield from w.run(its, t)
                cur = n
                if cur is None:
                    break
            if cur is None:
                continue
            t, n = bsplit(w, cur, bits[3:], 0)
            if t is not None:
                yield ("stop", t, EPROTO, "field number zero")
            if n is not None:
                yield from self.skip(w, n, bits[:3])

    def skip(self, w, ws, wt):
        cur = ws
        for t, its in ((VARINT, [VarInt(NoCheck(), 64)]), (FIX64, [Skip_(8)]), (FIX32, [Skip_(4)]), (LEN, [SkipLen()])):
            y, cur = bsplit(w, cur, wt, t)
            if y is not None:
                yield from w.run(its, y)
            if cur is None:
                return
        yield ("stop", cur, EPROTO, "unknown field with an unknown wire type")


def bsplit(w, ws, bits, value):
    """split on: the bit vector equals the constant"""
    a, b = tuple(bits), const_bits(value, len(bits))
    return split(ws, ("beq", a, b)) if False else split_bits(w, ws, a, value)


def split_bits(w, ws, bits, value):
    lin = iv_from_bits(len(bits), bits).lin
    return split(ws, feq(lin - value))


class Skip_:
    def __init__(self, n):
        self.n = n

    def size(self):
        return self.n

    def step(self, w, ws):
        for o in w.need(ws, self.n):
            if o[0] == "ok":
                o[1].cur = o[1].cur + self.n
            yield o


class SkipLen:
    def size(self):
        return None

    def step(self, w, ws):
        for o in DeclaredSize("varint", False).step(w, ws):
            if o[0] != "ok":
                yield o
                continue
            n = o[1].vals["declared"]
            for p in w.need(o[1], n):
                if p[0] == "ok":
                    p[1].cur = p[1].cur + n
                yield p


class DeclaredSize:
    def __init__(self, st, swap):
        self.st, self.swap = st, swap

    def size(self):
        return None

    def step(self, w, ws):
        if self.st == "varint":
            for o in VarInt(NoCheck(), 64).decode(w, ws):
                if o[0] == "ok":
                    l = iv_from_bits(64, o[2]).lin
                    link_prefix(o[1].st, l)
                    link_bits(o[1], l, o[2])
                    o[1].vals["declared"] = l
                    o[1].vals["links"] = o[1].vals.get("links", ()) + ((l, o[2]),)
                    yield ("ok", o[1])
                else:
                    yield o
            return
        n = SIZE_BYTES[self.st]
        for o in w.need(ws, n):
            if o[0] == "ok":
                ws2 = o[1]
                bits = w.wire_bits(ws2, ws2.cur, n, self.swap and n > 1)
                l = iv_from_bits(8 * n, bits).lin
                link_bits(ws2, l, bits)
                ws2.vals["declared"] = l
                ws2.vals["links"] = ws2.vals.get("links", ()) + ((l, bits),)
                ws2.cur = ws2.cur + n
            yield o


def next_loop(ws):
    """the next effect if it is a loop (quiet ones included)"""
    i = ws.ev
    while i < len(ws.evs):
        e = ws.evs[i]
        if e.kind in ("loop", "qloop"):
            return i, e
        if e.kind in SEQ:
            return None, None
        i += 1
    return None, None


class While:
    """records read one after another while the cursor is below the limit.  one(w, ws): outcomes of one record"""
    def __init__(self, key, limit, one, what):
        self.key, self.limit, self.one, self.what = key, limit, one, what

    def size(self):
        return None

    def step(self, w, ws):
        yield from self.go(w, ws, 0)

    def go(self, w, ws, depth):
        i, lev = next_loop(ws)
        if lev is not None:
            first = None
            for hd, hs in self.headers(w, ws, lev):
                try:
                    a = ws.fork()
                    a.ev = i + 1
                    self.verify_loop(w, a, lev, hd, hs)
                except Problem as p:
                    first = first or p
                    continue
                a.cur = hd
                self.set_header(a, hs)
                yield from self.go(w, a, depth + 1)
                return
            if first is not None:
                # the loop may belong to the next part
                try:
                    rest = list(self.tail(w, ws, depth, lev))
                except Problem:
                    raise first
                yield from rest
                return
        yield from self.tail(w, ws, depth, lev)

    def tail(self, w, ws, depth, lev):
        more, done = split(ws, fge(self.limit - ws.cur - 1))
        if done is not None:
            yield ("ok", done)
        if more is None:
            return
        if depth >= 4 and lev is None:
            yield ("missing", more, None, "reading stops although %s goes on at position %r (end %r)" % (self.what, ws.cur, self.limit))
            return
        for o in self.one(w, more):
            if o[0] in ("done", "ok"):
                yield from self.go(w, o[1], depth + 1)
            else:
                yield o

    def headers(self, w, ws, lev):
        """candidates for the cursor at the loop header and for the members' values there"""
        init = lev.d.get("init") or {}
        leaves = ws.vals.get("leaves", ())
        maps = [{}]
        for i, b in leaves:
            cur = leaf(ws, i)
            c = [a for a, l in init.items() if TABLE.ub[a] == (1 << b) - 1 and same_bits(ws, tuple(w.e.bits(ws.st, IV(b, l))), tuple(cur))]
            new = []
            for m in maps:
                opt = [a for a in c if a not in m.values()]
                for a in opt:
                    new.append(dict(m) | {i: a})
                if not opt:
                    new.append(m)
            maps = new[:8]
        cand = []
        for a, l in init.items():
            hd = ws.cur - l + Lin({a: 1}, 0)
            near = l == ws.cur or ws.st.sys.entails_eq(l - ws.cur)
            cand.append((0 if near else 1 if l.is_const() and l.k == 0 else 2, hd, a))
        for n in (1, 2, 4, 8):
            cand.append((1, ws.cur + lev.d["iter"].scale(n), None))
        cand.sort(key=lambda x: x[0])
        for rank, hd, a in cand:
            for m in maps:
                if a not in m.values():
                    yield hd, m

    def set_header(self, ws, hs):
        for i, a in hs.items():
            ws.vals[("leaf", i)] = prim_bits(a, dict(ws.vals["leaves"])[i])

    def verify_loop(self, w, ws, lev, hd, hs):
        cache = w.e.__dict__.setdefault("pbcache", {})
        key = (id(lev), self.key, hd.key(), tuple(sorted(hs.items())), ws.size.key(), self.limit.key(), tuple(leaf(ws, i) for i, _ in ws.vals["leaves"] if i not in hs))
        if key not in cache:
            try:
                self.verify_alts(w, ws, lev, hd, hs)
                cache[key] = (lev, None)
            except Problem as p:
                cache[key] = (lev, p)
        if cache[key][1] is not None:
            raise cache[key][1]

    def verify_alts(self, w, ws, lev, hd, hs):
        for evs, sysx, st, nmap in lev.alts:
            s2 = st.copy()
            s2.events = tuple(evs)
            if not s2.sys.entails(self.limit - hd - 1):
                for l, bits in ws.vals.get("links", ()):
                    link_prefix(s2, l)
                    link_bits(WS(s2, hd, (), ws.size), l, bits)
            if not s2.sys.entails(self.limit - hd - 1):
                raise Problem("effects", "reading continues although %s may be exhausted" % self.what, lev.loc)
            a = WS(s2, hd, tuple(evs), ws.size)
            a.vals = dict(ws.vals)
            self.set_header(a, hs)
            for o in self.one(w, a):
                if o[0] not in ("done", "ok"):
                    raise Problem("error-code", "reading continues although it has to stop with %s: %s" % (ENAME.get(o[2], o[2]), o[3]), lev.loc)
                end = o[1]
                if end.peek() is not None:
                    raise Problem("effects", "unexpected effect %r while reading %s" % (end.peek(), self.what), end.peek().loc)
                (ia, _), = lev.d["iter"].c.items()
                nxt = hd.subst(dict(nmap) | {ia: lev.d["iter"] + 1})
                if not (nxt == end.cur or end.st.sys.entails_eq(nxt - end.cur)):
                    raise Problem("position", "after a part of %s the position is %r, expected %r" % (self.what, nxt, end.cur), lev.loc)
                for i, b in ws.vals["leaves"]:
                    want = leaf(end, i)
                    if i in hs:
                        got = nmap.get(hs[i])
                        gb = w.e.bits(end.st, IV(b, got)) if got is not None else None
                    else:
                        gb = leaf(ws, i)
                    if gb is None or not same_bits(end, tuple(gb), tuple(want)) and not (b == 8 and tuple(gb[:1]) == tuple(want[:1])):
                        raise Problem("content", "member #%d becomes %s, the field says %s" % (i, gb and show_bits(gb), show_bits(want)), lev.loc)


class Alt:
    """alternatives by a bit vector of the walker state: [(value, items)], otherwise"""
    def __init__(self, bits, cases, default):
        self.bits, self.cases, self.default = bits, cases, default

    def size(self):
        return None

    def step(self, w, ws):
        cur = ws
        bits = self.bits(ws)
        for v, its in self.cases:
            y, cur = split_bits(w, cur, bits, v)
            if y is not None:
                yield from w.seq(its, y)
            if cur is None:
                return
        yield from w.seq(self.default, cur)


class Within:
    """the declared number of bytes must still be available"""
    def __init__(self, what):
        self.what = what

    def size(self):
        return 0

    def step(self, w, ws):
        n = ws.vals["declared"]
        t, f = split(ws, fge(ws.size - ws.cur - n))
        if f is not None:
            yield ("stop", f, ERANGE, "the declared length %r of %s exceeds the %r bytes that remain" % (n, self.what, f.size - f.cur))
        if t is not None:
            yield ("ok", t)


class AtMost:
    def __init__(self, limit):
        self.limit = limit

    def size(self):
        return 0

    def step(self, w, ws):
        t, f = split(ws, fge(const(self.limit) - ws.vals["declared"]))
        if f is not None:
            yield ("stop", f, EMSGSIZE, "the declared length exceeds the allocation limit")
        if t is not None:
            yield ("ok", t)


class Whole:
    """the declared length is a whole number of elements (of a power of two size)"""
    def __init__(self, esz):
        self.esz = esz

    def size(self):
        return 0

    def step(self, w, ws):
        k = self.esz.bit_length() - 1
        bits = ws.vals["links"][-1][1]
        if k:
            link_bits(ws, iv_from_bits(k, bits[:k]).lin, bits[:k], 1)
            t, f = split_bits(w, ws, bits[:k], 0)
            if f is not None:
                yield ("stop", f, EPROTO, "the declared length is not a multiple of the element size")
            if t is None:
                return
            ws = t
        ws.vals["count"] = iv_from_bits(64, tuple(bits[k:]) + (B0,) * k).lin
        link_bits(ws, ws.vals["count"], tuple(bits[k:]))
        yield ("ok", ws)


class AppendP:
    """the decoded element is appended to (inserted into) container cid"""
    def __init__(self, cid, leaves):
        self.cid, self.leaves = cid, leaves

    def size(self):
        return 0

    def step(self, w, ws):
        for i, _ in self.leaves:
            ws.vals[i] = leaf(ws, i)
        yield from Inserted(self.cid, [i for i, _ in self.leaves]).step(w, ws)


class Fresh:
    """a new element (all members zero)"""
    def __init__(self, leaves, items):
        self.leaves, self.items = leaves, items

    def size(self):
        return None

    def step(self, w, ws):
        ws = ws.fork()
        old = ws.vals.get("leaves", ())
        ws.vals["leaves"] = tuple(old) + tuple(self.leaves)
        for i, b in self.leaves:
            ws.vals[("leaf", i)] = (B0,) * b
        for o in w.run(self.items, ws):
            if o[0] == "done":
                o[1].vals["leaves"] = old
                yield ("ok", o[1])
            else:
                yield o


class Repeat:
    """repeated field; kind pvec (resizable) or pset (insertion only)"""
    def __init__(self, elem, kind="pvec"):
        self.elem, self.kind = elem, kind
        self.wt = LEN
        self.packed = isinstance(elem, Scalar)
        self.fixed = self.packed and not isinstance(elem.t, (VInt, Enum))

    def declare(self, g):
        self.elem.declare(g)

    def alloc(self, g):
        self.cid = g.cid()
        if isinstance(self.elem, Msg):
            self.eids = self.elem.alloc(g)
            self.leaves = self.elem.leaves(self.eids)
            self.lo = self.leaves[0][0]
        else:
            self.lo = g.id()
            self.leaves = [(self.lo, self.elem.bits)]
        return self.cid

    def member_cpp(self, g):
        return "zx::%s<%s, %d, %d>" % (self.kind, self.elem.cpp, self.cid, self.lo)

    def assign(self, g, i, x):
        return []

    def sinks(self, i, x):
        return []

    def clear_items(self, i):
        return [Expect("mclear", id=self.cid)]

    def esz(self):
        return self.elem.bits // 8

    def read_items(self, g, i):
        if isinstance(self.elem, Msg):
            return [Fresh(self.leaves, [ReadMsg(self.elem, self.eids, g, "varint"), AppendP(self.cid, self.leaves)])]
        one = [Fresh(self.leaves, self.elem.items(self.lo) + [AppendP(self.cid, self.leaves)])]
        limit = g.cfg.get("limit")
        if self.kind == "pvec" and self.fixed:
            many = [DeclaredSize("varint", False)] + ([AtMost(limit)] if limit is not None else []) + \
                [Within("a packed field"), Whole(self.esz()), MResize(self.cid, lambda w, ws: ws.vals["count"], self.esz(), None),
                 Bulk(self.cid, lambda w, ws: ws.vals["count"], self.esz())]
        else:
            many = [DeclaredSize("varint", False), Within("a packed field")]
            if self.kind == "pvec":
                if limit is not None:
                    many.append(AtMost(limit // self.esz()))
                many.append(Reserve(self.cid))
            many.append(PackedLoop(self, one))
        return [Alt(lambda ws: ws.vals["wt"], [(LEN, many)], one)]


class Reserve:
    """room for as many elements as the field has bytes may be reserved (never more)"""
    def __init__(self, cid):
        self.cid = cid

    def size(self):
        return 0

    def step(self, w, ws):
        e = ws.peek()
        if e is not None and e.kind == "mreserve":
            ws.pop()
            if e.id != self.cid or not ws.st.sys.entails(ws.vals["declared"] - e.n):
                raise Problem("resize", "room for %r elements is reserved for a field of %r bytes" % (e.n, ws.vals["declared"]), e.loc)
        yield ("ok", ws)


class PackedLoop:
    def __init__(self, rep, one):
        self.rep, self.one = rep, one

    def size(self):
        return None

    def step(self, w, ws):
        end = ws.cur + ws.vals["declared"]
        lp = While(("packed", self.rep.cid), end, lambda w2, a: w2.run(self.one, a), "a packed field")
        for o in lp.step(w, ws):
            if o[0] != "ok":
                yield o
                continue
            t, f = split(o[1], feq(o[1].cur - end))
            if f is not None:
                yield ("stop", f, EPROTO, "the elements of a packed field end at %r, not at its end %r" % (f.cur, end))
            if t is not None:
                yield ("ok", t)


class MapF:
    """map field: entries are messages of key (1) and value (2)"""
    wt = LEN

    def __init__(self, key, val):
        self.entry = Msg("", [key, val])
        self.key, self.val = key, val

    def declare(self, g):
        self.key.declare(g)
        self.val.declare(g)

    def alloc(self, g):
        self.cid = g.cid()
        self.eids = self.entry.alloc(g)
        self.leaves = self.entry.leaves(self.eids)
        return self.cid

    def member_cpp(self, g):
        return "zx::pmap<%s, %s, %d, %d>" % (self.key.cpp, self.val.cpp, self.cid, self.leaves[0][0])

    assign = Repeat.assign
    sinks = Repeat.sinks
    clear_items = Repeat.clear_items

    def read_items(self, g, i):
        e = Msg("entry%d" % self.cid, [self.key, self.val])
        return [Fresh(self.leaves, [ReadMsg(e, self.eids, g, "varint"), AppendP(self.cid, self.leaves)])]


# ---- writer ----------------------------------------------------------------
class PTag:
    """field tag, a constant; a growing output may reserve room for the longest varint of the tag's type"""
    def __init__(self, num, wt, room=10):
        self.data = vbytes(num << 3 | wt)
        self.room = room

    def size(self):
        return len(self.data)

    def step(self, w, ws):
        n = len(self.data)
        if not w.cfg.get("grow"):
            yield from Tag(self.data).step(w, ws)
            return
        room = next((k for k in (self.room, 10, 5, n) if w.ws_decided(ws, k)), n)
        for o in w.need_grow(ws, const(room), const(n)):
            if o[0] == "ok":
                if w.check:
                    wire = w.wire_bits(o[1], o[1].cur, n, False)
                    if tuple(wire) != tuple(x for b in self.data for x in const_bits(b, 8)):
                        raise Problem("content", "the tag at position %r is %s, expected %s" % (o[1].cur, show_bits(wire), self.data.hex()))
                o[1].cur = o[1].cur + n
            yield o


class Val:
    """the value of an expression over the walker state, as a place"""
    def __init__(self, fn, what):
        self.fn, self.what = fn, what

    def read(self, w, ws, n):
        l = self.fn(ws)
        b = w.e.bits(ws.st, IV(64, l))
        return (tuple(b) + (B0,) * 64)[:8 * n]

    def name(self):
        return self.what


class Length(VarInt):
    """varint of a length"""
    def __init__(self, fn, what):
        VarInt.__init__(self, Val(fn, what), 64)
        self.fn = fn

    def value_iv(self, w, ws):
        return IV(64, self.fn(ws))


def scalar_place(t, place):
    """items writing a scalar member"""
    u = t.t
    if isinstance(u, VInt):
        return [VarInt(place, t.bits, u.zz)]
    if isinstance(u, Enum):
        return [VarInt(place, t.bits)]
    return [Fixed(place, t.bits // 8, False, u.cpp == "bool")]


def layout(t):
    """(size, alignment) of an element type"""
    if isinstance(t, Scalar):
        n = t.bits // 8
        return n, n
    offs, size, al = member_offsets(t.fields)
    return size, al


def member_offsets(fields):
    at, al, offs = 0, 1, []
    for f in fields:
        n, a = (0, 1) if isinstance(f.t, Skipped) else layout(f.t)
        at = (at + a - 1) // a * a
        offs.append(at)
        at += n
        al = max(al, a)
    return offs, max((at + al - 1) // al * al, 1), al


class WriteMsg:
    """places: one per member (a list for nested messages); or mem=(container, offset expression)"""
    def __init__(self, msg, ids, g, st, mem=None):
        self.msg, self.ids, self.g, self.st, self.mem = msg, ids, g, st, mem

    def size(self):
        n = 1 if self.st == "varint" else 0 if self.st == "none" else SIZE_BYTES[self.st]
        body = 0
        for it in self.fields():
            k = it.size()
            if k is None:
                return None
            body += k
        return n + body if body < 128 or self.st != "varint" else None

    def fields(self):
        out = []
        offs = member_offsets(self.msg.fields)[0] if self.mem else None
        for k, f in enumerate(self.msg.fields):
            if isinstance(f.t, Skipped):
                continue
            if isinstance(f.t, (Repeat, MapF)):
                out += f.t.write_items(self.g, f.num)
                continue
            out.append(PTag(f.num, f.t.wt if isinstance(f.t, Scalar) else LEN, 5 if f.decl or "pb_map" in self.msg.proto else 10))
            if isinstance(f.t, Scalar):
                place = Mem(self.mem[0], self.mem[1] + offs[k]) if self.mem else Id(self.ids[k])
                out += scalar_place(f.t, place)
            elif self.mem:
                out.append(WriteMsg(f.t, None, self.g, "varint", (self.mem[0], self.mem[1] + offs[k])))
            else:
                out.append(WriteMsg(f.t, self.ids[k], self.g, "varint"))
        return out

    def step(self, w, ws):
        if self.st == "none":
            yield from w.seq(self.fields(), ws)
            return
        n = 1 if self.st == "varint" else SIZE_BYTES[self.st]
        start = ws.cur
        room = n
        if self.st == "varint" and w.cfg.get("grow"):
            room = 10
        for o in w.need(ws, room):
            if o[0] != "ok":
                yield o
                continue
            a = o[1].fork()
            vis = a.vals.get("vis")
            mv = self.move_event(w, a, start + 1) if self.st == "varint" and w.check else None
            if mv is not None:
                a.vals["vis"] = mv
            a.cur = start + n
            for p in w.run(self.fields(), a):
                if p[0] != "done":
                    yield p
                    continue
                e = p[1]
                e.vals["vis"] = vis
                if self.st == "varint":
                    yield from self.prefix(w, e, start, mv)
                else:
                    if w.check:
                        body = e.cur - start - n
                        want = tuple(w.e.bits(e.st, IV(64, body)))[:8 * n]
                        got = w.wire_bits(e, start, n, self.g.swap and n > 1)
                        if not same_bits(e, got, want):
                            raise Problem("content", "the length prefix at position %r is %s, %r bytes follow" % (start, show_bits(got), body))
                    yield ("ok", e)

    def move_event(self, w, ws, src):
        root = self.root(w)
        for i, e in enumerate(ws.st.events):
            if e.kind == "copy" and e.root == root and e.d.get("srcroot") == root and ws.st.sys.entails_eq(e.srcoff - src):
                return i
        return None

    def root(self, w):
        return w.buf.meta.get("root", w.buf.name)

    def prefix(self, w, ws, start, mv):
        body = ws.cur - start - 1
        cur = ws
        alias = body
        if not body.is_const():
            bits = tuple(w.e.bits(ws.st, IV(64, body)))
            alias = iv_from_bits(64, bits).lin
            half = iv_from_bits(64, bits[1:] + (B0,)).lin
            for f in (alias - half - half, half + half + const(1) - alias):
                ws.st.sys.add(f)
        # messages of 2^56 bytes and more cannot exist in a 48-bit address space: not considered
        for k in range(1, 9):
            last, cur = split(cur, fge(const((1 << 7 * k) - 1) - alias))
            for o in (last, cur):
                if o is not None:
                    for z, x, width in CTLZ:
                        o.st.refine_ctlz(z, x, width)
                    if o.st.sys.infeasible():
                        if o is last:
                            last = None
                        else:
                            cur = None
            if last is not None:
                yield from self.class_(w, last, start, body, k, mv)
            if cur is None:
                return

    def class_(self, w, ws, start, body, k, mv):
        for o in (w.need(ws, k - 1) if k > 1 else [("ok", ws)]):
            if o[0] != "ok":
                yield o
                continue
            a = o[1]
            if w.check:
                bits = tuple(w.e.bits(a.st, IV(64, body))) + (B0,) * 16
                if k > 1:
                    e = a.st.events[mv] if mv is not None else None
                    if e is None:
                        raise Problem("content", "the message at position %r of %r bytes is not moved to make room for %d length bytes" % (start, body, k))
                    if not (weq(w, a, e.off, start + k) and weq(w, a, e.len, body)):
                        raise Problem("content", "the message at %r..+%r is moved to %r..+%r, it belongs at %r" % (start + 1, body, e.off, e.len, start + k), e.loc)
                for i in range(k):
                    want = tuple(bits[7 * i:7 * i + 7]) + ((B1 if i < k - 1 else B0),)
                    got = w.wire_byte(a, start + i)
                    if not same_bits(a, got, want):
                        raise Problem("content", "byte %d of the length prefix at position %r is %s, %r bytes follow" % (i, start, show_bits(got), body))
                self.untouched(w, a, start + k, body, mv)
            a.cur = start + k + body
            yield ("ok", a)

    def untouched(self, w, ws, at, body, mv):
        """nothing is written over the message afterwards (moves by an enclosing message excepted)"""
        if mv is None:
            return
        evs = ws.st.events
        vis = ws.vals.get("vis")
        for e in evs[mv + 1:vis if vis is not None else len(evs)]:
            if e.kind in ("write", "copy", "fill") and e.root == self.root(w):
                if not (ws.st.sys.entails(at - e.off - e.len) or ws.st.sys.entails(e.off - at - body)):
                    raise Problem("content", "the message at %r..+%r is overwritten at %r..+%r" % (at, body, e.off, e.len), e.loc)


class PackedSum:
    """the loop that adds up the encoded sizes of the elements of a packed field"""
    def __init__(self, rep, g):
        self.rep, self.g = rep, g

    def size(self):
        return 0

    def step(self, w, ws):
        if not w.check:
            evs = ws.evs
        first = None
        t, f = split(ws, feq(self.rep.count(w)))
        if t is not None:
            t.vals[("sum", self.rep.cid)] = const(0)
            yield ("ok", t)
        if f is None:
            return
        for e in f.evs:
            if e.kind != "qloop":
                continue
            try:
                s = self.verify(w, f, e)
            except Problem as p:
                first = first or p
                continue
            if s is None:
                continue
            f.vals[("sum", self.rep.cid)] = s
            yield ("ok", f)
            return
        if first is not None:
            raise first
        raise Problem("content", "the length of the packed field c%d is not the sum of its elements' encoded sizes" % self.rep.cid)

    def verify(self, w, ws, lev):
        init = lev.d.get("init") or {}
        alts = list(lev.alts)
        if not alts:
            return None
        for a, l in init.items():
            if not (l.is_const() and l.k == 0) or not all(a in m for _, _, _, m in alts):
                continue
            t = self.rep.elem
            for evs, sysx, st, nmap in alts:
                d = nmap[a] - Lin({a: 1}, 0)
                d = d - (d.k + (1 << 63)) // (1 << 64) * (1 << 64)
                s2 = WS(st.copy(), const(0), (), const(0))
                v = VarInt(Mem(self.rep.cid, lev.d["iter"].scale(self.rep.esz())), t.bits, isinstance(t.t, VInt) and t.t.zz).value_iv(w, s2)
                n = 1
                while n < varint_max(t.bits):
                    y, no = split(s2, fge(const((1 << 7 * n) - 1) - v.lin))
                    if y is not None:
                        if not (d.is_const() and d.k == n) and not y.st.sys.entails_eq(d - n):
                            raise Problem("content", "an element of %d encoded bytes adds %r to the length of the packed field" % (n, d), lev.loc)
                    if no is None:
                        break
                    s2 = no
                    n += 1
                else:
                    if not (d.is_const() and d.k == n) and not s2.st.sys.entails_eq(d - n):
                        raise Problem("content", "an element of %d encoded bytes adds %r to the length of the packed field" % (n, d), lev.loc)
            # every element is counted
            if not ws.st.sys.entails_eq(lev.d["iter"] - self.rep.count(w)):
                raise Problem("content", "the loop over %r elements counts the sizes of %r" % (self.rep.count(w), lev.d["iter"]), lev.loc)
            return Lin({a: 1}, 0)
        return None


def repeat_write(self, g, num):
    if not self.packed:
        elem = self.elem
        sz = layout(elem)[0]
        return [Rep(lambda w, ws: self.count(w), lambda k: [PTag(num, LEN), WriteMsg(elem, None, g, "varint", (self.cid, k.scale(sz)))], "elements of c%d" % self.cid)]
    if self.fixed:
        n = self.esz()
        return [Branch([(lambda w, ws: feq(self.count(w)), [])],
                       [PTag(num, LEN), LengthOf(lambda w, ws: self.count(w).scale(n), "the length of c%d" % self.cid),
                        PackedBlock(self, g)])]
    return [PackedSum(self, g), Branch([(lambda w, ws: feq(self.count(w)), [])],
            [PTag(num, LEN), LengthOf(lambda w, ws: ws.vals[("sum", self.cid)], "the length of c%d" % self.cid),
             Rep(lambda w, ws: self.count(w), lambda k: scalar_place(self.elem, Mem(self.cid, k.scale(self.esz()))), "elements of c%d" % self.cid)])]


class LengthOf:
    def __init__(self, fn, what):
        self.fn, self.what = fn, what

    def size(self):
        return None

    def step(self, w, ws):
        l = self.fn(w, ws)
        yield from Length(lambda _: l, self.what).step(w, ws)


class PackedBlock:
    """fixed-size elements: one block or one by one"""
    def __init__(self, rep, g):
        self.rep = rep

    def size(self):
        return None

    def step(self, w, ws):
        nx = ws.peek()
        cnt = lambda w2, s2: self.rep.count(w2)
        first = None
        if nx is not None and nx.kind == "loop" or self.rep.kind == "pset":
            try:
                yield from list(Rep(cnt, lambda k: scalar_place(self.rep.elem, Mem(self.rep.cid, k.scale(self.rep.esz()))), "elements of c%d" % self.rep.cid).step(w, ws.fork()))
                return
            except Problem as p:
                first = p
        try:
            outs = list(Bulk(self.rep.cid, cnt, self.rep.esz()).step(w, ws))
        except Problem as p:
            raise first or p
        yield from outs


def rep_count(self, w):
    o = w.e.mcache.get("m%d" % self.cid)
    if o is None:
        raise Unsupported("container c%d is never accessed %s" % (self.cid, list(w.e.mcache)))
    return o.meta["count"]


Repeat.write_items = repeat_write
Repeat.count = rep_count
MapF.count = rep_count


def map_write(self, g, num):
    e = Msg("entry%d" % self.cid, [self.key, self.val])
    sz = member_offsets(e.fields)[1]
    return [Rep(lambda w, ws: self.count(w), lambda k: [PTag(num, LEN), WriteMsg(e, None, g, "varint", (self.cid, k.scale(sz)))], "entries of c%d" % self.cid)]


MapF.write_items = map_write


class PB(H):
    def __init__(self, name, msg, mode, cfg=None, tags=(), opts=None):
        H.__init__(self, name, [msg], mode, cfg, set(tags) | {"pb", mode}, dict({"quiet_loops": True, "disjuncts": 60, "maxstates": 8000}, **(opts or {})))

    def source(self):
        s = H.source(self)
        init = " ".join(self.insts[0].assign)
        return s.replace("  archive.position() = pos;", "  archive.position() = pos; %s" % init, 1)
