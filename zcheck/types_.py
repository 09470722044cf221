"""Catalogue of serialisable type shapes: for each, the C++ text of the analysed
harness and the wire grammar the documentation promises for it."""
from .spec import *
from .absint import iv_from_bits, IV, fge, fne, feq, const, TABLE, B0
from .lin import Lin


class Gen:
    def __init__(self, mode, cfg):
        self.mode, self.cfg = mode, cfg
        self.n = 0
        self.m = 0
        self.decls = []
        self.pre = []
        self.partial = {}
        self.types = {}

    def id(self):
        self.n += 1
        return self.n

    def cid(self):
        self.m += 1
        return self.m

    def declare(self, text):
        if text not in self.decls:
            self.decls.append(text)

    @property
    def swap(self):
        return bool(self.cfg.get("swap"))


class Inst:
    """one value of a type inside a harness"""
    @property
    def expr(self):
        return self.cpp + self.init if self.init.startswith("{") else self.init

    def __init__(self, cpp, init, sinks, items):
        self.cpp, self.init, self.sinks, self.items = cpp, init, sinks, items


def leafbits(ws, w, off, n, swap):
    return w.wire_bits(ws, off, n, swap)


class Prim:
    def __init__(self, cpp, size):
        self.cpp, self.sz, self.align = cpp, size, size

    def inst(self, g, place=None):
        i = g.id()
        return Inst(self.cpp, "zx::src<%s>(%d)" % (self.cpp, i), lambda x: ["zx::sink(%d, %s);" % (i, x)],
                    lambda: [Fixed(Id(i), self.sz, g.swap and self.sz > 1, self.cpp == "bool")])

    def mem_items(self, g, cid, base):
        """items for a value living in model storage at byte offset base (Lin)"""
        return [Fixed(Mem(cid, base), self.sz, g.swap and self.sz > 1, self.cpp == "bool")]

    def ins_items(self, g, leaf):
        return [Fixed(Ins(leaf), self.sz, g.swap and self.sz > 1)], [leaf]

    def bytes_ok(self, g):
        return not g.swap or self.sz == 1


U8, U16, U32, U64 = Prim("u8", 1), Prim("u16", 2), Prim("u32", 4), Prim("u64", 8)
I8, I16, I32, I64 = Prim("std::int8_t", 1), Prim("std::int16_t", 2), Prim("std::int32_t", 4), Prim("std::int64_t", 8)
CH, BYTE, BOOL, F32, F64 = Prim("char", 1), Prim("std::byte", 1), Prim("bool", 1), Prim("float", 4), Prim("double", 8)
WCH, C8, C16, C32 = Prim("wchar_t", 4), Prim("char8_t", 1), Prim("char16_t", 2), Prim("char32_t", 4)
UCH, SCH, SHORT, LONG, ULL = Prim("unsigned char", 1), Prim("signed char", 1), Prim("short", 2), Prim("long", 8), Prim("unsigned long long", 8)


class Enum(Prim):
    def __init__(self, name, under):
        Prim.__init__(self, name, under.sz)
        self.under = under

    def inst(self, g, place=None):
        g.declare("enum class %s : %s {};" % (self.cpp, self.under.cpp))
        return Prim.inst(self, g)

    def mem_items(self, g, cid, base):
        g.declare("enum class %s : %s {};" % (self.cpp, self.under.cpp))
        return Prim.mem_items(self, g, cid, base)


class Struct:
    """aggregate; explicit=True: with a user-provided serialize function archiving each member"""
    def __init__(self, name, members, how="aggregate", extra=""):
        self.cpp, self.members, self.how, self.extra = name, members, how, extra

    def declare(self, g, cpps=None):
        n = len(self.members)
        ms = ["m%d" % i for i in range(n)]
        cpps = cpps or [t.cpp for t in self.members]
        for t in self.members:
            if isinstance(t, Struct) and t.plain():
                t.declare(g)
            elif isinstance(t, Enum):
                g.declare("enum class %s : %s {};" % (t.cpp, t.under.cpp))
        body = " ".join("%s %s;" % (c, m) for c, m in zip(cpps, ms))
        if self.how == "explicit":
            body += " static auto serialize(auto & archive, auto & self) { return archive(%s); }" % ", ".join("self." + m for m in ms)
        elif self.how == "members":
            body += " using serialize = zb::members<%d>;" % n
        elif self.how == "friend":
            body += " friend zb::access; using serialize = zb::members<%d>;" % n
        g.declare("struct %s { %s %s };" % (self.cpp, body, self.extra))

    def plain(self):
        return all(hasattr(t, "cpp") and not isinstance(t, (Vec, Assoc)) for t in self.members)

    def layout(self):
        off, al, offs = 0, 1, []
        for t in self.members:
            s, a = sizeof(t)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += s
            al = max(al, a)
        return offs, (off + al - 1) // al * al, al

    def inst(self, g):
        insts = [t.inst(g) for t in self.members]
        self.declare(g, [i.cpp for i in insts])
        return Inst(self.cpp, "%s{%s}" % (self.cpp, ", ".join(i.expr for i in insts)),
                    lambda x: [s for k, i in enumerate(insts) for s in i.sinks("%s.m%d" % (x, k))],
                    lambda: [Group([it for i in insts for it in i.items()])])

    def mem_items(self, g, cid, base):
        self.declare(g)
        offs, _, _ = self.layout()
        return [Group([it for t, o in zip(self.members, offs) for it in t.mem_items(g, cid, base + o)])]


def sizeof(t):
    if isinstance(t, Struct):
        _, s, a = t.layout()
        return s, a
    if isinstance(t, Arr):
        s, a = sizeof(t.elem)
        return s * t.n, a
    if isinstance(t, ProbeT):
        return 4, 4
    if isinstance(t, Tup):
        raise Unsupported("layout")
    return t.sz, t.align


class Arr:
    def __init__(self, elem, n, how="std"):
        self.elem, self.n, self.how = elem, n, how
        if hasattr(elem, "cpp"):
            self.cpp = "std::array<%s, %d>" % (elem.cpp, n)

    def inst(self, g):
        insts = [self.elem.inst(g) for _ in range(self.n)]
        cpp = "std::array<%s, %d>" % (insts[0].cpp, self.n)
        if self.how == "c":
            nm = "carr_%s_%d" % (mangle(self.elem.cpp), self.n)
            g.declare("using %s = %s[%d];" % (nm, self.elem.cpp, self.n))
            return Inst(nm, "{%s}" % ", ".join(i.expr for i in insts),
                        lambda x: [s for k, i in enumerate(insts) for s in i.sinks("%s[%d]" % (x, k))],
                        lambda: [Group([it for i in insts for it in i.items()])])
        return Inst(cpp, "%s{%s}" % (cpp, ", ".join(i.expr for i in insts)),
                    lambda x: [s for k, i in enumerate(insts) for s in i.sinks("%s[%d]" % (x, k))],
                    lambda: [Group([it for i in insts for it in i.items()])])

    def mem_items(self, g, cid, base):
        es, _ = sizeof(self.elem)
        return [Group([it for k in range(self.n) for it in self.elem.mem_items(g, cid, base + es * k)])]


def mangle(s):
    return "".join(c if c.isalnum() else "_" for c in s)


class Tup:
    def __init__(self, elems, kind="tuple"):
        self.elems, self.kind = elems, kind

    def inst(self, g):
        insts = [t.inst(g) for t in self.elems]
        cpp = "std::%s<%s>" % (self.kind, ", ".join(i.cpp for i in insts))
        return Inst(cpp, "%s{%s}" % (cpp, ", ".join(i.expr for i in insts)),
                    lambda x: [s for k, i in enumerate(insts) for s in i.sinks("std::get<%d>(%s)" % (k, x))],
                    lambda: [it for i in insts for it in i.items()])


class Bits:
    def __init__(self, n):
        self.n = n
        self.cpp = "std::bitset<%d>" % n

    def inst(self, g):
        n = self.n
        words = []
        k = n
        ids = []
        while k > 0:
            ids.append((g.id(), min(64, k)))
            g.partial[ids[-1][0]] = min(64, k)
            k -= 64
        nm = "mkbits%d" % n
        body = "std::bitset<%d> b; " % n
        args = ["u64 w%d" % i for i in range(len(ids))]
        parts = []
        for i, (_, w) in enumerate(ids):
            parts.append("(std::bitset<%d>(w%d & %dull) << %d)" % (n, i, (1 << w) - 1, 64 * i))
        g.declare("inline std::bitset<%d> %s(%s) { return %s; }" % (n, nm, ", ".join(args), " | ".join(parts)))
        init = "%s(%s)" % (nm, ", ".join("zx::src<u64>(%d)" % i for i, _ in ids))

        def sinks(x):
            r = []
            for i, (d, w) in enumerate(ids):
                r.append("zx::sink<u64>(%d, ((%s >> %d) & std::bitset<%d>(~0ull)).to_ullong());" % (d, x, 64 * i, n))
            return r
        return Inst(self.cpp, init, sinks, lambda: [BitsItem(ids, n)])


class BitsItem:
    def __init__(self, ids, n):
        self.ids, self.n = ids, n

    def size(self):
        return (self.n + 7) // 8

    def step(self, w, ws):
        nb = (self.n + 7) // 8
        for o in w.need(ws, nb):
            if o[0] == "ok":
                ws2 = o[1]
                if w.check:
                    wire = w.wire_bits(ws2, ws2.cur, nb, False)
                    for k, (d, wd) in enumerate(self.ids):
                        val = Id(d).read(w, ws2, 8)
                        if val is None:
                            raise Problem("content", "bitset value missing")
                        for j in range(wd):
                            if not same_bits(ws2, (wire[64 * k + j],), (val[j],)):
                                raise Problem("content", "bit %d of the bitset is %s, the wire bit is %s" % (64 * k + j, show_bits((val[j],)), show_bits((wire[64 * k + j],))))
                        if w.mode == "r":
                            for j in range(wd, 64):
                                if val[j] != B0:
                                    raise Problem("content", "bitset value beyond its size")
                    if w.mode == "w":
                        for j in range(self.n, 8 * nb):
                            if not same_bits(ws2, (wire[j],), (B0,)):
                                raise Problem("content", "unused bit %d of the bitset's last byte is %s, not zero" % (j, show_bits((wire[j],))))
                ws2.cur = ws2.cur + nb
            yield o


class VInt:
    def __init__(self, under, zz=False, alias=None):
        self.under, self.zz = under, zz
        self.cpp = alias or ("zb::varint<%s%s>" % (under.cpp, ", zb::varint_encoding::zig_zag" if zz else ""))
        self.sz, self.align = under.sz, under.align

    def inst(self, g):
        if isinstance(self.under, Enum):
            g.declare("enum class %s : %s {};" % (self.under.cpp, self.under.under.cpp))
        i = g.id()
        return Inst(self.cpp, "%s{zx::src<%s>(%d)}" % (self.cpp, self.under.cpp, i), lambda x: ["zx::sink(%d, %s.value);" % (i, x)],
                    lambda: [VarInt(Id(i), self.under.sz * 8, self.zz)])

    def mem_items(self, g, cid, base):
        if isinstance(self.under, Enum):
            g.declare("enum class %s : %s {};" % (self.under.cpp, self.under.under.cpp))
        return [VarInt(Mem(cid, base), self.under.sz * 8, self.zz)]

    def ins_items(self, g, leaf):
        return [VarInt(Ins(leaf), self.under.sz * 8, self.zz)], [leaf]


class ProbeT:
    def __init__(self, kind):
        self.kind = kind
        self.cpp = "zx::probe<%d>" % kind

    def inst(self, g):
        i = g.id()
        return Inst(self.cpp, "%s{zx::src<u32>(%d)}" % (self.cpp, i), lambda x: [], lambda: [Probe(self.kind)])

    def mem_items(self, g, cid, base):
        return [Probe(self.kind, Mem(cid, base))]

    def ins_items(self, g, leaf):
        return [Probe(self.kind)], []


class Opt:
    """std::optional (how=optional), std::unique_ptr never null (unique), zpp optional_ptr (optptr)"""
    def __init__(self, inner, how="optional"):
        self.inner, self.how = inner, how

    def inst(self, g):
        fid = g.id()
        inner = self.inner.inst(g)
        cpp = {"optional": "std::optional<%s>", "optptr": "zb::optional_ptr<%s>"}[self.how] % inner.cpp
        mk = "zx_mk_%d" % fid
        if self.how == "optional":
            init = "[&]() -> %s { if (zsrc_u1(%d)) { return %s; } return std::nullopt; }()" % (cpp, fid, inner.expr)
        else:
            init = "[&]() -> %s { if (zsrc_u1(%d)) { return %s(new %s{%s}); } return {}; }()" % (cpp, fid, cpp, inner.cpp, inner.expr)

        def sinks(x):
            return ["zx::sink<u8>(%d, bool(%s)); if (%s) { %s }" % (fid, x, x, " ".join(inner.sinks("(*%s)" % x)))]

        def items():
            def absent(w, ws):
                if w.mode == "w":
                    a = TABLE.get(("src", fid), 1)
                    return feq(Lin({a: 1}, 0))
                b = w.wire_byte(ws, ws.cur - 1)
                return feq(iv_from_bits(8, tuple(b)).lin)
            flagbit = FlagByte(fid)
            return [flagbit, Branch([(absent, [FlagIs(fid, 0)])], [FlagIs(fid, 1)] + inner.items())]
        return Inst(cpp, init, sinks, items)


class FlagByte:
    """presence byte: 0/1 written, any non-zero byte read means present"""
    def __init__(self, fid):
        self.fid = fid

    def size(self):
        return 1

    def step(self, w, ws):
        for o in w.need(ws, 1):
            if o[0] == "ok":
                o[1].cur = o[1].cur + 1
            yield o


class FlagIs:
    def __init__(self, fid, v):
        self.fid, self.v = fid, v

    def size(self):
        return 0

    def step(self, w, ws):
        if w.check:
            want = const_bits(self.v, 8)
            if w.mode == "w":
                got = w.wire_byte(ws, ws.cur - 1)
                if not same_bits(ws, got, want):
                    raise Problem("content", "presence byte at position %r is %s, expected %d" % (ws.cur - 1, show_bits(got), self.v))
            else:
                got = Id(self.fid).read(w, ws, 1)
                if got is None or not same_bits(ws, got, want):
                    raise Problem("content", "the value is reported %s, the input byte says %s" % (show_bits(got) if got else None, "present" if self.v else "absent"))
        yield ("ok", ws)


class UPtr:
    """std::unique_ptr: written as its target, null rejected with invalid_argument"""
    def __init__(self, inner, shared=False):
        self.inner = inner

    def inst(self, g):
        fid = g.id()
        inner = self.inner.inst(g)
        cpp = "std::unique_ptr<%s>" % inner.cpp
        init = "[&]() -> %s { if (zsrc_u1(%d)) { return %s(new %s{%s}); } return {}; }()" % (cpp, fid, cpp, inner.cpp, inner.expr)

        def sinks(x):
            return ["zx::sink<u8>(%d, bool(%s)); if (%s) { %s }" % (fid, x, x, " ".join(inner.sinks("(*%s)" % x)))]

        def items():
            if g.mode == "w":
                def null(w, ws):
                    return feq(Lin({TABLE.get(("src", fid), 1): 1}, 0))
                return [Branch([(null, [Fail(EINVAL, "null pointer")])], inner.items())]
            return inner.items() + [FlagIs(fid, 1)]
        return Inst(cpp, init, sinks, items)


class Var:
    """std::variant; ids: list of id bytes objects (default one byte = index)"""
    def __init__(self, alts, ids=None, decl=None):
        self.alts, self.ids, self.decl = alts, ids, decl

    def inst(self, g):
        fid = g.id()
        insts = [a.inst(g) for a in self.alts]
        cpp = "std::variant<%s>" % ", ".join(i.cpp for i in insts)
        self.last_insts = insts
        n = len(insts)
        sw = " ".join("case %d: return %s{std::in_place_index<%d>, %s};" % (k, cpp, k, i.expr) for k, i in enumerate(insts))
        init = "[&]() -> %s { switch (zsrc_u8(%d)) { default: %s } }()" % (cpp, fid, sw)

        def sinks(x):
            r = ["zx::sink<u64>(%d, %s.index());" % (fid, x)] if g.mode == "r" else []
            for k, i in enumerate(insts):
                r.append("if (%s.index() == %d) { %s }" % (x, k, " ".join(i.sinks("(*std::get_if<%d>(&%s))" % (k, x)))))
            return r
        ids = self.ids or [bytes([k]) for k in range(n)]

        def items():
            L = len(ids[0])

            def is_alt(k):
                def f(w, ws):
                    if w.mode == "w":
                        a = TABLE.get(("src", fid), 8)
                        l = Lin({a: 1}, 0)
                        if k == 0:
                            # default: label precedes case 0
                            from .absint import for_
                            return for_(feq(l), fge(l - n))
                        return feq(l - k)
                    sw_ = g.swap and L in (1, 2, 4, 8)
                    bits = w.wire_bits(ws, ws.cur, L, sw_)
                    return feq(iv_from_bits(8 * L, bits).lin - int.from_bytes(ids[k], "little"))
                return f
            out = []
            if g.mode == "w":
                cases = [(is_alt(k), [Tag(ids[k] if not g.swap or L not in (1, 2, 4, 8) else ids[k][::-1])] + insts[k].items()) for k in range(n)]
                return [Branch(cases, [Do(lambda w, ws: (_ for _ in ()).throw(Problem("content", "no alternative")))])]
            cases = [(is_alt(k), [Skip(L), AltIs(fid, k)] + insts[k].items()) for k in range(n)]
            if L not in (1, 2, 4, 8):
                return [NeedOnly(L), ByteSwitch([(ids[k], cases[k][1]) for k in range(n)], [Fail(EBADMSG, "unknown alternative id")])]
            return [NeedOnly(L), Branch(cases, [Fail(EBADMSG, "unknown alternative id")])]
        return Inst(cpp, init, sinks, items)


class ByteSwitch:
    """alternatives selected by a byte string at the cursor, decided byte by byte"""
    def __init__(self, cases, default):
        self.cases, self.default = cases, default

    def size(self):
        return None

    def step(self, w, ws):
        rest = [ws]
        for data, items in self.cases:
            nrest = []
            for cur in rest:
                for i, b in enumerate(data):
                    l = iv_from_bits(8, tuple(w.wire_byte(cur, cur.cur + i))).lin
                    cur, f = split(cur, feq(l - b))
                    if f is not None:
                        nrest.append(f)
                    if cur is None:
                        break
                if cur is not None:
                    yield from w.seq(items, cur)
            rest = nrest
        for r in rest:
            yield from w.seq(self.default, r)


class NeedOnly:
    def __init__(self, n):
        self.n = n

    def size(self):
        return 0

    def step(self, w, ws):
        yield from w.need(ws, self.n)


class Skip:
    def __init__(self, n):
        self.n = n

    def size(self):
        return self.n

    def step(self, w, ws):
        ws.cur = ws.cur + self.n
        yield ("ok", ws)


class AltIs:
    def __init__(self, fid, k):
        self.fid, self.k = fid, k

    def size(self):
        return 0

    def step(self, w, ws):
        if w.check:
            got = Id(self.fid).read(w, ws, 8)
            if got is None or not same_bits(ws, got, const_bits(self.k, 64)):
                raise Problem("content", "the variant holds alternative %s, the input id selects alternative %d" % (show_bits(got) if got else None, self.k))
        yield ("ok", ws)


# ---- containers -------------------------------------------------------------
SIZE_BYTES = {"u8": 1, "u16": 2, "u32": 4, "u64": 8}


def size_items(g, cid, esz, cfg, st=None):
    """length prefix of the archive's size type; leaves the count in vals[('len', cid)]"""
    t = st if st is not None else cfg.get("size", "u32")
    if t == "none":
        return []
    return [LenItem(cid, esz, t, g.swap)]


class LenItem:
    def __init__(self, cid, esz, t, swap, writer_count=None):
        self.cid, self.esz, self.t, self.swap = cid, esz, t, swap
        self.writer_count = writer_count

    def size(self):
        return None

    def count_atom(self, w, ws):
        o = w.e.mcache.get("m%d" % self.cid)
        if o is None:
            raise Unsupported("container c%d is never asked for its size" % self.cid)
        return o.meta["count"]

    def step(self, w, ws):
        if w.mode == "w":
            cnt = self.count_atom(w, ws)
            bits = tuple(w.e.bits(ws.st, IV(64, cnt)))
            if self.t == "varint":
                vi = VarInt(NamedBits(bits, "element count"), 64)
                yield from vi.write_value(w, ws, IV(64, cnt))
                return
            n = SIZE_BYTES[self.t]
            it = Fixed(NamedBits(bits[:8 * n], "element count"), n, self.swap and n > 1)
            yield from it.step(w, ws)
            return
        if self.t == "varint":
            for o in VarInt(NoCheck(), 64).decode(w, ws):
                if o[0] == "ok":
                    o[1].vals[("len", self.cid)] = iv_from_bits(64, o[2]).lin
                    link_prefix(o[1].st, o[1].vals[("len", self.cid)])
                    link_bits(o[1], o[1].vals[("len", self.cid)], o[2])
                    yield ("ok", o[1])
                else:
                    yield o
            return
        n = SIZE_BYTES[self.t]
        for o in w.need(ws, n):
            if o[0] == "ok":
                ws2 = o[1]
                bits = w.wire_bits(ws2, ws2.cur, n, self.swap and n > 1)
                ws2.vals[("len", self.cid)] = iv_from_bits(8 * n, bits).lin
                link_bits(ws2, ws2.vals[("len", self.cid)], bits)
                ws2.cur = ws2.cur + n
            yield o


class NamedBits:
    def __init__(self, bits, nm):
        self.b, self.nm = bits, nm

    def read(self, w, ws, nbytes):
        return (tuple(self.b) + (B0,) * (8 * nbytes - len(self.b)))[:8 * nbytes]

    def name(self):
        return self.nm


def vlen(cid):
    return lambda w, ws: ws.vals[("len", cid)]


def wcount(cid):
    return lambda w, ws: w.e.mcache["m%d" % cid].meta["count"]


class Vec:
    """resizable container model of elements; kind mvec|mlist; size: override of the size type"""
    def __init__(self, elem, kind="mvec", size=None, wrap=None):
        self.elem, self.kind, self.size_, self.wrap = elem, kind, size, wrap

    def inst(self, g):
        cid = g.cid()
        e = self.elem
        if hasattr(e, "declare"):
            e.declare(g)
        elif isinstance(e, Enum):
            g.declare("enum class %s : %s {};" % (e.cpp, e.under.cpp))
        esz, _ = sizeof(e)
        cpp = "zx::%s<%s, %d>" % (self.kind, e.cpp, cid)
        st = self.size_ if self.size_ is not None else g.cfg.get("size", "u32")
        if self.wrap:
            cpp = self.wrap % cpp
        limit = g.cfg.get("limit") if g.mode == "r" else None

        def items():
            out = []
            if st != "none":
                out.append(LenItem(cid, esz, st, g.swap))
                if g.mode == "r":
                    out.append(MResize(cid, vlen(cid), esz, limit))
            cnt = wcount(cid) if (g.mode == "w" or st == "none") else vlen(cid)
            if g.cfg.get("touch_size"):
                pass
            out.append(ElemBlock(cid, cnt, esz, e, g))
            return out
        return Inst(cpp, "{}", lambda x: [], items)


class ElemBlock:
    """elements: one verbatim block or element after element (same wire bytes)"""
    def __init__(self, cid, cnt, esz, elem, g):
        self.cid, self.cnt, self.esz, self.elem, self.g = cid, cnt, esz, elem, g
        packed = isinstance(elem, Prim) or isinstance(elem, Arr) and packed_elem(elem) or isinstance(elem, Struct) and elem.how != "explicit" and packed_layout(elem)
        self.block = packed and all_bytes(elem, g)

    def size(self):
        return None

    def step(self, w, ws):
        if ("m%d" % self.cid) not in w.e.mcache:
            raise Unsupported("container c%d is never accessed" % self.cid)
        if self.block:
            first = None
            nx = ws.peek()
            if nx is not None and nx.kind == "loop":
                try:
                    yield from list(Rep(self.cnt, lambda k: self.elem.mem_items(self.g, self.cid, k.scale(self.esz)), "elements of c%d" % self.cid).step(w, ws.fork()))
                    return
                except Problem as p:
                    first = p
            try:
                outs = list(Bulk(self.cid, self.cnt, self.esz).step(w, ws))
            except Problem as p:
                raise first or p
            yield from outs
        else:
            yield from Rep(self.cnt, lambda k: self.elem.mem_items(self.g, self.cid, k.scale(self.esz)), "elements of c%d" % self.cid).step(w, ws)


def packed_elem(t):
    if isinstance(t, Arr):
        return packed_elem(t.elem)
    return isinstance(t, Prim) or isinstance(t, Struct) and packed_layout(t)


def packed_layout(s):
    offs, tot, _ = s.layout()
    return tot == sum(sizeof(t)[0] for t in s.members) and all(packed_elem(t) for t in s.members)


def all_bytes(e, g):
    if isinstance(e, Prim):
        return not g.swap or e.sz == 1
    if isinstance(e, Arr):
        return all_bytes(e.elem, g)
    if isinstance(e, Struct):
        return e.how == "aggregate" and all(all_bytes(t, g) for t in e.members)
    return False


class Assoc:
    def __init__(self, key, val=None, size=None):
        self.key, self.val, self.size_ = key, val, size

    def inst(self, g):
        cid = g.cid()
        leaf = g.id()
        leaf2 = g.id()
        st = self.size_ if self.size_ is not None else g.cfg.get("size", "u32")
        for t in (self.key, self.val):
            if hasattr(t, "declare"):
                t.declare(g)
        if self.val is None:
            cpp = "zx::mset<%s, %d, %d>" % (self.key.cpp, cid, leaf)
            esz = sizeof(self.key)[0]
        else:
            cpp = "zx::mmap<%s, %s, %d, %d>" % (self.key.cpp, self.val.cpp, cid, leaf)
            offs, esz, _ = Struct("x", [self.key, self.val]).layout()

        def items():
            out = [LenItem(cid, esz, st, g.swap)]
            if g.mode == "w":
                def mk(k):
                    base = k.scale(esz)
                    r = list(self.key.mem_items(g, cid, base))
                    if self.val is not None:
                        r += self.val.mem_items(g, cid, base + offs[1])
                    return r
                out.append(Rep(wcount(cid), mk, "entries"))
            else:
                def mk(k):
                    a, l1 = self.key.ins_items(g, leaf)
                    l2 = []
                    b = []
                    if self.val is not None:
                        b, l2 = self.val.ins_items(g, leaf2)
                    return a + b + [Inserted(cid, l1 + l2)]
                out.append(Expect("mclear", id=cid))
                out.append(Rep(vlen(cid), mk, "entries"))
            return out
        return Inst(cpp, "{}", lambda x: [], items)
