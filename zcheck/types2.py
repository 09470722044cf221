"""further type shapes: views, size wrappers, byte wrappers, tracked objects, identified variants"""
from .types_ import *
from .spec import *
from .absint import PV, IV, feq, fge, fne, const, TABLE, B0, iv_from_bits
from .lin import Lin


def is_buf(p, w):
    return isinstance(p, PV) and p.obj is not None and p.obj is w.buf


class ViewIs:
    """the view handed back starts at the cursor and has the given length"""
    def __init__(self, vid, length, advance=True):
        self.vid, self.length, self.advance = vid, length, advance

    def size(self):
        return None

    def step(self, w, ws):
        L = self.length(w, ws) if callable(self.length) else self.length
        L = L if isinstance(L, Lin) else const(L)
        for o in w.need(ws, L):
            if o[0] == "ok":
                t = o[1]
                if w.check:
                    ev = [e for e in t.evs if e.kind == "view" and e.id == self.vid]
                    if not ev:
                        raise Problem("content", "the view is not produced on a success exit")
                    e = ev[-1]
                    if not t.st.sys.entails_eq(e.len - L):
                        raise Problem("view", "the resulting view has %r bytes, the encoding announces %r" % (e.len, L))
                    if not is_buf(e.ptr, w):
                        # an empty view may point anywhere inside; a non-empty one must refer to the input
                        x, _ = split(t.fork(), fge(L - 1))
                        if x is not None:
                            raise Problem("view", "the resulting view points at %r, not at the input" % (e.ptr,))
                    elif not t.st.sys.entails_eq(e.ptr.off - t.cur):
                        raise Problem("view", "the resulting view starts at input position %r, expected %r" % (e.ptr.off, t.cur))
                t.cur = t.cur + L
            yield o


class View:
    """constant view over bytes; kind sv|std::byte|char|unsigned char; extent: static size"""
    def __init__(self, kind="sv", extent=None, size=None, wrap=None):
        self.kind, self.extent, self.size_, self.wrap = kind, extent, size, wrap

    def inst(self, g):
        vid = g.id()
        t = "char" if self.kind == "sv" else self.kind
        base = "std::string_view" if self.kind == "sv" else "std::span<const %s%s>" % (t, ", %d" % self.extent if self.extent else "")
        st = self.size_ if self.size_ is not None else g.cfg.get("size", "u32")
        cpp = self.wrap % base if self.wrap else base
        sinks = lambda x: ["zsink_ptr(%d, %s.data(), %s.size());" % (vid, x, x)]
        if self.extent:
            ids = [g.id() for _ in range(self.extent)]
            nm = "arr%d" % vid
            g.pre.append("static_assert(sizeof(%s) == 1); std::array<%s, %d> %s{%s};" % (t, t, self.extent, nm, ", ".join("zx::src<%s>(%d)" % (t, i) for i in ids)))
            if g.mode == "w":
                return Inst(cpp, nm, lambda x: [], lambda: [Group([Fixed(Id(i), 1) for i in ids])])
            return Inst(cpp, nm, sinks, lambda: [ViewIs(vid, self.extent)])
        if g.mode == "w":
            cid = g.cid()
            init = "{static_cast<const %s *>(zm_data(%d, 1)), zm_size(%d, 1)}" % (t, cid, cid)

            def items():
                out = [] if st == "none" else [LenItem(cid, 1, st, g.swap)]
                return out + [Bulk(cid, wcount(cid), 1)]
            return Inst(cpp, init, lambda x: [], items)

        def items():
            if st == "none":
                return [ViewIs(vid, lambda w, ws: ws.size - ws.cur)]
            return [LenItem(vid + 1000, 1, st, g.swap), ViewIs(vid, vlen(vid + 1000))]
        return Inst(cpp, "{}", sinks, items)


class SpanLen:
    """a mutable view is shortened to the announced element count, never extended"""
    def __init__(self, cid, vid, n, esz):
        self.cid, self.vid, self.n, self.esz = cid, vid, n, esz

    def size(self):
        return 0

    def step(self, w, ws):
        n = self.n(w, ws)
        cnt = w.e.mcache["m%d" % self.cid].meta["count"]
        t, f = split(ws, fge(cnt - n))
        if f is not None:
            yield ("stop", f, ERANGE, "%r elements announced for a view of %r" % (n, cnt))
        if t is None:
            return
        if w.check:
            ev = [e for e in t.evs if e.kind == "view" and e.id == self.vid]
            if not ev:
                raise Problem("content", "the view is not produced on a success exit")
            e = ev[-1]
            o = w.e.mcache["m%d" % self.cid]
            if not weq(w, t, e.len, n):
                raise Problem("view", "the resulting view has %r elements, the encoding announces %r" % (e.len, n))
            if not (isinstance(e.ptr, PV) and e.ptr.obj is o and t.st.sys.entails_eq(e.ptr.off)):
                raise Problem("view", "the view no longer refers to its own storage but to %r" % (e.ptr,))
        yield ("ok", t)


class MutSpan:
    """mutable view over elements held elsewhere"""
    def __init__(self, elem, extent=None, size=None, const_=False):
        self.elem, self.extent, self.size_, self.const_ = elem, extent, size, const_

    def inst(self, g):
        e = self.elem
        esz, _ = sizeof(e)
        c = "const " if self.const_ else ""
        if hasattr(e, "declare"):
            e.declare(g)
        st = self.size_ if self.size_ is not None else g.cfg.get("size", "u32")
        if self.extent:
            insts = [e.inst(g) for _ in range(self.extent)]
            nm = "sarr%d" % g.id()
            g.pre.append("std::array<%s, %d> %s{%s};" % (e.cpp, self.extent, nm, ", ".join(i.init for i in insts)))
            return Inst("std::span<%s%s, %d>" % (c, e.cpp, self.extent), nm,
                        lambda x: [s for k, i in enumerate(insts) for s in i.sinks("%s[%d]" % (x, k))],
                        lambda: [Group([it for i in insts for it in i.items()])])
        cid, vid = g.cid(), g.id()
        cpp = "std::span<%s%s>" % (c, e.cpp)
        init = "{static_cast<%s%s *>(zm_data(%d, %d)), zm_size(%d, %d)}" % (c, e.cpp, cid, esz, cid, esz)

        def items():
            out = [] if st == "none" else [LenItem(cid, esz, st, g.swap)]
            if g.mode == "w" or st == "none":
                return out + [ElemBlock(cid, wcount(cid), esz, e, g)]
            return out + [SpanLen(cid, vid, vlen(cid), esz), ElemBlock(cid, vlen(cid), esz, e, g)]
        return Inst(cpp, init, lambda x: ["zsink_ptr(%d, %s.data(), %s.size());" % (vid, x, x)], items)


class BytesOf:
    """zpp::bits::bytes(container): the existing elements verbatim, whatever the byte order; pass with call"""
    def __init__(self, elem):
        self.elem = elem

    def inst(self, g):
        cid = g.cid()
        e = self.elem
        if hasattr(e, "declare"):
            e.declare(g)
        esz, _ = sizeof(e)
        return Inst("zx::mvec<%s, %d>" % (e.cpp, cid), "{}", lambda x: [], lambda: [Bulk(cid, wcount(cid), esz)])


class AsBytes:
    """as_bytes(object): its memory verbatim"""
    def __init__(self, inner):
        self.inner = inner

    def inst(self, g):
        sw = g.cfg.get("swap")
        i = self.inner.inst(g)

        def items():
            g.cfg["swap"] = False
            try:
                return i.items()
            finally:
                g.cfg["swap"] = sw
        return Inst(i.cpp, i.init, i.sinks, items)


class Raw:
    """a scalar inside a tracked object"""


class Trk:
    """class with tracked construction/destruction; default constructor private unless pub"""
    def __init__(self, name, pub=False, probe=None, member=None):
        self.cpp, self.pub, self.probe = name, pub, probe
        self.member = member or U32

    def declare(self, g):
        n = self.cpp
        m = "zx::probe<%d>" % self.probe if self.probe else self.member.cpp
        dflt = "%s() noexcept { zctor(1, this); }" % n
        g.declare("struct %s { %s v; friend zb::access; friend struct zb::access; private: %s public: %s"
                  " explicit %s(%s x) noexcept : v(x) { zctor(2, this); }"
                  " %s(const %s & o) noexcept : v(o.v) { zctor(3, this); } %s(%s && o) noexcept : v(o.v) { zctor(4, this); }"
                  " %s & operator=(const %s & o) noexcept { v = o.v; zctor(9, this); return *this; } %s & operator=(%s && o) noexcept { v = o.v; zctor(9, this); return *this; }"
                  " ~%s() noexcept { zdtor(1, this); }"
                  " bool operator<(const %s & o) const noexcept { return false; }"
                  " static auto serialize(auto & archive, auto & self) { return archive(self.v); } };" % (
                      n, m, "" if self.pub else dflt, dflt if self.pub else "", n, m, n, n, n, n, n, n, n, n, n, n))

    def inst(self, g):
        self.declare(g)
        if self.probe:
            g.id()
            return Inst(self.cpp, "%s(zx::probe<%d>{zx::src<u32>(%d)})" % (self.cpp, self.probe, g.n), lambda x: [], lambda: [Probe(self.probe)])
        i = self.member.inst(g)
        return Inst(self.cpp, "%s(%s)" % (self.cpp, i.init), lambda x: i.sinks(x + ".v"), i.items)

    def ins_items(self, g, leaf):
        self.declare(g)
        if self.probe:
            return [Probe(self.probe)], []
        return [Fixed(Ins(leaf), self.member.sz, g.swap and self.member.sz > 1)], [leaf]

    def mem_items(self, g, cid, base):
        if self.probe:
            return [Probe(self.probe, Mem(cid, base))]
        return self.member.mem_items(g, cid, base)

    @property
    def sz(self):
        return 4 if self.probe else self.member.sz
    align = sz


def lifetimes(evs):
    """typestate of tracked objects along one path: list of (text, loc); tracked constructions and destructions pair up"""
    out = []

    def key(p):
        if isinstance(p, PV) and p.obj is not None:
            return (p.obj, p.off)
        return ("?", repr(p))

    def walk(evs, live):
        for e in evs:
            if e.kind == "zctor" or e.kind == "ctor":
                k = key(e.ptr)
                if e.id == 9:
                    if k not in live:
                        out.append(("an object is assigned before it is constructed or after it is destroyed (%s)" % (k[0],), e.loc))
                    continue
                if k in live:
                    out.append(("an object is constructed over a live object (%s)" % (k[0],), e.loc))
                live[k] = e
            elif e.kind == "zdtor" or e.kind == "dtor":
                k = key(e.ptr)
                if k not in live:
                    out.append(("an object that is not alive is destroyed (%s)" % (k[0],), e.loc))
                live.pop(k, None)
            elif e.kind == "loop":
                for alt in e.alts:
                    l2 = dict(live)
                    walk(alt[0], l2)
                    if set(l2) != set(live):
                        extra = [l2[k] for k in l2 if k not in live]
                        out.append(("an iteration leaves an object alive or destroys an outer one", extra[0].loc if extra else e.loc))
            elif e.kind == "delete":
                for k in list(live):
                    if k[0] is e.obj:
                        out.append(("memory is released while the object in it is alive", e.loc))
                        live.pop(k)
        return live
    live = walk(evs, {})
    for k, e in live.items():
        out.append(("an object is never destroyed (%s)" % (k[0],), e.loc))
    return out


class KnownVar:
    """known_id<Id>(variant) (dynamic: known_id(id, variant)): only the alternative, no identifier"""
    def __init__(self, var, k, dynamic_id=None):
        self.var, self.k, self.dyn = var, k, dynamic_id

    def inst(self, g):
        fid = g.n + 1
        i = self.var.inst(g)
        insts = self.var.last_insts
        n = len(insts)

        def items():
            if g.mode == "w":
                if self.dyn:
                    raise Unsupported("known dynamic id write")

                def is_k(w, ws):
                    l = Lin({TABLE.get(("src", fid), 8): 1}, 0)
                    if self.k == 0:
                        from .absint import for_
                        return for_(feq(l), fge(l - n))
                    return feq(l - self.k)
                return [Branch([(is_k, insts[self.k].items())], [Fail(EINVAL, "the variant holds another alternative")])]
            if self.dyn:
                def is_alt(k):
                    def f(w, ws):
                        d = TABLE.get(("src", 900), 8 * len(self.var.ids[0]) if self.var.ids else 8)
                        want = int.from_bytes(self.var.ids[k], "little") if self.var.ids else k
                        return feq(Lin({d: 1}, 0) - want)
                    return f
                return [Branch([(is_alt(k), [AltIs(fid, k)] + insts[k].items()) for k in range(n)], [Fail(EBADMSG, "unknown alternative id")])]
            return [AltIs(fid, self.k)] + insts[self.k].items()
        return Inst(i.cpp, i.init, i.sinks, items)


class VarBig(Var):
    """variant whose identifiers are byte arrays or integers of 2, 4, 8 bytes"""
