"""the enumerated instances: type shapes x archive configurations"""
from .types_ import *
from .types2 import *
from .harness import H


def flags(h):
    return tuple(("-D" + d) if not d.startswith("-") else d for d in h.defines)


HEAVY = {"vecs_varint_g", "mmapv_g"}


def kids(s):
    for a in ("members", "elems", "alts"):
        for x in getattr(s, a, ()) or ():
            yield x
    for a in ("elem", "inner", "key", "val"):
        x = getattr(s, a, None)
        if x is not None:
            yield x


def view_byte(s):
    """a view refers to the input bytes themselves, so the archive must be over the view's own byte type"""
    for x in s if isinstance(s, list) else [s]:
        if isinstance(x, View):
            return "char" if x.kind == "sv" else x.kind
        for k in kids(x):
            r = view_byte(k)
            if r:
                return r
    return None


def features(h):
    f = set(h.tags)

    def rec(s):
        f.add(type(s).__name__)
        for x in kids(s):
            rec(x)
    for s in h.shapes:
        rec(s)
    c = h.cfg
    f.add(h.mode)
    if h.mode == "w":
        f.add("grow" if c.get("grow") else "fixed")
    for k in ("swap", "limit", "enlarger", "no_fit", "no_overflow_check", "opts", "byte", "cls", "mutable_in", "call", "size"):
        if c.get(k):
            f.add(k)
    for d in h.defines:
        f.add(d)
    return f


def harnesses(tier="quick"):
    out = []

    def both(name, shapes, tags=(), cfg=None, modes="rwg", **kw):
        if "view" in tags and not (cfg or {}).get("byte"):
            b = view_byte(shapes)
            if b:
                cfg = dict(cfg or {}, byte=b)
        for mode in modes:
            if mode in "rw":
                out.append(H("%s_%s" % (name, mode), shapes, mode, cfg, tags, **kw))
            else:
                g = dict(cfg or {})
                g["grow"] = True
                out.append(H("%s_g" % name, shapes, "w", g, tags, opts={"fit": not g.get("no_fit")}, **kw))
    prims = (U8, U16, U32, U64, I8, I16, I32, I64, CH, BYTE, BOOL, F32, F64, WCH, C8, C16, C32)
    for t in prims:
        both("prim_" + mangle(t.cpp), t, tags=["b9"])
        both("sprim_" + mangle(t.cpp), t, cfg={"swap": True})
    both("s1", Struct("S1", [U8, U16, U32, U64]))
    both("s1x", Struct("S1", [U8, U16, U32, U64], "explicit"))
    both("s2", Struct("S2", [U32, U32]))
    both("s2s", Struct("S2", [U32, U16]), cfg={"swap": True})
    both("nest", Struct("S3", [Struct("S3a", [U16, U16]), U8, Struct("S3b", [U8, BOOL], "explicit")]))
    both("smem", Struct("S4", [U8, U32], "members"))
    both("sfr", Struct("S5", [U16, U32, U8], "friend"))
    both("arr", Arr(U16, 3))
    both("carr", Arr(U32, 2, "c"))
    both("arrs", Arr(U16, 3), cfg={"swap": True})
    both("arrst", Arr(Struct("S6", [U8, U16]), 2))
    both("tup", Tup([U8, U32, U16]))
    both("pair", Tup([U8, U32], "pair"))
    for n in (1, 7, 8, 9, 64, 65):
        both("bits%d" % n, Bits(n))
    both("enum", Enum("E1", U16))
    for t in (U8, U16, U32, U64):
        both("vint_" + t.cpp, VInt(t))
    for t in (I8, I16, I32, I64):
        both("vsint_" + mangle(t.cpp), VInt(t, True))
    both("opt", Opt(U32))
    both("opts", Opt(Struct("S7", [U8, U16])))
    both("optptr", Opt(U32, "optptr"))
    both("uptr", UPtr(U16))
    both("var", Var([U8, U32, Struct("S8", [U16, U8])]))
    both("probe", [U8, ProbeT(1), U16])
    both("probes", Struct("S9", [ProbeT(1), U8, ProbeT(2)], "explicit"))
    both("multi", [U8, U16, U32])
    for st in ("u8", "u16", "u32", "u64", "varint", "none"):
        both("vec8_" + st, Vec(U8), cfg={"size": st})
        both("vec32_" + st, Vec(U32), cfg={"size": st})
        both("vecs_" + st, Vec(Struct("S10", [U8, U16])), cfg={"size": st})
    both("vec32l", Vec(U32), cfg={"limit": 1000})
    both("vec32sw", Vec(U32), cfg={"swap": True})
    both("list", Vec(U32, "mlist"))
    both("listl", Vec(U32, "mlist"), cfg={"limit": 1000})
    both("vecp", Vec(ProbeT(1)))
    both("mset", Assoc(U32))
    both("mmap", Assoc(U32, U16))
    both("mmapv", Assoc(VInt(U32), U16))
    # -- views
    for st in ("u8", "u32", "u64", "varint", "none"):
        both("sv_" + st, View("sv"), cfg={"size": st}, modes="rwg", tags=["view"])
        both("cspan_" + st, View("std::byte"), cfg={"size": st}, modes="rwg", tags=["view"])
    both("cspanc", View("char"), tags=["view"])
    both("cspanuc", View("unsigned char"), tags=["view"])
    both("svsw", View("sv"), cfg={"swap": True}, tags=["view"])
    both("cspan4", View("std::byte", 4), modes="wg", tags=["view"])
    both("cspan3c", View("char", 3), modes="wg", tags=["view"])
    both("sv2", [U16, View("sv"), U8], tags=["view"])
    both("svst", Struct("SV1", [U8, View("sv"), U16]), tags=["view"])
    both("svw1", View("sv", size="u8", wrap="zb::sized_t<%s, u8>"), tags=["view", "wrap"])
    both("svw0", View("sv", size="none", wrap="zb::unsized_t<%s>"), tags=["view", "wrap"])
    both("svwv", View("sv", size="varint", wrap="zb::sized_t<%s, zb::vsize_t>"), tags=["view", "wrap"])
    both("svref", View("sv", size="u16"), cfg={"call": "zb::sized<u16>(%s)"}, tags=["view", "wrap"])
    both("svun", View("std::byte", size="none"), cfg={"call": "zb::unsized(%s)"}, tags=["view", "wrap"])
    for st in ("u8", "u32", "u64", "varint"):
        both("mspan_" + st, MutSpan(U32), cfg={"size": st}, tags=["view"])
        both("mspanb_" + st, MutSpan(BYTE), cfg={"size": st}, tags=["view"])
    both("mspanu", MutSpan(U32), cfg={"size": "none"}, tags=["view"])
    both("mspans", MutSpan(Struct("S11", [U8, U16])), tags=["view"])
    both("mspansw", MutSpan(U16), cfg={"swap": True}, tags=["view"])
    both("mspan2", MutSpan(U32, 2), tags=["view"])
    both("mspan2b", MutSpan(BYTE, 2), tags=["view"])
    both("cspan32", MutSpan(U32, const_=True), modes="wg", tags=["view"])
    # -- size wrappers, byte wrappers
    both("vecw1", Vec(U32, size="u8", wrap="zb::sized_t<%s, u8>"), tags=["wrap"])
    both("vecw0", Vec(U32, size="none", wrap="zb::unsized_t<%s>"), tags=["wrap"])
    both("vecwv", Vec(Struct("S12", [U8, U16]), size="varint", wrap="zb::sized_t<%s, zb::vsize_t>"), tags=["wrap"])
    both("vecref", Vec(U16, size="u64"), cfg={"call": "zb::sized<u64>(%s)"}, tags=["wrap"])
    both("vecun", Vec(U32, size="none"), cfg={"call": "zb::unsized(%s)"}, tags=["wrap"])
    both("vecunl", Vec(U32, size="none"), cfg={"call": "zb::unsized(%s)", "limit": 100}, tags=["wrap"])
    both("vecwl", Vec(U32, size="u16", wrap="zb::sized_t<%s, u16>"), cfg={"limit": 100}, tags=["wrap"])
    both("vecst", Struct("SV2", [U8, Vec(U32), U16]), tags=["wrap"])
    both("vecopt", Opt(Vec(U16)), tags=["wrap"])
    both("vecvar", Var([Vec(U16), U8]), tags=["wrap"])
    both("vectwo", [Vec(U8), Vec(U32)], tags=["wrap"])
    both("bytes32", BytesOf(U32), cfg={"call": "zb::bytes(%s)"}, tags=["bytes"])
    both("bytes32sw", BytesOf(U32), cfg={"call": "zb::bytes(%s)"}, tags=["bytes"])
    both("bytesst", BytesOf(Struct("S13", [U16, U16])), cfg={"call": "zb::bytes(%s)"}, tags=["bytes"])
    both("asb", AsBytes(Struct("S14", [U16, U16, U32])), cfg={"call": "zb::as_bytes(%s)"}, tags=["bytes"])
    both("asbsw", AsBytes(Struct("S15", [U16, U16, U32])), cfg={"call": "zb::as_bytes(%s)"}, tags=["bytes"])
    # -- tracked objects
    for nm, pub in (("n", False), ("p", True)):
        both("topt_" + nm, Opt(Trk("TR1" + nm, pub)), modes="r", tags=["life"])
        both("tuptr_" + nm, UPtr(Trk("TR2" + nm, pub)), modes="r", tags=["life"])
        both("toptp_" + nm, Opt(Trk("TR3" + nm, pub), "optptr"), modes="r", tags=["life"])
        both("tvar_" + nm, Var([Trk("TR4" + nm, pub), U16]) if pub else Var([Trk("TR4" + nm, pub), U16]), modes="r", tags=["life"])
        both("tset_" + nm, Assoc(Trk("TR5" + nm, pub)), modes="r", tags=["life"])
        both("tmap_" + nm, Assoc(U16, Trk("TR6" + nm, pub)), modes="r", tags=["life"]) if pub else None
        both("topte_" + nm, Opt(Trk("TR7" + nm, pub, probe=1)), modes="r", tags=["life"])
        both("tuptre_" + nm, UPtr(Trk("TR8" + nm, pub, probe=1)), modes="r", tags=["life"])
        both("tvare_" + nm, Var([Trk("TR9" + nm, pub, probe=1), U16]), modes="r", tags=["life"])
        both("tsete_" + nm, Assoc(Trk("TR0" + nm, pub, probe=1)), modes="r", tags=["life"])
    both("tarr", Arr(Trk("TRa", True), 2), modes="r", tags=["life"])
    both("ttup", Tup([Trk("TRb", True), U8]), modes="r", tags=["life"])
    # -- variants with identifiers
    def ided(name, member, idx):
        return Struct(name, member, extra="using serialize_id = zb::id<%s>;" % idx)
    id4 = lambda p: [ided(p + "a", [U8], "0x01020304"), ided(p + "b", [U32, U8], "0x01020305"), ided(p + "c", [U16], "0x0a020304")]
    b4 = [x.to_bytes(4, "little") for x in (0x01020304, 0x01020305, 0x0a020304)]
    id2 = lambda p: [ided(p + "a", [U8], "std::uint16_t(0x0102)"), ided(p + "b", [U32], "std::uint16_t(0x0201)")]
    b2 = [x.to_bytes(2, "little") for x in (0x0102, 0x0201)]
    id8 = lambda p: [ided(p + "a", [U8], "0x0102030405060708ull"), ided(p + "b", [U32], "0x0102030405060709ull")]
    b8 = [x.to_bytes(8, "little") for x in (0x0102030405060708, 0x0102030405060709)]
    id1 = lambda p: [ided(p + "a", [U8], "std::byte{7}"), ided(p + "b", [U32], "std::byte{9}"), ided(p + "c", [U16], "std::byte{0}")]
    b1 = [b"\x07", b"\x09", b"\x00"]
    idd = lambda p: [Struct(p + "a", [U8], extra="friend auto serialize_id(const %sa &) -> zb::id<0x11>;" % p), Struct(p + "b", [U16], extra="friend auto serialize_id(const %sb &) -> zb::id<0x1100>;" % p)]
    bd = [x.to_bytes(4, "little") for x in (0x11, 0x1100)]
    st8 = lambda p: [ided(p + "a", [U8], '"abc"_s'), ided(p + "b", [U32], '"abd"_s')]
    for nm, mk, bs in (("v4", id4, b4), ("v2", id2, b2), ("v8", id8, b8), ("v1", id1, b1), ("vd", idd, bd)):
        both("id" + nm, Var(mk("V" + nm), ids=bs), tags=["id"])
        both("ids" + nm, Var(mk("W" + nm), ids=bs), cfg={"swap": True}, tags=["id"])
        for k in range(len(bs)):
            key = {"v4": ["0x01020304", "0x01020305", "0x0a020304"], "v2": ["std::uint16_t(0x0102)", "std::uint16_t(0x0201)"],
                   "v8": ["0x0102030405060708ull", "0x0102030405060709ull"], "v1": ["std::byte{7}", "std::byte{9}", "std::byte{0}"], "vd": ["0x11", "0x1100"]}[nm][k]
            both("kid%s_%d" % (nm, k), KnownVar(Var(mk("K%s%d" % (nm, k)), ids=bs), k), cfg={"call": "zb::known_id<%s>(%%s)" % key}, tags=["id", "known"], modes="rwg" if k < 2 else "r")
    both("idstr", Var(st8("Vs"), ids=[b"abc", b"abd"]), tags=["id"], pre="using namespace zpp::bits::literals;")
    both("idstrs", Var(st8("Ws"), ids=[b"abc", b"abd"]), tags=["id", "raw_id"], cfg={"swap": True}, pre="using namespace zpp::bits::literals;")
    both("kdv4", KnownVar(Var(id4("KD4"), ids=b4), 0, True), cfg={"call": "zb::known_id(zsrc_u32(900), %s)"}, modes="r", tags=["id", "known"])
    both("kdv0", KnownVar(Var([U8, Struct("KD0", [U16, U8])]), 0, True), cfg={"call": "zb::known_id(std::byte(zsrc_u8(900)), %s)"}, modes="r", tags=["id", "known"])
    both("kvar0", KnownVar(Var([U8, U32]), 1), cfg={"call": "zb::known_id<std::byte{1}>(%s)"}, tags=["id", "known"])
    both("kvart", KnownVar(Var([Trk("KT1"), U32]), 0), cfg={"call": "zb::known_id<std::byte{0}>(%s)"}, modes="r", tags=["id", "known", "life"])
    both("kvarte", KnownVar(Var([Trk("KT2", probe=1), U32]), 0), cfg={"call": "zb::known_id<std::byte{0}>(%s)"}, modes="r", tags=["id", "known", "life"])
    both("kdvart", KnownVar(Var([Trk("KT3"), U32]), 0, True), cfg={"call": "zb::known_id(std::byte(zsrc_u8(900)), %s)"}, modes="r", tags=["id", "known", "life"])
    both("var8", Var([U8, U16, U32, U64, I8, I16, I32, I64]))
    both("var1", Var([U32]))
    both("varopt", Var([Opt(U8), VInt(U32), Bits(9)]))
    # -- opaque user serialisation everywhere
    P1, P2, P3 = ProbeT(1), ProbeT(2), ProbeT(3)
    both("p_opt", Opt(P1), tags=["nest"])
    both("p_optp", Opt(P1, "optptr"), tags=["nest"])
    both("p_uptr", UPtr(P1), tags=["nest"])
    both("p_var", Var([P1, U16, P2]), tags=["nest"])
    both("p_arr", Arr(P1, 3), tags=["nest"])
    both("p_carr", Arr(P1, 2, "c"), tags=["nest"])
    both("p_tup", Tup([P1, U8, P2]), tags=["nest"])
    both("p_pair", Tup([P1, P2], "pair"), tags=["nest"])
    both("p_st", Struct("PS1", [P1, U16, P2]), tags=["nest"])
    both("p_st2", Struct("PS2", [Struct("PS2a", [U8, P1]), P2, U16]), tags=["nest"])
    both("p_stm", Struct("PS3", [P1, P2, P3], "members"), tags=["nest"])
    both("p_vec", Vec(P1, "mlist"), tags=["nest"])
    both("p_vecs", Vec(Struct("PS4", [U8, P1])), tags=["nest"])
    both("p_vecst", Struct("PS5", [Vec(P1), U8, P2]), tags=["nest"])
    both("p_set", Assoc(P1), tags=["nest"])
    both("p_map", Assoc(U8, P1), tags=["nest"])
    both("p_mapk", Assoc(P1, U8), tags=["nest"])
    both("p_three", [P1, P2, P3], tags=["nest"])
    both("p_mix", [Opt(P1), Arr(P2, 2), U8], tags=["nest"])
    both("p_span", MutSpan(P1), tags=["nest"])
    both("p_sized", Vec(P1, size="u8"), cfg={"call": "zb::sized<u8>(%s)"}, tags=["nest"])
    both("p_unsized", Vec(P1, size="none"), cfg={"call": "zb::unsized(%s)"}, tags=["nest"])
    both("p_known", KnownVar(Var([P1, U8]), 0), cfg={"call": "zb::known_id<std::byte{0}>(%s)"}, tags=["nest", "known"])
    # -- bigger aggregates, padding, nested containers
    both("st12", Struct("B12", [U8, U16, U8, U32, U8, U64, U8, U8, U16, U16, U8, U32]))
    both("st12s", Struct("B12s", [U8, U16, U8, U32, U8, U64, U8, U8, U16, U16, U8, U32]), cfg={"swap": True})
    both("pad", Struct("B1", [U8, U32, U8]))
    both("padtail", Struct("B2", [U32, U8]))
    both("vecpad", Vec(Struct("B3", [U32, U8])))
    both("vecnopad", Vec(Struct("B4", [U32, U16, U8, U8])))
    both("vecnopadsw", Vec(Struct("B5", [U32, U16, U8, U8])), cfg={"swap": True})
    both("vecarr", Vec(Arr(U16, 2)))
    both("vecarrsw", Vec(Arr(U16, 2)), cfg={"swap": True})
    both("vecvi", Vec(VInt(U16)))
    both("vecenum", Vec(Enum("E3", U16)))
    both("vecbool", Vec(BOOL))
    both("vecf64sw", Vec(F64), cfg={"swap": True})
    both("vecexp", Vec(Struct("B6", [U8, U16], "explicit")))
    both("vecnest", Vec(Struct("B7", [Struct("B7a", [U16, U16]), U32])))
    both("mlists", Vec(Struct("B8", [U8, U16]), "mlist"))
    both("arr2", Arr(Arr(U8, 2), 2))
    both("arrvi", Arr(VInt(U16), 2))
    both("arropt", Arr(Opt(U8), 2))
    both("optopt", Opt(Opt(U8)))
    both("optvar", Opt(Var([U8, U16])))
    both("optarr", Opt(Arr(U16, 2)))
    both("tupnest", Tup([Tup([U8, U16]), U32]))
    both("uptrst", UPtr(Struct("B9", [U8, UPtr(U16)])))
    both("empty", Struct("B10", []))
    both("stbits", Struct("B11", [Bits(3), U8, Bits(12)]))
    both("msets", Assoc(U16), cfg={"swap": True})
    both("mmaps", Assoc(U16, U32), cfg={"swap": True})
    for st in ("u8", "u16", "u64", "varint"):
        both("mset_" + st, Assoc(U32), cfg={"size": st})
    both("msetl", Assoc(U32), cfg={"limit": 100})
    both("msetst", Struct("B13", [Assoc(U16), U8]))
    both("manyargs", [U8, U16, U32, U64, I8, U8, U16, U32])
    # -- archive configurations -------------------------------------------------
    core = [("u32", U32), ("st", Struct("T1", [U8, U32])), ("vec", Vec(U32)), ("vi", VInt(U32)), ("bs", Bits(9)), ("op", Opt(U16)), ("va", Var([U8, U32])),
            ("en", Enum("T2", U16)), ("ar", Arr(U16, 2)), ("tu", Tup([U8, U32])), ("as", Assoc(U32)), ("up", UPtr(U16)), ("ms", MutSpan(U32)), ("pb", ProbeT(1)),
            ("vs", Vec(Struct("T3", [U8, U16]), "mlist")), ("mx", [U8, Opt(U32), VInt(U16)]), ("f8", F64), ("li", Vec(U8))]
    for b, bt in (("ch", "char"), ("uc", "unsigned char")):
        for n, s in core:
            both("%s_%s" % (b, n), s, cfg={"byte": bt}, tags=["eq"])
    for n, s in core:
        for m in "rwg":
            both("fac_%s" % n, s, cfg={"ctor": "  auto archive = %s(data%%s);" % ("zb::input" if m == "r" else "zb::output")}, tags=["eq"], modes=m)
            both("iof_%s" % n, s, cfg={"ctor": "  auto [%s] = zb::in_out(data);" % ("archive, other" if m == "r" else "other, archive"), "mutable_in": True}, tags=["eq"], modes=m)
            both("carr_%s" % n, s, cfg={"ctor": "  %s archive{*reinterpret_cast<%sstd::byte (*)[32]>(p)};" % (("zb::in", "const ") if m == "r" else ("zb::out", "")), "extent": 32}, tags=["eq"], modes=m) if m != "g" else None
            both("arr_%s" % n, s, cfg={"ctor": "  %s archive{*reinterpret_cast<%sstd::array<std::byte, 32> *>(p)};" % (("zb::in", "const ") if m == "r" else ("zb::out", "")), "extent": 32}, tags=["eq"], modes=m) if m != "g" else None
    for n, s in core:
        both("mut_%s" % n, s, cfg={"mutable_in": True}, modes="r", tags=["eq"])
        both("ext_%s" % n, s, cfg={"extent": 32}, modes="rw", tags=["eq"])
        both("inl_%s" % n, s, defines=["ZPP_BITS_INLINE_MODE=0"], tags=["eq"])
        both("sw_%s" % n, s, cfg={"swap": True})
    for n, s in core[:4]:
        both("lim_%s" % n, s, cfg={"limit": 64}, tags=["opt"])
        both("ex_%s" % n, s, cfg={"enlarger": (1, 1), "enlarger_opt": "zb::exact_enlarger{}"}, modes="g", tags=["opt"])
        both("e2_%s" % n, s, cfg={"enlarger": (2, 1), "enlarger_opt": "zb::enlarger<2>{}"}, modes="g", tags=["opt"])
        both("e2l_%s" % n, s, cfg={"enlarger": (2, 1), "enlarger_opt": "zb::enlarger<2>{}", "limit": 100}, modes="g", tags=["opt"])
        both("e53_%s" % n, s, cfg={"enlarger": (5, 3), "enlarger_opt": "zb::enlarger<5, 3>{}"}, modes="g", tags=["opt"])
        both("nf_%s" % n, s, cfg={"no_fit": True}, modes="g", tags=["opt"])
        if n == "vec":
            continue
        both("no_%s" % n, s, cfg={"no_overflow_check": True}, modes="g", tags=["opt"])
        both("nol_%s" % n, s, cfg={"no_overflow_check": True, "limit": 1 << 20}, modes="g", tags=["opt"])
    for t in (U8, U16, U32, U64):
        both("ivint_" + t.cpp, VInt(t), modes="r", defines=["ZPP_BITS_INLINE_DECODE_VARINT=1"])
    for t in (I32, I64, I16):
        both("ivsint_" + mangle(t.cpp), VInt(t, True), modes="r", defines=["ZPP_BITS_INLINE_DECODE_VARINT=1"])
    for n in range(1, 51):
        t = [(U8, U32, U16)[k % 3] for k in range(n)]
        both("mem%02d" % n, Struct("MM%d" % n, t), cfg={"swap": True} if n % 2 else {}, modes="rw", tags=["members"])
    from . import apis, rpc
    out += apis.build(tier)
    out += rpc.build(tier)
    for n, s in core:
        both("b_%s" % n, s, tags=["eq", "base"])
    import copy
    from . import custom
    # the same operations on the compile-time branches of the library
    base = list(out)
    for h in base:
        if not h.defines and not h.tags & {"eq", "access", "ctoropt"} and h.name not in HEAVY:
            c = copy.copy(h)
            c.name, c.cfg, c.tags, c.opts, c.defines = "ce_" + h.name, dict(h.cfg), h.tags | {"ce"}, dict(h.opts), ("ZX_CE",)
            if h.name in custom.ORACLES:
                custom.ORACLES[c.name] = custom.ORACLES[h.name]
            out.append(c)
            h.tags.add("hasce")
    # and with exceptions enabled
    for h in base:
        if not h.defines and not h.tags & {"eq", "result", "members"} and h.name not in HEAVY:
            c = copy.copy(h)
            c.name, c.cfg, c.tags, c.opts, c.defines = "ex_" + h.name, dict(h.cfg), h.tags - {"hasce"} | {"exc"}, dict(h.opts), ("-fexceptions",)
            if h.name in custom.ORACLES:
                custom.ORACLES[c.name] = custom.ORACLES[h.name]
            out.append(c)
    from . import pbcat
    out += pbcat.harnesses(tier)
    for h in out:
        h.heavy = h.name in HEAVY or "pb" in h.tags
        h.feat = features(h)
    return out


def all_harnesses():
    return harnesses("thorough")
