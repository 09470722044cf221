"""catalogue of protobuf messages"""
from .pb import *

V32, V64, VS32, VS64, VU32, VU64 = (VInt(I32, alias="zb::vint32_t"), VInt(I64, alias="zb::vint64_t"), VInt(I32, True, alias="zb::vsint32_t"),
                                    VInt(I64, True, alias="zb::vsint64_t"), VInt(U32, alias="zb::vuint32_t"), VInt(U64, alias="zb::vuint64_t"))


def S(t):
    return Scalar(t)


def harnesses(tier="thorough"):
    out = []

    def both(name, mk, cfg=None, modes="rwg", deep=False, **kw):
        if deep and tier == "quick":
            return
        for m in modes:
            c = dict(cfg or {})
            if m == "g":
                c["grow"] = True
            kw2 = dict(kw, opts=dict(kw.get("opts") or {}, fit=True)) if m == "g" else kw
            out.append(PB("pb_%s_%s" % (name, m), mk(), "r" if m == "r" else "w", c, **kw2))
    none = {"size": "none"}
    both("fix", lambda: Msg("M", [S(U32), S(U64)]), none)
    both("one", lambda: Msg("M", [S(V32)]), none)
    both("mix", lambda: Msg("M", [S(U32), S(V32), S(U64)]), none)
    E8, EU = Enum("E8", U8), Enum("EU", I32)
    both("sint", lambda: Msg("M", [S(VS32), S(VU64)]), none)
    both("enum", lambda: Msg("M", [S(BOOL), S(EU)]), none)
    both("nums", lambda: Msg("M", [Field(17, S(U32), "zb::pb_field<%s, 17>"), S(U64)]), none)
    both("map", lambda: Msg("M", [Field(300, S(U32)), Field(1, S(U64))], "zb::protocol<zb::pb{zb::pb_map<1, 300>{}, zb::pb_map<2, 1>{}}>"), none)
    both("resv", lambda: Msg("M", [Skipped(), S(U32)]), none)
    for st in ("u8", "u32", "u64", "varint"):
        both("fix_" + st, lambda: Msg("M", [S(U32), S(U64)]), {"size": st})
    both("fix_sw", lambda: Msg("M", [S(U32), S(U64)]), {"size": "u32", "swap": True})
    both("fix_nsw", lambda: Msg("M", [S(F32), S(F64)]), {"size": "none", "swap": True})
    # nested readers: input bytes below 128 (every varint one byte long), every structure
    low = {"opts": {"low_bytes": True}}
    both("nest7", lambda: Msg("M", [Msg("N", [S(U32)])]), none, "r", **low)
    both("nest7b", lambda: Msg("M", [S(V32), Msg("N", [S(U32), Msg("K", [S(V64)])])]), none, "r", **low)
    both("rep7", lambda: Msg("M", [Repeat(Msg("N", [S(U32), S(V32)]))]), none, "r", **low)
    both("map7", lambda: Msg("M", [MapF(S(U32), S(V64))]), none, "r", **low)
    both("map7e", lambda: Msg("M", [MapF(S(EU), S(U64))]), none, "r", **low)
    both("pk7v", lambda: Msg("M", [Repeat(S(V32))]), {"size": "none", "limit": 64}, "r", **low)
    both("pk74", lambda: Msg("M", [Repeat(S(U32))]), {"size": "none", "limit": 64}, "r", **low)
    both("nest", lambda: Msg("M", [S(U32), Msg("N", [S(V32), S(U64)])]), none, "wg")
    both("nestb", lambda: Msg("M", [Msg("N", [Repeat(S(BYTE))]), S(BOOL)]), none, "w")
    both("nestb", lambda: Msg("M", [Msg("N", [Repeat(S(BYTE))]), S(BOOL)]), none, "g", deep=True)
    both("bytes_v", lambda: Msg("M", [Repeat(S(BYTE))]), {"size": "varint"}, "w")
    both("bytes_v", lambda: Msg("M", [Repeat(S(BYTE))]), {"size": "varint"}, "g", deep=True)
    both("bytes_u16", lambda: Msg("M", [Repeat(S(BYTE))]), {"size": "u16"}, "wg")
    both("rep", lambda: Msg("M", [Repeat(Msg("N", [S(U32), S(V64)]))]), none, "wg")
    both("mapf", lambda: Msg("M", [MapF(S(U32), S(V64))]), none, "wg")
    both("mape", lambda: Msg("M", [MapF(S(EU), S(U64))]), none, "wg")
    both("pkz", lambda: Msg("M", [Repeat(S(VS64))]), none, "w")
    both("lim", lambda: Msg("M", [Repeat(S(U32)), S(U64)]), {"size": "none", "limit": 4096}, "g")
    return out
