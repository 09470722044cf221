"""archive accessors and construction options"""
from .custom import *


def build(tier):
    out = []

    def add(*a, **k):
        out.append(HX(*a, **k))
    # position, reset, remaining and processed data
    def acc(h, e, r, rep):
        pos, n = h.pos, h.n
        sink_is(e, r, rep, 1, pos, "position()", "position")
        view_is(e, r, rep, 2, h.buf, pos, n - pos, "remaining_data()", "view")
        view_is(e, r, rep, 3, h.buf, const(0), pos, "processed_data()", "view")
        view_is(e, r, rep, 4, h.buf, const(0), n, "data()", "view")
        sink_is(e, r, rep, 5, const(0), "position() after reset()", "position")
        sink_is(e, r, rep, 6, src(9), "position() after reset(x)", "position")
        sink_is(e, r, rep, 7, const(0), "position() of a new archive", "position")
        if seq_events(r):
            rep("effects", "accessors have an effect: %r" % seq_events(r)[:2])
    body = ("%s archive{data}; zx::sink<u64>(7, archive.position()); archive.position() = pos; zx::sink<u64>(1, std::as_const(archive).position());"
            " auto a = archive.remaining_data(); auto b = archive.processed_data(); auto && d = archive.data();"
            " zsink_ptr(2, a.data(), a.size()); zsink_ptr(3, b.data(), b.size()); zsink_ptr(4, d.data(), d.size());"
            " archive.reset(); zx::sink<u64>(5, archive.position()); archive.reset(zsrc_u64(9)); zx::sink<u64>(6, archive.position()); return 0;")
    add("acc_r", body % "zb::in", acc, "r", tags=["access"])
    add("acc_w", body % "zb::out", acc, "w", tags=["access"])
    add("acc_g", body % "zb::out", acc, "w", {"grow": True}, tags=["access"])
    add("acc_inp", body % "auto archive2 = zb::input(data); auto &", acc, "r", tags=["access"]) if False else None
    # construction options of a growing output

    def opt(expect_pos, size=None, reserve=None):
        def f(h, e, r, rep):
            sink_is(e, r, rep, 1, expect_pos(h), "position after construction", "position")
            ev = seq_events(r)
            kinds = [x.kind for x in ev]
            want = (["greserve"] if reserve else []) + (["gresize"] if size else [])
            if sorted(kinds) != sorted(want):
                rep("effects", "construction performs %r, expected %r" % (kinds, want))
                return
            for x in ev:
                need = reserve if x.kind == "greserve" else size
                if not r.state.sys.entails_eq(x.n - need(h)):
                    rep("effects", "%s(%r), expected %r" % (x.kind, x.n, need(h)), x.loc)
        return f
    one = "zb::out archive{data, %s}; zx::sink<u64>(1, archive.position()); return 0;"
    g = {"grow": True}
    N = lambda h: h.n
    Z = lambda h: const(0)
    P = lambda h: h.pos
    for nm, o, f in (("append", "zb::append{}", opt(N)), ("reserve", "zb::reserve{pos}", opt(Z, None, P)), ("resize", "zb::resize{pos}", opt(Z, P)),
                     ("none", "zb::size4b{}", opt(Z)),
                     ("append_big", "zb::append{}, zb::endian::big{}", opt(N)), ("big_append", "zb::endian::big{}, zb::append{}", opt(N)),
                     ("append_lim", "zb::append{}, zb::alloc_limit<4096>{}, zb::no_fit_size{}", opt(N)),
                     ("appres", "zb::append{}, zb::reserve{pos}", opt(N, None, P)), ("resapp", "zb::reserve{pos}, zb::append{}", opt(N, None, P)),
                     ("apprsz", "zb::append{}, zb::resize{pos}", opt(P, P)), ("rszapp", "zb::resize{pos}, zb::append{}", opt(P, P))):
        add("ctor_" + nm, one % o, f, "w", g, tags=["ctoropt"])
        add("ctoro_" + nm, "auto archive = zb::output(data, %s); zx::sink<u64>(1, archive.position()); return 0;" % o, f, "w", g, tags=["ctoropt"])
    results(add)
    return out


def results(add):
    """value-or-error results over symbolic values and codes"""
    na = {"noargs": True}

    def value(w, moved=True):
        def f(h, e, r, rep):
            ret_is(h, e, r, rep, 0, "success() of a result that holds a value")
            for i in (1, 2, 3, 4, 5):
                if i == 4 and not moved:
                    continue
                sink_is(e, r, rep, i, src(1, w), {1: "value()", 2: "or_throw()", 3: "value() of the moved result", 4: "value() of an expiring result", 5: "value() of a constant result"}[i])
        return f

    def error(h, e, r, rep):
        ret_is(h, e, r, rep, 0, "failure() of a result that holds an error")
        for i in (1, 2, 3):
            sink_is(e, r, rep, i, src(1, 32), "the stored error")
    vb = ("using V = zb::value_or_errc<%s>; V v{zx::src<%s>(1)}; if (!v.success() || v.failure() || !zb::success(v) || zb::failure(v)) return 1; zx::sink(1, v.value()); zx::sink(2, v.or_throw());"
          " { const V & c = v; zx::sink(5, c.value()); zx::sink(5, c.or_throw()); } V m{std::move(v)}; if (!m.success() || m.failure()) return 2; zx::sink(3, m.value()); zx::sink(4, std::move(m).or_throw()); return 0;")
    eb = ("using V = zb::value_or_errc<%s>; V v{zb::errc{std::errc(zsrc_u32(1))}}; if (v.success() || !v.failure() || zb::success(v) || !zb::failure(v)) return 1; zsink_u32(1, u32(v.error().code));"
          " V m{std::move(v)}; if (m.success() || !m.failure()) return 2; zsink_u32(2, u32(m.error().code)); const V & c = m; zsink_u32(3, u32(c.error().code)); return 0;")
    for t, w in (("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("std::int8_t", 8), ("std::byte", 8)):
        n = t.split("::")[-1]
        add("res_v_" + n, vb % (t, t), value(w), "r", na, tags=["result"])
        add("res_e_" + n, eb % t, error, "r", na, tags=["result"])
    add("res_e_void", eb % "void", error, "r", na, tags=["result"])
    add("res_e_big", eb % "std::array<u64, 4>", error, "r", na, tags=["result"])
    add("res_e_ref", eb % "u32 &", error, "r", na, tags=["result"])

    def ref(h, e, r, rep):
        ret_is(h, e, r, rep, 0, "success() of a result that holds a reference")
        for i in (1, 2, 3):
            sink_is(e, r, rep, i, src(1, 32), "the referred value")
        sink_is(e, r, rep, 4, src(2, 32), "the object assigned through the reference")
    add("res_ref", "u32 x = zsrc_u32(1); using V = zb::value_or_errc<u32 &>; V v{&x}; if (!v.success() || v.failure()) return 1; zx::sink(1, v.value()); zx::sink(2, v.or_throw()); V m{std::move(v)}; if (!m.success()) return 2;"
        " zx::sink(3, m.value()); if (&m.value() != &x) return 3; m.value() = zsrc_u32(2); zx::sink(4, x); return 0;", ref, "r", na, tags=["result"])

    def void(h, e, r, rep):
        ret_is(h, e, r, rep, 0, "success() of an empty result")
    add("res_void", "using V = zb::value_or_errc<void>; V v{}; if (!v.success() || v.failure() || !zb::success(v)) return 1; V m{std::move(v)}; if (!m.success() || m.failure()) return 2; return 0;", void, "r", na, tags=["result"])

    def both(h, e, r, rep):
        # the throwing accessor continues exactly for values
        sel = Lin({TABLE.get(("src", 3), 1): 1}, 0)
        if not r.state.sys.entails_eq(sel - 1):
            rep("content", "or_throw() continues although the result holds an error")
        sink_is(e, r, rep, 1, src(1, 32), "or_throw()")
    for k, form in enumerate(("v.or_throw()", "std::move(v).or_throw()", "std::as_const(v).or_throw()")):
        add("res_throw_%d" % k, "using V = zb::value_or_errc<u32>; V v = zsrc_u1(3) ? V{zsrc_u32(1)} : V{zb::errc{std::errc(zsrc_u32(2))}}; zx::sink(1, %s); return 0;" % form, both, "r", na, tags=["result"])

    def plain(h, e, r, rep):
        c = src(1, 32)
        ok = r.state.sys.entails_eq(c)
        bad = r.state.sys.entails(c - 1)
        k = r.code.lin.k if isinstance(r.code, IV) and r.code.lin.is_const() else None
        if not (ok and k == 2 or bad and k == 4):
            rep("content", "success() and failure() of an error code do not tell zero from non-zero codes apart")
        sink_is(e, r, rep, 5, c, "the code of the result")
        sink_is(e, r, rep, 6, c, "the result converted to a code")
    add("res_errc", "zb::errc x{std::errc(zsrc_u32(1))}; std::errc y{std::errc(zsrc_u32(1))}; zsink_u32(5, u32(x.code)); std::errc z = x; zsink_u32(6, u32(z));"
        " if (zb::success(x)) { if (zb::failure(x) || !zb::success(y) || zb::failure(y)) return 1; return 2; } if (!zb::failure(x) || zb::success(y) || !zb::failure(y)) return 3; return 4;", plain, "r", na, tags=["result"])

    def throws(h, e, r, rep):
        if not r.state.sys.entails_eq(src(1, 32)):
            rep("content", "or_throw() continues although the code is an error")
    add("res_errc_throw", "zb::errc x{std::errc(zsrc_u32(1))}; x.or_throw(); return 0;", throws, "r", na, tags=["result"])

    def nothrow(h, e, r, rep):
        pass
    # a success code must get past or_throw(): an exit exists
    add("res_errc_pass", "zb::errc x{}; x.or_throw(); return 0;", nothrow, "r", na, tags=["result"])
