"""remote calls and application of functions to archives (C16, C17): two archives, opaque functions"""
from . import spec, types_, models
from .types_ import *
from .spec import *
from .harness import H, options
from .absint import IV, PV, Obj, TABLE, const, feq, iv_from_bits
from .lin import Lin

ENOTSUP_ = 95


class Called:
    """function number k must be the next effect; its result code, if it returns one, ends the operation"""
    def __init__(self, k, errc=False):
        self.k, self.errc = k, errc

    def size(self):
        return 0

    def step(self, w, ws):
        e = ws.peek()
        if e is None or e.kind != "call":
            yield ("missing", ws, None, "function %d is not called" % self.k)
            return
        ws.pop()
        if e.id != self.k:
            raise Problem("effects", "function %d is called where function %d is due" % (e.id, self.k), e.loc)
        if self.errc:
            rc = Lin({TABLE.get(("callret", self.k), 32): 1}, 0)
            t, f = split(ws, feq(rc))
            if f is not None:
                yield ("stop", f, rc, "function %d reports an error" % self.k)
            if t is not None:
                yield ("ok", t)
            return
        yield ("ok", ws)


class On:
    """items of a second archive"""
    def __init__(self, h, items, mode="w"):
        self.h, self.items, self.mode = h, items, mode

    def size(self):
        return 0

    def step(self, w, ws):
        h = self.h
        w2 = Walker(w.e, dict(h.cfg, grow=False), self.mode)
        w2.check, w2.exit_events, w2.fpos, w2.buf = w.check, w.exit_events, None, h.buf2
        o = ws.fork()
        cur, size = ws.cur, ws.size
        o.cur, o.size = h.pos2, h.n2
        for r in w2.run(self.items, o):
            if r[0] == "done":
                e = r[1]
                if w.check:
                    h.second_done(w, e)
                e.cur, e.size = cur, size
                yield ("ok", e)
            else:
                yield r


class H2(H):
    """a harness with an input archive over p and a fixed output archive over q"""
    def body(self):
        raise NotImplementedError

    def source(self):
        self.build()
        L = ["namespace h_%s {" % self.name] + ([self.pre] if self.pre else []) + self.g.decls + self.decls()
        o = "".join(", " + x for x in options(self.cfg))
        L.append('extern "C" int zh_%s(const std::byte * p, usz n, usz pos, std::byte * q, usz n2, usz pos2) { std::span<const std::byte> data{p, n}; std::span<std::byte> data2{q, n2};' % self.name)
        L.append("  zb::in in{data%s}; zb::out out{data2%s}; in.position() = pos; out.position() = pos2;" % (o, o))
        L += self.body()
        L.append("}}")
        return "\n".join(L)

    def setup(self, e, f, st):
        H.setup(self, e, f, st)
        b = Obj("buf2", "buf", TABLE.lin("n2", 63), root="buf2", readonly=False)
        e.region_objs.append(b)
        self.n2, self.pos2, self.buf2 = TABLE.lin("n2", 63), TABLE.lin("pos2", 63), b
        st.sys.add(self.n2 - self.pos2)
        st.env[f.args[3][0]] = PV(b, const(0))
        st.env[f.args[4][0]] = IV(64, self.n2)
        st.env[f.args[5][0]] = IV(64, self.pos2)

    def second_pos(self, evs):
        for x in reversed(evs):
            if x.kind == "sink" and x.id == 9001:
                return x
        return None

    def second_done(self, w, ws):
        s = self.second_pos(w.exit_events)
        if s is None or s.lin is None or not ws.st.sys.entails_eq(s.lin - ws.cur):
            raise Problem("position", "the result archive ends at %r, expected %r" % (s and s.lin, ws.cur), s and s.loc)
        for r, t, l in stray(ws.st, w.exit_events, "buf2", self.pos2, ws.cur, None):
            raise Problem(r, t, l)

    def nothing_second(self):
        def f(w, ws):
            if w.check:
                w2 = ws.fork()
                w2.cur = self.pos2
                self.second_done(w, w2)
        return Do(f)


class Binding:
    """kind: fn, mem (member function of a context); ret: None, shape, 'errc'; opaque: None or signature kind"""
    def __init__(self, id_cpp, id_bytes, params, ret=None, kind="fn", opaque=None):
        self.id_cpp, self.id_bytes, self.params, self.ret, self.kind, self.opaque = id_cpp, id_bytes, params, ret, kind, opaque


class Serve(H2):
    def __init__(self, name, bindings, cfg=None, tags=(), explicit=False, idint=None):
        H.__init__(self, name, [], "r", cfg, set(tags) | {"rpc", "r", "nest"}, {"disjuncts": 120})
        self.bindings, self.explicit, self.idint = bindings, explicit, idint

    def build(self):
        self.g = types_.Gen("r", self.cfg)
        self.g2 = types_.Gen("w", self.cfg)
        self.g2.n, self.g2.m = 600, 60
        self.insts = []
        self.pi, self.ri = [], []
        for b in self.bindings:
            self.pi.append([s.inst(self.g) for s in b.params])
            self.ri.append(b.ret.inst(self.g2) if b.ret not in (None, "errc") else None)
        self.items = self.make_items()

    def decls(self):
        L = list(self.g2.decls)
        o = "".join(", " + x for x in options(self.cfg))
        L.append("using namespace zpp::bits::literals;")
        L.append("using In = decltype(zb::in{std::declval<std::span<const std::byte> &>()%s}); using Out = decltype(zb::out{std::declval<std::span<std::byte> &>()%s});" % (o, o))
        mem = any(b.kind == "mem" for b in self.bindings)
        fns = []
        for k, b in enumerate(self.bindings):
            args = ["%s a%d" % (i.cpp, j) for j, i in enumerate(self.pi[k])]
            sk = " ".join(s for j, i in enumerate(self.pi[k]) for s in i.sinks("a%d" % j))
            ret = "void" if b.ret is None else "zb::errc" if b.ret == "errc" else self.ri[k].cpp
            if b.ret is None:
                body = "%s zcall(%d);" % (sk, k)
            elif b.ret == "errc":
                body = "%s return std::errc(zcall(%d));" % (sk, k)
            else:
                body = "%s zcall(%d); return %s;" % (sk, k, self.ri[k].expr)
            if b.opaque:
                rd = ["%s a%d%s; " % (i.cpp, j, i.init if i.init == "{}" else "{}") for j, i in enumerate(self.pi[k])]
                rc = "if (auto rr = in(%s); zb::failure(rr)) { return rr; } " % ", ".join("a%d" % j for j in range(len(self.pi[k]))) if self.pi[k] else ""
                wr = "return out(%s);" % self.ri[k].expr if self.ri[k] is not None else "return std::errc(zcall(%d));" % k if b.ret == "errc" else "return {};"
                call = "" if b.ret == "errc" else "zcall(%d); " % k
                if b.opaque in ("inout", "in", "out"):
                    args = {"inout": ["In & in", "Out & out"], "in": ["In & in"], "out": ["Out & out"]}[b.opaque]
                    ret, body = "zb::errc", "".join(rd) + rc + sk + " " + call + wr
                elif b.opaque == "span":
                    args, body = ["std::span<const std::byte> d"], "zsink_ptr(9003, d.data(), d.size()); " + body
                elif b.opaque == "spanref":
                    args, body = ["std::span<const std::byte> & d"], "zsink_ptr(9003, d.data(), d.size()); if (zsrc_u64(9004) <= d.size()) { d = d.first(zsrc_u64(9004)); } " + body
                else:
                    args = []
            if b.kind == "mem":
                body = "zx::sink<u64>(9002, (const void *)this == nullptr ? 0 : tag); " + body
            fns.append((b.kind, "%s f%d(%s) { %s }" % (ret, k, ", ".join(args), body)))
        if mem:
            L.append("struct ctx { u64 tag; %s };" % " ".join(t for kd, t in fns if kd == "mem"))
        L += [t for kd, t in fns if kd != "mem"]
        bl = []
        for k, b in enumerate(self.bindings):
            f = "&ctx::f%d" % k if b.kind == "mem" else ("f%d" % k if k % 2 else "&f%d" % k)
            bl.append("zb::bind%s<%s, %s>" % ("_opaque" if b.opaque else "", f, b.id_cpp))
        L.append("using rpc = zb::rpc<%s>;" % ", ".join(bl))
        return L

    def body(self):
        mem = any(b.kind == "mem" for b in self.bindings)
        L = []
        if mem:
            L.append("  ctx c{zsrc_u64(9002)};")
        L.append("  %s server{in, out%s};" % ("typename rpc::server" if False else "rpc::server", ", c" if mem else ""))
        if self.explicit:
            L.append("  auto id = %s; zb::errc r = server.serve(id);" % self.explicit)
        else:
            L.append("  zb::errc r = server.serve();")
        L.append("  zsink_pos(in.position()); zsink_u64(9001, out.position()); return int(r.code);")
        return L

    def make_items(self):
        cases = []
        for k, b in enumerate(self.bindings):
            its = [x for i in self.pi[k] for x in i.items()]
            if b.opaque in ("span", "spanref"):
                its.append(Do(self.rest(b.opaque)))
            its.append(Called(k, b.ret == "errc"))
            if b.kind == "mem":
                its.append(Do(self.context_is))
            if self.ri[k] is not None:
                its.append(On(self, self.ri[k].items()))
            else:
                its.append(self.nothing_second())
            cases.append((b.id_bytes, its))
        dflt = [Fail(ENOTSUP_, "no function is bound to the identifier")]
        if self.explicit:
            def is_id(i):
                return lambda w, ws: feq(Lin({TABLE.get(("src", 900), 8 * len(i)): 1}, 0) - int.from_bytes(i, "little"))
            return [Branch([(is_id(i), t) for i, t in cases], dflt)]
        n = len(self.bindings[0].id_bytes)
        sw = self.g.swap and self.idint
        if n in (2, 4, 8):
            def is_id2(i):
                return lambda w, ws: feq(iv_from_bits(8 * n, w.wire_bits(ws, ws.cur, n, sw)).lin - int.from_bytes(i, "little"))
            return [NeedOnly(n), Branch([(is_id2(i), [Skip(n)] + t) for i, t in cases], [Skip(n)] + dflt)]
        return [NeedOnly(n), ByteSwitch([(i[::-1] if sw else i, [Skip(n)] + t) for i, t in cases], [Skip(n)] + dflt)]

    def rest(self, kind):
        """the function is given exactly the remaining input; by value it consumes all of it, by reference what it leaves in the span"""
        def f(w, ws):
            vs = [x for x in w.exit_events if x.kind == "view" and x.id == 9003]
            if not vs:
                raise Problem("effects", "the remaining input is not handed to the function")
            v = vs[-1]
            if not (isinstance(v.ptr, PV) and v.ptr.obj is not None and v.ptr.obj.meta.get("root") == "buf" and ws.st.sys.entails_eq(v.ptr.off - ws.cur)
                    and ws.st.sys.entails_eq(v.len - (ws.size - ws.cur))):
                raise Problem("view", "the opaque function is given %r length %r, expected the remaining input" % (v.ptr, v.len), v.loc)
            take = Lin({TABLE.get(("src", 9004), 64): 1}, 0) if kind == "spanref" else None
            if take is not None:
                t, o = split(ws, fge(ws.size - ws.cur - take))
                if t is not None and o is None:
                    ws.cur = ws.cur + take
                    return ws
            ws.cur = ws.size
            return ws
        return f

    def context_is(self, w, ws):
        for x in reversed(w.exit_events):
            if x.kind == "sink" and x.id == 9002:
                if not ws.st.sys.entails_eq(x.lin - Lin({TABLE.get(("src", 9002), 64): 1}, 0)):
                    raise Problem("effects", "the member function is called on another object", x.loc)
                return
        raise Problem("effects", "the member function is not called on the context")

    def decide(self, e, rets):
        out, stats = H.decide(self, e, rets)
        for r in rets:
            # nothing may be written to the result archive unless a function with a result was called
            calls = [x for x in r.state.events if x.kind == "call"]
            if len(calls) > 1:
                out.append(("effects", "more than one function call for one request", calls[1].loc))
            if not calls:
                for x in r.state.events:
                    if x.kind in ("write", "copy", "fill") and x.root == "buf2":
                        out.append(("stray-write", "the result archive is written although nothing was called", x.loc))
                        break
        return out, stats


class Apply(H):
    """zb::apply(function, archive)"""
    def __init__(self, name, params, ret=None, form="lambda", forms=None, cfg=None, tags=()):
        H.__init__(self, name, [], "r", cfg, set(tags) | {"apply", "r", "nest"})
        self.params, self.ret, self.form, self.forms = params, ret, form, forms or ["%s"] * len(params)

    def build(self):
        self.g = types_.Gen("r", self.cfg)
        self.insts = [s.inst(self.g) for s in self.params]
        self.items = [x for i in self.insts for x in i.items()] + [Called(5)]
        if self.ret is not None:
            self.items.append(Do(self.result_is))
        if self.form in ("mem", "cmem"):
            self.items.append(Do(lambda w, ws: Serve.context_is(self, w, ws)))

    def result_is(self, w, ws):
        if not w.check:
            return
        got = Id(950).read(w, ws, self.ret.sz)
        a = TABLE.get(("src", 951), 8 * self.ret.sz)
        if got is None or not same_bits(ws, got, prim_bits(a, 8 * self.ret.sz)):
            raise Problem("content", "the result of apply is %s, expected the function's result" % (show_bits(got) if got else None))

    def source(self):
        self.build()
        args = ", ".join("%s a%d" % (f % i.cpp, k) for k, (f, i) in enumerate(zip(self.forms, self.insts)))
        sk = " ".join(s for k, i in enumerate(self.insts) for s in i.sinks("a%d" % k))
        ret = self.ret.cpp if self.ret else "void"
        fb = "{ %s%s zcall(5); %s }" % ("zx::sink<u64>(9002, (const void *)this == nullptr ? 0 : tag); " if "mem" in self.form else "", sk, "return zx::src<%s>(951);" % ret if self.ret else "")
        L = ["namespace h_%s {" % self.name] + self.g.decls
        pre, fn = "", "f"
        if self.form in ("fn", "fnp"):
            L.append("%s f(%s) %s" % (ret, args, fb))
            fn = "f" if self.form == "fn" else "&f"
        elif "mem" in self.form:
            L.append("struct ctx { u64 tag; %s f(%s)%s %s };" % (ret, args, " const" if self.form == "cmem" else "", fb))
            pre, fn = "%sctx c{zsrc_u64(9002)};" % ("const " if self.form == "cmem" else ""), "c, &ctx::f"
        elif self.form == "functor":
            L.append("struct fo { %s operator()(%s) const %s };" % (ret, args, fb))
            pre, fn = "fo f;", "f"
        elif self.form == "mlambda":
            pre = "int z = 0; auto f = [&z](%s) mutable -> %s %s;" % (args, ret, fb.replace("{", "{ z++;", 1))
        else:
            pre, fn = "", "[&](%s) -> %s %s" % (args, ret, fb)
        o = "".join(", " + x for x in options(self.cfg))
        L.append('extern "C" int zh_%s(const std::byte * p, usz n, usz pos) { std::span<const std::byte> data{p, n}; zb::in archive{data%s}; archive.position() = pos;' % (self.name, o))
        L.append("  %s" % pre)
        if not self.params:
            if self.ret:
                L.append("  zx::sink(950, zb::apply(%s, archive)); zsink_pos(archive.position()); return 0; }}" % fn)
            else:
                L.append("  zb::apply(%s, archive); zsink_pos(archive.position()); return 0; }}" % fn)
        elif self.ret:
            L.append("  auto r = zb::apply(%s, archive); zsink_pos(archive.position()); if (r.success()) { zx::sink(950, r.value()); return 0; } return int(r.error().code); }}" % fn)
        else:
            L.append("  zb::errc r = zb::apply(%s, archive); zsink_pos(archive.position()); return int(r.code); }}" % fn)
        return "\n".join(L)


class Client(H):
    """client.request<id>(arguments...) and client.response<id>()"""
    def __init__(self, name, params, ret, m, cfg, idc, idb, body, conv):
        H.__init__(self, name, [ret] if m == "r" else params, "r" if m == "r" else "w", cfg, {"rpc", "client", "nest"} | ({"r"} if m == "r" else {"grow"} if m == "g" else {"fixed"}), {"fit": True})
        self.params, self.ret, self.m, self.idc, self.idb, self.body_only, self.conv = params, ret, m, idc, idb, body, conv

    def build(self):
        H.build(self)
        g = types_.Gen("w", self.cfg)
        g.n, g.m = 600, 60
        other = [x.inst(g) for x in ((self.params if self.m == "r" else [self.ret]) if self.ret is not None or self.m == "r" else [])]
        pi, ri = (other, self.insts[0]) if self.m == "r" else (self.insts, other[0] if other else None)
        self.g.decls += [d for d in g.decls if d not in self.g.decls]
        ga = types_.Gen("w", self.cfg)
        self.cfg["post"] = "using namespace zpp::bits::literals; %s f(%s); void g(u8); using rpc = zb::rpc<zb::bind<g, %s>, zb::bind<f, %s>>;" % (
            ri.cpp if ri else "void", ", ".join(i.cpp for i in pi), OTHER.get(self.idc, "std::uint8_t{1}"), self.idc)
        if self.m == "r":
            self.cfg["stmt"] = "std::array<std::byte, 1> od; zb::out o{od}; rpc::client client{archive, o}; auto rr = client.response<%s>(); zb::errc r{}; if (rr.success()) { v0 = std::move(rr.value()); } else { r = rr.error(); }" % self.idc
        else:
            if not self.body_only:
                self.items.insert(0, Tag(self.idb))
            self.cfg["stmt"] = "std::array<std::byte, 1> od; zb::in i{od}; rpc::client client{i, archive}; zb::errc r = client.request%s<%s>(%s);" % (
                "_body" if self.body_only else "", self.idc, ", ".join((self.conv[k] if self.conv else "") + "v%d" % k for k in range(len(self.insts))))


OTHER = {"0x11223344u": "0x1u", '"v1::f"_sha256, 5': '"v1::g"_sha256, 5'}


def i8(x):
    return "std::uint8_t{%d}" % x, bytes([x])


def build(tier):
    out = []

    def serve(name, bs, cfg=None, **k):
        out.append(Serve("rpc_" + name, bs, cfg, **k))
    B = Binding
    P2 = Struct("RP", [U8, U32])
    VEC, STR = Vec(U16), Vec(U8)
    le4 = lambda x: x.to_bytes(4, "little")
    basic = lambda: [B(*i8(1), [U16, U32], U32), B(*i8(7), [U8], None), B(*i8(2), [], U16), B(*i8(0), [], None)]
    serve("basic", basic())
    serve("basic_sw", basic(), {"swap": True})
    serve("basic_s1", basic(), {"size": "u8"})
    for nm, cpp, w in (("u8", "std::byte(zsrc_u8(900))", 8),):
        serve("explicit_" + nm, basic(), explicit=cpp)
    ints = lambda: [B("0x11223344u", le4(0x11223344), [U16], U32), B("0x11223345u", le4(0x11223345), [U16], U32), B("0x44332211u", le4(0x44332211), [U8, U8], None)]
    serve("int", ints(), idint=True)
    serve("int_sw", ints(), {"swap": True}, idint=True)
    serve("int_explicit", ints(), explicit="zsrc_u32(900)")
    serve("one", [B(*i8(5), [U32], U8)])
    serve("strs", [B(*i8(1), [P2, VInt(U32)], Struct("RQ", [U8, U32])), B(*i8(2), [VEC], VEC), B(*i8(3), [Opt(U16)], Opt(U32))])
    serve("errc", [B(*i8(2), [], "errc"), B(*i8(3), [U16, U8], U8)])
    serve("probe", [B(*i8(1), [ProbeT(61), U8], ProbeT(62)), B(*i8(2), [ProbeT(63)], None)])
    serve("mem", [B(*i8(1), [U16, U32], U32, "mem"), B(*i8(2), [], None, "mem"), B(*i8(3), [], "errc", "mem"), B(*i8(4), [U8], U8)])
    serve("mem_sw", [B(*i8(1), [U16, U32], U32, "mem"), B(*i8(2), [], None, "mem"), B(*i8(3), [U8], None, "mem"), B(*i8(4), [], U16, "mem")], {"swap": True})
    serve("opq", [B(*i8(1), [U16, U32], U32, opaque="inout"), B(*i8(2), [U16], "errc", opaque="in"), B(*i8(3), [], U16, opaque="out"), B(*i8(4), [], None, opaque="none"), B(*i8(5), [U8], U8)])
    serve("opqspan", [B(*i8(1), [], None, opaque="span"), B(*i8(2), [], None, opaque="spanref"), B(*i8(3), [], "errc", opaque="span"), B(*i8(4), [], U16, opaque="spanref")])
    serve("opqmem", [B(*i8(1), [U16, U32], U32, "mem", "inout"), B(*i8(2), [U16], "errc", "mem", "in"), B(*i8(3), [], U16, "mem", "out"), B(*i8(4), [], None, "mem", "none"),
                     B(*i8(5), [], "errc", "mem", "span"), B(*i8(6), [], None, "mem", "spanref")])
    import hashlib
    h = lambda t, n: hashlib.sha256(t.encode()).digest()[:n]
    for n in (3, 5, 8, 20):
        serve("sha%d" % n, [B('"%s"_sha256, %d' % (t, n), h(t, n), p, r) for t, p, r in (("v1::one", [U16], U32), ("v1::two", [], U8), ("v1::three", [U8, U16], None))])
    serve("sha4", [B('"%s"_sha256_int' % t, h(t, 4), p, r) for t, p, r in (("v1::one", [U16], U32), ("v1::two", [], U8), ("v1::three", [U8, U16], None))], idint=True)

    def app(name, *a, **k):
        out.append(Apply("app_" + name, *a, **k))
    for f in ("lambda", "fn", "fnp", "mem", "cmem", "functor", "mlambda"):
        app(f + "_v", [U16, U8, U32], None, f)
        app(f + "_i", [U16, U8, U32], U16, f)
        app(f + "_0v", [], None, f)
        app(f + "_0i", [], U32, f)
        app(f + "_sw", [U32, U16], U64, f, cfg={"swap": True})
        app(f + "_vec", [Vec(U16), U8], U8, f, ["const %s &", "%s"], cfg={"size": "u16"})
    app("probe_a", [ProbeT(71), U8, ProbeT(72)], U8)
    app("probe_b", [ProbeT(71), U8, ProbeT(72)], None, "fn")
    app("opt", [Opt(U16), Struct("AP", [U8, U32])], U8, "fn", ["%s &&", "const %s &"])
    app("one", [VInt(U32)], U32, "mem")
    app("uptr", [UPtr(U32)], U8, "lambda", ["%s"])
    app("assoc", [Assoc("set", U16), U8], None, "fn", ["const %s &", "%s"]) if False else None

    # the client: a request is the identifier followed by the arguments, a response is the result
    def cl(name, fn, idc, idb, params, ret=None, cfg=None, body=False, conv=None, modes="wg"):

        for m in modes:
            c = dict(cfg or {})
            if m == "g":
                c["grow"] = True
            hh = Client("cli_" + name + "_" + m, params, ret, m, c, idc, idb, body, conv)
            out.append(hh)
        if ret is not None:
            out.append(Client("cli_" + name + "_r", params, ret, "r", dict(cfg or {}), idc, idb, body, conv))
    cl("basic", "f", "std::uint8_t{9}", bytes([9]), [U16, U8, U32], U32)
    cl("noarg", "f", "std::uint8_t{9}", bytes([9]), [], U16)
    cl("body", "f", "std::uint8_t{9}", bytes([9]), [U16, U8], U32, body=True)
    cl("int_sw", "f", "0x11223344u", bytes.fromhex("11223344"), [U16, U8], U16, cfg={"swap": True})
    cl("int", "f", "0x11223344u", bytes.fromhex("44332211"), [U16, U8], Struct("CR", [U8, U16]))
    cl("sha", "f", '"v1::f"_sha256, 5', h("v1::f", 5), [U32], U8)
    cl("conv", "f", "std::uint8_t{9}", bytes([9]), [U16, U32], U8, conv=["(long)", "(u64)"])
    cl("vec", "f", "std::uint8_t{9}", bytes([9]), [Vec(U16), U8], Vec(U8), cfg={"size": "u16"})
    cl("probe", "f", "std::uint8_t{9}", bytes([9]), [ProbeT(81), U8], ProbeT(82))
    cl("vint", "f", "std::uint8_t{9}", bytes([9]), [VInt(U32)], VInt(U32))
    return out
