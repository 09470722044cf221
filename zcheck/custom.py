"""operations that are not a single archive(value) call: accessors, construction options,
result objects, dispatch.  The harness body is C++ text; the oracle states for every exit
which effects and sink values are due."""
from . import spec
from .absint import IV, PV, TABLE, const, feq, fge, prim_bits, B0, iv_from_bits
from .harness import H
from .lin import Lin
from .spec import WS, same_bits, weq, show_bits, SEQ


ORACLES = {}        # by harness name: closures do not travel to the worker processes, which are forked and inherit this table


class HX(H):
    def __init__(self, name, body, oracle, mode="r", cfg=None, tags=(), pre="", defines=(), args=True):
        H.__init__(self, name, [], mode, cfg, tags, None, pre, defines)
        self.body = body
        ORACLES[name] = oracle

    def build(self):
        from . import types_
        self.g = types_.Gen(self.mode, self.cfg)
        self.insts, self.items = [], []

    def source(self):
        self.build()
        c = self.cfg
        bt = c.get("byte", "std::byte")
        L = ["namespace h_%s {" % self.name]
        if self.pre:
            L.append(self.pre)
        if c.get("grow"):
            L.append('extern "C" int zh_%s(usz pos) { zx::gbuf<%s> data;' % (self.name, bt))
        elif c.get("noargs"):
            L.append('extern "C" int zh_%s(%s * p, usz n, usz pos) {' % (self.name, bt))
        else:
            k = "" if self.mode == "w" or c.get("mutable_in") else "const "
            L.append('extern "C" int zh_%s(%s%s * p, usz n, usz pos) { std::span<%s%s> data{p, n};' % (self.name, k, bt, k, bt))
        L.append(self.body)
        L.append("}}")
        return "\n".join(L)

    def decide(self, e, rets):
        out = []
        if not rets:
            out.append(("content", "the operation never completes", None))
        for r in rets:
            for text, loc in spec.lifetimes(r.state.events):
                out.append(("lifetime", text, loc))
            live = []
            for ev in r.state.events:
                if ev.kind == "new":
                    live.append(ev)
                elif ev.kind == "delete":
                    live = [x for x in live if x.obj is not ev.obj]
            if live:
                out.append(("leak", "an object allocated during the operation is never released", live[0].loc))
            try:
                ORACLES[self.name](self, e, r, lambda rule, text, loc=None: out.append((rule, text, loc or r.loc)))
            except spec.Problem as p:
                out.append((p.rule, p.text, p.loc or r.loc))
        return out, {"exits": len(rets), "outcomes": len(rets), "success": 0, "error": 0}


class Sub:
    pass


def src(i, w=64):
    return Lin({TABLE.get(("src", i), w): 1}, 0)


def last_sink(r, i):
    for e in reversed(r.state.events):
        if e.kind == "sink" and e.id == i:
            return e
    return None


def ret_is(h, e, r, rep, want, what, rule="content"):
    ws = WS(r.state, const(0), r.state.events, const(0))
    want = want if isinstance(want, Lin) else const(want)
    if not isinstance(r.code, IV) or not (r.state.sys.entails_eq(r.code.lin - want)):
        rep(rule, "%s: the result is %s, expected %r" % (what, r.code, want))


def sink_is(e, r, rep, i, want, what, rule="content"):
    s = last_sink(r, i)
    want = want if isinstance(want, Lin) else const(want)
    if s is None or s.lin is None:
        rep(rule, "%s is not produced" % what)
        return
    if r.state.sys.entails_eq(s.lin - want):
        return
    ws = WS(r.state, const(0), r.state.events, const(0))
    wb = e.bits(r.state, IV(64, want))
    if same_bits(ws, s.bits, wb[:len(s.bits)]) and all(same_bits(ws, (b,), (B0,)) for b in wb[len(s.bits):]):
        return
    rep(rule, "%s is %s, expected %r" % (what, show_bits(s.bits), want), s.loc)


def view_is(e, r, rep, i, obj, off, ln, what, rule="content"):
    ev = [x for x in r.state.events if x.kind == "view" and x.id == i]
    if not ev:
        rep(rule, "%s is not produced" % what)
        return
    v = ev[-1]
    if not (isinstance(v.ptr, PV) and v.ptr.obj is not None and v.ptr.obj.meta.get("root") == obj.meta.get("root") and r.state.sys.entails_eq(v.ptr.off - off)):
        rep(rule, "%s starts at %r, expected offset %r of the data" % (what, v.ptr, off), v.loc)
    if not r.state.sys.entails_eq(v.len - ln):
        rep(rule, "%s has length %r, expected %r" % (what, v.len, ln), v.loc)


def seq_events(r):
    return [e for e in r.state.events if e.kind in SEQ or e.kind in ("write", "copy", "fill") and e.root.startswith("buf")]
