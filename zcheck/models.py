"""Engine hooks for the opaque externs declared in harness/model.h."""
from .absint import (Unsupported, Result, IV, PV, FV, Ev, Obj, prim_bits, width, TABLE, const, feq, fge, fne, B0)
from .lin import Lin

MAXOBJ = (1 << 63) - 1


def cint(v):
    return v.lin.k


def h_src(e, st, name, args, i, loc):
    w = int(name[len("zsrc_u"):])
    a = TABLE.get(("src", cint(args[0])), w)
    return [(st, IV(w, Lin({a: 1}, 0), prim_bits(a, w)))]


def h_sink(e, st, name, args, i, loc):
    w = int(name[len("zsink_u"):])
    v = args[1]
    if isinstance(v, IV):
        bb = tuple(e.bits(st, v))
        bb = (bb + (B0,) * w)[:w]
        lin = v.lin
    else:
        bb, lin = None, None
    st.ev(Ev("sink", loc, id=cint(args[0]), w=w, bits=bb, lin=lin))
    return [(st, None)]


def h_pos(e, st, name, args, i, loc):
    st.ev(Ev("pos", loc, lin=args[0].lin))
    return [(st, None)]


def h_ptr(e, st, name, args, i, loc):
    st.ev(Ev("view", loc, id=cint(args[0]), ptr=args[1], len=args[2].lin))
    return [(st, None)]


def h_mark(e, st, name, args, i, loc):
    st.ev(Ev("mark%d" % cint(args[0]), loc))
    return [(st, None)]


# -- growing buffer --------------------------------------------------------
def gobj(e, st, cid):
    c = "g%d" % cid
    o = st.objs.get(c)
    if o is None:
        o = e.mcache.get(c)
    if o is None:
        n = TABLE.lin("n" if cid == 0 else "n%d" % cid, 63)
        o = e.mcache[c] = Obj("buf" if cid == 0 else "buf%d" % cid, "buf", n, root="buf" if cid == 0 else "buf%d" % cid, cell=c)
        e.region_objs.append(o)
    st.objs[c] = o
    return o


def h_gdata(e, st, name, args, i, loc):
    return [(st, PV(gobj(e, st, cint(args[0])), const(0)))]


def h_gsize(e, st, name, args, i, loc):
    return [(st, IV(64, gobj(e, st, cint(args[0])).extent))]


_EPOCH = {}


def reset():
    _EPOCH.clear()


def epoch(e, st, c, o, n, loc):
    """new storage generation of a model object with size n"""
    key = (c, id(o), n.key())
    no = _EPOCH.get(key)
    if no is None:
        no = Obj(o.name + "'", o.kind, n, **o.meta)
        _EPOCH[key] = no
        e.region_objs.append(no)
    st.objs[c] = no
    return no


def h_gresize(e, st, name, args, i, loc):
    cid = cint(args[0])
    o = gobj(e, st, cid)
    n = args[1].lin
    out = []
    # std::vector::resize throws length_error beyond PTRDIFF_MAX: not a normal continuation
    for s in st.assume(fge(const(MAXOBJ) - n)):
        s.ev(Ev("gresize", loc, id=cid, n=n, old=o.extent))
        epoch(e, s, "g%d" % cid, o, n, loc)
        out.append((s, None))
    return out


def h_greserve(e, st, name, args, i, loc):
    cid = cint(args[0])
    o = gobj(e, st, cid)
    st.ev(Ev("greserve", loc, id=cid, n=args[1].lin))
    epoch(e, st, "g%d" % cid, o, o.extent, loc)
    return [(st, None)]


# -- containers ------------------------------------------------------------
def mobj(e, st, cid, esz):
    c = "m%d" % cid
    o = st.objs.get(c)
    if o is None:
        o = e.mcache.get(c)
    if o is None:
        a = TABLE.get(("msize", cid), ub=MAXOBJ // esz)
        n = Lin({a: 1}, 0)
        o = e.mcache[c] = Obj("c%d" % cid, "cont", n.scale(esz), root="c%d" % cid, cell=c, esz=esz)
        o.meta["count"] = n
        e.region_objs.append(o)
    st.objs[c] = o
    return o


def h_mdata(e, st, name, args, i, loc):
    return [(st, PV(mobj(e, st, cint(args[0]), cint(args[1])), const(0)))]


def h_msize(e, st, name, args, i, loc):
    o = mobj(e, st, cint(args[0]), cint(args[1]))
    return [(st, IV(64, o.meta["count"]))]


def h_mresize(e, st, name, args, i, loc):
    cid, n, esz = cint(args[0]), args[1].lin, cint(args[2])
    o = mobj(e, st, cid, esz)
    out = []
    for s in st.assume(fge(const(MAXOBJ) - n.scale(esz))):
        s.ev(Ev("mresize", loc, id=cid, n=n, esz=esz))
        no = Obj(o.name, "cont", n.scale(esz), **o.meta)
        key = ("m%d" % cid, id(o), n.key())
        no = _EPOCH.setdefault(key, no)
        no.meta["count"] = n
        if no not in e.region_objs:
            e.region_objs.append(no)
        s.objs["m%d" % cid] = no
        out.append((s, None))
    return out


def h_mreserve(e, st, name, args, i, loc):
    st.ev(Ev("mreserve", loc, id=cint(args[0]), n=args[1].lin, esz=cint(args[2])))
    return [(st, None)]


def h_mclear(e, st, name, args, i, loc):
    st.ev(Ev("mclear", loc, id=cint(args[0])))
    return [(st, None)]


def h_mbegin(e, st, name, args, i, loc):
    st.ev(Ev("ins_begin", loc, id=cint(args[0])))
    return [(st, None)]


def h_mend(e, st, name, args, i, loc):
    st.ev(Ev("ins_end", loc, id=cint(args[0])))
    return [(st, None)]


# -- opaque user code ------------------------------------------------------
def h_probe(e, st, name, args, i, loc):
    kind, self_, pos, size, np = args
    n = e.fresh_n
    key = ("probe",) + tuple(loc[0][:2]) if loc else ("probe",)
    idx = sum(1 for ev in st.events if ev.kind == "probe")
    depth = sum(1 for ev in st.events if ev.kind == "mark")
    rc = TABLE.get(("rc", cint(kind), depth, idx), 31)
    q = TABLE.get(("np", cint(kind), depth, idx), 63)
    rcl, ql = Lin({rc: 1}, 0), Lin({q: 1}, 0)
    e.oblige("position-in-range", st.sys.entails(size.lin - pos.lin), loc,
             "archive position %r handed to user serialization with %r bytes" % (pos.lin, size.lin))
    out = []
    ok = st.copy()
    growing = e.probe_grows
    for s in ok.assume(feq(rcl)):
        out.append((s, True))
    for s in st.assume(fge(rcl - 1)):
        out.append((s, False))
    res = []
    for s, good in out:
        lim = size.lin
        s.sys.add(ql - pos.lin)
        if growing:
            n2 = TABLE.lin(("gn", cint(kind), depth, idx), 63)
            o = gobj(e, s, 0)
            s.sys.add(n2 - o.extent)
            s.sys.add(n2 - ql)
            epoch(e, s, "g0", o, n2, loc)
        else:
            s.sys.add(lim - ql)
        s.ev(Ev("probe", loc, id=cint(kind), this=self_, pos=pos.lin, size=size.lin, np=ql, rc=rcl))
        for s2 in e.store(s, np, IV(64, ql, prim_bits(q, 63) + (B0,)), 8, 64, loc):
            res.append((s2, IV(32, const(0)) if good else IV(32, rcl)))
    return res


def h_call(e, st, name, args, i, loc):
    st.ev(Ev("call", loc, id=cint(args[0])))
    a = TABLE.get(("callret", cint(args[0])), 32)
    return [(st, IV(32, Lin({a: 1}, 0), prim_bits(a, 32)))]


def h_ctor(e, st, name, args, i, loc):
    st.ev(Ev(name[1:], loc, id=cint(args[0]), ptr=args[1]))
    return [(st, None)]


def h_new(e, st, name, args, i, loc):
    """operator new: a fresh object; failure does not return"""
    n = args[0].lin
    key = (tuple(map(str, loc)), sum(1 for ev in st.events if ev.kind == "new"))
    o = e.mcache.get(("heap",) + key)
    if o is None or o.extent != n:
        o = e.mcache[("heap",) + key] = Obj("heap%d" % len(e.mcache), "local", n, heap=True)
    st.ev(Ev("new", loc, obj=o, n=n))
    st.mem.pop(o, None)
    return [(st, PV(o, const(0)))]


def h_delete(e, st, name, args, i, loc):
    p = args[0]
    if isinstance(p, PV) and p.obj is None:
        return [(st, None)]
    if not isinstance(p, PV):
        raise Unsupported("delete of %r" % (p,))
    dead = any(ev.kind == "delete" and ev.obj is p.obj for ev in st.events)
    e.oblige("no-double-delete", not dead and p.obj.meta.get("heap", False), loc, "delete of %s which is not a live heap object" % p.obj.name)
    st.ev(Ev("delete", loc, obj=p.obj))
    st.mem.pop(p.obj, None)
    return [(st, None)]


def h_throw(e, st, name, args, i, loc):
    e.exits.append(Result("throw", st, loc, "noreturn"))
    return []


def h_guard(e, st, name, args, i, loc):
    e.oblige("shared-state", False, loc, "a local object with static storage is initialised at run time")
    return [(st, e.fresh(32, "guard"))]


HOOKS = {
    "__cxa_allocate_exception": h_throw, "__cxa_guard_*": h_guard,
    "_Znwm": h_new, "_ZdlPv": h_delete, "_ZdlPvm": h_delete,
    "zsrc_*": h_src, "zsink_pos": h_pos, "zsink_ptr": h_ptr, "zsink_u*": h_sink, "zmark": h_mark,
    "zg_data": h_gdata, "zg_size": h_gsize, "zg_resize": h_gresize, "zg_reserve": h_greserve,
    "zm_data": h_mdata, "zm_size": h_msize, "zm_resize": h_mresize, "zm_reserve": h_mreserve,
    "zm_clear": h_mclear, "zm_begin": h_mbegin, "zm_end": h_mend,
    "zprobe": h_probe, "zcall": h_call, "zctor": h_ctor, "zdtor": h_ctor,
}

