"""Abstract interpreter over normalised LLVM IR (as dumped by tool/irdump).

Domain: per control-flow point a set of abstract states, partitioned by the
*effect typestate* (what has been read/written/called so far); each carries
 - a polyhedron of linear facts over the integer atoms (lin.System),
 - a value numbering of SSA values (linear expression + GF(2)-affine bits),
 - an abstract store of local objects.
States with the same typestate and values are joined (facts kept when entailed
by both); loops are summarised by inductive header invariants found by template
(Houdini) iteration, never by bounded unrolling.  Nothing is executed: all
inputs are opaque atoms and every verdict is an entailment in the linear domain.
"""
import itertools
from .lin import Lin, System, TABLE, const, add_def, interval
from . import lin as _lin

MAXSTATES = 600


class Unsupported(Exception):
    pass


class Obj:
    _n = itertools.count()

    def __init__(self, name, kind, extent, **kw):
        self.name = name
        self.kind = kind          # buf | local | src | dst | global | stale
        self.extent = extent      # Lin (bytes) or None
        self.meta = kw

    def __repr__(self):
        return self.name


class IV:
    __slots__ = ("w", "lin", "bits", "form")

    def __init__(self, w, lin, bits=None, form=None):
        self.w = w
        self.lin = lin
        self.bits = bits
        self.form = form

    def key(self):
        return ("i", self.w, self.lin.key(), self.form if self.form is None else fkey(self.form))

    def __repr__(self):
        return "i%d:%r" % (self.w, self.lin)


class PV:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def key(self):
        return ("p", id(self.obj) if self.obj else 0, self.off.key())

    def __repr__(self):
        return "&%s+%r" % (self.obj.name if self.obj else "null", self.off)


class AV:
    """aggregate"""
    __slots__ = ("el",)

    def __init__(self, el):
        self.el = el

    def key(self):
        return ("a",) + tuple(e.key() for e in self.el)

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self.el))


class FV:
    """function reference"""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def key(self):
        return ("f", self.name)

    def __repr__(self):
        return "@" + self.name


class UV:
    """undefined / poison value"""
    __slots__ = ("ty",)

    def __init__(self, ty):
        self.ty = ty

    def key(self):
        return ("u",)

    def __repr__(self):
        return "undef"


# ---- boolean forms --------------------------------------------------------
T = ("true",)
F = ("false",)


def fkey(f):
    return tuple(x.key() if isinstance(x, Lin) else (fkey(x) if isinstance(x, tuple) else x) for x in f)


def fnot(f):
    t = f[0]
    if t == "true":
        return F
    if t == "false":
        return T
    if t == "ge":
        return ("ge", -f[1] - 1)
    if t == "eq":
        return ("ne", f[1])
    if t == "ne":
        return ("eq", f[1])
    if t == "and":
        return ("or", fnot(f[1]), fnot(f[2]))
    if t == "or":
        return ("and", fnot(f[1]), fnot(f[2]))
    raise AssertionError(f)


def fge(l):
    if l.is_const():
        return T if l.k >= 0 else F
    return ("ge", l)


def feq(l):
    if l.is_const():
        return T if l.k == 0 else F
    return ("eq", l)


def fne(l):
    return fnot(feq(l))


def fand(a, b):
    if a == T:
        return b
    if b == T:
        return a
    if a == F or b == F:
        return F
    return ("and", a, b)


def for_(a, b):
    return fnot(fand(fnot(a), fnot(b)))


# ---- bits (GF(2)-affine) --------------------------------------------------
B0 = (frozenset(), 0)
B1 = (frozenset(), 1)


def bxor(a, b):
    return (a[0] ^ b[0], a[1] ^ b[1])


BOOLFORM = {}       # 1-bit atom -> the condition it stands for
ATOM_BITS = {}      # atom -> bits tuple for composite atoms
CTLZ = []           # (z lin, x lin, width) of every leading-zero count seen


def reset():
    _lin.reset_table()
    ATOM_BITS.clear()
    BOOLFORM.clear()
    BYTE_INFO.clear()
    del CTLZ[:]
    CONG.clear()


def prim_bits(atom, w):
    b = ATOM_BITS.get(atom)
    if b is None:
        b = tuple((frozenset([(atom, i)]), 0) for i in range(w))
        ATOM_BITS[atom] = b
    return b


def const_bits(v, w):
    return tuple(B1 if (v >> i) & 1 else B0 for i in range(w))


def strip(bits):
    n = len(bits)
    while n and bits[n - 1] == B0:
        n -= 1
    return bits[:n]


def iv_from_bits(w, bits):
    core = strip(bits)
    if all(not b[0] for b in core):
        return IV(w, const(sum(b[1] << i for i, b in enumerate(core))), bits)
    if not core[0][0]:
        s = next(i for i, b in enumerate(core) if b[0])
        return IV(w, iv_from_bits(w - s, core[s:]).lin.scale(1 << s) + sum(b[1] << i for i, b in enumerate(core[:s])), bits)
    # is it precisely an existing atom?
    first = core[0]
    if len(first[0]) == 1 and first[1] == 0:
        (a, i), = first[0]
        if i == 0:
            pb = ATOM_BITS.get(a)
            if pb is not None and strip(pb) == core:
                return IV(w, Lin({a: 1}, 0), bits)
    key = ("bits", bkey(core))
    a = TABLE.get(key, len(core))
    ATOM_BITS.setdefault(a, core)
    return IV(w, Lin({a: 1}, 0), bits)


def bkey(bits):
    return tuple((tuple(sorted(b[0])), b[1]) for b in bits)


def show_bits(bits):
    def sb(b):
        s = "^".join("%s.%d" % (_lin.atom_name(a), i) for a, i in sorted(b[0]))
        return s if not b[1] else (s + "^1" if s else "1")
    out, i = [], 0
    while i < len(bits):
        b = bits[i]
        if len(b[0]) == 1 and not b[1]:
            (a, s), = b[0]
            j = i
            while j < len(bits) and bits[j] == (frozenset([(a, s + j - i)]), 0):
                j += 1
            out.append("%s[%d..%d]" % (_lin.atom_name(a), s, s + j - i - 1))
            i = j
        else:
            j = i
            while j < len(bits) and bits[j] == b:
                j += 1
            out.append("%s*%d" % (sb(b) or "0", j - i))
            i = j
    return "<" + " ".join(out) + ">"


# ---- events ---------------------------------------------------------------
class Ev:
    """one effect.  kind in: write, read, copy, call, loop, alloc, ..."""
    __slots__ = ("kind", "d", "loc", "_k")

    def __init__(self, kind, loc, **d):
        self.kind = kind
        self.loc = loc
        self.d = d
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (self.kind,) + tuple((k, vkey(v)) for k, v in sorted(self.d.items()))
        return self._k

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return "%s(%s)" % (self.kind, ", ".join("%s=%s" % (k, show_bits(v) if k == "bits" and v else v) for k, v in self.d.items()))


def vkey(v):
    if hasattr(v, "key"):
        return v.key()
    if isinstance(v, (list, tuple)):
        return tuple(vkey(x) for x in v)
    if isinstance(v, Obj):
        return id(v)
    return v


def prims(l):
    """atoms of l together with the primitive atoms their bits are made of"""
    r = set(l.c)
    for a in l.c:
        for b in ATOM_BITS.get(a, ()):
            r.update(p for p, _ in b[0])
    return r


class State:
    __slots__ = ("env", "sys", "mem", "events", "objs")

    def __init__(self):
        self.env = {}
        self.sys = System()
        self.mem = {}       # Obj -> {off: (size, value)}
        self.events = ()
        self.objs = {}      # model name -> current Obj (epochs)

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.sys = self.sys.copy()
        s.mem = {o: dict(m) for o, m in self.mem.items()}
        s.events = self.events
        s.objs = dict(self.objs)
        return s

    def ev(self, e):
        self.events = self.events + (e,)

    # -- facts
    def assume(self, f):
        """returns list of states (this one mutated)"""
        t = f[0]
        if t == "true":
            return [self]
        if t == "false":
            return []
        if t == "ge":
            self.sys.add(f[1])
            self._post(f[1])
            return [] if self.sys.bottom or self.sys.infeasible() else [self]
        if t == "eq":
            self.sys.add_eq(f[1])
            self._post(f[1])
            return [] if self.sys.bottom or self.sys.infeasible() else [self]
        if t == "ne":
            if self.sys.entails_eq(f[1]):
                return []
            self.sys.add_ne(f[1])
            self._post(f[1])
            return [] if self.sys.bottom else [self]
        if t == "and":
            r = []
            for s in self.assume(f[1]):
                r += s.assume(f[2])
            return r
        if t == "or":
            o = self.copy()
            r = self.assume(f[1])
            for s in o.assume(fnot(f[1])):
                r += s.assume(f[2])
            return r
        raise AssertionError(f)

    def _post(self, l):
        # reduced product: the value of a top-bit atom bounds the atom it belongs to
        if len(l.c) == 1:
            (a, _), = l.c.items()
            pb = ATOM_BITS.get(a)
            if pb is not None and len(pb) == 1 and len(pb[0][0]) == 1:
                (q, i), = pb[0][0]
                if q != a and TABLE.ub[q] == (2 << i) - 1:
                    x = Lin({a: 1}, 0)
                    one = self.sys.entails(x - 1)
                    if one or self.sys.entails(-x):
                        if one != bool(pb[0][1]):
                            self.sys.add(Lin({q: 1}, -(1 << i)))
                        else:
                            self.sys.add(Lin({q: -1}, (1 << i) - 1))
        # reduced product with the leading-zero-count atoms
        if CTLZ:
            mine = prims(l)
            for z, x, w in CTLZ:
                if mine & prims(x):
                    self.refine_ctlz(z, x, w)

    def refine_ctlz(self, z, x, w):
        # x >= 2^k  =>  z <= w-1-k ;  x < 2^k => z >= w-k
        lo = self.lower_pow(x, w)
        hi = self.upper_pow(x, w)
        if lo >= 0:
            self.sys.add(const(w - 1 - lo) - z)
        if hi <= w:
            self.sys.add(z - const(w - hi))

    def lower_pow(self, x, w):
        """largest k with facts => x >= 2^k, or -1"""
        lo, hi = -1, w - 1
        if not self.sys.entails(x - 1):
            return -1
        lo = 0
        while lo < hi:
            m = (lo + hi + 1) // 2
            if self.sys.entails(x - (1 << m)):
                lo = m
            else:
                hi = m - 1
        return lo

    def upper_pow(self, x, w):
        """smallest k with facts => x < 2^k"""
        lo, hi = 0, w
        if len(x.c) == 1 and x.k == 0:
            (a, c), = x.c.items()
            bits = ATOM_BITS.get(a)
            if c == 1 and bits is not None:
                n = len(bits)
                while n:
                    b = bits[n - 1]
                    if b == B0:
                        n -= 1
                        continue
                    if b[1] == 0 and len(b[0]) == 1:
                        (p, j), = b[0]
                        if p != a and self.sys.entails(const((1 << j) - 1) - Lin({p: 1}, 0)):
                            n -= 1
                            continue
                    break
                hi = min(hi, n)
        while lo < hi:
            m = (lo + hi) // 2
            if self.sys.entails(const((1 << m) - 1) - x):
                hi = m
            else:
                lo = m + 1
        return lo

    def decide(self, f):
        """True/False/None"""
        t = f[0]
        if t == "true":
            return True
        if t == "false":
            return False
        if t == "ge":
            if self.sys.entails(f[1]):
                return True
            if self.sys.entails(-f[1] - 1):
                return False
            return None
        if t in ("eq", "ne"):
            r = None
            if self.sys.entails_eq(f[1]):
                r = True
            elif self.sys.entails(f[1] - 1) or self.sys.entails(-f[1] - 1) or f[1] in self.sys.neq or (-f[1]) in self.sys.neq:
                r = False
            else:
                # disequality by bit patterns: handled by caller
                r = None
            return r if t == "eq" or r is None else (not r)
        a = self.decide(f[1])
        b = self.decide(f[2])
        if t == "and":
            if a is False or b is False:
                return False
            return True if a and b else None
        if a or b:
            return True
        return False if a is False and b is False else None

    def key(self, live):
        ms = []
        for o, m in self.mem.items():
            if m:
                ms.append((id(o), tuple(sorted((k, (v[0], v[1].key())) for k, v in m.items()))))
        ms.sort()
        return (tuple(e.key() for e in self.events),
                tuple((i, self.env[i].key()) for i in live if i in self.env),
                tuple(ms), tuple(sorted((k, id(o)) for k, o in self.objs.items())))


def join_facts(a, b):
    """polyhedral weak join of two states with identical values"""
    s = System()
    for z, x, w in CTLZ:
        (az, _), = z.c.items()
        for p, q in ((a, b), (b, a)):
            if any(az in l.c or any(az in d[0] for t in l.c for d in _lin.DEFS.get(t, ())) for l in q.sys.lins()):
                p.refine_ctlz(z, x, w)
    for l in a.sys.lins():
        if b.sys.entails(l):
            s.add(l)
    for l in b.sys.lins():
        if a.sys.entails(l):
            s.add(l)
    for e in a.sys.neq:
        if e in b.sys.neq:
            s.neq.add(e)
    r = a
    r.sys = s
    return r


DISJUNCTS = 24
CONG = {}       # atom -> (width, wide expression it is the low bits of)


def lacking(a, b, limit=2):
    """facts of a that b does not guarantee (at most limit of them)"""
    out, todo = [], []
    bf = b.sys.facts
    for key, (c, k) in a.sys.facts.items():
        o = bf.get(key)
        if o is not None and o[1] <= k:
            continue
        n = bf.get(tuple([(x, -v) for x, v in key]))
        if n is not None and n[1] + k < 0:
            out.append(("ge", Lin(c, k)))
            if len(out) >= limit:
                return out
        else:
            todo.append(Lin(c, k))
    for l in todo:
        if not b.sys.entails(l):
            out.append(("ge", l))
            if len(out) >= limit:
                return out
    for e in a.sys.neq:
        if e not in b.sys.neq and (-e) not in b.sys.neq and not b.sys.entails(e - 1) and not b.sys.entails(-e - 1):
            out.append(("ne", e))
            if len(out) >= limit:
                return out
    return out


def link_ctlz(a, b):
    for z, x, w in CTLZ:
        (az, _), = z.c.items()
        for p, q in ((a, b), (b, a)):
            if any(az in l.c or any(az in d[0] for t in l.c for d in _lin.DEFS.get(t, ())) for l in q.sys.lins()):
                p.refine_ctlz(z, x, w)


def add_disjunct(group, st):
    """bounded disjunctive completion: exact joins where possible, at most DISJUNCTS
    polyhedra per typestate, beyond that the weak join"""
    for i, o in enumerate(group):
        link_ctlz(o, st)
        A = lacking(o, st)
        if not A:
            return
        B = lacking(st, o, 2 if len(A) < 2 else 1)
        if not B:
            group[i] = st
            return
        if len(A) == 1 and len(B) == 1 and A[0][0] == "ge" and B[0][0] == "ge" and (A[0][1] == -B[0][1] - 1):
            group[i] = join_facts(o, st)
            return
    if len(group) < DISJUNCTS:
        group.append(st)
        return
    group[-1] = join_facts(group[-1], st)


class Func:
    def __init__(self, d):
        self.name = d["name"]
        self.args = d["args"]
        self.ret = d["ret"]
        self.internal = d["internal"]
        self.blocks = {b["name"]: b["insts"] for b in d["blocks"]}
        self.order = [b["name"] for b in d["blocks"]]
        self.entry = self.order[0]
        self.succ = {}
        for n, ins in self.blocks.items():
            t = ins[-1]
            if t["op"] == "switch":
                s = [t["default"]] + [c[1] for c in t["cases"]]
            else:
                s = t.get("succ", [])
            self.succ[n] = list(dict.fromkeys(s))
        self._loops()
        self._live()

    def _rpo(self):
        seen, out = set(), []
        st = [(self.entry, iter(self.succ[self.entry]))]
        seen.add(self.entry)
        while st:
            n, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                out.append(n)
                st.pop()
        return out[::-1]

    def _loops(self):
        self.rpo = self._rpo()
        idx = {b: i for i, b in enumerate(self.rpo)}
        self.idx = idx
        pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                pred[s].append(b)
        self.pred = pred
        # dominators
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                n = None
                for p in pred[b]:
                    if p in idom:
                        if n is None:
                            n = p
                        else:
                            x, y = p, n
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            n = x
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        self.dom = dom
        loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if idx[s] <= idx[b]:
                    if not dom(s, b):
                        raise Unsupported("irreducible control flow in " + self.name)
                    body = loops.setdefault(s, {s})
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x not in body:
                            body.add(x)
                            wl += pred[x]
        self.loops = loops

    def _live(self):
        use, deff = {}, {}
        phi_use = {}

        def ops(i):
            for k in ("ops",):
                for o in i.get(k, []):
                    if o and o[0] == "v":
                        yield o[1]
            for k in ("cond", "base", "callee"):
                o = i.get(k)
                if o and o[0] == "v":
                    yield o[1]
            for v in i.get("vars", []):
                if v[0][0] == "v":
                    yield v[0][1]
        for b in self.rpo:
            u, d = set(), set()
            for i in self.blocks[b]:
                if i["op"] == "phi":
                    for o, p in i["inc"]:
                        if o[0] == "v":
                            phi_use.setdefault((p, b), set()).add(o[1])
                else:
                    for o in ops(i):
                        if o not in d:
                            u.add(o)
                if i["id"]:
                    d.add(i["id"])
            use[b], deff[b] = u, d
        live = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                out = set()
                for s in self.succ[b]:
                    out |= live[s]
                    out |= phi_use.get((b, s), set())
                n = use[b] | (out - deff[b])
                if n != live[b]:
                    live[b] = n
                    ch = True
        self.live = {b: sorted(v) for b, v in live.items()}


class Result:
    def __init__(self, code, state, loc, kind="ret"):
        self.code = code
        self.state = state
        self.loc = loc
        self.kind = kind

    @property
    def events(self):
        return self.state.events

    @property
    def sys(self):
        return self.state.sys


class Engine:
    def __init__(self, module, hooks=None, trace_reads=False):
        self.funcs = {}
        self.mod = module
        self.raw = {f["name"]: f for f in module["functions"]}
        self.globals = {g["name"]: g for g in module["globals"]}
        self.gobj = {}
        self.hooks = hooks or {}
        self.obligations = []     # (rule, ok, loc, text)
        self.mute = 0
        self.exits = []
        self.depth = 0
        self.fresh_n = itertools.count()
        self.cands = None
        self.stats = {"blocks": 0, "states": 0, "loops": 0, "insts": 0}
        self.probe_grows = False
        self.low_bytes = False     # input bytes are below 128 (a stated restriction of single instances)
        self.quiet_loops = False   # record loops without effects too

    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            f = self.funcs[name] = Func(self.raw[name])
        return f

    # -- obligations
    def oblige(self, rule, ok, loc, text):
        if not self.mute:
            self.obligations.append((rule, ok, loc, text))

    def fresh(self, w, why="t"):
        a = TABLE.get((why, next(self.fresh_n)), w)
        return IV(w, Lin({a: 1}, 0), prim_bits(a, w))

    # -- operands
    def val(self, st, o):
        t = o[0]
        if t == "v":
            try:
                return st.env[o[1]]
            except KeyError:
                raise Unsupported("value %s undefined" % o[1])
        if t == "c":
            v = int(o[1])
            iv = IV(o[2], const(v))
            if o[2] == 1:
                iv.form = T if v else F
            return iv
        if t == "null":
            return PV(None, const(0))
        if t in ("poison", "undef"):
            return UV(o[1])
        if t == "g":
            n = o[1]
            if n in self.globals:
                ob = self.gobj.get(n)
                if ob is None:
                    g = self.globals[n]
                    ob = self.gobj[n] = Obj("@" + n, "global", const(g["size"]), g=g)
                return PV(ob, const(o[2]))
            return FV(n)
        if t == "zero":
            return self.zero_of(o[1])
        raise Unsupported("operand %r" % (o,))

    def zero_of(self, ty):
        return UV(ty)

    def as_int(self, v, w, why="undef"):
        if isinstance(v, IV):
            return v
        if isinstance(v, UV):
            return self.fresh(w, "undef")
        if isinstance(v, PV):
            return self.ptr2int(v)
        raise Unsupported("int expected, got %r" % (v,))

    def ptr2int(self, v):
        if v.obj is None:
            return IV(64, v.off)
        a = TABLE.get(("addr", v.obj.name, id(v.obj)), ub=(1 << 63))
        return IV(64, Lin({a: 1}, 0) + v.off)

    def bits(self, st, v):
        """bit vector of an IV (reifying a linear expression if necessary)"""
        if v.bits is not None:
            return v.bits
        if v.lin.is_const():
            return const_bits(v.lin.k % (1 << v.w), v.w)
        if v.form is not None and v.w == 1:
            pass
        if len(v.lin.c) == 1 and v.lin.k == 0:
            (a, c), = v.lin.c.items()
            if c == 1:
                u = TABLE.ub[a]
                aw = u.bit_length() if u is not None else v.w
                pb = ATOM_BITS.get(a)
                if pb is None:
                    pb = prim_bits(a, min(aw, v.w))
                pb = tuple(pb[:v.w]) + (B0,) * (v.w - len(pb))
                return pb
            # power-of-two multiple
            if c > 0 and c & (c - 1) == 0:
                s = c.bit_length() - 1
                b = self.bits(st, IV(v.w, Lin({a: 1}, 0)))
                return ((B0,) * s + tuple(b))[:v.w]
        a = TABLE.get(("lin", v.lin.key()), v.w)
        l = Lin({a: 1}, 0)
        st.sys.add_eq(l - v.lin)
        return prim_bits(a, v.w)

    def form(self, st, v):
        """boolean form of an i1 value"""
        if isinstance(v, UV):
            a = self.fresh(1, "undefbool")
            return fne(a.lin)
        if v.form is not None:
            return v.form
        return fne(v.lin)

    def mkbool(self, f):
        if f == T:
            return IV(1, const(1), None, T)
        if f == F:
            return IV(1, const(0), None, F)
        if f[0] == "ne" and len(f[1].c) == 1 and f[1].k == 0:
            (a, c), = f[1].c.items()
            if c == 1 and TABLE.ub[a] == 1:
                return IV(1, Lin({a: 1}, 0), prim_bits(a, 1), f)
        a = TABLE.get(("bool", fkey(f)), 1)
        BOOLFORM[a] = f
        return IV(1, Lin({a: 1}, 0), prim_bits(a, 1), f)

    # -- memory
    def load(self, st, p, size, bits, ty, loc):
        """returns list of (state, value)"""
        if isinstance(p, UV):
            self.oblige("no-undef-pointer", False, loc, "load through undefined pointer")
            return [(st, self.fresh_ty(ty, bits))]
        if not isinstance(p, PV):
            raise Unsupported("load via %r" % (p,))
        o = p.obj
        if o is None:
            self.oblige("no-null-deref", False, loc, "load through a null pointer")
            return []
        self.check_access(st, "read", p, const(size), loc)
        if o.kind == "global":
            return [(st, self.load_global(st, p, size, bits, ty))]
        if o.kind == "local":
            if p.off.is_const():
                return [(st, self.load_local(st, o, p.off.k, size, bits, ty, loc))]
            # constant-divisible symbolic offset into a local array
            return [(st, self.fresh_ty(ty, bits))]
        # region object
        v = self.load_region(st, o, p.off, size, loc)
        if o.kind in ("buf",) and not self.mute:
            pass
        if ty == "p":
            return [(st, self.fresh_ty(ty, bits))]
        return [(st, IV(bits, v.lin, v.bits[:bits] if v.bits else None))]

    def undef(self, w, inst, k):
        a = TABLE.get(("undef", inst.get("id"), k), w)
        return IV(w, Lin({a: 1}, 0), prim_bits(a, w))

    def fresh_ty(self, ty, bits):
        if ty == "p":
            ob = Obj("unknown%d" % next(self.fresh_n), "unknown", None)
            return PV(ob, const(0))
        return self.fresh(bits, "unk")

    def load_global(self, st, p, size, bits, ty):
        g = p.obj.meta["g"]
        if not g["const"] or "init" not in g or not p.off.is_const():
            return self.fresh_ty(ty, bits)

        def get(init, off):
            if "bytes" in init:
                return sum(init["bytes"][off + i] << (8 * i) for i in range(size))
            if "zero" in init:
                return 0
            if "ref" in init:
                return init["ref"]
            if "agg" in init:
                best = None
                for o, e in init["agg"]:
                    if o <= off:
                        best = (o, e)
                return get(best[1], off - best[0])
        try:
            r = get(g["init"], p.off.k)
        except (IndexError, TypeError):
            return self.fresh_ty(ty, bits)
        if isinstance(r, list):
            return self.val(st, r)
        if ty == "p":
            return PV(None, const(0))
        return IV(bits, const(r % (1 << bits)))

    def load_local(self, st, o, off, size, bits, ty, loc):
        m = st.mem.get(o, {})
        c = m.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            if ty == "p" or not isinstance(v, (IV, PV)):
                if isinstance(v, IV) and v.lin.is_const() and v.lin.k == 0:
                    return PV(None, const(0))
                return v
            if isinstance(v, PV):
                return self.ptr2int(v)
            if v.w == bits:
                return v
            if v.w < bits:
                return IV(bits, v.lin, (self.bits(st, v) + (B0,) * (bits - v.w)) if True else None)
            return iv_from_bits(bits, self.bits(st, v)[:bits])
        # assemble from bytes
        out = []
        for i in range(size):
            b = None
            for co, (cs, cv) in m.items():
                if co <= off + i < co + cs:
                    if isinstance(cv, IV):
                        bb = self.bits(st, cv)
                        k = (off + i - co) * 8
                        bb = tuple(bb) + (B0,) * (cs * 8 - len(bb))
                        b = bb[k:k + 8]
                    else:
                        return self.fresh_ty(ty, bits)
                    break
            if b is None:
                a = TABLE.get(("uninit", o.name, id(o), off + i), 8)
                b = prim_bits(a, 8)
            out += b
        if ty == "p":
            return PV(None, const(0)) if all(b == B0 for b in out) else self.fresh_ty(ty, bits)
        r = iv_from_bits(size * 8, tuple(out))
        if bits < size * 8:
            r = iv_from_bits(bits, tuple(out[:bits]))
        return r

    def store_local(self, st, o, off, size, v):
        m = st.mem.setdefault(o, {})
        # remove/trim overlapping cells
        for co in list(m):
            cs, cv = m[co]
            if co < off + size and off < co + cs:
                del m[co]
                if isinstance(cv, IV) and (co < off or co + cs > off + size):
                    bb = self.bits(st, cv)
                    bb = tuple(bb) + (B0,) * (cs * 8 - len(bb))
                    for i in range(cs):
                        if not (off <= co + i < off + size):
                            m[co + i] = (1, iv_from_bits(8, bb[8 * i:8 * i + 8]))
        m[off] = (size, v)

    def byte_atom(self, o, off):
        root = o.meta.get("root", o.name)
        if self.low_bytes and root == "buf":
            a = TABLE.get(("byte", root, off.key()), 7)
            if a not in BYTE_INFO:
                BYTE_INFO[a] = (o, off)
            return prim_bits(a, 7) + (B0,)
        a = TABLE.get(("byte", root, off.key()), 8)
        if a not in BYTE_INFO:
            BYTE_INFO[a] = (o, off)
        return prim_bits(a, 8)

    def load_region(self, st, o, off, size, loc):
        """bits of region bytes [off, off+size) after the writes so far"""
        out = []
        for i in range(size):
            out += self.region_byte(st, o, off + i)
        return iv_from_bits(size * 8, tuple(out))

    def region_byte(self, st, o, off, events=None):
        """bits of byte `off` of region o after `events` (default: all effects of st)"""
        root = o.meta.get("root", o.name)
        evs = st.events if events is None else events
        for n in range(len(evs) - 1, -1, -1):
            e = evs[n]
            if e.kind in ("write", "copy", "fill") and e.root == root:
                d = off - e.off
                ln = e.len
                if d.is_const() and ln.is_const():
                    inside = 0 <= d.k < ln.k
                    outside = not inside
                else:
                    outside = st.sys.entails(d - ln) or st.sys.entails(-d - 1)
                    inside = not outside and st.sys.entails(d) and st.sys.entails(ln - d - 1)
                if outside:
                    continue
                if not inside:
                    return self.fresh(8, "maybe").bits
                if e.kind == "write":
                    bb = e.bits
                    if not bb:
                        return self.fresh(8).bits
                    if d.is_const():
                        return bb[8 * d.k:8 * d.k + 8]
                    if ln.is_const():
                        for q in range(ln.k):
                            if st.sys.entails_eq(d - q):
                                return bb[8 * q:8 * q + 8]
                    return self.fresh(8, "maybe").bits
                if e.kind == "fill":
                    return e.bits
                return self.copy_src_byte(st, e, d, evs[:n])
            elif e.kind == "loop" and root in e.touched:
                if self.loop_misses(e, root, off):
                    continue
                b = self.loop_byte(st, e, root, off, evs[:n])
                if b is not None:
                    return b
                return self.fresh(8, "afterloop").bits
        if o.kind == "global" and off.is_const():
            return self.bits(st, self.load_global(st, PV(o, off), 1, 8, "i8"))
        return self.byte_atom(o, off)

    def loop_misses(self, lev, root, off):
        """no iteration of the loop writes byte `off` of `root`"""
        for alt in lev.alts:
            sys = alt[1]
            for e in alt[0]:
                if e.kind in ("write", "copy", "fill") and e.root == root:
                    if not (sys.entails(off - e.off - e.len) or sys.entails(e.off - off - 1)):
                        return False
                elif e.kind == "loop" and root in e.touched:
                    if not self.loop_misses(e, root, off):
                        return False
        return True

    def loop_byte(self, st, lev, root, off, before):
        """byte-wise loops: iteration k writes exactly byte base+k (or base-k)"""
        if len(lev.alts) != 1:
            return None
        alt = lev.alts.alts[0]
        ws = [e for e in alt[0] if e.kind in ("write", "copy", "fill", "loop") and (e.kind == "loop" and root in e.touched or e.kind != "loop" and e.root == root)]
        (k, _), = lev.iter.c.items()
        if len(ws) != 1 or ws[0].kind != "write" or not ws[0].len.is_const() or ws[0].bits is None:
            return None
        w = ws[0]
        c = w.off.c.get(k, 0)
        if w.len.k != 1 or c not in (1, -1):
            return None
        # iteration kk with w.off[k:=kk] == off
        base = w.off.subst({k: const(0)})
        kk = (off - base).scale(c)
        kexit = lev.iter
        if not (st.sys.entails(kk) and st.sys.entails(kexit - kk - 1)):
            return None
        out = []
        for b in w.bits:
            if len(b[0]) == 0:
                out.append(b)
                continue
            if len(b[0]) != 1 or b[1]:
                return None
            (a, j), = b[0]
            info = BYTE_INFO.get(a)
            if info is None:
                if TABLE.info[a][0] != "src":
                    return None
                out.append(b)
                continue
            so, soff = info
            if so.meta.get("root", so.name) == root:
                return None
            out.append(self.byte_atom(so, soff.subst({k: kk}))[j])
        return tuple(out)

    def copy_src_byte(self, st, e, d, before):
        if e.srcobj.kind == "local":
            bs = e.srcbytes
            if d.is_const() and bs and 0 <= d.k < len(bs):
                return bs[d.k]
            return self.fresh(8, "copied").bits
        return self.region_byte(st, e.srcobj, e.srcoff + d, before)

    def check_access(self, st, kind, p, length, loc):
        o = p.obj
        if o.kind == "global" and not o.meta["g"]["const"]:
            self.oblige("shared-state", False, loc, "%s of the mutable global object %s" % (kind, o.name[1:]))
        if o.kind == "unknown" or o.extent is None:
            self.oblige("known-object", False, loc, "%s through pointer of unknown origin" % kind)
            return
        if o.meta.get("dead"):
            self.oblige("no-stale-pointer", False, loc, "%s through a pointer into storage that has been reallocated or destroyed (%s)" % (kind, o.name))
            return
        cur = o.meta.get("cell")
        if cur is not None and st.objs.get(cur) is not o:
            self.oblige("no-stale-pointer", False, loc, "%s through a pointer into %s taken before it was resized" % (kind, o.name))
            return
        if p.off.is_const() and length.is_const() and o.extent.is_const():
            ok = 0 <= p.off.k and p.off.k + length.k <= o.extent.k
        else:
            ok = st.sys.entails(p.off) and st.sys.entails(o.extent - p.off - length)
        self.oblige("bounds-" + o.kind, ok, loc, "%s of %r byte(s) at offset %r of %s (extent %r)" % (kind, length, p.off, o.name, o.extent))
        if kind == "write" and o.meta.get("readonly"):
            self.oblige("no-write-to-input", False, loc, "write into read-only object %s" % o.name)

    def store(self, st, p, v, size, bits, loc):
        if isinstance(p, UV):
            self.oblige("no-undef-pointer", False, loc, "store through undefined pointer")
            return []
        if not isinstance(p, PV):
            raise Unsupported("store via %r" % (p,))
        o = p.obj
        if o is None:
            self.oblige("no-null-deref", False, loc, "store through a null pointer")
            return []
        self.check_access(st, "write", p, const(size), loc)
        if o.kind == "local":
            if p.off.is_const():
                self.store_local(st, o, p.off.k, size, v)
            else:
                st.mem.pop(o, None)
            return [st]
        if o.kind in ("global",):
            st.ev(Ev("write", loc, root=o.name, obj=o, off=p.off, len=const(size), bits=None))
            return [st]
        if isinstance(v, UV):
            bb = self.fresh(size * 8, "undefstore").bits
        elif isinstance(v, PV):
            bb = None
        elif isinstance(v, AV):
            bb = None
        else:
            bb = self.bits(st, v)
            bb = tuple(bb) + (B0,) * (size * 8 - len(bb))
        st.ev(Ev("write", loc, root=o.meta.get("root", o.name), obj=o, off=p.off, len=const(size), bits=bb,
                 val=v if isinstance(v, PV) else None))
        return [st]

    def memcopy(self, st, dst, src, n, loc, move=False):
        """list of states"""
        out = []
        if isinstance(dst, UV) or isinstance(src, UV):
            if n.is_const() and n.k == 0:
                return [st]
        # zero length: nothing happens
        d = st.decide(fge(n - 1))
        if d is False:
            return [st]
        if d is None:
            z = st.copy()
            for s in z.assume(feq(n)):
                out.append(s)
            st2 = st.assume(fge(n - 1))
            if not st2:
                return out
        for p in (dst, src):
            if isinstance(p, UV) or (isinstance(p, PV) and p.obj is None):
                self.oblige("no-null-deref", False, loc, "memory copy through null/undefined pointer")
                return out
        self.check_access(st, "write", dst, n, loc)
        self.check_access(st, "read", src, n, loc)
        so, do = src.obj, dst.obj
        if n.is_const() and n.k <= 64 and (so.kind == "local" or do.kind == "local"):
            # local <-> local / region, byte precise
            if so.kind == "local" and not src.off.is_const():
                bs = [self.fresh(8, "copied").bits for _ in range(n.k)]
            elif so.kind == "local":
                if do.kind == "local" and dst.off.is_const():
                    self.copy_cells(st, do, dst.off.k, so, src.off.k, n.k, loc)
                    out.append(st)
                    return out
                bs = []
                for i in range(n.k):
                    v = self.load_local(st, so, src.off.k + i, 1, 8, "i8", loc)
                    bs.append(self.bits(st, v))
            elif so.kind == "global":
                bs = []
                for i in range(n.k):
                    v = self.load_global(st, PV(so, src.off + i), 1, 8, "i8")
                    bs.append(self.bits(st, v))
            else:
                bs = [self.region_byte(st, so, src.off + i) for i in range(n.k)]
            if do.kind == "local":
                if dst.off.is_const():
                    allb = tuple(x for b in bs for x in b)
                    if n.k in (1, 2, 4, 8, 16):
                        self.store_local(st, do, dst.off.k, n.k, iv_from_bits(8 * n.k, allb))
                    else:
                        for i in range(n.k):
                            self.store_local(st, do, dst.off.k + i, 1, iv_from_bits(8, tuple(bs[i])))
                else:
                    st.mem.pop(do, None)
            else:
                st.ev(Ev("write", loc, root=do.meta.get("root", do.name), obj=do, off=dst.off, len=n, bits=tuple(x for b in bs for x in b), val=None))
            out.append(st)
            return out
        if do.kind == "local":
            st.mem.pop(do, None)
            st.ev(Ev("copylocal", loc, obj=do, off=dst.off, len=n, srcobj=so, srcoff=src.off))
            out.append(st)
            return out
        sroot = so.meta.get("root", so.name)
        fresh_src = not any(e.kind in ("write", "copy", "fill") and e.root == sroot or (e.kind == "loop" and sroot in e.touched)
                            for e in st.events)
        st.ev(Ev("copy", loc, root=do.meta.get("root", do.name), obj=do, off=dst.off, len=n, srcobj=so, srcoff=src.off,
                 srcroot=sroot, srcbytes=None, pristine=fresh_src, move=move))
        out.append(st)
        return out

    def copy_cells(self, st, do, doff, so, soff, n, loc):
        m = st.mem.get(so, {})
        cells = sorted((co, cs, cv) for co, (cs, cv) in m.items() if co >= soff and co + cs <= soff + n) if True else []
        straddle = any((co < soff < co + cs) or (co < soff + n < co + cs) for co, (cs, cv) in m.items())
        if straddle:
            vals = [self.load_local(st, so, soff + i, 1, 8, "i8", loc) for i in range(n)]
            for i, v in enumerate(vals):
                self.store_local(st, do, doff + i, 1, v)
            return
        # bytes without a cell become uninitialised in dst too
        dm = st.mem.setdefault(do, {})
        self.store_local(st, do, doff, n, UV("mem"))
        del dm[doff]
        for co, cs, cv in cells:
            dm[doff + co - soff] = (cs, cv)

    # -- integer ops
    def wrap(self, st, w, l):
        """value of l modulo 2^w: list of (state, Lin)"""
        M = 1 << w
        if l.is_const():
            return [(st, const(l.k % M))]
        nonneg = st.sys.entails(l)
        below = st.sys.entails(const(M - 1) - l)
        if nonneg and below:
            return [(st, l)]
        if nonneg and st.sys.entails(l - M) and st.sys.entails(const(2 * M - 1) - l):
            return [(st, l - M)]
        if below and st.sys.entails(-l - 1) and st.sys.entails(l + M):
            return [(st, l + M)]
        if nonneg and st.sys.entails(const(2 * M - 1) - l):
            o = st.copy()
            r = [(s, l) for s in st.assume(fge(const(M - 1) - l))]
            r += [(s, l - M) for s in o.assume(fge(l - M))]
            return r
        if below and st.sys.entails(l + M):
            o = st.copy()
            r = [(s, l) for s in st.assume(fge(l))]
            r += [(s, l + M) for s in o.assume(fge(-l - 1))]
            return r
        return [(st, None)]

    def binop(self, st, op, w, a, b, inst, loc):
        """list of (state, IV)"""
        if isinstance(a, UV) or isinstance(b, UV):
            if op in ("and", "or", "xor", "shl", "lshr") and w > 1:
                # undefined operand: keep the defined bits of the result
                a, b = (self.undef(w, inst, k) if isinstance(x, UV) else x for k, x in enumerate((a, b)))
            else:
                return [(st, UV("i%d" % w))]
        if w == 1:
            fa, fb = self.form(st, a), self.form(st, b)
            if op == "and":
                return [(st, self.mkbool(fand(fa, fb)))]
            if op == "or":
                return [(st, self.mkbool(for_(fa, fb)))]
            if op in ("xor", "add", "sub"):
                return [(st, self.mkbool(for_(fand(fa, fnot(fb)), fand(fnot(fa), fb))))]
        M = 1 << w
        if op in ("add", "sub"):
            la, lb = a.lin, b.lin
            if op == "add":
                # a constant with the sign bit set is a subtraction
                if lb.is_const() and lb.k >= M >> 1:
                    lb = const(lb.k - M)
                elif la.is_const() and la.k >= M >> 1:
                    la = const(la.k - M)
                l = la + lb
            else:
                l = la - lb
                if la.is_const() and la.k == 0:
                    bb = b.bits if b.bits is not None else (self.bits(st, b) if len(b.lin.c) == 1 else None)
                    if bb is not None and all(x == B0 for x in bb[1:]):
                        # 0 - bit: all ones or all zeros
                        r = iv_from_bits(w, (bb[0],) * w)
                        return [(st, r)]
            if w < 64 and any(CONG.get(x, (0,))[0] == w for x in l.c):
                # arithmetic on the low bits of a wider value: the low bits of the wide result
                full = l.subst({x: CONG[x][1] for x in l.c if CONG.get(x, (0,))[0] == w})
                if st.sys.entails(full) and st.sys.entails(const((1 << 64) - 1) - full):
                    bb = self.bits(st, IV(64, full))
                    r = iv_from_bits(w, tuple(bb[:w]))
                    if len(r.lin.c) == 1 and r.lin.k == 0:
                        CONG[next(iter(r.lin.c))] = (w, full)
                    return [(st, r)]
            out = []
            for s, r in self.wrap(st, w, l):
                if r is None:
                    out.append((s, self.opaque(op, w, a, b)))
                else:
                    out.append((s, IV(w, r)))
            return out
        if op == "mul":
            if a.lin.is_const() and not b.lin.is_const():
                a, b = b, a
            if b.lin.is_const():
                c = b.lin.k
                if c >= M >> 1:
                    c -= M
                l = a.lin.scale(c)
                if st.sys.entails(l) and st.sys.entails(const(M - 1) - l):
                    return [(st, IV(w, l))]
                if b.lin.k & (b.lin.k - 1) == 0 and b.lin.k:
                    return self.binop(st, "shl", w, a, IV(w, const(b.lin.k.bit_length() - 1)), inst, loc)
                # small multiple: split by wrap count
                if 0 < c <= 16:
                    r = self.opaque("mul", w, a, b)
                    o = st.copy()
                    res = [(s, IV(w, l)) for s in st.assume(fge(const(M - 1) - l))]
                    for s in o.assume(fge(l - M)):
                        res.append((s, r))
                    return res
            return [(st, self.opaque(op, w, a, b))]
        if op in ("udiv", "urem"):
            if b.lin.is_const() and b.lin.k > 0:
                c = b.lin.k
                if op == "udiv" and c & (c - 1) == 0:
                    return self.binop(st, "lshr", w, a, IV(w, const(c.bit_length() - 1)), inst, loc)
                if op == "urem" and c & (c - 1) == 0:
                    return self.binop(st, "and", w, a, IV(w, const(c - 1)), inst, loc)
                ex = a.lin.divided(c)
                if ex is not None:
                    return [(st, IV(w, ex if op == "udiv" else const(0)))]
                q = TABLE.get(("div", a.lin.key(), c), ub=(M - 1) // c)
                ql = Lin({q: 1}, 0)
                lo, hi = interval(a.lin)
                if lo is not None and lo >= 0 and hi is not None and hi < M:
                    TABLE.ub[q] = min(TABLE.ub[q], hi // c)
                    add_def(q, a.lin - ql.scale(c))
                    add_def(q, ql.scale(c) + (c - 1) - a.lin)
                else:
                    st.sys.add(a.lin - ql.scale(c))
                    st.sys.add(ql.scale(c) + (c - 1) - a.lin)
                return [(st, IV(w, ql if op == "udiv" else a.lin - ql.scale(c)))]
            return [(st, self.opaque(op, w, a, b))]
        if op == "shl" and b.lin.is_const():
            k = b.lin.k
            if k >= w:
                return [(st, UV("i%d" % w))]
            l = a.lin.scale(1 << k)
            if st.sys.entails(const(M - 1) - l):
                bb = None
                if a.bits is not None:
                    bb = ((B0,) * k + tuple(a.bits))[:w]
                return [(st, IV(w, l, bb))]
            bb = self.bits(st, a)
            if w == 64 and a.bits is None and a.lin.c:
                # case split: the shift loses no bits / loses some
                out = []
                for s in st.copy().assume(fge(const(M - 1) - l)):
                    out.append((s, IV(w, l)))
                for s in st.assume(fge(l - M)):
                    out.append((s, iv_from_bits(w, ((B0,) * k + tuple(bb))[:w])))
                return out
            return [(st, iv_from_bits(w, ((B0,) * k + tuple(bb))[:w]))]
        if op in ("lshr", "ashr") and b.lin.is_const():
            k = b.lin.k
            if k >= w:
                return [(st, UV("i%d" % w))]
            if op == "lshr":
                ex = a.lin.divided(1 << k)
                if ex is not None and a.bits is None:
                    return [(st, IV(w, ex))]
            bb = self.bits(st, a)
            top = B0 if op == "lshr" else bb[w - 1]
            r = iv_from_bits(w, tuple(bb[k:]) + (top,) * k)
            if op == "lshr" and r.lin.c:
                self.relate(st, w, r.lin, a.lin, a.lin - r.lin.scale(1 << k))
                self.relate(st, w, r.lin, a.lin, r.lin.scale(1 << k) + ((1 << k) - 1) - a.lin)
            return [(st, r)]
        if op == "xor" and b.lin.is_const() and b.lin.k == M - 1 and a.lin.c and a.bits is None and st.sys.entails(a.lin) and st.sys.entails(const(M - 1) - a.lin):
            return [(st, IV(w, const(M - 1) - a.lin))]
        if op in ("and", "or", "xor"):
            if a.lin.is_const() and not b.lin.is_const():
                a, b = b, a
            ba = self.bits(st, a)
            bb = self.bits(st, b)
            if op == "or" and "disjoint" in inst and any(x != B0 and y != B0 for x, y in zip(ba, bb)):
                # the operands share no set bit: the union is the (carry-free) sum
                return [(st, IV(w, a.lin + b.lin))]
            out = []
            ok = True
            for x, y in zip(ba, bb):
                if op == "xor":
                    out.append(bxor(x, y))
                elif op == "and":
                    if x == B0 or y == B0:
                        out.append(B0)
                    elif x == B1:
                        out.append(y)
                    elif y == B1 or x == y:
                        out.append(x)
                    else:
                        ok = False
                        break
                else:
                    if x == B1 or y == B1:
                        out.append(B1)
                    elif x == B0:
                        out.append(y)
                    elif y == B0 or x == y:
                        out.append(x)
                    else:
                        ok = False
                        break
            if not ok:
                # keep per-bit structure: an opaque bit per position
                out = []
                for i, (x, y) in enumerate(zip(ba, bb)):
                    if op == "and":
                        if x == B0 or y == B0:
                            z = B0
                        elif x == B1:
                            z = y
                        elif y == B1 or x == y:
                            z = x
                        else:
                            z = self.opaque_bit(op, x, y)
                    else:
                        if x == B1 or y == B1:
                            z = B1
                        elif x == B0:
                            z = y
                        elif y == B0 or x == y:
                            z = x
                        else:
                            z = self.opaque_bit(op, x, y)
                    out.append(z)
            r = iv_from_bits(w, tuple(out))
            if b.lin.is_const():
                c = b.lin.k
                if op == "and" and r.lin.c:
                    self.relate(st, w, r.lin, a.lin, a.lin - r.lin)
                    if (~c & (M - 1)) & ((~c & (M - 1)) + 1) == 0:
                        # mask clears the low bits: a - r in [0, low]
                        self.relate(st, w, r.lin, a.lin, r.lin + (~c & (M - 1)) - a.lin)
                if op == "or" and r.lin.c:
                    self.relate(st, w, r.lin, a.lin, r.lin - a.lin)
                    self.relate(st, w, r.lin, a.lin, a.lin + c - r.lin)
                    self.relate(st, w, r.lin, a.lin, r.lin - c)
            return [(st, r)]
        if op in ("sdiv", "srem"):
            h = const((M >> 1) - 1)
            if st.sys.entails(h - a.lin) and st.sys.entails(h - b.lin):
                return self.binop(st, "u" + op[1:], w, a, b, inst, loc)
        if op in ("shl", "lshr", "ashr"):
            # split a small set of shift amounts
            for k in range(w):
                pass
        return [(st, self.opaque(op, w, a, b))]

    def relate(self, st, w, r, src, e):
        """e >= 0 relates result atom r to src; definitional when src is in range always"""
        lo, hi = interval(src)
        if lo is not None and lo >= 0 and hi is not None and hi < 1 << w and len(r.c) == 1:
            (a, c), = r.c.items()
            add_def(a, e)
        else:
            st.sys.add(e)

    def opaque(self, op, w, a, b):
        k = TABLE.get((op, w, a.lin.key(), b.lin.key()), w)
        return IV(w, Lin({k: 1}, 0), prim_bits(k, w))

    def opaque_bit(self, op, x, y):
        ks = sorted([(tuple(sorted(x[0])), x[1]), (tuple(sorted(y[0])), y[1])])
        k = TABLE.get(("bit" + op, tuple(ks)), 1)
        return prim_bits(k, 1)[0]

    def icmp(self, st, pred, a, b, loc):
        """list of (state, form)"""
        if isinstance(a, UV) or isinstance(b, UV):
            return [(st, fne(self.fresh(1, "undefcmp").lin))]
        if isinstance(a, FV) or isinstance(b, FV):
            if isinstance(a, FV) and isinstance(b, FV):
                return [(st, T if (a.name == b.name) == (pred == "eq") else F)]
            return [(st, F if pred == "eq" else T)]
        if isinstance(a, PV) and isinstance(b, PV):
            if a.obj is b.obj:
                x, y = a.off, b.off
                w = 64
                if pred in ("eq", "ne"):
                    f = feq(x - y)
                    return [(st, f if pred == "eq" else fnot(f))]
                return [(st, self.ucmp(pred, x, y))]
            if a.obj is None or b.obj is None:
                p = a if b.obj is None else b
                nn = p.obj.meta.get("maybe_null")
                if nn is None:
                    return [(st, F if pred == "eq" else T)]
                f = fne(nn)  # nn: atom 1 iff null
                return [(st, f if pred == "eq" else fnot(f))]
            if pred in ("eq", "ne"):
                if a.obj.kind == "unknown" or b.obj.kind == "unknown":
                    return [(st, fne(self.fresh(1, "ptrcmp").lin))]
                return [(st, F if pred == "eq" else T)]
            return [(st, fne(self.fresh(1, "ptrcmp").lin))]
        if isinstance(a, PV):
            a = self.ptr2int(a)
        if isinstance(b, PV):
            b = self.ptr2int(b)
        if not isinstance(a, IV) or not isinstance(b, IV):
            raise Unsupported("icmp %r %r" % (a, b))
        w = a.w
        if w == 1 and pred in ("eq", "ne"):
            fa, fb = self.form(st, a), self.form(st, b)
            f = for_(fand(fa, fb), fand(fnot(fa), fnot(fb)))
            return [(st, f if pred == "eq" else fnot(f))]
        if pred in ("eq", "ne"):
            f = feq(a.lin - b.lin)
            # zext(bool) == 0/1 recovers the boolean
            for x, y in ((a, b), (b, a)):
                if y.lin.is_const() and x.form is not None:
                    f = fnot(x.form) if y.lin.k == 0 else (x.form if y.lin.k == 1 else F)
            # bit level: x&mask == c
            if f[0] == "eq" and b.lin.is_const():
                bb = a.bits
                if bb is not None:
                    dead = False
                    for i, x in enumerate(bb):
                        if not x[0] and x[1] != ((b.lin.k >> i) & 1):
                            dead = True
                    if dead:
                        f = F
            return [(st, f if pred == "eq" else fnot(f))]
        if pred[0] == "u":
            return [(st, self.ucmp(pred, a.lin, b.lin))]
        # signed
        H = 1 << (w - 1)
        out = [(st, None)]
        vals = []
        states = [(st, [])]
        for v in (a, b):
            ns = []
            for s, acc in states:
                l = v.lin
                if l.is_const():
                    ns.append((s, acc + [const(l.k - 2 * H if l.k >= H else l.k)]))
                elif s.sys.entails(const(H - 1) - l):
                    ns.append((s, acc + [l]))
                elif s.sys.entails(l - H):
                    ns.append((s, acc + [l - 2 * H]))
                else:
                    o = s.copy()
                    for s2 in s.assume(fge(const(H - 1) - l)):
                        ns.append((s2, acc + [l]))
                    for s2 in o.assume(fge(l - H)):
                        ns.append((s2, acc + [l - 2 * H]))
            states = ns
        return [(s, self.ucmp("u" + pred[1:], x, y)) for s, (x, y) in states]

    def ucmp(self, pred, x, y):
        if pred == "ugt":
            return fge(x - y - 1)
        if pred == "uge":
            return fge(x - y)
        if pred == "ult":
            return fge(y - x - 1)
        if pred == "ule":
            return fge(y - x)
        raise Unsupported(pred)

    # -- instruction execution: returns list of states
    def step(self, fn, st, i):
        op = i["op"]
        loc = i["loc"]
        iid = i["id"]
        self.stats["insts"] += 1
        if op in ("add", "sub", "mul", "udiv", "urem", "sdiv", "srem", "shl", "lshr", "ashr", "and", "or", "xor"):
            w = int(i["ty"][1:]) if i["ty"][0] == "i" else None
            if w is None:
                raise Unsupported("binop on %s" % i["ty"])
            a = self.val(st, i["ops"][0])
            b = self.val(st, i["ops"][1])
            if isinstance(a, PV):
                a = self.ptr2int(a)
            if isinstance(b, PV):
                b = self.ptr2int(b)
            r = self.binop(st, op, w, a, b, i, loc)
            return self.bind(r, iid)
        if op == "icmp":
            a = self.val(st, i["ops"][0])
            b = self.val(st, i["ops"][1])
            r = self.icmp(st, i["pred"], a, b, loc)
            if self.cands is not None:
                for s, f in r:
                    self.note_cand(f)
            return self.bind([(s, self.mkbool(f)) for s, f in r], iid)
        if op in ("zext", "sext", "trunc"):
            v = self.val(st, i["ops"][0])
            w = int(i["ty"][1:])
            if isinstance(v, UV):
                if op == "zext" and w > 1 and str(i.get("oty", ""))[:1] == "i" and i["oty"] != "i1":
                    v = self.undef(int(i["oty"][1:]), i, 0)
                else:
                    return self.bind([(st, UV(i["ty"]))], iid)
            if isinstance(v, PV):
                v = self.ptr2int(v)
            return self.bind(self.cast(st, op, v, w), iid)
        if op in ("bitcast", "freeze"):
            v = self.val(st, i["ops"][0])
            if op == "freeze" and isinstance(v, UV):
                v = self.fresh_ty(i["ty"], width(i["ty"]))
            return self.bind([(st, v)], iid)
        if op == "ptrtoint":
            v = self.val(st, i["ops"][0])
            if isinstance(v, PV):
                return self.bind([(st, self.ptr2int(v))], iid)
            return self.bind([(st, self.fresh(64, "addr"))], iid)
        if op == "inttoptr":
            return self.bind([(st, self.fresh_ty("p", 64))], iid)
        if op == "getelementptr":
            return self.gep(st, i)
        if op == "load":
            p = self.val(st, i["ops"][0])
            return self.bind(self.load(st, p, i["size"], i["bits"], i["ty"], loc), iid)
        if op == "store":
            v = self.val(st, i["ops"][0])
            p = self.val(st, i["ops"][1])
            return self.store(st, p, v, i["size"], i["bits"], loc)
        if op == "alloca":
            o = Obj("%s.%s" % (fn.name, iid), "local", const(i["size"]))
            key = (fn.name, iid, self.depth)
            o = self.allocas.setdefault(key, o)
            st.env[iid] = PV(o, const(0))
            return [st]
        if op == "select":
            return self.select(st, i)
        if op == "extractvalue":
            v = self.val(st, i["ops"][0])
            if isinstance(v, AV) and len(i["idx"]) == 1:
                st.env[iid] = v.el[i["idx"][0]]
            elif isinstance(v, UV):
                st.env[iid] = self.fresh_ty(i["ty"], width(i["ty"]))
            else:
                raise Unsupported("extractvalue")
            return [st]
        if op == "insertvalue":
            v = self.val(st, i["ops"][0])
            x = self.val(st, i["ops"][1])
            if isinstance(v, UV):
                n = i["idx"][0] + 1
                v = AV([UV("?")] * max(n, 2))
            el = list(v.el)
            while len(el) <= i["idx"][0]:
                el.append(UV("?"))
            el[i["idx"][0]] = x
            st.env[iid] = AV(el)
            return [st]
        if op in ("call", "invoke"):
            return self.call(fn, st, i)
        if op in ("fadd", "fsub", "fmul", "fdiv", "fneg", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "fcmp"):
            st.env[iid] = self.fresh(1 if op == "fcmp" else width(i["ty"]), "fp")
            return [st]
        raise Unsupported("instruction %s" % op)

    def bind(self, rs, iid):
        out = []
        for s, v in rs:
            s.env[iid] = v
            out.append(s)
        return out

    def cast(self, st, op, v, w):
        if op == "zext":
            bb = v.bits
            if bb is not None:
                bb = tuple(bb) + (B0,) * (w - v.w)
            return [(st, IV(w, v.lin, bb, v.form if v.w == 1 or v.form is not None else None))]
        if op == "sext":
            if v.w == 1:
                bb = self.bits(st, v)
                r = iv_from_bits(w, (bb[0],) * w)
                return [(st, r)]
            H = 1 << (v.w - 1)
            if st.sys.entails(const(H - 1) - v.lin):
                return self.cast(st, "zext", v, w)
            if st.sys.entails(v.lin - H) and v.bits is None:
                return [(st, IV(w, v.lin + ((1 << w) - 2 * H)))]
            bb = self.bits(st, v)
            return [(st, iv_from_bits(w, tuple(bb) + (bb[v.w - 1],) * (w - v.w)))]
        # trunc
        if v.form is not None and w >= 1:
            if w == 1:
                return [(st, self.mkbool(v.form))]
            return [(st, IV(w, v.lin, None, v.form))]
        if st.sys.entails(const((1 << w) - 1) - v.lin):
            bb = v.bits[:w] if v.bits is not None else None
            r = IV(w, v.lin, bb)
            return [(st, r)]
        # modulo constant parts: x - 2^w*m
        bb = self.bits(st, v)
        r = iv_from_bits(w, tuple(bb[:w]))
        if r.lin.c:
            self.relate(st, v.w, r.lin, v.lin, v.lin - r.lin)
            if len(r.lin.c) == 1 and r.lin.k == 0 and v.w == 64:
                CONG[next(iter(r.lin.c))] = (w, v.lin)
        return [(st, r)]

    def gep(self, st, i):
        p = self.val(st, i["base"]) if "base" in i else None
        if p is None:
            raise Unsupported("gep form")
        if isinstance(p, UV):
            st.env[i["id"]] = p
            return [st]
        if not isinstance(p, PV):
            raise Unsupported("gep base %r" % (p,))
        off = p.off + i["off"]
        for o, scale, ty in i["vars"]:
            v = self.val(st, o)
            if isinstance(v, UV):
                st.env[i["id"]] = UV("p")
                return [st]
            w = v.w
            l = v.lin
            if not l.is_const():
                if st.sys.entails(l - (1 << (w - 1))):
                    l = l - (1 << w)
            elif l.k >= 1 << (w - 1):
                l = const(l.k - (1 << w))
            off = off + l.scale(scale)
        st.env[i["id"]] = PV(p.obj, off)
        return [st]

    def select(self, st, i):
        c = self.val(st, i["ops"][0])
        f = self.form(st, c)
        d = st.decide(f)
        a, b = i["ops"][1], i["ops"][2]
        if d is True:
            st.env[i["id"]] = self.val(st, a)
            return [st]
        if d is False:
            st.env[i["id"]] = self.val(st, b)
            return [st]
        va, vb = self.val(st, a), self.val(st, b)
        if i["ty"] == "i1":
            fa, fb = self.form(st, va), self.form(st, vb)
            st.env[i["id"]] = self.mkbool(for_(fand(f, fa), fand(fnot(f), fb)))
            return [st]
        if va.key() == vb.key():
            st.env[i["id"]] = va
            return [st]
        o = st.copy()
        out = []
        for s in st.assume(f):
            s.env[i["id"]] = va
            out.append(s)
        for s in o.assume(fnot(f)):
            s.env[i["id"]] = vb
            out.append(s)
        return out

    def call(self, fn, st, i):
        cal = self.val(st, i["callee"]) if not i.get("asm") else None
        if not isinstance(cal, FV):
            raise Unsupported("indirect call")
        name = cal.name
        loc = i["loc"]
        iid = i["id"]
        args = [self.val(st, o) if o[0] != "md" else None for o in i["ops"]]
        if name.startswith("llvm."):
            return self.intrinsic(fn, st, i, name, args, loc)
        h = None
        for pre, fnc in self.hooks.items():
            if name == pre or (pre.endswith("*") and name.startswith(pre[:-1])):
                h = fnc
                break
        if h is not None:
            rs = h(self, st, name, args, i, loc)
            out = []
            for s, v in rs:
                if iid:
                    s.env[iid] = v
                out.append(s)
            return out
        if name in ("memcpy", "memmove"):
            out = self.memcopy(st, args[0], args[1], args[2].lin, loc, name == "memmove")
            for s in out:
                if iid:
                    s.env[iid] = args[0]
            return out
        if name in self.raw:
            return self.inline_call(st, name, args, i)
        if i["noret"]:
            self.exits.append(Result(name, st, loc, "noreturn"))
            return []
        raise Unsupported("call to %s" % name)

    def inline_call(self, st, name, args, i):
        self.depth += 1
        if self.depth > 12:
            raise Unsupported("recursion through %s" % name)
        try:
            f = self.func(name)
            saved = st.env
            st.env = {}
            for (an, at, _), v in zip(f.args, args):
                st.env[an] = v
            rets = self.run_function(f, [st])
            out = []
            for r in rets:
                s = r.state
                s.env = dict(saved)
                if i["id"]:
                    s.env[i["id"]] = r.code
                out.append(s)
            return out
        finally:
            self.depth -= 1

    def intrinsic(self, fn, st, i, name, args, loc):
        iid = i["id"]
        n = name.split(".")
        k = n[1]
        if k in ("lifetime", "dbg", "experimental", "donothing", "prefetch", "var"):
            if k == "experimental":
                raise Unsupported(name)
            if k == "lifetime" and isinstance(args[1], PV) and args[1].obj and args[1].obj.kind == "local" and args[1].off.is_const() and args[1].off.k == 0:
                st.mem.pop(args[1].obj, None)
            return [st]
        if k == "assume":
            return st.assume(self.form(st, args[0]))
        if k in ("memcpy", "memmove"):
            return self.memcopy(st, args[0], args[1], args[2].lin, loc, k == "memmove")
        if k == "memset":
            return self.memset(st, args[0], args[1], args[2].lin, loc)
        if k in ("umin", "umax", "smin", "smax"):
            a, b = args
            if k[0] == "s":
                H = const((1 << (a.w - 1)) - 1)
                if not (st.sys.entails(H - a.lin) and st.sys.entails(H - b.lin)):
                    r = self.icmp(st, "sle", a, b, loc)
                else:
                    r = [(st, fge(b.lin - a.lin))]
            else:
                r = [(st, fge(b.lin - a.lin))]
            out = []
            for s, f in r:
                o = s.copy()
                for s2 in s.assume(f):
                    s2.env[iid] = a if k.endswith("min") else b
                    out.append(s2)
                for s2 in o.assume(fnot(f)):
                    s2.env[iid] = b if k.endswith("min") else a
                    out.append(s2)
            return out
        if k == "ctlz":
            a = args[0]
            if a.lin.is_const():
                st.env[iid] = IV(a.w, const(a.w - a.lin.k.bit_length()))
                return [st]
            z = TABLE.get(("ctlz", a.w, a.lin.key()), ub=a.w)
            zl = Lin({z: 1}, 0)
            rec = (zl, a.lin, a.w)
            if rec not in CTLZ:
                CTLZ.append(rec)
            st.refine_ctlz(zl, a.lin, a.w)
            st.env[iid] = IV(a.w, zl)
            return [st]
        if k == "bswap":
            bb = self.bits(st, args[0])
            w = args[0].w
            out = []
            for b in range(w // 8 - 1, -1, -1):
                out += bb[8 * b:8 * b + 8]
            st.env[iid] = iv_from_bits(w, tuple(out))
            return [st]
        if k in ("fshl", "fshr"):
            a, b, c = args
            if c.lin.is_const():
                w = a.w
                s = c.lin.k % w
                cat = tuple(self.bits(st, b)) + tuple(self.bits(st, a))
                if k == "fshl":
                    bb = cat[w - s:2 * w - s]
                else:
                    bb = cat[s:s + w]
                st.env[iid] = iv_from_bits(w, bb)
                return [st]
            st.env[iid] = self.fresh(a.w, k)
            return [st]
        if k in ("uadd", "usub", "umul") and n[2] == "with":
            a, b = args
            w = a.w
            M = 1 << w
            if k == "umul":
                if a.lin.is_const():
                    a, b = b, a
                if not b.lin.is_const():
                    x = self.opaque("mul", w, a, b)
                    st.env[iid] = AV([x, self.fresh(1, "ovf")])
                    return [st]
                l = a.lin.scale(b.lin.k)
                lo, hi = fge(const(M - 1) - l), fge(l - M)
                wv = self.opaque("mul", w, a, b)
            elif k == "uadd":
                l = a.lin + b.lin
                lo, hi = fge(const(M - 1) - l), fge(l - M)
                wv = IV(w, l - M)
            else:
                l = a.lin - b.lin
                lo, hi = fge(l), fge(-l - 1)
                wv = IV(w, l + M)
            o = st.copy()
            out = []
            for s in st.assume(lo):
                s.env[iid] = AV([IV(w, l), IV(1, const(0), None, F)])
                out.append(s)
            for s in o.assume(hi):
                s.env[iid] = AV([wv, IV(1, const(1), None, T)])
                out.append(s)
            return out
        if k in ("usub", "uadd") and n[2] == "sat":
            a, b = args
            l = a.lin - b.lin if k == "usub" else a.lin + b.lin
            M = (1 << a.w) - 1
            f = fge(l) if k == "usub" else fge(const(M) - l)
            o = st.copy()
            out = []
            for s in st.assume(f):
                s.env[iid] = IV(a.w, l)
                out.append(s)
            for s in o.assume(fnot(f)):
                s.env[iid] = IV(a.w, const(0 if k == "usub" else M))
                out.append(s)
            return out
        if k == "is" and n[2] == "constant":
            st.env[iid] = self.mkbool(F)
            return [st]
        if k == "expect":
            st.env[iid] = args[0]
            return [st]
        if k == "objectsize":
            st.env[iid] = IV(64, const((1 << 64) - 1))
            return [st]
        if k == "threadlocal":
            st.env[iid] = args[0]
            return [st]
        if k == "trap":
            self.exits.append(Result("trap", st, loc, "noreturn"))
            return []
        if k in ("abs", "ctpop", "cttz", "fabs", "bitreverse"):
            st.env[iid] = self.fresh(width(i["ty"]), k)
            return [st]
        raise Unsupported("intrinsic %s" % name)

    def memset(self, st, p, v, n, loc):
        d = st.decide(fge(n - 1))
        if d is False:
            return [st]
        out = []
        if d is None:
            z = st.copy()
            out += z.assume(feq(n))
            if not st.assume(fge(n - 1)):
                return out
        if not isinstance(p, PV) or p.obj is None:
            self.oblige("no-null-deref", False, loc, "memset through null/undefined pointer")
            return out
        self.check_access(st, "write", p, n, loc)
        if p.obj.kind == "local":
            if p.off.is_const() and n.is_const() and n.k <= 4096:
                for q in range(n.k):
                    self.store_local(st, p.obj, p.off.k + q, 1, v)
            else:
                st.mem.pop(p.obj, None)
        else:
            bb = self.bits(st, v)
            if n.is_const() and n.k <= 64:
                st.ev(Ev("write", loc, root=p.obj.meta.get("root", p.obj.name), obj=p.obj, off=p.off, len=n, bits=tuple(bb) * n.k, val=None))
            else:
                st.ev(Ev("fill", loc, root=p.obj.meta.get("root", p.obj.name), obj=p.obj, off=p.off, len=n, bits=tuple(bb)))
        out.append(st)
        return out

    # -- control flow
    def note_cand(self, f):
        if f[0] in ("and", "or"):
            self.note_cand(f[1])
            self.note_cand(f[2])
        elif f[0] in ("ge", "eq", "ne"):
            self.cands.add(f[1])

    def exec_block(self, fn, b, states):
        """execute non-phi instructions; returns list of (succ, state)"""
        out = []
        for st in states:
            cur = [st]
            ins = fn.blocks[b]
            n = 0
            while n < len(ins) and ins[n]["op"] == "phi":
                n += 1
            for i in ins[n:-1]:
                nxt = []
                for s in cur:
                    nxt += self.step(fn, s, i)
                cur = nxt
                if not cur:
                    break
            t = ins[-1]
            for s in cur:
                out += self.term(fn, b, s, t)
        return out

    def term(self, fn, b, s, t):
        op = t["op"]
        if op == "br":
            if "cond" not in t:
                return [(t["succ"][0], s)]
            f = self.form(s, self.val(s, t["cond"]))
            if t["succ"][0] == t["succ"][1]:
                return [(t["succ"][0], s)]
            o = s.copy()
            out = [(t["succ"][0], x) for x in s.assume(f)]
            out += [(t["succ"][1], x) for x in o.assume(fnot(f))]
            return out
        if op == "switch":
            v = self.val(s, t["cond"])
            if isinstance(v, UV):
                self.oblige("no-undef-branch", False, t["loc"], "switch on undefined value")
                return []
            out = []
            rest = [s]
            for c, tgt in t["cases"]:
                cv = int(c[1])
                f = feq(v.lin - cv)
                if v.w == 1:
                    f = self.form(s, v)
                    f = f if cv & 1 else fnot(f)
                nrest = []
                for r in rest:
                    o = r.copy()
                    out += [(tgt, x) for x in o.assume(f)]
                    nrest += r.assume(fnot(f))
                rest = nrest
            out += [(t["default"], r) for r in rest]
            return out
        if op == "ret":
            v = self.val(s, t["ops"][0]) if t["ops"] else None
            self.rets.append(Result(v, s, t["loc"]))
            return []
        if op == "unreachable":
            self.exits.append(Result("unreachable", s, t["loc"], "unreachable"))
            return []
        if op == "invoke":
            out = []
            for x in self.call(fn, s, t):
                out.append((t["succ"][0], x))
            return out
        raise Unsupported("terminator " + op)

    def phis(self, fn, b, pred, st):
        vals = {}
        for i in fn.blocks[b]:
            if i["op"] != "phi":
                break
            for o, p in i["inc"]:
                if p == pred:
                    vals[i["id"]] = self.val(st, o)
                    break
        return vals

    def merge(self, fn, b, items):
        """items: list of (pred, state) with target b.  Apply phis, join equal typestates."""
        groups = {}
        live = fn.live[b]
        order = []
        for pred, st in items:
            st.env.update(self.phis(fn, b, pred, st))
            pl = [i["id"] for i in fn.blocks[b] if i["op"] == "phi"]
            env = {k: st.env[k] for k in itertools.chain(live, pl) if k in st.env}
            # keep allocas
            st.env = env
            k = st.key(list(live) + pl)
            if k in groups:
                add_disjunct(groups[k], st)
            else:
                groups[k] = [st]
                order.append(k)
        r = [s for k in order for s in groups[k]]
        if len(r) > MAXSTATES:
            raise Unsupported("state explosion at %s of %s (%d)" % (b, fn.name, len(r)))
        self.stats["states"] += len(r)
        return r

    def run_scope(self, fn, blocks, entry, states, header=None):
        """run over a loop-collapsed acyclic region.
        returns (exits: list of (pred, target, state), backs: list of (pred,state))"""
        pend = {b: [] for b in blocks}
        exits, backs = [], []
        order = sorted(blocks, key=lambda b: fn.idx[b])

        def route(src, tgt, st):
            if tgt == header:
                backs.append((src, st))
            elif tgt in pend:
                pend[tgt].append((src, st))
            else:
                exits.append((src, tgt, st))
        done = set()
        for b in order:
            if b in done:
                continue
            if b == entry:
                sts = states
                pre_merged = True
            else:
                items = pend[b]
                if not items:
                    continue
                if b in fn.loops and b != header:
                    body = fn.loops[b]
                    for src, tgt, st in self.do_loop(fn, b, body, items):
                        route(src, tgt, st)
                    done |= body
                    continue
                sts = self.merge(fn, b, items)
            self.stats["blocks"] += 1
            for tgt, st in self.exec_block(fn, b, sts):
                route(b, tgt, st)
        return exits, backs

    def do_loop(self, fn, h, body, items):
        out = []
        # join entries with identical typestates first
        entries = []
        sts = {}
        phi_ids = [i["id"] for i in fn.blocks[h] if i["op"] == "phi"]
        phi_ty = {i["id"]: i["ty"] for i in fn.blocks[h] if i["op"] == "phi"}
        for st in self.merge(fn, h, items):
            self.stats["loops"] += 1
            out += self.loop_one(fn, h, body, st, phi_ids, phi_ty)
        return out

    UNROLL = 12

    def loop_one(self, fn, h, body, st0, phi_ids, phi_ty):
        keep = (len(self.exits), len(self.rets), self.mute, self.cands, len(self.obligations))
        try:
            return self.loop_inv(fn, h, body, st0, phi_ids, phi_ty)
        except SmallLoop:
            pass
        except Unsupported:
            self._restore(keep)
            r = self.loop_exact(fn, h, body, st0)
            if r is None:
                raise
            return r
        self._restore(keep)
        r = self.loop_exact(fn, h, body, st0)
        if r is None:
            self._restore(keep)
            return self.loop_inv(fn, h, body, st0, phi_ids, phi_ty, False)
        return r

    def _restore(self, keep):
        del self.exits[keep[0]:]
        del self.rets[keep[1]:]
        self.mute, self.cands = keep[2], keep[3]
        del self.obligations[keep[4]:]

    def loop_exact(self, fn, h, body, st0):
        """complete unfolding of a loop whose iteration count is bounded by the facts"""
        out = []
        states = [st0.copy()]
        for n in range(self.UNROLL + 1):
            exits, backs = self.run_scope(fn, body, h, states, h)
            out += exits
            if not backs:
                return out
            states = self.merge(fn, h, backs)
        return None

    def loop_inv(self, fn, h, body, st0, phi_ids, phi_ty, allow_small=True):
        init = {p: st0.env[p] for p in phi_ids}
        tag = (fn.name, h, self.depth)
        saved_c = self.cands
        self.mute += 1
        exits_n, rets_n = len(self.exits), len(self.rets)

        def probe(make, record=False):
            del self.exits[exits_n:]
            del self.rets[rets_n:]
            s = make()
            r = self.run_scope(fn, body, h, [s], h)
            return r
        # phase 1: discover affine steps and modified local cells
        havoc_cells = {}   # Obj -> set(off,size) or 'all'
        fixed = {}
        self.cands = set()
        objhav = {}                   # model name -> storage generation at the loop header
        invariant = set(phi_ids)      # phis that keep their initial value
        affine = {}
        objmod = set()
        for rnd in range(12):
            vals = {}

            def make():
                s = st0.copy()
                s.events = st0.events + (MARK,)
                for p in phi_ids:
                    if p in invariant:
                        v = init[p]
                    else:
                        v = self.havoc_phi(tag, p, phi_ty[p], init[p], s, None)
                    vals[p] = v
                    s.env[p] = v
                self.havoc_mem(s, havoc_cells, tag, st0)
                s.objs.update(objhav)
                return s
            exits, backs = probe(make)
            changed = False
            for src, s in backs:
                for c, o in s.objs.items():
                    o0 = objhav.get(c) or st0.objs.get(c) or self.mcache.get(c)
                    if o is not o0 and c not in objhav:
                        if c[0] not in "gm":
                            raise Unsupported("container %s is resized inside a loop" % c)
                        objhav[c] = self.header_epoch(tag, c, o0)
                        changed = True
                nv = self.phis(fn, h, src, s)
                for p in list(invariant):
                    if nv[p].key() != init[p].key():
                        invariant.discard(p)
                        changed = True
                changed |= self.collect_mem(s, st0, havoc_cells, tag)
            if not changed:
                break
        else:
            raise Unsupported("loop discovery did not stabilise")
        steps = {p: None for p in phi_ids if p not in invariant}
        ranges = {}
        bad = set()
        for src, s in backs:
            nv = self.phis(fn, h, src, s)
            for p in steps:
                d = self.delta(vals[p], nv[p])
                ranges.setdefault(p, []).extend([d] if d is not None else self.small_step(s, vals[p], nv[p]))
                if d is None or (steps[p] is not None and steps[p] != d):
                    bad.add(p)
                else:
                    steps[p] = d
        affine = {p: d for p, d in steps.items() if p not in bad and d is not None}
        free = [p for p in steps if p not in affine]
        cand_exprs = set(self.cands)
        # phase 2: ghost counter + candidate invariants
        k = TABLE.get(("iter",) + tag, 64)
        kl = Lin({k: 1}, 0)
        old_ub = TABLE.ub[k]

        def header_vals():
            hv = {}
            for p in phi_ids:
                if p in invariant:
                    hv[p] = init[p]
                elif p in affine:
                    v = init[p]
                    if isinstance(v, PV):
                        hv[p] = PV(v.obj, v.off + kl.scale(affine[p]))
                    else:
                        hv[p] = IV(v.w, v.lin + kl.scale(affine[p]))
                else:
                    hv[p] = None
            return hv
        hv0 = header_vals()
        submap = {}
        for p in phi_ids:
            if p in affine and isinstance(vals[p], (IV, PV)):
                a = self.phi_atom(vals[p])
                if a is not None:
                    submap[a] = (hv0[p].off if isinstance(hv0[p], PV) else hv0[p].lin)
        cands = []
        seenc = set()

        def addc(l):
            if l.is_const():
                return
            key = l.key()
            if key in seenc:
                return
            seenc.add(key)
            cands.append(l)
        for l in cand_exprs:
            l = l.subst(submap)
            for x in (l, -l, l + 1, -l + 1, l - 1, -l - 1):
                addc(x)
            d = l.subst({k: kl + 1}) - l
            if d.is_const() and d.k:
                # a condition established by the body, seen from the next iteration
                for x in (l - d, -l + d):
                    addc(x)
                    addc(x - 1)
                    addc(x + 1)
        for p in phi_ids:
            if p in invariant:
                continue
            v = init[p]
            if p in affine:
                cur = hv0[p].off if isinstance(hv0[p], PV) else hv0[p].lin
            elif isinstance(vals[p], PV):
                cur = vals[p].off
            elif isinstance(vals[p], IV):
                cur = vals[p].lin
            else:
                continue
            ini = v.off if isinstance(v, PV) else (v.lin if isinstance(v, IV) else None)
            if ini is None:
                continue
            addc(cur)
            if isinstance(v, IV):
                addc(const((1 << v.w) - 1) - cur)
            addc(cur - ini)
            addc(ini - cur)
            if isinstance(v, PV) and v.obj is not None and v.obj.extent is not None:
                addc(v.obj.extent - cur)
            for o in self.extents(st0):
                addc(o - cur)
            if p not in affine:
                addc(cur - ini - kl)
                ds = ranges.get(p)
                if ds and all(isinstance(d, int) for d in ds) and max(ds) < 256 and min(ds) > -256:
                    addc(cur - ini - kl.scale(min(ds)))
                    addc(ini + kl.scale(max(ds)) - cur)
        for c, o in objhav.items():
            o0 = st0.objs.get(c) or self.mcache.get(c)
            addc(o.extent - o0.extent)
            for p in phi_ids:
                if p in invariant or not isinstance(vals[p], (IV, PV)):
                    continue
                x = hv0[p] if p in affine else vals[p]
                x = x.off if isinstance(x, PV) else x.lin
                addc(o.extent - x)
                for l in list(cand_exprs):
                    pass
            for l in list(cands):
                if any(a in l.c for a in o0.extent.c):
                    # the same relation for the current generation
                    for a in o0.extent.c:
                        if o0.extent.c[a] == 1 and len(o0.extent.c) == 1 and a in l.c:
                            addc(l.subst({a: o.extent - o0.extent.k}))
        # every affine phi in range: implied by k >= 0 with candidates
        self.cands = None
        free_vals = {}

        def make2():
            s = st0.copy()
            s.events = st0.events + (MARK,)
            hv = header_vals()
            for p in phi_ids:
                if hv[p] is None:
                    hv[p] = vals[p] = self.havoc_phi(tag, p, phi_ty[p], init[p], s, None)
                s.env[p] = hv[p]
            self.havoc_mem(s, havoc_cells, tag, st0)
            s.objs.update(objhav)
            for c in cands:
                s.sys.add(c)
            return s
        # initial check with k = 0
        zero = {k: const(0)}
        initmap = dict(zero)
        for p in free:
            a = self.phi_atom(vals[p])
            if a is not None and isinstance(init[p], (IV, PV)):
                initmap[a] = init[p].lin if isinstance(init[p], IV) else init[p].off
        cell_init = self.cell_init_map(havoc_cells, tag, st0)
        initmap.update(cell_init)
        for c, o in objhav.items():
            (a, _), = o.extent.c.items()
            initmap[a] = amount(st0.objs.get(c) or self.mcache.get(c))

        def obj_step(s):
            m = {}
            for c, o in objhav.items():
                (a, _), = o.extent.c.items()
                m[a] = amount(s.objs[c])
            return m
        cands = [c for c in cands if st0.sys.entails(c.subst(initmap))]
        for rnd in range(40):
            exits, backs = probe(make2)
            drop = set()
            for src, s in backs:
                nv = self.phis(fn, h, src, s)
                # affine relation must really hold (no wrap)
                for p in list(affine):
                    want = hv0[p]
                    d = affine[p]
                    if isinstance(nv[p], (IV, PV)) and isinstance(want, (IV, PV)):
                        got = nv[p].lin if isinstance(nv[p], IV) else nv[p].off
                        exp = (want.lin if isinstance(want, IV) else want.off) + d
                        same_obj = not isinstance(want, PV) or (isinstance(nv[p], PV) and nv[p].obj is want.obj)
                        if got == exp and same_obj:
                            continue
                        if same_obj and s.sys.entails_eq(got - exp):
                            continue
                    # not affine after all
                    affine.pop(p)
                    free.append(p)
                    return self._loop_retry(fn, h, body, st0, phi_ids, phi_ty, saved_c)
                m = {k: kl + 1}
                for p in free:
                    a = self.phi_atom(vals[p])
                    if a is not None and isinstance(nv[p], (IV, PV)):
                        m[a] = nv[p].lin if isinstance(nv[p], IV) else nv[p].off
                m.update(self.cell_step_map(havoc_cells, tag, s))
                m.update(obj_step(s))
                for c in cands:
                    if c.key() in drop:
                        continue
                    if not s.sys.entails(c.subst(m)):
                        drop.add(c.key())
            if not drop:
                break
            cands = [c for c in cands if c.key() not in drop]
        else:
            raise Unsupported("loop invariants did not stabilise")
        self.mute -= 1
        self.cands = saved_c
        # final, recorded run
        del self.exits[exits_n:]
        del self.rets[rets_n:]
        s = make2()
        small = allow_small and s.sys.entails(const(self.UNROLL - 1) - kl)
        exits, backs = self.run_scope(fn, body, h, [s], h)
        base = len(st0.events) + 1
        alts = []
        seen = set()
        touched = set()
        for src, b in backs:
            evs = b.events[base:]
            nv = self.phis(fn, h, src, b)
            nmap = {}
            for p in free:
                a = self.phi_atom(vals[p])
                if a is not None and isinstance(nv[p], (IV, PV)):
                    nmap[a] = nv[p].lin if isinstance(nv[p], IV) else nv[p].off
            nmap.update(self.cell_step_map(havoc_cells, tag, b))
            nmap.update(obj_step(b))
            kk = (tuple(e.key() for e in evs), tuple((a, l.key()) for a, l in sorted(nmap.items())))
            touched |= {e.root for e in evs if e.kind in ("write", "copy", "fill")}
            for e in evs:
                if e.kind in ("loop", "qloop"):
                    touched |= e.touched
            if kk not in seen:
                seen.add(kk)
                alts.append((evs, b.sys, b, nmap))
        lev = None
        if any(a[0] for a in alts) or (self.quiet_loops and alts):
            lev = Ev("loop" if any(e.kind != "qloop" for a in alts for e in a[0]) else "qloop", fn.blocks[h][-1]["loc"], head=tag, iter=kl)
            lev.d["alts"] = LoopAlts(alts)
            lev.d["touched"] = frozenset(touched)
            lev.d["cells"] = ObjMap(objhav)
            lev.d["init"] = FrozenMap({a: l for a, l in initmap.items() if a != k})

        block = self.copy_loop(alts, k, kl, fn.blocks[h][-1]["loc"]) if lev is not None and lev.kind == "loop" else None

        if block is not None:
            block.d["lev"] = lev
        elif small:
            raise SmallLoop()

        def splice(s):
            pre, post = s.events[:base - 1], s.events[base:]
            s.events = pre + ((lev,) if lev is not None else ()) + post
            if block is None:
                return [s]
            out = []
            z = s.copy()
            for z in z.assume(feq(kl)):
                z.events = pre + post
                out.append(z)
            for z in s.assume(fge(kl - 1)):
                z.events = pre + (block,) + post
                out.append(z)
            return out
        for coll, n0 in ((self.exits, exits_n), (self.rets, rets_n)):
            tail = coll[n0:]
            del coll[n0:]
            for r in tail:
                for z in splice(r.state):
                    coll.append(Result(r.code, z, r.loc, r.kind))
        return [(src, tgt, z) for src, tgt, s in exits for z in splice(s)]

    def copy_loop(self, alts, k, kl, loc):
        """a loop whose every iteration moves the next few bytes is one block move: the event standing for all iterations"""
        if len(alts) != 1 or not alts[0][0]:
            return None
        evs = alts[0][0]
        if any(e.kind != "write" or not e.len.is_const() or not e.bits or e.root != evs[0].root or e.obj is not evs[0].obj for e in evs):
            return None
        root = evs[0].root
        stride = evs[0].off.c.get(k, 0)
        step = sum(e.len.k for e in evs)
        if abs(stride) != step:
            return None
        o0 = evs[0].off
        parts = []
        for e in evs:
            d = e.off - o0
            if not d.is_const():
                return None
            parts.append((d.k, e))
        parts.sort(key=lambda x: x[0])
        lo = at = parts[0][0]
        allbits = []
        for d, e in parts:
            if d != at:
                return None
            at += e.len.k
            allbits += list(e.bits)
        first = o0 + lo                              # lowest byte of iteration k
        dst = first.subst({k: const(0)})
        if stride < 0:
            dst = first.subst({k: kl - 1})
        n = kl.scale(step)
        if all(len(b[0]) == 0 for b in allbits):
            one = allbits[:8]
            if all(allbits[i:i + 8] == one for i in range(0, len(allbits), 8)):
                return Ev("fill", loc, root=root, obj=evs[0].obj, off=dst, len=n, bits=tuple(one))
            return None
        so = sbase = None
        for i in range(0, len(allbits), 8):
            a = None
            for j in range(8):
                b = allbits[i + j]
                if len(b[0]) != 1 or b[1]:
                    return None
                (aa, jj), = b[0]
                if jj != j or (a is not None and aa != a):
                    return None
                a = aa
            info = BYTE_INFO.get(a)
            if info is None:
                return None
            o, off = info
            if so is None:
                so, sbase = o, off
            elif o is not so or not (off - sbase - i // 8).is_const() or (off - sbase - i // 8).k:
                return None
        sroot = so.meta.get("root", so.name)
        if sroot == root or sbase.c.get(k, 0) != stride:
            return None
        src = sbase.subst({k: const(0)}) if stride > 0 else sbase.subst({k: kl - 1})
        return Ev("copy", loc, root=root, obj=evs[0].obj, off=dst, len=n, srcobj=so, srcoff=src, srcroot=sroot, srcbytes=None, pristine=True, move=False)

    def small_step(self, s, a, b):
        """bounds of a step that is a small varying amount (candidates only)"""
        if not (isinstance(a, IV) and isinstance(b, IV)):
            return [None]
        M = 1 << a.w
        d = b.lin - a.lin
        k = d.k % M
        d = d - d.k + (k - M if k >= M // 2 else k)
        lo = next((i for i in (1, 0) if s.sys.entails(d - i)), None)
        hi = next((i for i in (1, 2, 3, 4, 5, 8, 10, 16) if s.sys.entails(const(i) - d)), None)
        return [lo, hi]

    def header_epoch(self, tag, c, o0):
        key = ("hdr", c) + tag
        o = self.mcache.get(key)
        if o is None:
            if c[0] == "m":
                esz = o0.meta["esz"]
                l = Lin({TABLE.get(("ext", c) + tag, ub=((1 << 63) - 1) // esz): 1}, 0)
                o = self.mcache[key] = Obj(o0.name, o0.kind, l.scale(esz), **o0.meta)
                o.meta["count"] = l
            else:
                a = TABLE.get(("ext", c) + tag, 63)
                o = self.mcache[key] = Obj(o0.name.rstrip("'") + "~", o0.kind, Lin({a: 1}, 0), **o0.meta)
            self.region_objs.append(o)
        return o

    def _loop_retry(self, fn, h, body, st0, phi_ids, phi_ty, saved_c):
        raise Unsupported("loop at %s/%s: induction may wrap" % (fn.name, h))

    def extents(self, st):
        out = []
        for o in self.region_objs:
            if o.extent is not None and not o.extent.is_const():
                out.append(o.extent)
        return out

    def phi_atom(self, v):
        l = v.lin if isinstance(v, IV) else (v.off if isinstance(v, PV) else None)
        if l is None or len(l.c) != 1:
            return None
        (a, c), = l.c.items()
        return a if c == 1 and l.k == 0 else None

    def delta(self, a, b):
        if isinstance(a, PV) and isinstance(b, PV) and a.obj is b.obj:
            d = b.off - a.off
        elif isinstance(a, IV) and isinstance(b, IV):
            d = b.lin - a.lin
            if d.is_const():
                # candidate step modulo 2^w; the absence of wrapping is verified with the invariants
                M = 1 << a.w
                k = d.k % M
                return k - M if k >= M // 2 else k
        else:
            return None
        return d.k if d.is_const() else None

    def havoc_phi(self, tag, p, ty, init, s, _):
        if ty == "p":
            if not isinstance(init, PV) or init.obj is None:
                return self.fresh_ty("p", 64)
            a = TABLE.get(("phi",) + tag + (p,), 64)
            return PV(init.obj, Lin({a: 1}, 0))
        w = width(ty)
        a = TABLE.get(("phi",) + tag + (p,), w)
        return IV(w, Lin({a: 1}, 0), prim_bits(a, w))

    def havoc_mem(self, s, cells, tag, st0):
        for o, cs in cells.items():
            if o not in s.mem:
                continue
            if cs == "all":
                s.mem.pop(o, None)
                continue
            for off, size in cs:
                a = TABLE.get(("cell",) + tag + (o.name, off, size), size * 8)
                self.store_local(s, o, off, size, IV(size * 8, Lin({a: 1}, 0), prim_bits(a, size * 8)))

    def cell_init_map(self, cells, tag, st0):
        m = {}
        for o, cs in cells.items():
            if cs == "all" or o not in st0.mem:
                continue
            for off, size in cs:
                a = TABLE.get(("cell",) + tag + (o.name, off, size), size * 8)
                c = st0.mem[o].get(off)
                if c and c[0] == size and isinstance(c[1], IV):
                    m[a] = c[1].lin
        return m

    def cell_step_map(self, cells, tag, s):
        m = {}
        for o, cs in cells.items():
            if cs == "all" or o not in s.mem:
                continue
            for off, size in cs:
                a = TABLE.get(("cell",) + tag + (o.name, off, size), size * 8)
                c = s.mem[o].get(off)
                if c and c[0] == size and isinstance(c[1], IV):
                    m[a] = c[1].lin
        return m

    def collect_mem(self, s, st0, cells, tag):
        ch = False
        for o in set(s.mem) | set(st0.mem):
            a = st0.mem.get(o, {})
            b = s.mem.get(o, {})
            cur = cells.get(o)
            if cur == "all":
                continue
            for off, (size, v) in b.items():
                if cur and (off, size) in cur:
                    continue
                if off in a and a[off][0] == size and a[off][1].key() == v.key():
                    continue
                if o not in st0.mem:
                    continue      # object local to the iteration
                if isinstance(v, IV) and off in a and a[off][0] == size:
                    cells.setdefault(o, set()).add((off, size))
                else:
                    cells[o] = "all"
                ch = True
                cur = cells.get(o)
                if cur == "all":
                    break
            if cells.get(o) != "all":
                for off, (size, v) in a.items():
                    if off not in b and not (cells.get(o) and (off, size) in cells[o]):
                        cells[o] = "all"
                        ch = True
                        break
        return ch

    def run_function(self, f, states):
        saved = getattr(self, "rets", None)
        self.rets = []
        # merge() normally prunes env; entry has no phis
        exits, backs = self.run_scope(f, set(f.rpo), f.entry, states, None)
        r = self.rets
        self.rets = saved
        return r

    def analyze(self, name, setup):
        """setup(engine, func, state) binds arguments.  Returns list of Result."""
        self.allocas = {}
        self.region_objs = []
        self.mcache = {}
        f = self.func(name)
        st = State()
        setup(self, f, st)
        rets = self.run_function(f, [st])
        return rets


def amount(o):
    """what the size atom of a storage generation counts: elements of a container, bytes of a buffer"""
    return o.meta["count"] if o.meta.get("cell", "")[:1] == "m" else o.extent


class SmallLoop(Exception):
    pass


class FrozenMap(dict):
    def key(self):
        return tuple((a, l.key()) for a, l in sorted(self.items()))


class ObjMap(dict):
    def key(self):
        return tuple(sorted((c, id(o)) for c, o in self.items()))


class LoopAlts:
    def __init__(self, alts):
        self.alts = alts
        self.k = None

    def key(self):
        if self.k is None:
            self.k = tuple((tuple(e.key() for e in a[0]), hash(frozenset((k, v[1]) for k, v in a[1].facts.items())),
                            tuple(sorted((x, l.key()) for x, l in a[3].items()))) for a in self.alts)
        return self.k

    def __iter__(self):
        return iter(self.alts)

    def __len__(self):
        return len(self.alts)

    def __repr__(self):
        return "[%s]" % " | ".join(", ".join(map(repr, a[0])) for a in self.alts)


BYTE_INFO = {}


def _fmt_bits(k):
    return show_bits(tuple((frozenset(b[0]), b[1]) for b in k[1]))


def _fmt_byte(k):
    c, o = k[2]
    return "%s[%r]" % (k[1], Lin(dict(c), o))


_lin.FMT["bits"] = _fmt_bits
_lin.FMT["byte"] = _fmt_byte
_lin.FMT["lin"] = lambda k: "(%r)" % Lin(dict(k[1][0]), k[1][1])
_lin.FMT["div"] = lambda k: "((%r)/%d)" % (Lin(dict(k[1][0]), k[1][1]), k[2])
_lin.FMT["ctlz"] = lambda k: "ctlz%d(%r)" % (k[1], Lin(dict(k[2][0]), k[2][1]))
MARK = Ev("mark", [])


def width(ty):
    if ty[0] == "i":
        return int(ty[1:])
    if ty == "f32":
        return 32
    if ty in ("f64", "p"):
        return 64
    raise Unsupported("type " + ty)
