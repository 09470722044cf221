"""Wire-grammar specification of one archive operation and the walker that decides
an abstract exit of the analysed code against it.

A specification is a list of items.  Each item states, for the abstract state at an
exit, which bytes it occupies, which value they carry and when the operation must stop
with which error.  The walker follows the items through the exit's facts; where the
facts leave an item's fate open it continues on both sides of the question, so every
success exit must be explained by all items fitting and matching, and every error exit
by an item that must stop with exactly that error.
"""
from .absint import (ATOM_BITS, BOOLFORM, BYTE_INFO, IV, PV, UV, Ev, Obj, TABLE, const, feq, fge, fne, fnot, prim_bits, show_bits,
                     B0, B1, iv_from_bits, const_bits, Unsupported)
from .lin import Lin

ERANGE, ENOBUFS, EMSGSIZE, EOVERFLOW, EINVAL, EBADMSG, EPROTO, ENOTSUP = 34, 105, 90, 75, 22, 74, 71, 95
ENAME = {0: "success", 34: "result_out_of_range", 105: "no_buffer_space", 90: "message_size", 75: "value_too_large",
         22: "invalid_argument", 74: "bad_message", 71: "protocol_error", 95: "not_supported"}

SEQ = {"probe", "call", "loop", "gresize", "greserve", "mresize", "mreserve", "mclear", "ins_begin", "ins_end"}


class WS:
    """walker state"""
    __slots__ = ("st", "cur", "ev", "evs", "size", "vals", "notes", "idx")

    def __init__(self, st, cur, evs, size):
        self.st = st
        self.cur = cur
        self.ev = 0
        self.evs = evs
        self.size = size
        self.vals = {}
        self.idx = None

    def fork(self, st=None):
        o = WS(st if st is not None else self.st.copy(), self.cur, self.evs, self.size)
        o.ev = self.ev
        o.vals = dict(self.vals)
        o.idx = self.idx
        return o

    def peek(self):
        i = self.ev
        while i < len(self.evs) and self.evs[i].kind not in SEQ:
            i += 1
        return self.evs[i] if i < len(self.evs) else None

    def pop(self):
        while self.ev < len(self.evs) and self.evs[self.ev].kind not in SEQ:
            self.ev += 1
        e = self.evs[self.ev]
        self.ev += 1
        return e


class Problem(Exception):
    def __init__(self, rule, text, loc=None):
        self.rule, self.text, self.loc = rule, text, loc


def weq(w, ws, a, b):
    """two integer expressions denote the same value under the facts (linear or bitwise)"""
    if ws.st.sys.entails_eq(a - b):
        return True
    x, y = w.e.bits(ws.st, IV(64, a)), w.e.bits(ws.st, IV(64, b))
    if same_bits(ws, x, y):
        ws.st.sys.add_eq(a - b)
        return True
    return False


def link_prefix(st, lin):
    """a value made of the low bits of one atom equals that atom when its high bits are zero"""
    if len(lin.c) != 1 or lin.k:
        return
    (a, k), = lin.c.items()
    bits = ATOM_BITS.get(a)
    if k != 1 or not bits or len(bits[0][0]) != 1 or bits[0][1]:
        return
    (p, j), = bits[0][0]
    if j or p == a:
        return
    if all(b == (frozenset([(p, i)]), 0) for i, b in enumerate(bits)) and st.sys.entails(const((1 << len(bits)) - 1) - Lin({p: 1}, 0)):
        st.sys.add_eq(lin - Lin({p: 1}, 0))


def link_bits(ws, lin, bits, least=8):
    """the code may have composed the same value from other bits (sign extension of a byte
    known to be small, or-ed pieces): equate the atoms that are bitwise equal to it under the facts"""
    sys = ws.st.sys
    seen = set()
    for c, k in list(sys.facts.values()):
        for a in c:
            if a in seen:
                continue
            seen.add(a)
            ab = ATOM_BITS.get(a)
            if ab is None or len(ab) < least or tuple(ab) == tuple(bits):
                continue
            if not any(x[0] & y[0] for x, y in zip(ab, bits)) and not (bytes_in(ab[0]) and bytes_in(bits[0])):
                continue
            if same_bits(ws, tuple(bits), tuple(ab)):
                sys.add_eq(Lin({a: 1}, 0) - lin)


class Stop:
    def __init__(self, ws, code, why, loc=None):
        self.ws, self.code, self.why = ws, code, why


def split(ws, form):
    """-> (ws_true or None, ws_false or None)"""
    d = ws.st.decide(form)
    if d is True:
        return ws, None
    if d is False:
        return None, ws
    o = ws.fork()
    t = ws.fork()
    rt = t.st.assume(form)
    rf = o.st.assume(fnot(form))
    # disjunctive forms may return several states; keep it simple: they are linear here
    wt = ws.fork(rt[0]) if rt else None
    wf = ws.fork(rf[0]) if rf else None
    return wt, wf


class Walker:
    def __init__(self, engine, cfg, mode):
        self.e = engine
        self.cfg = cfg          # configuration dict
        self.mode = mode        # 'r' | 'w'
        self.check = True       # verify content (success exits)
        self.buf = None
        self.problems = []

    # -- helpers -----------------------------------------------------------
    def bufobj(self, ws):
        return ws.st.objs.get("g0") or self.buf

    def wire_byte(self, ws, off):
        o = self.buf
        if self.mode == "r":
            return self.e.byte_atom(o, off)
        vis = ws.vals.get("vis")
        return self.e.region_byte(ws.st, o, off, ws.st.events[:vis] if vis is not None else None)

    def ws_decided(self, ws, n):
        """the facts decide whether n bytes fit"""
        l = ws.size - ws.cur - n
        return ws.st.sys.entails(l) or ws.st.sys.entails(-l - 1)

    def wire_bits(self, ws, off, n, swap):
        bs = [self.wire_byte(ws, off + i) for i in range(n)]
        if swap:
            bs.reverse()
        return tuple(x for b in bs for x in b)

    def need(self, ws, L, slack=None):
        """yields ('ok', ws) or ('stop', ws, code, why)"""
        L = L if isinstance(L, Lin) else const(L)
        if L.is_const() and L.k == 0:
            yield ("ok", ws)
            return
        if self.mode == "w" and self.cfg.get("grow"):
            yield from self.need_grow(ws, L)
            return
        t, f = split(ws, fge(ws.size - ws.cur - L))
        if t is not None:
            yield ("ok", t)
        if f is not None:
            yield ("stop", f, ERANGE, "%r byte(s) needed at position %r but only %r remain" % (L, ws.cur, ws.size - ws.cur))

    def need_grow(self, ws, L, least=None):
        t, f = split(ws, fge(ws.size - ws.cur - L))
        if t is not None:
            yield ("ok", t)
        if f is None:
            return
        ws = f
        nx = ws.peek()
        if nx is not None and nx.kind == "gresize" and not self.is_final_fit(ws, nx, L):
            ws.pop()
            limit = self.cfg.get("limit")
            if limit is not None and not ws.st.sys.entails(const(limit) - nx.n):
                raise Problem("growth-limit", "the output is resized to %r bytes, which may exceed the allocation limit %d" % (nx.n, limit), nx.loc)
            ws.size = nx.n
            if not ws.st.sys.entails(ws.size - ws.cur - (least or L)):
                raise Problem("growth-enough", "the output is resized to %r bytes but %r bytes at position %r are about to be written" % (nx.n, L, ws.cur), nx.loc)
            yield ("ok", ws)
            return
        # growth must be impossible: overflow, container limit or allocation limit
        req = ws.size + L
        m, d = self.cfg.get("enlarger", (3, 2))
        big = const((1 << 64) - 1)
        if self.cfg.get("no_overflow_check"):
            forms = []
        t, f = split(ws, fge(big - req))
        if f is not None:
            yield ("stop", f, ENOBUFS, "required size overflows")
        if t is None:
            return
        t, f = split(t, fge(big - req.scale(m)))
        if f is not None:
            yield ("stop", f, ENOBUFS, "enlarged size overflows")
        if t is None:
            return
        new = req.scale(m)
        if d != 1:
            (st, v), = self.e.binop(t.st, "udiv", 64, IV(64, new), IV(64, const(d)), {}, [])
            t.st = st
            new = v.lin
        limit = self.cfg.get("limit")
        if limit is not None:
            t, f = split(t, fge(const(limit) - new))
            if f is not None:
                yield ("stop", f, ENOBUFS, "allocation limit")
        if t is None:
            return
        # beyond the largest object: the container's resize does not return
        t, f = split(t, fge(const((1 << 63) - 1) - new))
        if t is not None:
            yield ("nogrow", t, None, "the output has to grow for %r byte(s) at position %r (size %r), but is not resized" % (L, ws.cur, ws.size))

    def is_final_fit(self, ws, nx, L):
        """the resize is the one that trims the output to the position after an error"""
        if self.check or self.fpos is None:
            return False
        if any(e.kind in SEQ for e in ws.evs[ws.evs.index(nx) + 1:]):
            return False
        return ws.st.sys.entails_eq(nx.n - self.fpos) and not ws.st.sys.entails(nx.n - ws.cur - L)

    def run(self, items, ws):
        """generator of outcomes: ('done', ws) | ('stop', ws, code, why)"""
        if not items:
            yield ("done", ws)
            return
        for o in items[0].step(self, ws):
            if o[0] == "ok":
                yield from self.run(items[1:], o[1])
            else:
                yield o

    def seq(self, items, ws):
        for o in self.run(items, ws):
            if o[0] == "done":
                yield ("ok", o[1])
            else:
                yield o


# ---- value places ---------------------------------------------------------
class Id:
    """top-level scalar leaf: source or sink number"""
    def __init__(self, n):
        self.n = n

    def read(self, w, ws, nbytes):
        if w.mode == "w":
            a = TABLE.by_key.get(("src", self.n))
            if a is None:
                raise Unsupported("value %d is never produced" % self.n)
            wd = (TABLE.ub[a]).bit_length()
            b = prim_bits(a, wd)
            return (tuple(b) + (B0,) * (8 * nbytes - len(b)))[:8 * nbytes]
        for e in reversed(w.exit_events):
            if e.kind == "sink" and e.id == self.n:
                if e.bits is None:
                    return None
                return (tuple(e.bits) + (B0,) * (8 * nbytes - len(e.bits)))[:8 * nbytes]
        return None

    def name(self):
        return "value #%d" % self.n


class Mem:
    """leaf inside model storage"""
    def __init__(self, cid, off):
        self.cid, self.off = cid, off

    def obj(self, ws, e):
        return ws.st.objs.get("m%d" % self.cid) or e.mcache["m%d" % self.cid]

    def read(self, w, ws, nbytes):
        o = self.obj(ws, w.e)
        return tuple(x for i in range(nbytes) for x in w.e.region_byte(ws.st, o, self.off + i))

    def name(self):
        return "element storage c%d+%r" % (self.cid, self.off)


class NoCheck:
    def read(self, w, ws, nbytes):
        return None

    def name(self):
        return "ignored"


class Ins:
    """leaf of an element handed to insert(): matched against the sinks that follow"""
    def __init__(self, n):
        self.n = n

    def read(self, w, ws, nbytes):
        return None

    def name(self):
        return "inserted value #%d" % self.n


# ---- items ------------------------------------------------------------------
class Fixed:
    def __init__(self, place, n, swap=False, boolean=False):
        self.place, self.n, self.swap = place, n, swap
        self.boolean = boolean

    def size(self):
        return self.n

    def step(self, w, ws):
        for o in w.need(ws, self.n):
            if o[0] == "ok":
                ws2 = o[1]
                if w.check:
                    self.verify(w, ws2)
                if isinstance(self.place, Ins):
                    ws2.vals[self.place.n] = w.wire_bits(ws2, ws2.cur, self.n, self.swap)
                ws2.cur = ws2.cur + self.n
            yield o

    def verify(self, w, ws):
        if isinstance(self.place, (NoCheck, Ins)):
            return
        wire = w.wire_bits(ws, ws.cur, self.n, self.swap)
        val = self.place.read(w, ws, self.n)
        if val is None:
            raise Problem("content", "%s is not available on a success exit" % self.place.name())
        if tuple(val) != tuple(wire) and not same_bits(ws, val, wire):
            if self.boolean and w.mode == "r" and self.match_bool(val, wire):
                return
            raise Problem("content", "%s: %s does not match the %d byte(s) at position %r%s: %s" % (
                self.place.name(), show_bits(val), self.n, ws.cur, " (byte order swapped)" if self.swap else "", show_bits(wire)))

    def match_bool(self, val, wire):
        return tuple(val[:1]) == tuple(wire[:1])


class Group:
    """members of one composite: a growing output may reserve room for them one by one
    or all at once, so an impossible growth may be noticed for the whole group"""
    def __init__(self, items):
        self.items = items
        self.total = 0
        for it in items:
            s = it.size()
            if s is None or self.total is None:
                self.total = None
            else:
                self.total += s

    def size(self):
        return self.total

    def step(self, w, ws):
        if w.mode == "w" and w.cfg.get("grow") and not w.check and self.total:
            nx = ws.peek()
            if nx is None or nx.kind != "gresize" or w.is_final_fit(ws, nx, const(self.total)):
                t, f = split(ws, fge(ws.size - ws.cur - self.total))
                if f is not None:
                    for o in w.need_grow(f.fork(), const(self.total)):
                        if o[0] == "stop":
                            yield o
                        elif o[0] == "nogrow":
                            yield from w.seq(self.items, o[1])
                if t is not None:
                    yield from w.seq(self.items, t)
                return
        yield from w.seq(self.items, ws)


class Tag:
    """constant bytes (written verbatim / any value accepted is checked by caller)"""
    def __init__(self, data):
        self.data = bytes(data)

    def size(self):
        return len(self.data)

    def step(self, w, ws):
        for o in w.need(ws, len(self.data)):
            if o[0] == "ok":
                ws2 = o[1]
                if w.check:
                    wire = w.wire_bits(ws2, ws2.cur, len(self.data), False)
                    want = tuple(x for b in self.data for x in const_bits(b, 8))
                    if tuple(wire) != want:
                        raise Problem("content", "bytes at position %r are %s, expected constant %s" % (ws2.cur, show_bits(wire), self.data.hex()))
                ws2.cur = ws2.cur + len(self.data)
            yield o


def varint_max(w):
    return w // 7 + 1


class VarInt:
    """variable length integer of w bits; zz: zig-zag"""
    def __init__(self, place, w, zz=False, signed=False):
        self.place, self.w, self.zz, self.signed = place, w, zz, signed

    def size(self):
        return None

    def step(self, w, ws):
        if w.mode == "w":
            yield from self.write(w, ws)
        else:
            yield from self.read(w, ws)

    def value_iv(self, w, ws):
        bits = self.place.read(w, ws, self.w // 8)
        bits = tuple(bits[:self.w])
        if self.zz:
            s = bits[-1]
            sh = (B0,) + bits[:-1]
            bits = tuple(_xor(b, s) for b in sh)
        return iv_from_bits(self.w, bits)

    def write(self, w, ws):
        v = self.value_iv(w, ws)
        yield from self.write_value(w, ws, v)

    def write_value(self, w, ws, v):
        mx = varint_max(self.w)
        bits = w.e.bits(ws.st, v)
        bits = tuple(bits) + (B0,) * 80
        todo = [ws]
        cur = ws
        if w.cfg.get("grow"):
            # the longest encoding is reserved up front
            grown = list(w.need(ws, mx))
        else:
            grown = [("ok", ws)]
        for g in grown:
            if g[0] != "ok":
                yield g
                continue
            cur = g[1]
            for i in range(mx):
                if 7 * (i + 1) >= self.w:
                    last, more = cur, None
                else:
                    last, more = split(cur, fge(const((1 << (7 * (i + 1))) - 1) - v.lin))
                if last is not None:
                    yield from self.emit(w, last, bits, i + 1)
                if more is None:
                    break
                cur = more

    def emit(self, w, ws, bits, n):
        outs = [("ok", ws)] if w.cfg.get("grow") else w.need(ws, n)
        for o in outs:
            if o[0] == "ok":
                ws2 = o[1]
                if w.check:
                    for i in range(n):
                        want = tuple(bits[7 * i:7 * i + 7]) + ((B1 if i < n - 1 else B0),)
                        got = w.wire_byte(ws2, ws2.cur + i)
                        if not same_bits(ws2, got, want):
                            raise Problem("content", "varint byte %d of %s at position %r is %s, expected %s" % (
                                i, self.place.name(), ws2.cur + i, show_bits(got), show_bits(want)))
                ws2.cur = ws2.cur + n
            yield o

    def read(self, w, ws):
        for o in self.decode(w, ws):
            if o[0] == "ok":
                ws2, bits = o[1], o[2]
                if w.check and not isinstance(self.place, (NoCheck, Ins)):
                    val = self.place.read(w, ws2, self.w // 8)
                    if val is None or not same_bits(ws2, val, bits):
                        raise Problem("content", "%s is %s but the varint at position %r encodes %s" % (
                            self.place.name(), show_bits(val) if val else None, ws2.vals["vstart"], show_bits(bits)))
                if isinstance(self.place, Ins):
                    ws2.vals[self.place.n] = bits
                yield ("ok", ws2)
            else:
                yield o

    def decode(self, w, ws):
        """yields ('ok', ws, bits) / stops"""
        mx = varint_max(self.w)
        start = ws.cur
        acc = []
        cur = ws
        for i in range(mx):
            t, f = split(cur, fge(cur.size - start - (i + 1)))
            if f is not None:
                yield ("stop", f, ERANGE, "varint at position %r is truncated after %d byte(s)" % (start, i))
            if t is None:
                return
            b = w.wire_byte(t, start + i)
            acc += b[:7]
            bl = iv_from_bits(8, tuple(b)).lin
            last, more = split(t, fge(const(127) - bl))
            if last is not None:
                bits = (tuple(acc) + (B0,) * self.w)[:self.w]
                if self.zz:
                    s = bits[0]
                    bits = tuple(_xor(x, s) for x in bits[1:] + (B0,))
                last.vals["vstart"] = start
                last.cur = start + i + 1
                yield ("ok", last, bits)
            if more is None:
                return
            cur = more
        yield ("stop", cur, EOVERFLOW, "varint at position %r is longer than %d bytes" % (start, mx))


def _xor(a, b):
    return (a[0] ^ b[0], a[1] ^ b[1])


def same_bits(ws, a, b):
    """bit vectors equal under the facts of ws"""
    if len(a) < len(b):
        a = tuple(a) + (B0,) * (len(b) - len(a))
    for x, y in zip(a, b):
        if x == y:
            continue
        x, y = debool(ws, x), debool(ws, y)
        # a bit whose value the facts fix
        d = _xor(x, y)
        if not bit_zero(ws, d) and not bit_zero(ws, merge_bytes(ws, d)):
            return False
    return True


def bytes_in(bit):
    return any(a in BYTE_INFO for a, _ in bit[0])


def merge_bytes(ws, d):
    """bytes of one object whose offsets the facts equate are the same byte"""
    v, c = d
    if len(v) > 24:
        return d
    reps = []
    out = frozenset()
    for a, i in sorted(v):
        if a in BYTE_INFO:
            o, off = BYTE_INFO[a]
            root = o.meta.get("root", o.name)
            for r, ro, ra in reps:
                if r == root and ra != a and ws.st.sys.entails_eq(ro - off):
                    a = ra
                    break
            else:
                reps.append((root, off, a))
        out = out ^ frozenset([(a, i)])
    return (out, c)


def debool(ws, b):
    v, c = b
    for (a, i) in list(v):
        f = BOOLFORM.get(a)
        if f is not None:
            d = ws.st.decide(f)
            if d is None and f[0] in ("eq", "ne"):
                d = decide_eq_bits(ws, f)
            if d is not None:
                v, c = v ^ frozenset([(a, i)]), c ^ (1 if d else 0)
    return (v, c)


def decide_eq_bits(ws, f):
    l = f[1]
    if len(l.c) == 1 and l.k == 0:
        (a, c), = l.c.items()
        bits = ATOM_BITS.get(a)
        if bits and len(bits) == 1:
            r = gf2_reduce(gf2_basis(ws.st), bits[0])
            if not r[0]:
                return (r[1] == 0) == (f[0] == "eq")
    return None


def bit_zero(ws, d):
    if not d[0]:
        return d[1] == 0
    r = gf2_reduce(gf2_basis(ws.st), d)
    return not r[0] and r[1] == 0


def gf2_basis(st):
    """linear equations over bits implied by the integer facts: fixed values, upper
    bounds below a power of two, top bits, decided boolean atoms"""
    sys = st.sys
    key = "gf2"
    b = sys.cache.get(key)
    if b is not None:
        return b
    basis = {}

    def add(vec, val):
        vec, val = gf2_reduce(basis, (vec, val))
        if not vec:
            return
        p = min(vec)
        for q, (v2, c2) in list(basis.items()):
            if p in v2:
                basis[q] = (v2 ^ vec, c2 ^ val)
        basis[p] = (vec, val)
    atoms = set()
    for c, k in sys.facts.values():
        atoms.update(c)
    for l in sys.neq:
        atoms.update(l.c)
    for a in sorted(atoms):
        bits = ATOM_BITS.get(a)
        if bits is None:
            continue
        lo, hi = bounds(sys, a, len(bits))
        n = hi.bit_length()
        for i in range(n, len(bits)):
            add(bits[i][0], bits[i][1])
        # common leading bits of lo and hi are fixed
        for i in range(n - 1, -1, -1):
            if (lo >> i) != (hi >> i):
                break
            add(bits[i][0], bits[i][1] ^ ((lo >> i) & 1))
    sys.cache[key] = basis
    return basis


BOUNDS = {}


def bounds(sys, a, w):
    """range of an atom under the facts (only the facts connected to it matter)"""
    sl = sys._slice({a: 1})
    key = (a, frozenset(map(id, sl)))
    r = BOUNDS.get(key)
    if r is None:
        lo, hi = _bounds(sys, Lin({a: 1}, 0), w)
        r = BOUNDS[key] = (lo, hi, sl)
    return r[0], r[1]


def _bounds(sys, l, w):
    """enough of the range to tell which leading bits are fixed"""
    if not sys.entails(const((1 << w) - 2) - l) and not sys.entails(l - 1):
        return 0, (1 << w) - 1
    n0, n = 0, w
    while n0 < n:
        m = (n0 + n) // 2
        if sys.entails(const((1 << m) - 1) - l):
            n = m
        else:
            n0 = m + 1
    if n == 0:
        return 0, 0
    half = 1 << (n - 1)
    if not sys.entails(l - half):
        return 0, 2 * half - 1
    lo, hi = half, 2 * half - 1
    while lo < hi:
        m = (lo + hi) // 2
        if sys.entails(const(m) - l):
            hi = m
        else:
            lo = m + 1
    top = hi
    lo, hi = half, top
    while lo < hi:
        m = (lo + hi + 1) // 2
        if sys.entails(l - m):
            lo = m
        else:
            hi = m - 1
    return lo, top


def gf2_reduce(basis, d):
    v, c = d
    for p in list(v):
        if p in basis and p in v:
            bv, bc = basis[p]
            v, c = v ^ bv, c ^ bc
    # bits of decided boolean atoms are handled through their 1-bit atoms
    for p in list(v):
        if p in basis:
            bv, bc = basis[p]
            v, c = v ^ bv, c ^ bc
    return v, c


class Bulk:
    """count elements of esz bytes copied verbatim between model storage and the wire"""
    def __init__(self, cid, count, esz, base=0):
        self.cid, self.count, self.esz, self.base = cid, count, esz, base

    def size(self):
        return None

    def step(self, w, ws):
        c = self.count(w, ws) if callable(self.count) else self.count
        c = c if isinstance(c, Lin) else const(c)
        L = c.scale(self.esz)
        big = const((1 << 64) - 1)
        for o in w.need(ws, L):
            if o[0] == "ok":
                ws2 = o[1]
                if w.check:
                    self.verify(w, ws2, L)
                ws2.cur = ws2.cur + L
            yield o

    def verify(self, w, ws, L):
        t, _ = split(ws.fork(), fge(L - 1))
        if t is None:
            return
        j = TABLE.lin(("anyindex", self.cid), 63)
        t.st.sys.add(L - j - 1)
        o = Mem(self.cid, 0).obj(t, w.e)
        wire = w.wire_byte(t, t.cur + j)
        mem = w.e.region_byte(t.st, o, j + self.base)
        if tuple(wire) != tuple(mem) and not same_bits(t, wire, mem):
            raise Problem("content", "byte j (0<=j<%r) of the block at position %r is %s, element storage has %s" % (L, ws.cur, show_bits(wire), show_bits(mem)))


class BulkIds:
    """verbatim block of known byte length whose bytes are compared with local leaves"""
    def __init__(self, items):
        self.items = items


class Rep:
    """count repetitions of the items built by mk(index Lin)"""
    def __init__(self, count, mk, tag="elements"):
        self.count, self.mk, self.tag = count, mk, tag

    def size(self):
        return None

    def step(self, w, ws):
        c = self.count(w, ws) if callable(self.count) else self.count
        c = c if isinstance(c, Lin) else const(c)
        yield from self.go(w, ws, c, const(0), 0)

    def go(self, w, ws, c, i, depth):
        if depth > 24:
            raise Unsupported("repetition not recognised")
        nx = ws.peek()
        blk = self.block_here(ws)
        if blk is not None:
            lev = blk.d["lev"]
            hd = self.header_cursor(w, ws, lev, i)
            if hd is not None:
                ws = ws.fork()
                self.verify_loop(w, ws, lev, i, hd, c)
                ws.cur = hd
                yield from self.go(w, ws, c, i + lev.iter, depth + 1)
                return
        if nx is not None and nx.kind == "loop":
            k = nx.iter
            hd = self.header_cursor(w, ws, nx, i)
            if hd is not None:
                ws = ws.fork()
                ws.pop()
                self.verify_loop(w, ws, nx, i, hd, c)
                ws.cur = hd
                if self.cfg_grow(w) and nx.d.get("cells", {}).get("g0") is not None:
                    ws.size = nx.d["cells"]["g0"].extent
                yield from self.go(w, ws, c, i + k, depth + 1)
                return
        more, done = split(ws, fge(c - i - 1))
        if done is not None:
            yield ("ok", done)
        if more is None:
            return
        items = self.mk(i)
        for o in w.run(items, more):
            if o[0] == "done":
                yield from self.go(w, o[1], c, i + 1, depth + 1)
            else:
                yield o

    def block_here(self, ws):
        """an element loop that was summarised as one block move starting at the cursor"""
        for e in ws.evs[ws.ev:]:
            if e.kind in SEQ:
                return None
            if e.kind in ("copy", "fill") and e.d.get("lev") is not None:
                o = e.off if e.root.startswith("buf") else e.d.get("srcoff")
                if o is not None and ws.st.sys.entails_eq(o - ws.cur):
                    return e
        return None

    def elem_size(self):
        tot = 0
        for it in self.mk(const(0)):
            s = it.size()
            if s is None:
                return None
            tot += s
        return tot

    def header_cursor(self, w, ws, lev, i):
        es = self.elem_size()
        if es is not None:
            return ws.cur + lev.iter.scale(es)
        init = lev.d.get("init") or {}
        for a, l in init.items():
            if l == ws.cur or ws.st.sys.entails_eq(l - ws.cur):
                return Lin({a: 1}, 0)
        return None

    def verify_loop(self, w, ws, lev, i, hd, c):
        for evs, sysx, st, nmap in lev.alts:
            s2 = st.copy()
            link_prefix(s2, c)
            if not s2.sys.entails(c - i - lev.iter - 1):
                raise Problem("effects", "%s may be processed beyond their count %r" % (self.tag, c), lev.loc)
            s2.events = tuple(evs)
            a = WS(s2, hd, tuple(evs), ws.size)
            a.vals = dict(ws.vals)
            a.vals.pop("vis", None)
            if self.cfg_grow(w):
                if "g0" in lev.d.get("cells", {}):
                    a.size = lev.d["cells"]["g0"].extent
            seen = False
            for o in w.run(self.mk(i + lev.iter), a):
                seen = True
                if o[0] != "done":
                    raise Problem("error-code", "an iteration over %s continues although it has to stop with %s: %s" % (self.tag, ENAME.get(o[2], o[2]), o[3]), lev.loc)
                end = o[1]
                if end.peek() is not None:
                    raise Problem("effects", "unexpected effect %r while processing %s" % (end.peek(), self.tag), end.peek().loc)
                (k, _), = lev.iter.c.items()
                m = dict(nmap)
                m[k] = lev.iter + 1
                nxt = hd.subst(m)
                if not (nxt == end.cur or end.st.sys.entails_eq(nxt - end.cur)):
                    raise Problem("position", "after one of the %s the position is %r, expected %r" % (self.tag, nxt, end.cur), lev.loc)

    def cfg_grow(self, w):
        return w.mode == "w" and w.cfg.get("grow")


class Probe:
    """opaque user serialisation: its error is the operation's error, its position the next"""
    def __init__(self, kind, place=None):
        self.kind, self.place = kind, place

    def size(self):
        return None

    def step(self, w, ws):
        e = ws.peek()
        if e is None or e.kind != "probe":
            yield ("missing", ws, None, "user serialization #%d is not invoked" % self.kind)
            return
        if e.id != self.kind:
            raise Problem("effects", "user serialization #%d invoked where #%d is due" % (e.id, self.kind), e.loc)
        ws.pop()
        if not ws.st.sys.entails_eq(e.pos - ws.cur):
            raise Problem("position", "user serialization #%d starts at position %r, expected %r" % (self.kind, e.pos, ws.cur), e.loc)
        if self.place is not None and isinstance(self.place, Mem):
            p = e.d["this"]
            o = self.place.obj(ws, w.e)
            if not (isinstance(p, PV) and p.obj is not None and p.obj.meta.get("root") == o.meta.get("root") and ws.st.sys.entails_eq(p.off - self.place.off)):
                raise Problem("effects", "user serialization #%d is given %r, expected %s" % (self.kind, p, self.place.name()), e.loc)
        if w.cfg.get("grow") and w.mode == "w":
            g = TABLE.by_key.get(("gn",) + self._key(e), None)
            if g is not None:
                ws.size = Lin({g: 1}, 0)
        t, f = split(ws, fge(e.rc - 1))
        if t is not None:
            t.cur = e.np
            yield ("stop", t, e.rc, "user serialization #%d failed" % self.kind)
        if f is not None:
            f.cur = e.np
            yield ("ok", f)

    def _key(self, e):
        (a, _), = e.rc.c.items()
        return TABLE.info[a][1:]


class MResize:
    """the container is resized to exactly n elements (n: function of vals), within the limit"""
    def __init__(self, cid, n, esz, limit=None):
        self.cid, self.n, self.esz, self.limit = cid, n, esz, limit

    def size(self):
        return 0

    def step(self, w, ws):
        n = self.n(w, ws)
        if self.limit is not None:
            t, f = split(ws, fge(const(self.limit // self.esz) - n))
            if f is not None:
                yield ("stop", f, EMSGSIZE, "%r elements of %d bytes exceed the allocation limit %d" % (n, self.esz, self.limit))
            if t is None:
                return
            ws = t
        # beyond the container's own maximum the resize does not return
        t, f = split(ws, fge(const((1 << 63) - 1) - n.scale(self.esz)))
        if t is None:
            return
        ws = t
        e = ws.peek()
        if e is None or e.kind != "mresize":
            yield ("missing", ws, None, "container c%d is not resized" % self.cid)
            return
        ws.pop()
        if e.id != self.cid or not weq(w, ws, e.n, n):
            raise Problem("resize", "container c%d is resized to %r elements, the input announces %r" % (e.id, e.n, n), e.loc)
        yield ("ok", ws)


class Expect:
    """a sequenced effect of the given kind must come next"""
    def __init__(self, kind, **kw):
        self.kind, self.kw = kind, kw

    def size(self):
        return 0

    def step(self, w, ws):
        e = ws.peek()
        if e is None or e.kind != self.kind or any(e.d.get(k) != v for k, v in self.kw.items()):
            yield ("missing", ws, None, "expected effect %s%r, found %r" % (self.kind, self.kw, e))
            return
        ws.pop()
        yield ("ok", ws)


class Inserted:
    """the decoded element is handed to insert(): compare the leaves"""
    def __init__(self, cid, leaves):
        self.cid, self.leaves = cid, leaves

    def size(self):
        return 0

    def step(self, w, ws):
        e = ws.peek()
        if e is None or e.kind != "ins_begin" or e.id != self.cid:
            yield ("missing", ws, None, "decoded element is not inserted into c%d" % self.cid)
            return
        ws.pop()
        i = ws.ev
        got = {}
        while i < len(ws.evs) and ws.evs[i].kind != "ins_end":
            if ws.evs[i].kind == "sink":
                got[ws.evs[i].id] = ws.evs[i].bits
            i += 1
        ws.ev = i
        e2 = ws.peek()
        if e2 is None or e2.kind != "ins_end":
            raise Problem("effects", "insertion interrupted", e.loc)
        ws.pop()
        for n in self.leaves:
            want = ws.vals.get(n)
            if want is not None and (n not in got or not same_bits(ws, got[n], want)):
                raise Problem("content", "inserted value #%d is %s, input bytes are %s" % (n, show_bits(got[n]) if got.get(n) else None, show_bits(want)), e.loc)
        yield ("ok", ws)


class Branch:
    """alternatives chosen by a form over the state: cases = [(form_fn, items)] evaluated in order"""
    def __init__(self, cases, default=None):
        self.cases, self.default = cases, default

    def size(self):
        return None

    def step(self, w, ws):
        cur = ws
        for fn, items in self.cases:
            if cur is None:
                return
            t, f = split(cur, fn(w, cur))
            if t is not None:
                yield from w.seq(items, t)
            cur = f
        if cur is not None:
            yield from w.seq(self.default or [], cur)


class Fail:
    def __init__(self, code, why=""):
        self.code, self.why = code, why

    def size(self):
        return 0

    def step(self, w, ws):
        yield ("stop", ws, self.code, self.why)


class Do:
    """bookkeeping"""
    def __init__(self, fn):
        self.fn = fn

    def size(self):
        return 0

    def step(self, w, ws):
        r = self.fn(w, ws)
        yield ("ok", r if r is not None else ws)


# ---- deciding one harness ---------------------------------------------------
def source_modified(engine, st, partial):
    """the values handed to an output archive are the same afterwards"""
    out = []

    def walk(evs):
        for e in evs:
            if e.kind in ("write", "copy", "fill") and e.root.startswith("c") and e.root[1:].isdigit():
                out.append(("element storage of container %s is modified while it is written out" % e.root, e.loc))
            elif e.kind in ("mresize", "mclear", "ins_begin"):
                out.append(("container c%d is modified while it is written out" % e.id, e.loc))
            elif e.kind == "loop":
                for alt in e.alts:
                    walk(alt[0])
    walk(st.events)
    ws = None
    for e in st.events:
        if e.kind == "sink":
            a = TABLE.by_key.get(("src", e.id))
            if a is None or e.bits is None:
                continue
            wd = partial.get(e.id, TABLE.ub[a].bit_length())
            want = tuple(prim_bits(a, TABLE.ub[a].bit_length()))[:wd]
            if tuple(e.bits[:wd]) != want or any(b != B0 for b in e.bits[wd:]):
                if ws is None:
                    ws = WS(st, const(0), st.events, const(0))
                if not same_bits(ws, e.bits, want):
                    out.append(("value #%d is %s after it was written out, it was %s before" % (e.id, show_bits(e.bits), show_bits(want)), e.loc))
    return out


def lifetimes(evs):
    from .types2 import lifetimes as f
    return f(evs)


def lastloc(st, loc):
    return loc


def decide(engine, results, items, cfg, mode, buf, n, pos, opts):
    """compare every exit with the specification; list of (rule, text, loc)"""
    out = []
    stats = {"exits": 0, "success": 0, "error": 0, "outcomes": 0}

    def report(rule, text, loc, r=None):
        out.append((rule, text, loc))
    for r in results:
        stats["exits"] += 1
        st = r.state
        code = r.code.lin if isinstance(r.code, IV) else None
        if code is None:
            report("error-code", "the operation returns an undefined error code", r.loc)
            continue
        success = st.sys.entails_eq(code)
        nonzero = not success and (st.sys.entails(code - 1) or st.sys.entails(-code - 1))
        if not success and not nonzero:
            # undecided code value: split
            parts = []
            a, b = st.copy(), st.copy()
            for s in a.assume(feq(code)):
                parts.append((s, True))
            for s in b.assume(fge(code - 1)):
                parts.append((s, False))
        else:
            parts = [(st.copy(), success)]
        live = []
        for ev in st.events:
            if ev.kind == "new":
                live.append(ev)
            elif ev.kind == "delete":
                live = [x for x in live if x.obj is not ev.obj]
        if live and opts.get("leak", True):
            report("leak", "an object allocated during the operation is never released", live[0].loc)
        for text, loc in lifetimes(st.events):
            report("lifetime", text, loc)
        if mode == "w":
            for text, loc in source_modified(engine, st, opts.get("partial", {})):
                report("source-modified", text, loc or r.loc)
        for s, ok in parts:
            stats["success" if ok else "error"] += 1
            w = Walker(engine, cfg, mode)
            w.check = ok
            w.buf = buf
            w.exit_events = s.events
            fin = [e for e in s.events if e.kind == "pos"]
            fpos = fin[-1].lin if fin else None
            ws = WS(s.copy(), pos, s.events, n)
            w.fpos = fpos
            fsize = s.objs["g0"].extent if "g0" in s.objs else n
            # position stays inside the data whatever happens
            if fpos is not None and opts.get("pos_in_range", True):
                if not s.sys.entails(fsize - fpos):
                    report("position", "the archive position may exceed the data size after the operation (position %r, size %r)" % (fpos, fsize), r.loc)
                if not s.sys.entails(fpos - pos) and opts.get("pos_monotone", True):
                    report("position", "the archive position may move backwards (%r -> %r)" % (pos, fpos), r.loc)
            try:
                # (needs the exit's events for content lookups)
                if ok:
                    for o in w.run(items, ws):
                        stats["outcomes"] += 1
                        if o[0] == "done":
                            end = o[1]
                            exp = end.cur
                            if fpos is not None and not end.st.sys.entails_eq(fpos - exp):
                                report("position", "after success the position is %r, expected %r" % (fpos, exp), r.loc)
                            out += finish(w, end, cfg, mode, fpos, fsize, pos, buf, opts, r.loc)
                        elif o[0] == "stop":
                            report("missed-error", "success is reported although %s must be: %s" % (ENAME.get(o[2], "the error %r" % (o[2],)), o[3]), r.loc)
                        else:
                            report("effects" if o[0] == "missing" else "growth-enough", "on a success exit: " + o[3], r.loc)
                else:
                    for o in w.run(items, ws):
                        stats["outcomes"] += 1
                        if o[0] == "stop":
                            want = o[2] if isinstance(o[2], Lin) else const(o[2])
                            if not o[1].st.sys.entails_eq(code - want):
                                report("error-code", "%s is reported where %s is due: %s" % (cname(code), cname(want), o[3]), r.loc)
                            else:
                                x = o[1].fork()
                                e = x.peek()
                                if e is not None and e.kind == "gresize":
                                    x.pop()         # trimming the output to what was produced
                                    e = x.peek()
                                if e is not None:
                                    report("continues", "the operation continues with %s after the failure: %s" % (e.kind, o[3]), e.loc)
                        elif o[0] == "done":
                            report("spurious-error", "%s is reported although the whole operation fits and every value is acceptable" % cname(code), r.loc)
                        else:
                            report("spurious-error", "%s is reported without cause: %s" % (cname(code), o[3]), r.loc)
            except Problem as p:
                report(p.rule, p.text, p.loc or r.loc)
    return out, stats


def cname(l):
    if l.is_const():
        return ENAME.get(l.k, "error %d" % l.k)
    return "error %r" % l


def finish(w, end, cfg, mode, fpos, fsize, pos, buf, opts, loc):
    out = []
    e = end.peek()
    if mode == "w" and cfg.get("grow") and e is not None and e.kind == "gresize" and opts.get("fit"):
        end.pop()
        if not end.st.sys.entails_eq(e.n - end.cur):
            out.append(("growth-fit", "the finished output is resized to %r, expected the position %r" % (e.n, end.cur), e.loc))
        e = end.peek()
    if e is not None:
        out.append(("effects", "unexpected extra effect %r" % (e,), e.loc))
    # stray writes
    root = buf.meta.get("root", buf.name)
    if mode == "w":
        out += stray(end.st, end.evs, root, pos, end.cur, loc)
    return out


def stray(st, evs, root, lo, hi, loc):
    out = []
    for e in evs:
        if e.kind in ("write", "copy", "fill") and e.root == root:
            if not (st.sys.entails(e.off - lo) and (hi is None or st.sys.entails(hi - e.off - e.len))):
                out.append(("stray-write", "bytes %r..+%r of the output are modified outside the produced range %r..%r" % (e.off, e.len, lo, hi), e.loc))
        elif e.kind == "loop" and root in e.touched:
            for alt in e.alts:
                out += stray(_S(alt[1]), alt[0], root, lo, None, loc)
    return out


class _S:
    def __init__(self, sys):
        self.sys = sys
