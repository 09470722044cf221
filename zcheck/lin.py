"""Linear integer expressions and an entailment test for the polyhedral domain.

Every atom is a non-negative integer with an optional upper bound.  A fact is a
linear expression known to be >= 0.  `System.entails(e)` answers whether the
facts imply e >= 0; it is sound (never claims an entailment that does not hold)
and complete over the rationals plus gcd tightening.
"""
from math import gcd


class Lin:
    __slots__ = ("c", "k", "_h")

    def __init__(self, c=None, k=0):
        self.c = c or {}
        self.k = k
        self._h = None

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c, self.k + o)
        if not o.c:
            return Lin(self.c, self.k + o.k)
        if not self.c:
            return Lin(o.c, self.k + o.k)
        c = dict(self.c)
        for a, v in o.c.items():
            n = c.get(a, 0) + v
            if n:
                c[a] = n
            else:
                del c[a]
        return Lin(c, self.k + o.k)

    __radd__ = __add__

    def __neg__(self):
        return Lin({a: -v for a, v in self.c.items()}, -self.k)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c, self.k - o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def scale(self, m):
        if m == 0:
            return Lin()
        if m == 1:
            return self
        return Lin({a: v * m for a, v in self.c.items()}, self.k * m)

    def is_const(self):
        return not self.c

    def key(self):
        if self._h is None:
            self._h = (tuple(sorted(self.c.items())), self.k)
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.k == o.k and self.c == o.c

    def __hash__(self):
        return hash(self.key())

    def atoms(self):
        return self.c.keys()

    def subst(self, m):
        """m: atom -> Lin"""
        if not any(a in m for a in self.c):
            return self
        r = Lin({}, self.k)
        for a, v in self.c.items():
            if a in m:
                r = r + m[a].scale(v)
            else:
                r = r + Lin({a: v}, 0)
        return r

    def divided(self, d):
        """exact division or None"""
        if self.k % d or any(v % d for v in self.c.values()):
            return None
        return Lin({a: v // d for a, v in self.c.items()}, self.k // d)

    def __repr__(self):
        s = []
        for a, v in sorted(self.c.items(), key=lambda x: str(x[0])):
            n = atom_name(a)
            s.append(n if v == 1 else ("-" + n if v == -1 else "%d*%s" % (v, n)))
        if self.k or not s:
            s.append(str(self.k))
        return " + ".join(s)


_names = {}
_ubs = {}


def const(k):
    return Lin({}, k)


class AtomTable:
    """Interns structured atoms to small ints, with an upper bound."""

    def __init__(self):
        self.by_key = {}
        self.info = []
        self.ub = []

    def get(self, key, width=None, ub=None):
        i = self.by_key.get(key)
        if i is None:
            i = len(self.info)
            self.by_key[key] = i
            self.info.append(key)
            self.ub.append(ub if ub is not None else ((1 << width) - 1 if width else None))
        return i

    def lin(self, key, width=None, ub=None):
        return Lin({self.get(key, width, ub): 1}, 0)


TABLE = AtomTable()

# facts that hold by definition of an atom (pure functions of other atoms)
DEFS = {}


def add_def(atom, e):
    if e.is_const():
        return
    l = DEFS.setdefault(atom, [])
    f = _norm(e.c, e.k)
    if f not in l:
        l.append(f)


def interval(e):
    lo = hi = e.k
    for a, v in e.c.items():
        u = TABLE.ub[a]
        if v > 0:
            hi = None if hi is None or u is None else hi + v * u
        else:
            lo = None if lo is None or u is None else lo + v * u
    return lo, hi



def reset_table():
    global TABLE
    TABLE.__init__()
    DEFS.clear()


def atom_name(a):
    try:
        return fmt_key(TABLE.info[a])
    except Exception:
        return "a%s" % a


FMT = {}


def fmt_key(k):
    if isinstance(k, tuple) and k and k[0] in FMT:
        return FMT[k[0]](k)
    if isinstance(k, tuple):
        return "%s(%s)" % (k[0], ",".join(fmt_key(x) for x in k[1:])) if k else "()"
    if isinstance(k, Lin):
        return repr(k)
    return str(k)


def _norm(c, k):
    """normalise sum(c)+k>=0 with gcd tightening; returns (tuple, k)"""
    g = 0
    for v in c.values():
        g = gcd(g, v)
        if g == 1:
            break
    if g > 1:
        c = {a: v // g for a, v in c.items()}
        k = k // g  # floor
    return c, k


class System:
    """A conjunction of facts. Persistent-ish: copy() is cheap."""
    __slots__ = ("facts", "cache", "eqs", "bottom", "neq", "index", "dirty")

    def __init__(self):
        self.facts = {}      # coeff key -> (coeff dict, k) keep strongest (smallest k)
        self.cache = {}
        self.eqs = {}
        self.bottom = False
        self.neq = set()
        self.index = None
        self.dirty = set()      # atoms of facts added since the facts were last known to be satisfiable (None: all)

    def copy(self):
        s = System()
        s.facts = dict(self.facts)
        s.cache = self.cache
        s.bottom = self.bottom
        s.neq = set(self.neq)
        s.index = self.index
        s.dirty = set(self.dirty)
        return s

    def add(self, e):
        """assert e >= 0; returns True if changed"""
        if self.bottom:
            return False
        if not e.c:
            if e.k < 0:
                self.bottom = True
                return True
            return False
        c, k = _norm(e.c, e.k)
        if len(c) == 1:
            # implied by (or contradicting) the atom's own range
            (a, v), = c.items()
            u = TABLE.ub[a]
            if v == 1:
                if k >= 0:
                    return False
                if u is not None and u + k < 0:
                    self.bottom = True
                    return True
            else:
                if u is not None and k >= u:
                    return False
                if k < 0:
                    self.bottom = True
                    return True
        key = tuple(sorted(c.items()))
        o = self.facts.get(key)
        if o is not None and o[1] <= k:
            return False
        self.facts[key] = (c, k)
        self.cache = {}
        self.dirty.update(c)
        # opposite fact contradiction
        ok = tuple(sorted((a, -v) for a, v in c.items()))
        o = self.facts.get(ok)
        if o is not None and o[1] + k < 0:
            self.bottom = True
        if self.neq:
            self._use_neq()
        return True

    def add_eq(self, e):
        self.add(e)
        self.add(-e)

    def add_ne(self, e):
        """assert e != 0"""
        if self.bottom:
            return
        if not e.c:
            if e.k == 0:
                self.bottom = True
            return
        if self.entails(e):
            self.add(e - 1)
        elif self.entails(-e):
            self.add(-e - 1)
        else:
            self.neq.add(e)

    def _use_neq(self):
        neq, self.neq = self.neq, set()
        for e in neq:
            self.add_ne(e)

    def lins(self):
        return [Lin(c, k) for c, k in self.facts.values()]

    def entails_eq(self, e):
        return self.entails(e) and self.entails(-e)

    def entails(self, e):
        """facts => e >= 0"""
        if self.bottom:
            return True
        if not e.c:
            if e.k >= 0:
                return True
            return self.infeasible()
        c, k = _norm(e.c, e.k)
        key = (tuple(sorted(c.items())), k)
        r = self.cache.get(key)
        if r is None:
            r = self._entails(c, k)
            self.cache[key] = r
        return r

    def infeasible(self):
        if self.bottom:
            return True
        r = self.cache.get("inf")
        if r is None:
            # facts that share no atom with the ones added since cannot have become unsatisfiable
            r = _solve_infeasible(self._slice(self.dirty), None)
            self.cache["inf"] = r
            if not r:
                self.dirty = set()
        return r

    def _entails(self, c, k):
        ub = TABLE.ub
        # quick: interval bounds of atoms
        lo = k
        for a, v in c.items():
            if v < 0:
                u = ub[a]
                if u is None:
                    lo = None
                    break
                lo += v * u
        if lo is not None and lo >= 0:
            return True
        # direct fact
        key = tuple(sorted(c.items()))
        f = self.facts.get(key)
        if f is not None and f[1] <= k:
            return True
        # relevant slice
        rel = self._slice(c)
        neg = ({a: -v for a, v in c.items()}, -k - 1)
        return _solve_infeasible(rel + [neg], neg)

    def _slice(self, c):
        ix = self.index
        if ix is None or ix[2] is not self.cache:
            by, defd = {}, {}
            fl = list(self.facts.values())
            for n, (fc, _) in enumerate(fl):
                for a in fc:
                    l = by.get(a)
                    if l is None:
                        by[a] = [n]
                        # atoms of the facts, by the atoms their definitions mention
                        if a in DEFS:
                            for dc, _ in DEFS[a]:
                                for b in dc:
                                    defd.setdefault(b, set()).add(a)
                    else:
                        l.append(n)
            ix = self.index = (by, fl, self.cache, defd)
        by, fl, defd = ix[0], ix[1], ix[3]
        want = set(c)
        work = list(want)
        used = set()
        out = []
        while work:
            a = work.pop()
            if a in DEFS:
                for dc, dk in DEFS[a]:
                    out.append((dc, dk))
                    for b in dc:
                        if b not in want:
                            want.add(b)
                            work.append(b)
            for b in defd.get(a, ()):
                if b not in want:
                    want.add(b)
                    work.append(b)
            for n in by.get(a, ()):
                if n not in used:
                    used.add(n)
                    f = fl[n]
                    out.append(f)
                    for b in f[0]:
                        if b not in want:
                            want.add(b)
                            work.append(b)
        return out

    def drop_atoms(self, atoms):
        """forget facts that mention any of the atoms"""
        self.facts = {k: f for k, f in self.facts.items() if not any(a in atoms for a in f[0])}
        self.neq = {e for e in self.neq if not any(a in atoms for a in e.c)}
        self.cache = {}


LP_CALLS = 0


def _solve_infeasible(rows, last):
    """True when {x >= 0, x <= ub, rows >= 0} has no rational solution
    (after integer gcd tightening of the rows)."""
    global LP_CALLS
    LP_CALLS += 1
    ub = TABLE.ub
    rows = [(dict(c), k) for c, k in rows]
    # equality substitution: find pairs e>=0, -e>=0 with a unit coefficient
    rows = _dedup(rows)
    if rows is None:
        return True
    for _ in range(60):
        idx = {tuple(sorted(c.items())): k for c, k in rows}
        sub = None
        for c, k in rows:
            neg = tuple(sorted((a, -v) for a, v in c.items()))
            if neg in idx and idx[neg] == -k:
                for a, v in c.items():
                    if v in (1, -1):
                        sub = (a, v, c, k)
                        break
                if sub:
                    break
        if not sub:
            break
        a, v, c, k = sub
        # v*a + rest + k = 0  => a = -(rest+k)/v
        rc = {x: -w * v for x, w in c.items() if x != a}
        rk = -k * v
        new = []
        for c2, k2 in rows:
            if a in c2:
                w = c2[a]
                d = {x: y for x, y in c2.items() if x != a}
                for x, y in rc.items():
                    n = d.get(x, 0) + w * y
                    if n:
                        d[x] = n
                    else:
                        d.pop(x, None)
                new.append((d, k2 + w * rk))
            else:
                new.append((c2, k2))
        # a in [0, ub]
        new.append((dict(rc), rk))
        if ub[a] is not None:
            new.append(({x: -y for x, y in rc.items()}, ub[a] - rk))
        rows = []
        for c2, k2 in new:
            if not c2:
                if k2 < 0:
                    return True
                continue
            rows.append(_norm(c2, k2))
        rows = _dedup(rows)
        if rows is None:
            return True
    return _simplex(rows)


def _dedup(rows):
    d = {}
    for c, k in rows:
        if not c:
            if k < 0:
                return None
            continue
        key = tuple(sorted(c.items()))
        o = d.get(key)
        if o is None or o[1] > k:
            d[key] = (c, k)
    for key, (c, k) in d.items():
        o = d.get(tuple((a, -v) for a, v in key))
        if o is not None and o[1] + k < 0:
            return None
    return list(d.values())


def _simplex(rows):
    """phase-1: x >= 0, x <= ub (lazily), sum(c x) + k >= 0. returns True iff infeasible."""
    ub = TABLE.ub
    vs = sorted({a for c, _ in rows for a in c})
    n = len(vs)
    pos = {a: i for i, a in enumerate(vs)}
    # add upper bounds for atoms
    allrows = []
    for c, k in rows:
        r = [0] * (n + 1)
        for a, v in c.items():
            r[pos[a]] = v
        r[n] = k
        allrows.append(r)
    bounds = []
    for a in vs:
        if ub[a] is not None:
            r = [0] * (n + 1)
            r[pos[a]] = -1
            r[n] = ub[a]
            bounds.append(r)
    tab = allrows + bounds
    m = len(tab)
    # rows: s_i = (sum tab[i][j] * x_j + tab[i][n]) / den_i   with den_i > 0
    den = [1] * m
    basis = [n + i for i in range(m)]      # basic variable of row i
    nonb = list(range(n))                  # nonbasic variable of column j
    it = 0
    while True:
        it += 1
        if it > 2000:
            return False
        # choose leaving row: smallest basic var index with negative value (Bland)
        r = -1
        best = None
        for i in range(m):
            if tab[i][n] < 0 and (best is None or basis[i] < best):
                best = basis[i]
                r = i
        if r < 0:
            return False
        row = tab[r]
        # entering column: positive coefficient, smallest var index
        cidx = -1
        best = None
        for j in range(n):
            if row[j] > 0 and (best is None or nonb[j] < best):
                best = nonb[j]
                cidx = j
        if cidx < 0:
            return True
        p = row[cidx]
        d = den[r]
        # den*s = sum row x + k  => x_c = (den*s - sum_{j!=c} row_j x_j - k)/p
        newrow = [-v for v in row]
        newrow[cidx] = d
        nd = p
        g = nd
        for v in newrow:
            if v:
                g = gcd(g, v)
                if g == 1:
                    break
        if g > 1:
            newrow = [v // g for v in newrow]
            nd //= g
        tab[r] = newrow
        den[r] = nd
        basis[r], nonb[cidx] = nonb[cidx], basis[r]
        for i in range(m):
            if i == r:
                continue
            ri = tab[i]
            f = ri[cidx]
            if not f:
                continue
            # (sum_{j!=c} ri_j x_j + f * x_c + k)/den_i ; x_c = newrow/nd
            nr = [a * nd + f * b for a, b in zip(ri, newrow)]
            nr[cidx] = f * newrow[cidx]
            dd = den[i] * nd
            g = dd
            for v in nr:
                if v:
                    g = gcd(g, v)
                    if g == 1:
                        break
            if g > 1:
                nr = [v // g for v in nr]
                dd //= g
            tab[i] = nr
            den[i] = dd
