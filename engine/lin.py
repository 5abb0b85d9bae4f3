"""Linear integer expressions and the conjunctive linear-constraint domain.

The domain is the classical polyhedra domain restricted to what the analysis needs: adding
constraints, entailment and emptiness.  Emptiness is decided by Gaussian elimination of the
equalities and Fourier-Motzkin elimination of the inequalities with integer tightening.
"""
from math import gcd
from functools import lru_cache


class Lin:
    __slots__ = ('c', 'k', '_h')

    def __init__(self, c=(), k=0):
        self.c = c      # sorted tuple of (symbol, nonzero int)
        self.k = k
        self._h = None

    @staticmethod
    def sym(s):
        return Lin(((s, 1),), 0)

    @staticmethod
    def const(k):
        return Lin((), int(k))

    @staticmethod
    def make(d, k):
        return Lin(tuple(sorted((s, v) for s, v in d.items() if v)), k)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, self.k))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.k == o.k and self.c == o.c

    def __ne__(self, o):
        return not self == o

    def is_const(self):
        return not self.c

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c, self.k + o)
        if not o.c:
            return Lin(self.c, self.k + o.k)
        if not self.c:
            return Lin(o.c, self.k + o.k)
        d = dict(self.c)
        for s, v in o.c:
            d[s] = d.get(s, 0) + v
        return Lin.make(d, self.k + o.k)

    __radd__ = __add__

    def __neg__(self):
        return Lin(tuple((s, -v) for s, v in self.c), -self.k)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c, self.k - o)
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def scale(self, n):
        if n == 0:
            return Lin((), 0)
        return Lin(tuple((s, v * n) for s, v in self.c), self.k * n)

    def coef(self, s):
        for x, v in self.c:
            if x == s:
                return v
        return 0

    def syms(self):
        return [s for s, _ in self.c]

    def subst(self, m):
        """Simultaneously replaces symbols by Lins."""
        if not any(s in m for s, _ in self.c):
            return self
        r = {}
        k = self.k
        for s, v in self.c:
            e = m.get(s)
            if e is None:
                r[s] = r.get(s, 0) + v
            else:
                for s2, v2 in e.c:
                    r[s2] = r.get(s2, 0) + v * v2
                k += v * e.k
        return Lin.make(r, k)

    def divexact(self, n):
        if self.k % n or any(v % n for _, v in self.c):
            return None
        return Lin(tuple((s, v // n) for s, v in self.c), self.k // n)

    def __repr__(self):
        if not self.c:
            return str(self.k)
        out = ''
        for s, v in self.c:
            t = str(s) if abs(v) == 1 else '%d*%s' % (abs(v), s)
            if not out:
                out = ('-' if v < 0 else '') + t
            else:
                out += (' - ' if v < 0 else ' + ') + t
        if self.k:
            out += ' %s %d' % ('-' if self.k < 0 else '+', abs(self.k))
        return out


ZERO = Lin.const(0)
ONE = Lin.const(1)


def L(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, int):
        return Lin.const(x)
    return Lin.sym(x)


def norm_ge(e):
    """Normalises e>=0 over the integers."""
    if not e.c:
        return e
    g = 0
    for _, v in e.c:
        g = gcd(g, abs(v))
    if g > 1:
        return Lin(tuple((s, v // g) for s, v in e.c), e.k // g)   # floor
    return e


def norm_eq(e):
    """Normalises e==0; None if it has no integer solution."""
    if not e.c:
        return e
    g = 0
    for _, v in e.c:
        g = gcd(g, abs(v))
    if g > 1:
        if e.k % g:
            return None
        e = Lin(tuple((s, v // g) for s, v in e.c), e.k // g)
    if e.c[0][1] < 0:
        e = -e
    return e


class Cons:
    """Immutable conjunction of equalities (==0) and inequalities (>=0)."""
    __slots__ = ('eqs', 'ges', '_key')

    def __init__(self, eqs=frozenset(), ges=frozenset()):
        self.eqs = eqs
        self.ges = ges
        self._key = None

    def key(self):
        if self._key is None:
            self._key = (self.eqs, self.ges)
        return self._key

    def add_ge(self, e):
        e = norm_ge(e)
        if not e.c and e.k >= 0:
            return self
        if e in self.ges:
            return self
        # drop a weaker constraint over the same coefficients
        ges = self.ges
        for g in ges:
            if g.c == e.c:
                if g.k <= e.k:
                    return self
                ges = ges - {g}
                break
        return Cons(self.eqs, ges | {e})

    def add_eq(self, e):
        n = norm_eq(e)
        if n is None:
            return Cons(self.eqs, self.ges | {Lin.const(-1)})
        if not n.c:
            if n.k == 0:
                return self
            return Cons(self.eqs, self.ges | {Lin.const(-1)})
        return Cons(self.eqs | {n}, self.ges)

    def all(self):
        return [(e, True) for e in self.eqs] + [(e, False) for e in self.ges]

    def __repr__(self):
        return ' & '.join(sorted(['%r = 0' % e for e in self.eqs] + ['%r >= 0' % e for e in self.ges]))


FM_LIMIT = 600


def _unsat(eqs, ges):
    """True if the conjunction has no integer solution (sound; may answer False when unsure)."""
    eqs = list(eqs)
    ges = set(ges)
    # Gaussian elimination of equalities
    while eqs:
        e = eqs.pop()
        e = norm_eq(e)
        if e is None:
            return True
        if not e.c:
            if e.k:
                return True
            continue
        # choose a unit coefficient if possible
        best = None
        for s, v in e.c:
            if abs(v) == 1:
                best = (s, v)
                break
        if best:
            s, v = best
            # s = -(e - v*s)/v
            rest = Lin(tuple((x, w) for x, w in e.c if x != s), e.k)
            m = {s: rest.scale(-v)}
            eqs = [x.subst(m) for x in eqs]
            ges = {x.subst(m) for x in ges}
        else:
            s, v = min(e.c, key=lambda p: abs(p[1]))
            rest = Lin(tuple((x, w) for x, w in e.c if x != s), e.k)
            sg = 1 if v > 0 else -1
            av = abs(v)

            def elim(x):
                cx = x.coef(s)
                if not cx:
                    return x
                # av*x - sg*cx*e  has no s
                y = x.scale(av) - e.scale(sg * cx)
                return y
            eqs = [elim(x) for x in eqs]
            ges = {elim(x) for x in ges}
    return _unsat_ge(ges)


def _unsat_ge(ges):
    cur = {}
    for e in ges:
        e = norm_ge(e)
        if not e.c:
            if e.k < 0:
                return True
            continue
        k = cur.get(e.c)
        if k is None or e.k < k:
            cur[e.c] = e.k
    while cur:
        # opposite pairs give quick contradictions
        for c, k in cur.items():
            n = tuple((s, -v) for s, v in c)
            k2 = cur.get(n)
            if k2 is not None and k + k2 < 0:
                return True
        occ = {}
        for c in cur:
            for s, v in c:
                p = occ.setdefault(s, [0, 0])
                p[0 if v > 0 else 1] += 1
        s = min(occ, key=lambda x: (occ[x][0] * occ[x][1], x))
        pos, neg, rest = [], [], {}
        for c, k in cur.items():
            v = 0
            for x, w in c:
                if x == s:
                    v = w
                    break
            if v > 0:
                pos.append((v, Lin(c, k)))
            elif v < 0:
                neg.append((v, Lin(c, k)))
            else:
                rest[c] = k
        if len(pos) * len(neg) + len(rest) > FM_LIMIT:
            return False
        for pv, p in pos:
            for nv, n in neg:
                g = gcd(pv, -nv)
                e = norm_ge(p.scale(-nv // g) + n.scale(pv // g))
                if not e.c:
                    if e.k < 0:
                        return True
                    continue
                k = rest.get(e.c)
                if k is None or e.k < k:
                    rest[e.c] = e.k
        cur = rest
    return False


@lru_cache(maxsize=200000)
def _unsat_cached(eqs, ges):
    return _unsat(eqs, ges)


def _slice(cons, syms):
    """The constraints connected to the given symbols."""
    syms = set(syms)
    todo = [(e, True) for e in cons.eqs] + [(e, False) for e in cons.ges]
    eqs, ges = [], []
    changed = True
    while changed:
        changed = False
        rest = []
        for e, q in todo:
            if not e.c or any(s in syms for s, _ in e.c):
                (eqs if q else ges).append(e)
                for s, _ in e.c:
                    if s not in syms:
                        syms.add(s)
                        changed = True
            else:
                rest.append((e, q))
        todo = rest
    return frozenset(eqs), frozenset(ges)


@lru_cache(maxsize=400000)
def _entails_ge(eqs, ges, e):
    return _unsat_cached(eqs, ges | {norm_ge(-e - 1)})


def entails_ge(cons, e):
    """Does cons imply e>=0 (over the integers)?"""
    if not e.c:
        if e.k >= 0:
            return True
        return unsat(cons)
    for g in cons.ges:
        if g.c == e.c and g.k <= e.k:
            return True
    eqs, ges = _slice(cons, e.syms())
    return _entails_ge(eqs, ges, e)


def entails_eq(cons, e):
    if not e.c:
        return e.k == 0
    n = norm_eq(e)
    if n is not None and n in cons.eqs:
        return True
    return entails_ge(cons, e) and entails_ge(cons, -e)


def unsat(cons):
    return _unsat_cached(cons.eqs, cons.ges)


def sat_with(cons, e_ge):
    eqs, ges = _slice(cons, e_ge.syms())
    return not _unsat_cached(eqs, ges | {norm_ge(e_ge)})


def bounds(cons, s, lim=64):
    """Small lower and upper bound guesses for symbol s by entailment."""
    lo = hi = None
    e = Lin.sym(s)
    if entails_ge(cons, e):
        lo = 0
        while lo < lim and entails_ge(cons, e - (lo + 1)):
            lo += 1
    return lo, hi


def witness(cons, budget=400):
    """Finds a small integer point of the constraints, or None."""
    syms = sorted({s for e in list(cons.eqs) + list(cons.ges) for s, _ in e.c}, key=str)
    count = [0]

    def rec(c, i, val):
        count[0] += 1
        if count[0] > budget:
            return None
        if unsat(c):
            return None
        if i == len(syms):
            return val
        s = syms[i]
        e = Lin.sym(s)
        lo = hi = None
        for g in project(c, {s}).ges:
            if len(g.c) == 1 and g.c[0][0] == s:
                w = g.c[0][1]
                if w > 0:
                    x = -(g.k // w)
                    lo = x if lo is None else max(lo, x)
                else:
                    x = g.k // -w
                    hi = x if hi is None else min(hi, x)
        cands = list(range(0, 9)) + [-1, -2, -3] + [2**31, 2**32, 2**61, 2**62, 2**63, 2**64 - 1]
        if lo is not None:
            cands = [lo, lo + 1] + cands
        if hi is not None:
            cands += [hi, hi - 1]
        if lo is not None and hi is not None and hi - lo < 300:
            cands += range(lo, hi + 1)
        cands = [v for v in dict.fromkeys(cands) if (lo is None or v >= lo) and (hi is None or v <= hi)]
        for v in cands:
            c2 = c.add_eq(e - v)
            if unsat(c2):
                continue
            r = rec(c2, i + 1, dict(val, **{str(s): v}))
            if r is not None:
                return r
            if count[0] > budget:
                return None
        return None
    return rec(cons, 0, {})


def project(cons, keep):
    """Eliminates all symbols not in keep (rational projection, integer tightened)."""
    eqs = list(cons.eqs)
    ges = set(cons.ges)
    syms = {s for e in eqs for s, _ in e.c} | {s for e in ges for s, _ in e.c}
    for s in sorted((x for x in syms if x not in keep), key=str):
        unit = None
        other = None
        for e in eqs:
            v = e.coef(s)
            if abs(v) == 1:
                unit = e
                break
            if v:
                other = e
        if unit is not None:
            v = unit.coef(s)
            rest = Lin(tuple((x, w) for x, w in unit.c if x != s), unit.k)
            m = {s: rest.scale(-v)}
            eqs = [x.subst(m) for x in eqs if x is not unit]
            ges = {norm_ge(x.subst(m)) for x in ges}
            continue
        if other is not None:
            continue        # keep it: cannot be eliminated exactly
        pos = [g for g in ges if g.coef(s) > 0]
        neg = [g for g in ges if g.coef(s) < 0]
        if len(pos) * len(neg) > 60:
            ges = {g for g in ges if not g.coef(s)}
            continue
        new = {g for g in ges if not g.coef(s)}
        for p in pos:
            for n in neg:
                a, b = p.coef(s), -n.coef(s)
                g = gcd(a, b)
                new.add(norm_ge(p.scale(b // g) + n.scale(a // g)))
        ges = new
    c = Cons()
    for e in eqs:
        c = c.add_eq(e)
    for g in ges:
        c = c.add_ge(g)
    return c
