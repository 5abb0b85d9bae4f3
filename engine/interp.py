"""Forward abstract interpretation of the resolved AST.

The abstract state is a store of tagged trees whose integers are linear expressions over symbols
constrained by a polyhedron (lin.Cons), plus a set of facts about opaque predicates.  The analysis
partitions on every undetermined condition, so each abstract state follows one trace partition.
Loops are closed by generalising two successive loop-head states into a family indexed by the
iteration number and checking that one more abstract iteration stays inside the family.
"""
import os
from .lin import Lin, L, Cons, ZERO, ONE, entails_ge, entails_eq, unsat, sat_with, witness, project, norm_ge
from .vals import *
from .vals import _has_lin

DEBUG_LOOPS = bool(os.environ.get("DEBUG_LOOPS"))


# --- C++ control flow -------------------------------------------------------------------------
class Ctl(Exception):
    pass


class Break(Ctl):
    pass


class Continue(Ctl):
    pass


class Return(Ctl):
    def __init__(self, v):
        self.v = v


class Goto(Ctl):
    def __init__(self, n):
        self.n = n


class Abnormal(Ctl):
    """A transfer of control that ends the entry point unless it is caught."""
    machine = None

    def __init__(self):
        m = Abnormal.machine
        self.at, self.inside = (m.where(), m.inside()) if m is not None else ('?', ())


class Throw(Abnormal):
    def __init__(self, exc):
        Abnormal.__init__(self)
        self.exc = exc      # V('Exc', type name, payload)


class Terminate(Abnormal):
    """abort, std::terminate, exit"""
    def __init__(self, how):
        Abnormal.__init__(self)
        self.how = how
        m = Abnormal.machine
        due = getattr(m, 'aborts', None)
        # whether this is the end that is required, and what must not change before it has not
        self.due = how != 'exit' and due is not None
        self.early = self.due and not m.same(m.read(due[0]), due[1])


# --- ends of an abstract trace ----------------------------------------------------------------
class PathEnd(BaseException):
    pass


class Infeasible(PathEnd):
    pass


class Covered(PathEnd):
    pass


class Cut(PathEnd):
    pass


class Unknown(PathEnd):
    def __init__(self, why):
        self.why = why


class Violated(PathEnd):
    def __init__(self, rule, msg, where, inside=()):
        self.rule, self.msg, self.where, self.inside = rule, msg, where, inside


class Frame:
    __slots__ = ('vars', 'this', 'f', 'scopes', 'ret', 'temps', 'line')

    def __init__(self, f, this, ret):
        self.f, self.this, self.ret = f, this, ret
        self.vars = {}
        self.scopes = [[]]
        self.temps = [[]]
        self.line = None

    def copy(self):
        g = Frame(self.f, self.this, self.ret)
        g.vars = dict(self.vars)
        return g


LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_#'


class Snap:
    def __init__(self, I):
        self.store = dict(I.store)
        self.frames = [(dict(fr.vars), fr.this, fr.ret) for fr in I.frames]
        self.cons = I.cons
        self.facts = dict(I.facts)
        self.log = I.log
        self.mon = dict(I.mon)
        self.exact = I.exact
        self.heap = dict(I.heap)
        self.params = None
        self.weakened = False
        self.memo = dict(I.memo)
        self.tests = ()          # comparisons decided between this head and the next arrival
        self.ranked = False
        self.grown = dict(I.grown)
        self.adv = dict(I.adv)
        self.reset = dict(I.reset)
        self.ntaken = len(I.taken)


class Config:
    def __init__(self):
        self.nothrow_types = set()
        self.throwing = set()        # kinds of opaque operation that may throw
        self.hooks = {}              # qualified name -> function(I, f, this, args)
        self.rules = []              # quantified facts: function(I, atom) -> True/False/None
        self.monitor = None          # function(I, stream, atom)
        self.logcalls = set()
        self.max_arrivals = 14
        self.max_exact = 4
        self.max_unroll = 60
        self.pins = None             # values of inputs, by order of appearance
        self.weaken = False          # drop guessed loop conditions that later iterations contradict
        self.mode = 'abstract'       # 'abstract': loops closed by generalisation; 'exact': bounded unrolling
        self.max_steps = 400000
        self.std_hooks = {}
        self.dynamic = {}            # root -> record id of the most derived object (opaque objects)


EXC_BASES = {
    'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception',
    'std::out_of_range': 'std::logic_error', 'std::invalid_argument': 'std::logic_error',
    'std::length_error': 'std::logic_error', 'std::domain_error': 'std::logic_error',
    'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error',
    'std::underflow_error': 'std::runtime_error', 'std::system_error': 'std::runtime_error',
    'std::ios_base::failure': 'std::system_error', 'std::bad_alloc': 'std::exception',
    'std::bad_array_new_length': 'std::bad_alloc', 'std::bad_cast': 'std::exception',
    'std::bad_function_call': 'std::exception', 'std::bad_any_cast': 'std::bad_cast',
    'std::bad_variant_access': 'std::exception', 'std::bad_typeid': 'std::exception',
    'std::bad_exception': 'std::exception', 'std::bad_weak_ptr': 'std::exception',
}


def clean(qn):
    for x in ('__cxx11::', '_V2::', '__1::', '__8::'):
        qn = qn.replace(x, '')
    return qn


class Interp:
    def __init__(self, prog, cfg, prefix=()):
        self.p = prog
        self.cfg = cfg
        self.prefix = list(prefix)
        self.taken = []          # (choice, number of options)
        self.store = {}
        self.heap = {}           # root -> kind of allocation, for roots that must be released
        self.grown = {}          # keyed collection -> insertions so far
        self.epoch = {}          # unnamed elements of a collection -> when one was last picked
        self.picks = 0
        self.adv = {}            # (iterator variable, collection) -> steps so far; ('erase', collection) -> erasures
        self.reset = {}          # iterator variable -> assignments so far
        self.rtype = {}          # root -> type index
        self.rname = {}
        self.cons = Cons()
        self.facts = {}
        self.memo = {}
        self.frames = []
        self.log = ()
        self.mon = {}
        self.exact = True
        self.n = 0
        self.steps = 0
        self.excs = []
        self.globals = {}
        self.freed = {}
        self.allocsite = {}
        self.notes = []
        self.visited = {}
        self.undischarged = []
        self.unwinding = 0
        self.tests = []          # comparisons decided since the current loop head

    # --- symbols, choices, constraints ------------------------------------------------------
    def fresh(self, base='s'):
        self.n += 1
        return Lin.sym('%s%d' % (base, self.n))

    def newroot(self, val, name='', t=None):
        self.n += 1
        r = self.n
        self.store[r] = val
        self.rname[r] = name
        self.rtype[r] = t
        return loc(r)

    def choose(self, n, note=None):
        c = self.forker.choose(n)
        self.taken.append((c, n))
        if note:
            self.notes.append((note if isinstance(note, str) else note(c)))
        return c

    def assume_ge(self, e):
        self.cons = self.cons.add_ge(e)
        if e.is_const():
            if e.k < 0:
                raise Infeasible()

    def assume_eq(self, e):
        self.cons = self.cons.add_eq(e)
        if unsat(self.cons):
            raise Infeasible()

    def ge(self, e):
        """Decides e>=0, partitioning the trace if it is undetermined."""
        self.tests.append(('ge', e))
        if e.is_const():
            return e.k >= 0
        if entails_ge(self.cons, e):
            return True
        n = -e - 1
        if entails_ge(self.cons, n):
            return False
        c = self.choose(2)
        self.cons = self.cons.add_ge(e if c == 0 else n)
        self.note('%r %s 0' % (e, '>=' if c == 0 else '<'))
        return c == 0

    def gt(self, e):
        return self.ge(e - 1)

    def eq(self, e):
        """Decides e==0."""
        self.tests.append(('eq', e))
        if e.is_const():
            return e.k == 0
        if entails_eq(self.cons, e):
            return True
        pos = sat_with(self.cons, e - 1)
        neg = sat_with(self.cons, -e - 1)
        zero = not unsat(self.cons.add_eq(e))
        opts = [x for x, ok in (('z', zero), ('p', pos), ('n', neg)) if ok]
        if not opts:
            raise Infeasible()
        o = opts[0] if len(opts) == 1 else opts[self.choose(len(opts))]
        if o == 'z':
            self.cons = self.cons.add_eq(e)
        elif o == 'p':
            self.cons = self.cons.add_ge(e - 1)
        else:
            self.cons = self.cons.add_ge(-e - 1)
        if len(opts) > 1:
            self.note('%r %s 0' % (e, {'z': '==', 'p': '>', 'n': '<'}[o]))
        return o == 'z'

    def known_eq(self, a, b):
        return a == b or entails_eq(self.cons, a - b)

    def known_ge(self, e):
        return entails_ge(self.cons, e)

    def note(self, s):
        fr = self.frames[-1] if self.frames else None
        w = self.p.where(fr.line) if fr and fr.line else '?'
        self.notes.append('%s: %s' % (w, s))

    def where(self):
        for fr in reversed(self.frames):
            if fr.line:
                w = self.p.where(fr.line)
                if w.startswith('include/') or w.startswith('src/'):
                    return w
        for fr in reversed(self.frames):
            if fr.line:
                return self.p.where(fr.line)
        return '?'

    def stack(self):
        return [(fr.f['dn'] if fr.f else '?') + ' at ' + (self.p.where(fr.line) if fr.line else '?') for fr in self.frames]

    def inside(self):
        """The repository functions analysed on this trace, latest last."""
        out = []
        for i in self.visited:
            f = self.p.f[i]
            w = self.p.where(f.get('l'))
            if w.startswith('include/') or w.startswith('src/'):
                out.append('%s (%s)' % (f['dn'], w))
        return out

    def fail(self, rule, msg):
        raise Violated(rule, msg, self.where(), self.inside())

    def unknown(self, why):
        raise Unknown('%s (%s)' % (why, self.where()))

    # --- value equality -----------------------------------------------------------------------
    def veq(self, a, b):
        """True if the values are provably identical."""
        if a is b:
            return True
        if isinstance(a, Lin) and isinstance(b, Lin):
            return self.known_eq(a, b)
        if isinstance(a, V) and isinstance(b, V):
            if a == b:
                return True
            return a.tag == b.tag and len(a.a) == len(b.a) and all(self.veq(x, y) for x, y in zip(a.a, b.a))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.veq(x, y) for x, y in zip(a, b))
        return type(a) == type(b) and a == b

    def vneq(self, a, b):
        """True if the values are provably different representations (free terms)."""
        if isinstance(a, Lin) and isinstance(b, Lin):
            d = a - b
            return (d.is_const() and d.k != 0) or entails_ge(self.cons, d - 1) or entails_ge(self.cons, -d - 1)
        if isinstance(a, V) and isinstance(b, V):
            if a.tag != b.tag or len(a.a) != len(b.a):
                return True
            return any(self.vneq(x, y) for x, y in zip(a.a, b.a))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) != len(b) or any(self.vneq(x, y) for x, y in zip(a, b))
        return not (type(a) == type(b) and a == b)

    def same(self, a, b):
        """Decides whether two free values are identical, splitting on integer components."""
        if a is b or a == b:
            return True
        if isinstance(a, Lin) and isinstance(b, Lin):
            mark = len(self.tests)
            r = self.eq(a - b)
            del self.tests[mark:]        # a comparison of names, not of the program
            return r
        if isinstance(a, V) and isinstance(b, V):
            if a.tag != b.tag or len(a.a) != len(b.a):
                return False
            # constants first, so that no split is made when shapes differ anyway
            if not self.compat(a, b):
                return False
            return all(self.same(x, y) for x, y in zip(a.a, b.a))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return type(a) == type(b) and a == b

    def compat(self, a, b):
        if isinstance(a, Lin) and isinstance(b, Lin):
            d = a - b
            return not (d.is_const() and d.k != 0)
        if isinstance(a, V) and isinstance(b, V):
            return a.tag == b.tag and len(a.a) == len(b.a) and all(self.compat(x, y) for x, y in zip(a.a, b.a))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(self.compat(x, y) for x, y in zip(a, b))
        return type(a) == type(b) and a == b

    # --- opaque predicates ---------------------------------------------------------------------
    def atom(self, pred, *args):
        """Truth of an opaque predicate, partitioning when nothing determines it."""
        a = term(pred, *args)
        for r in self.cfg.rules:
            v = r(self, a)
            if v is not None:
                return v
        if a in self.facts:
            return self.facts[a]
        for k in list(self.facts):
            if k.a[0] == pred and len(k.a) == len(a.a) and self.compat(k, a):
                if self.same(k, a):
                    return self.facts[k]
        c = self.choose(2)
        self.facts[a] = (c == 0)
        self.note('%s is %s' % (show(a), 'true' if c == 0 else 'false'))
        return c == 0

    def teq(self, a, b):
        """Equality of two opaque values under ==."""
        if isinstance(a, Lin) and isinstance(b, Lin):
            return self.eq(a - b)
        if a == b:
            return True
        if self.compat(a, b) and self.same(a, b):
            return True
        for r in self.cfg.rules:
            v = r(self, term('eq', a, b))
            if v is None:
                v = r(self, term('eq', b, a))
            if v is not None:
                return v
        # bits
        ka, kb = self.bit_known(a), self.bit_known(b)
        if ka is not None and kb is not None:
            return ka == kb
        # equivalence closure over recorded facts
        cls = {}

        def find(x):
            while x in cls:
                x = cls[x]
            return x
        pairs = [(k.a[1], k.a[2], v) for k, v in self.facts.items() if k.a[0] == 'eq']
        if self.cfg.mode == 'exact' and pairs:
            # terms that differ only in how an index is written
            ts = []
            for t in [z for x, y, _ in pairs for z in (x, y)] + [a, b]:
                if t not in ts:
                    ts.append(t)
            for i, t in enumerate(ts):
                for u in ts[:i]:
                    if self.compat(t, u) and find(t) != find(u) and self.same(t, u):
                        cls[find(t)] = find(u)
        for x, y, v in pairs:
            if v:
                fx, fy = find(x), find(y)
                if fx != fy:
                    cls[fx] = fy
        ra, rb = find(a), find(b)
        if ra == rb:
            return True
        for x, y, v in pairs:
            if not v and {find(x), find(y)} == {ra, rb}:
                return False
        # facts whose indices may coincide with ours
        for x, y, v in pairs:
            for p, q in ((x, y), (y, x)):
                if self.compat(p, a) and self.compat(q, b):
                    if self.same(p, a) and self.same(q, b):
                        return v
        if isinstance(a, V) and a.tag != 'T' or isinstance(b, V) and b.tag != 'T':
            self.unknown('equality of %s and %s' % (show(a), show(b)))
        if any(k.a[0] == 'lt' for k in self.facts):
            # what the order says
            u, d = self.models.known_order(self, a, b), self.models.known_order(self, b, a)
            if u is True or d is True:
                return False
            if u is False and d is False:
                return True
        x, y = sorted((a, b), key=show)
        c = self.choose(2)
        self.facts[term('eq', x, y)] = (c == 0)
        self.note('%s %s %s' % (show(a), '==' if c == 0 else '!=', show(b)))
        return c == 0

    def bit_known(self, t):
        if isinstance(t, Lin):
            return t.k if t.is_const() else None
        if not is_term(t):
            return None
        a = term('bit', t)
        for r in self.cfg.rules:
            v = r(self, a)
            if v is not None:
                return 1 if v else 0
        for k, v in self.facts.items():
            if k.a[0] == 'bit' and self.veq(k.a[1], t):
                return 1 if v else 0
        return None

    def bit(self, t):
        """Value 0/1 of a boolean opaque term."""
        if isinstance(t, Lin):
            return 1 if not self.eq(t) else 0
        b = self.bit_known(t)
        if b is not None:
            return b
        for k, v in list(self.facts.items()):
            if k.a[0] == 'eq':
                for x, y in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
                    if self.veq(x, t):
                        o = self.bit_known(y)
                        if o is not None:
                            return o if v else 1 - o
        return 1 if self.atom('bit', t) else 0

    def truth(self, v):
        if isinstance(v, Lin):
            return not self.eq(v)
        if isinstance(v, V):
            if v.tag == 'Ptr':
                return v.a[0] is not None
            if v.tag == 'T':
                return self.bit(v) == 1
            if v.tag in ('UNINIT', 'RAW'):
                self.fail('uninitialised read', 'a condition depends on an indeterminate value')
        self.unknown('truth of %s' % show(v))

    # --- store ---------------------------------------------------------------------------------
    def rootval(self, r):
        if r not in self.store:
            self.fail('lifetime', 'access to %s after its lifetime ended' % (self.rname.get(r) or 'an object'))
        return self.store[r]

    def get(self, l):
        v = self.rootval(l.a[0])
        return self._get(v, l.a[1])

    def _get(self, v, path):
        for n, p in enumerate(path):
            k = p[0]
            if isinstance(v, V) and v.tag == 'UNKNOWN':
                self.unknown('untracked object')
            if k == 'f':
                if isinstance(v, V) and v.tag == 'Rec':
                    x = rget(v, p)
                    if x is None:
                        x = UNINIT
                    v = x
                elif is_term(v):
                    v = term('field', v, p[1])
                elif isinstance(v, V) and v.tag == 'RAW':
                    self.fail('lifetime', 'member access on storage without a live object')
                else:
                    self.unknown('field of %s' % show(v))
            elif k == 'b':
                if isinstance(v, V) and v.tag == 'Rec':
                    x = rget(v, p)
                    if x is not None:
                        v = x
            elif k == 'i':
                if isinstance(v, V) and v.tag in ('Buf', 'Seq'):
                    i, lo, hi = self.seg_find(v, p[1])
                    v = inst(segs_of(v)[i][1], p[1])
                elif isinstance(v, V) and v.tag == 'Str':
                    v = self.str_at(v, p[1])
                elif not (isinstance(p[1], Lin) and self.known_eq(p[1], ZERO)):
                    if self.eq(p[1]):
                        continue
                    self.fail('bounds', 'access at offset %r from a single object' % p[1])
            elif k in ('k', 'kk'):
                v = self.assoc_at(v, p)
            elif k == 't':
                if isinstance(v, V) and v.tag == 'Tup':
                    v = v.a[0][p[1]]
                else:
                    self.unknown('tuple element of %s' % show(v))
            else:
                self.unknown('path element %s' % (p,))
        return v

    def read(self, l):
        v = self.get(l)
        if isinstance(v, V):
            if v.tag == 'UNINIT':
                self.fail('uninitialised read', 'reads an indeterminate value')
            if v.tag == 'RAW':
                self.fail('lifetime', 'reads storage that holds no live object')
            if v.tag == 'UNKNOWN':
                self.unknown('untracked value')
        return v

    def put(self, l, val):
        r = l.a[0]
        v = self.rootval(r)
        self.store[r] = self._put(v, l.a[1], val)

    def _put(self, v, path, val):
        if not path:
            return val
        p = path[0]
        k = p[0]
        if k == 'f':
            if isinstance(v, V) and v.tag == 'Rec':
                old = rget(v, p)
                return rset(v, p, self._put(old if old is not None else UNINIT, path[1:], val))
            self.unknown('write to a field of %s' % show(v))
        if k == 'b':
            if isinstance(v, V) and v.tag == 'Rec':
                old = rget(v, p)
                if old is not None:
                    return rset(v, p, self._put(old, path[1:], val))
            return self._put(v, path[1:], val)
        if k == 'i':
            if isinstance(v, V) and v.tag in ('Buf', 'Seq'):
                i, lo, hi = self.seg_find(v, p[1])
                if len(path) > 1:
                    old = inst(segs_of(v)[i][1], p[1])
                    val = self._put(old, path[1:], val)
                return with_segs(v, self.seg_set(segs_of(v), i, lo, hi, p[1], val))
            if isinstance(v, V) and v.tag == 'Str':
                self.unknown('write into a string')
            if self.eq(p[1]):
                return self._put(v, path[1:], val)
            self.fail('bounds', 'write at offset %r from a single object' % p[1])
        if k in ('k', 'kk'):
            return self.assoc_put(v, p, path[1:], val)
        if k == 't':
            items = list(v.a[0])
            items[p[1]] = self._put(items[p[1]], path[1:], val)
            return V('Tup', tuple(items))
        self.unknown('path element %s' % (p,))

    # --- segmented sequences ---------------------------------------------------------------------
    def seg_find(self, v, e):
        segs = segs_of(v)
        what = 'element' if v.tag == 'Seq' else 'buffer slot'
        mark = len(self.tests)
        if not self.ge(e):
            self.fail('bounds', '%s index %r is negative' % (what, e))
        lo = ZERO
        for i, (hi, c) in enumerate(segs):
            if self.ge(hi - 1 - e):
                del self.tests[mark:]
                if len(segs) > 1 and not hi.is_const():
                    self.tests.append(('seg', hi - 1 - e))
                return i, lo, hi
            lo = hi
        self.fail('bounds', '%s index %r is not below the size %r' % (what, e, lo))

    def seg_set(self, segs, i, lo, hi, e, val):
        out = list(segs[:i])
        c = segs[i][1]
        if not self.known_eq(e, lo):
            out.append((e, c))
        out.append((e + 1, val))
        if not self.known_eq(e + 1, hi):
            out.append((hi, c))
        out.extend(segs[i + 1:])
        return self.seg_norm(out)

    def seg_norm(self, segs):
        """Drops empty segments and merges neighbours that one template describes."""
        out = []
        lo = ZERO
        for hi, c in segs:
            if self.known_eq(hi, lo):
                continue
            out.append((lo, hi, c))
            lo = hi
        i = 0
        while i + 1 < len(out):
            lo, mid, c1 = out[i]
            _, hi, c2 = out[i + 1]
            m = self.seg_merge(lo, mid, hi, c1, c2)
            if m is not None:
                out[i:i + 2] = [(lo, hi, m)]
                if i:
                    i -= 1
            else:
                i += 1
        return tuple((hi, c) for _, hi, c in out)

    def seg_merge(self, lo, mid, hi, c1, c2):
        if c1 == c2:
            return c1
        s1 = self.known_eq(mid, lo + 1)
        s2 = self.known_eq(hi, mid + 1)
        if (c1 == RAW) != (c2 == RAW):
            return None
        if s2 and not s1:
            if self.veq(inst(c1, mid), inst(c2, mid)):
                return c1
        elif s1 and not s2:
            if self.veq(inst(c2, lo), inst(c1, lo)):
                return c2
        elif s1 and s2:
            return interpolate(inst(c1, lo), lo, inst(c2, mid))
        else:
            try:
                r = vzip(c1, c2, self._lin_same)
                return r
            except Mismatch:
                return None
        return None

    def _lin_same(self, a, b):
        if a == b or self.known_eq(a, b):
            return a
        raise Mismatch()

    # --- heap ------------------------------------------------------------------------------------
    def heap_new(self, val, kind, name, t=None):
        l = self.newroot(val, name, t)
        self.heap[l.a[0]] = kind
        self.allocsite[l.a[0]] = self.where()
        return l

    def heap_free(self, root, kinds):
        if root in self.freed and root not in self.store:
            self.fail('double free', '%s is released twice' % (self.rname.get(root) or 'a buffer'))
        k = self.heap.get(root)
        if k is None:
            self.fail('bad free', 'releases storage that was not allocated')
        if k not in kinds:
            self.fail('mismatched release', '%s allocated with %s is released with %s' % (self.rname.get(root), k, '/'.join(kinds)))
        del self.heap[root]
        del self.store[root]
        self.freed[root] = True

    # --- types -----------------------------------------------------------------------------------
    def T(self, i):
        return self.p.type(i)

    def unref(self, i):
        t = self.T(i)
        while t['k'] in ('lref', 'rref'):
            i = t['to']
            t = self.T(i)
        return i, t

    def is_opaque_rec(self, r):
        return r['qn'].startswith('probe::')

    def is_user_rec(self, r):
        return not r['sys'] and not self.is_opaque_rec(r)

    def default_value(self, ti):
        """Value-initialised object of a type."""
        t = self.T(ti)
        k = t['k']
        if k in ('int', 'bool', 'enum'):
            return ZERO
        if k in ('ptr', 'nullptr', 'fptr'):
            return NULL
        if k == 'float':
            return V('FL', ZERO)
        if k == 'rec':
            r = self.p.r[t['rec']]
            if self.is_opaque_rec(r):
                return term('default', r['qn'])
            m = self.models.default_object(self, r)
            if m is not None:
                return m
            return self.construct_default(r, ti)
        if k == 'array':
            return V('Buf', L(t['n']), t['to'], ((L(t['n']), self.default_value(t['to'])),), 'array')
        self.unknown('value-initialisation of %s' % t['s'])

    def construct_default(self, r, ti):
        for mid in r.get('methods', []):
            f = self.p.f.get(mid)
            if f and f.get('defctor') and not f.get('deleted'):
                tmp = self.newroot(RAW, 'temporary', ti)
                self.construct(f, tmp, [])
                v = self.store.pop(tmp.a[0])
                return v
        # aggregate or trivially default constructible
        fields = []
        for b in r.get('bases', []):
            fields.append((('b', b['rec']), self.default_value_rec(b['rec'])))
        for fd in r.get('fields', []):
            fields.append((('f', fd['id']), self.default_value(fd['t'])))
        return rec(r['id'], fields)

    def default_value_rec(self, rid):
        for i, t in enumerate(self.p.types):
            if t['k'] == 'rec' and t.get('rec') == rid and not t.get('c'):
                return self.default_value(i)
        self.unknown('default value of a base')

    def uninit_value(self, ti):
        """Default-initialised (not value-initialised) object of a non-class type."""
        t = self.T(ti)
        if t['k'] == 'array':
            el = self.T(t['to'])
            return V('Buf', L(t['n']), t['to'], ((L(t['n']), RAW if el['k'] == 'rec' else UNINIT),), 'array')
        return UNINIT

    # --- scopes ------------------------------------------------------------------------------------
    def push_scope(self):
        self.frames[-1].scopes.append([])

    def declare(self, l, ti):
        self.frames[-1].scopes[-1].append((l, ti))

    def pop_scope(self):
        sc = self.frames[-1].scopes.pop()
        while sc:
            l, ti = sc.pop()
            self.end_life(l, ti)

    def end_life(self, l, ti):
        if l.a[0] not in self.store:
            return
        v = self.store[l.a[0]]
        if v is not RAW:
            self.destroy(l, ti)
        self.store.pop(l.a[0], None)

    def scoped(self, fn):
        self.push_scope()
        fr = self.frames[-1]
        depth = len(fr.scopes)
        names = set(fr.vars)
        try:
            r = fn()
        except Ctl:
            assert len(fr.scopes) == depth
            self.unwind_scope()
            self.forget(fr, names)
            raise
        self.pop_scope()
        self.forget(fr, names)
        return r

    def forget(self, fr, names):
        """Variables of a finished block no longer denote anything."""
        if len(fr.vars) > len(names):
            for k in [k for k in fr.vars if k not in names]:
                del fr.vars[k]

    def unwind_scope(self):
        self.pop_scope()

    # full-expressions
    def full(self, fn):
        fr = self.frames[-1]
        fr.temps.append([])
        try:
            r = fn()
        except Ctl:
            self.end_temps(fr)
            raise
        self.end_temps(fr)
        return r

    def end_temps(self, fr):
        ts = fr.temps.pop()
        while ts:
            l, ti = ts.pop()
            self.end_life(l, ti)

    def temp(self, ti, name='temporary'):
        l = self.newroot(RAW, name, ti)
        self.frames[-1].temps[-1].append((l, ti))
        return l

    # --- destruction ---------------------------------------------------------------------------------
    def destroy(self, l, ti):
        """Runs the destructor of the object at l."""
        ti, t = self.unref(ti) if ti is not None else (None, {'k': 'other'})
        if t['k'] == 'array':
            el = self.T(t['to'])
            if el['k'] == 'rec' and not self.p.r[el['rec']].get('tdtor'):
                self.destroy_range(l, ZERO, L(t['n']), t['to'])
            return
        if t['k'] != 'rec':
            return
        self.destroy_rec(l, self.p.r[t['rec']])

    def destroy_rec(self, l, r):
        if self.is_opaque_rec(r):
            v = self.get(l)
            if v is RAW or v == RAW:
                self.fail('lifetime', 'destroys an element that is not alive (never constructed, or destroyed before)')
            self.opaque_event('destroy', r, l)
            h = self.cfg.hooks.get(r['qn'] + '::~')
            if h:
                h(self, r, l)
            self.put(l, RAW)
            return
        if self.is_user_rec(r):
            v = self.get(l)
            if v == RAW:
                self.fail('lifetime', 'destroys an object that is not alive')
            if not isinstance(v, V) or v.tag != 'Rec':
                self.put(l, RAW)
                return
            d = self.p.f.get(r.get('dtor')) if r.get('dtor') else None
            if d and d.get('body') and not (d.get('trivial')):
                self.call_body(d, l, [], None)
            for fd in reversed(r.get('fields', [])):
                fl = sub(l, ('f', fd['id']))
                ft = self.T(fd['t'])
                if ft['k'] == 'rec':
                    fv = rget(self.get(l), ('f', fd['id']))
                    if fv is not None and fv != RAW:
                        self.destroy(fl, fd['t'])
                elif ft['k'] == 'array':
                    self.destroy(fl, fd['t'])
            for b in reversed(r.get('bases', [])):
                bl = sub(l, ('b', b['rec']))
                bv = rget(self.get(l), ('b', b['rec']))
                if bv is not None and bv != RAW:
                    self.destroy_rec(bl, self.p.r[b['rec']])
            self.put(l, RAW)
            return
        self.models.destroy(self, l, r)

    def destroy_range(self, l, lo, hi, elt):
        """Destroys elements [lo,hi) of the buffer at l in one step (delete[] and array locals)."""
        base = self.get(l)
        if not (isinstance(base, V) and base.tag == 'Buf'):
            self.unknown('array destruction')
        segs = segs_of(base)
        pos = ZERO
        out = []
        el = self.T(elt)
        opaque = el['k'] == 'rec' and self.is_opaque_rec(self.p.r[el['rec']])
        for h, c in segs:
            if opaque and c == RAW and not self.known_eq(h, pos):
                if self.gt(h - pos):
                    self.fail('lifetime', 'destroys an element that is not alive')
            pos = h
        if el['k'] == 'rec' and not opaque and not self.p.r[el['rec']].get('tdtor'):
            self.unknown('destruction of an array of %s' % el['s'])
        self.put(l, with_segs(base, ((pos, RAW),)))

    def opaque_event(self, what, r, l):
        pass

    # --- opaque operations -----------------------------------------------------------------------------
    def may_throw(self, kind, what, r=None):
        if r is not None and r['n'] in self.cfg.nothrow_types:
            return
        if kind in self.cfg.throwing and not self.unwinding:
            if self.choose(2) == 1:
                self.note('%s throws' % what)
                raise Throw(V('Exc', 'probe::Error', term(what)))

    def opaque_ctor(self, f, r, l, args):
        old = self.get(l)
        if old != RAW and old != UNINIT:
            self.fail('lifetime', 'constructs an element over one that is still alive')
        kind = 'copy' if f.get('copyctor') else 'move' if f.get('movector') else 'default' if f.get('defctor') else 'convert'
        h = self.cfg.hooks.get(r['qn'] + '::' + r['n'])
        self.may_throw(kind, '%s of %s' % ({'copy': 'copy construction', 'move': 'move construction', 'default': 'default construction', 'convert': 'construction'}[kind], r['n']), r)
        if h:
            v = h(self, f, l, args)
        elif kind == 'copy':
            v = self.read(args[0])
        elif kind == 'move':
            v = self.read(args[0])
            self.put(args[0], term('moved-from', v) if not (is_term(v) and v.a[0] == 'moved-from') else v)
        elif kind == 'default':
            v = term('default', r['qn'])
        else:
            v = term('make', r['qn'], *[self.argval(a) for a in args])
        self.put(l, v)

    def argval(self, a):
        """The value behind an argument (dereferencing reference arguments)."""
        if isinstance(a, V) and a.tag == 'Loc':
            return self.read(a)
        return a

    def opaque_call(self, f, this, args, node=None):
        """A function without a visible body declared in the probe namespace."""
        qn = f['qn']
        h = self.cfg.hooks.get(qn)
        if h:
            return h(self, f, this, args)
        op = f.get('op')
        a = ([this] if this is not None else []) + list(args)
        if f.get('copyassign') or f.get('moveassign'):
            r = self.p.r[f['rec']]
            old = self.get(this)
            if old == RAW:
                self.fail('lifetime', 'assigns to an element that is not alive')
            src = self.read(args[0])
            self.may_throw('assign' if f.get('copyassign') else 'moveassign', 'assignment of %s' % r['n'], r)
            self.put(this, src)
            if f.get('moveassign') and not self.veq(this, args[0]):
                self.put(args[0], term('moved-from', src))
            return this
        if op in ('==', '!='):
            x, y = self.argval(a[0]), self.argval(a[1])
            self.may_throw('compare', 'comparison')
            e = self.teq(x, y)
            return L(int(e if op == '==' else not e))
        if op in ('<', '>', '<=', '>=') and len(a) == 2:
            x, y = self.argval(a[0]), self.argval(a[1])
            if isinstance(x, V) and x.tag in ('UNINIT', 'RAW') or isinstance(y, V) and y.tag in ('UNINIT', 'RAW'):
                self.fail('uninitialised read', 'an indeterminate value is compared')
            self.may_throw('compare', 'comparison')
            if op in ('>', '<='):
                x, y = y, x
            eq = self.same(x, y) if self.compat(x, y) else False
            r = False if eq else self.models.key_less(self, x, y)
            return L(int(bool(r) == (op in ('<', '>'))))
        if op == '<<' and len(a) == 2 and isinstance(a[0], V) and a[0].tag == 'Loc' and self.models.is_ostream(self, a[0]):
            self.emit(a[0], [self.argval(a[1])])
            self.may_throw('write', 'output')
            return a[0]
        if op == '>>' and len(a) == 2 and isinstance(a[0], V) and a[0].tag == 'Loc' and self.get(a[0]).tag == 'IStream':
            self.may_throw('read', 'input')
            return self.models.ins(self).read_item(self, a[0], a[1], f['params'][-1]['t'])
        vals = [self.argval(x) for x in a]
        if qn in self.cfg.logcalls:
            self.log = self.log + (('call', qn) + tuple(vals),)
        self.may_throw('call', 'call of %s' % f['n'])
        return self.opaque_result(f['ret'], term('call', *vals) if op == '()' else term('call', f['dn'] if op else qn, *vals))

    def opaque_result(self, ti, t):
        ty = self.T(ti)
        k = ty['k']
        if k == 'void':
            return VOID
        if k == 'bool':
            return L(int(self.atom(*t.a)))
        if k in ('int', 'enum'):
            if t not in self.memo:
                s = self.fresh('c')
                self.memo[t] = s
                if k == 'int':
                    lo, hi = int_range(ty)
                    self.cons = self.cons.add_ge(s - lo).add_ge(L(hi) - s)
            return self.memo[t]
        if k == 'float':
            return t
        if k == 'rec':
            return t
        self.unknown('result of opaque call %s of type %s' % (show(t), ty['s']))

    # --- output -------------------------------------------------------------------------------------------
    def emit(self, l, atoms):
        s = self.get(l)
        if not (isinstance(s, V) and s.tag == 'OStream'):
            self.unknown('output to %s' % show(s))
        name = s.a[0]
        for a in atoms:
            if self.cfg.monitor:
                self.cfg.monitor(self, name, a)
            self.log = self.log + (('out', name, a),)
        if isinstance(s.a[2], tuple):
            self.put(l, V('OStream', s.a[0], s.a[1], s.a[2] + tuple(atoms)))

    def str_at(self, v, e):
        if e.is_const() and 0 <= e.k < len(v.a[0]):
            return v.a[0][e.k]
        self.unknown('character of a string')

    # --- loops ----------------------------------------------------------------------------------------------
    def run_loop(self, cond, body, inc):
        chain = []
        outer = self.tests
        self.tests = []
        n0 = self.n
        try:
            while True:
                if chain and self.cfg.mode != 'exact':
                    self.forget_dead(n0, chain)
                self.at_head(chain)
                if not cond():
                    break
                try:
                    body()
                except Break:
                    break
                except Continue:
                    pass
                inc()
        finally:
            self.tests = outer

    def forget_dead(self, n0, chain):
        """Drops what is known about numbers that earlier iterations made and nothing refers to any more."""
        new = {q for e in list(self.cons.eqs) + list(self.cons.ges) for q in e.syms() if int(q.lstrip(LETTERS)) > n0}
        for s in chain:
            if s.params:
                new -= s.params
        if not new:
            return
        live = set()

        def see(l):
            live.update(l.syms())
            return l
        for v in self.store.values():
            vmap(v, see)
        for fr in self.frames:
            for v in list(fr.vars.values()) + [fr.this, fr.ret]:
                vmap(v, see)
        for v in list(self.mon.values()) + list(self.memo.values()):
            vmap(v, see)
        vmap(self.log, see)
        dead = new - live
        if not dead:
            return

        def mentions(v):
            live.clear()
            vmap(v, see)
            return bool(live & dead)
        self.facts = {k: v for k, v in self.facts.items() if not mentions(k)}
        keep = {q for e in list(self.cons.eqs) + list(self.cons.ges) for q in e.syms()} - dead
        self.cons = project(self.cons, keep)
        self.exact = False

    def at_head(self, chain):
        self.steps += 1
        cur = Snap(self)
        if chain:
            chain[-1].tests = tuple(self.tests)
        self.tests = []
        if self.cfg.mode == 'exact':
            return self.at_head_exact(chain, cur)
        self.failing = None
        for s in reversed(chain):
            m = self.covers(s, cur)
            if m is not None:
                if not self.progresses(s, cur, m):
                    self.unproved('termination of this loop is not proved')
                raise Covered()
        if len(chain) >= self.cfg.max_arrivals:
            self.unknown('loop did not stabilise')
        gi = None
        if self.cfg.weaken and self.failing and sum(1 for s in chain if s.weakened) < 4:
            # the family found does not describe later iterations only because of some guessed conditions: without them
            s, drop = self.failing
            gi = {'store': s.store, 'frames': s.frames, 'log': s.log, 'mon': s.mon, 'params': s.params, 'tparam': s.tparam,
                  'facts': {k: v for k, v in s.facts.items() if k not in drop}, 'weakened': True,
                  'cons': Cons(frozenset(e for e in s.cons.eqs if e not in drop), frozenset(e for e in s.cons.ges if e not in drop))}
            gi['ranked'] = any(g.coef(s.tparam) < 0 and not any(q in s.params and q != s.tparam for q in g.syms()) for g in gi['cons'].ges)
        if gi is None and len(chain) >= 2 and chain[-1].params is None and (len(chain) >= self.cfg.max_arrivals - 5 or self.settled(chain[-2], chain[-1])):
            gi = self.generalise(chain[-1], cur, before=chain[-2])
        if gi is None and len(chain) >= self.cfg.max_arrivals - 4 and chain[-1].params is None:
            gi = self.generalise(chain[-1], cur, weak=True, before=chain[-2])
        if gi is None:
            chain.append(cur)
            return
        self.install(gi)
        self.exact = False
        s = Snap(self)
        s.params = gi['params']
        s.ranked = gi['ranked']
        s.tparam = gi['tparam']
        s.weakened = gi.get('weakened', False)
        chain.append(s)

    def settled(self, a, b):
        """Did two successive iterations work in the same segments of the sequences they touch?"""
        ta = [e for k, e in a.tests if k == 'seg']
        tb = [e for k, e in b.tests if k == 'seg']
        return len(ta) != len(tb) or all((y - x).is_const() for x, y in zip(ta, tb))

    def progresses(self, s, cur, m):
        """Does some bounded measure strictly increase from the loop-head state s to cur (matched by m)?"""
        if s.ranked:
            t = Lin.sym(s.tparam)
            d = m.get(s.tparam)
            if d is not None and entails_ge(cur.cons, d - t - 1):
                return True
        # a step of a surviving iterator along a finite collection that does not grow, or an erasure from one
        for (l, c), k in cur.adv.items():
            if k > s.adv.get((l, c), 0) and s.grown.get(c, 0) == cur.grown.get(c, 0):
                if l == 'erase' or (l.a[0] in s.store and s.reset.get(l, 0) == cur.reset.get(l, 0)):
                    return True
        # an iterator variable whose value was reached by steps from the value it had
        for r, v in s.store.items():
            w = cur.store.get(r)
            if isinstance(v, V) and v.tag == 'AIt' and isinstance(w, V) and w.tag == 'AIt' and v.a[0] == w.a[0] and s.grown.get(v.a[0], 0) == cur.grown.get(v.a[0], 0):
                for _ in range(50):
                    w = getattr(w, 'prev', None)
                    if w is None:
                        break
                    if w is v:
                        return True
        return False

    def at_head_exact(self, chain, cur):
        """Bounded unrolling, used only to confirm violations."""
        if chain and cur.ntaken == chain[-1].ntaken:
            for s in reversed(chain):
                if s.ntaken == cur.ntaken and self.same_state(s, cur):
                    self.fail('non-termination', 'this loop returns to the same state and never ends')
        forks = len({s.ntaken for s in chain})
        if forks >= self.cfg.max_exact + 1 or len(chain) > self.cfg.max_unroll:
            raise Cut()
        chain.append(cur)

    def same_state(self, a, b):
        return a.store == b.store and a.frames == b.frames and a.mon == b.mon and a.log == b.log and a.facts == b.facts

    def unproved(self, why):
        self.undischarged.append('%s (%s)' % (why, self.where()))

    def install(self, g):
        self.epoch = {}
        self.store = dict(g['store'])
        for fr, (vs, th, rt) in zip(self.frames, g['frames']):
            fr.vars = dict(vs)
            fr.this = th
            fr.ret = rt
        self.cons = g['cons']
        self.facts = dict(g['facts'])
        self.log = g['log']
        self.mon = dict(g['mon'])

    def live_roots(self, s):
        return set(s.store)

    def pairs(self, a, b):
        """Aligned components of two snapshots, as (key, value, value)."""
        if set(a.store) != set(b.store):
            raise Mismatch('different objects are alive')
        if len(a.frames) != len(b.frames):
            raise Mismatch('frames')
        for r in a.store:
            yield ('s', r), a.store[r], b.store[r]
        for i, (x, y) in enumerate(zip(a.frames, b.frames)):
            for k in x[0]:
                if k in y[0]:
                    yield ('v', i, k), x[0][k], y[0][k]
            yield ('t', i), x[1], y[1]
            yield ('r', i), x[2], y[2]
        if set(a.mon) != set(b.mon):
            raise Mismatch('monitors')
        for k in a.mon:
            yield ('m', k), a.mon[k], b.mon[k]

    def generalise(self, a, b, weak=False, before=None):
        """A family of states indexed by t>=0 containing a (t=0) and b (t=1), or None."""
        t = self.fresh('t')
        params = {t.c[0][0]}
        weaks = []
        wf = []          # lengths of segments

        def f(x, y):
            if x == y:
                return x
            d = y - x
            if d.is_const():
                return x + t.scale(d.k)
            if self.known_eq(x, y):
                return x
            if not weak:
                raise Mismatch('step %r' % d)
            s = self.fresh('w')
            params.add(s.c[0][0])
            weaks.append((s, x, y))
            return s

        def segs(x, y):
            if x.tag in ('Buf', 'Seq') and y.tag == x.tag:
                sx, sy = segs_of(x), segs_of(y)
                if len(sx) != len(sy):
                    raise Mismatch('segments %s | %s' % (show(x), show(y)) if DEBUG_LOOPS else 'segments')
                out = []
                lx = ZERO
                ly = ZERO
                lg = ZERO
                for (hx, cx), (hy, cy) in zip(sx, sy):
                    try:
                        c = vzip(cx, cy, f, segs)
                    except Mismatch:
                        if self.known_eq(hx, lx + 1) and not (cy == RAW) and self.veq(inst(cy, lx), inst(cx, lx)):
                            c = cy
                        else:
                            raise
                    else:
                        # prefer the multi-element template when the single one is an instance of it
                        if cx != cy and self.known_eq(hx, lx + 1) and self.veq(inst(cy, lx), inst(cx, lx)) and not self.known_eq(hy, ly + 1):
                            c = cy
                    hg = f(hx, hy)
                    wf.append((hx - lx, hy - ly, hg - lg))
                    out.append((hg, c))
                    lx, ly, lg = hx, hy, hg
                rest_x = x.a[:-1] if x.tag == 'Seq' else x.a
                return with_segs(vzip_head(x, y, f), tuple(out))
            return None

        try:
            out = {'store': {}, 'frames': [[dict(), None, None] for _ in b.frames], 'mon': {}}
            for key, x, y in self.pairs(a, b):
                if x is None or y is None:
                    if x is not y:
                        raise Mismatch('null')
                    v = None
                else:
                    v = vzip(x, y, f, segs)
                if key[0] == 's':
                    out['store'][key[1]] = v
                elif key[0] == 'v':
                    out['frames'][key[1]][0][key[2]] = v
                elif key[0] == 't':
                    out['frames'][key[1]][1] = v
                elif key[0] == 'r':
                    out['frames'][key[1]][2] = v
                else:
                    out['mon'][key[1]] = v
        except Mismatch as e:
            if DEBUG_LOOPS:
                print('  loop at', self.where(), 'not generalised:', e)
                for k in set(a.store) ^ set(b.store):
                    print('     ', k, show(a.store.get(k) or b.store.get(k)), self.labels.get(k) if hasattr(self, 'labels') else '')
            return None
        # constraints
        c = Cons().add_ge(t)
        ca, cb = a.cons, b.cons
        bymap = {}
        for g in ca.ges:
            bymap.setdefault(g.c, []).append(g)
        for e in cb.eqs:
            if entails_eq(ca, e):
                c = c.add_eq(e)
        for e in ca.eqs:
            if e not in cb.eqs and entails_eq(cb, e):
                c = c.add_eq(e)
        for g in cb.ges:
            if entails_ge(ca, g):
                c = c.add_ge(g)
            else:
                for h in bymap.get(g.c, []):
                    c = c.add_ge(Lin(h.c, h.k) + t.scale(g.k - h.k))
                    break
        for g in ca.ges:
            if g not in cb.ges and entails_ge(cb, g):
                c = c.add_ge(g)
        for s, x, y in weaks:
            for lo in (0, 1):
                if entails_ge(ca, x - lo) and entails_ge(cb, y - lo):
                    c = c.add_ge(s - lo)
        # segments are not empty
        for x, y, g in wf:
            if g.is_const():
                continue
            for k in (1, 0):
                if entails_ge(ca, x - k) and entails_ge(cb, y - k):
                    c = c.add_ge(g - k)
                    break
        # bounds suggested by the comparisons of the loop
        ranked = False
        if before is not None:
            t1, t2 = before.tests[:12], a.tests[:12]
            if [k for k, _ in t1] == [k for k, _ in t2]:
                pairs = {(k1, e1, e2) for (k1, e1), (_, e2) in zip(t1, t2)}
            else:
                pairs = {(k1, e1, e2) for k1, e1 in t1 for k2, e2 in t2 if k1 == k2}
            for k1, e1, e2 in sorted(pairs, key=repr):
                d = e2 - e1
                if not d.is_const() or d.k == 0:
                    continue
                cands = []
                if k1 in ('ge', 'seg'):
                    cands = [(e2, d.k)]
                elif abs(d.k) == 1:
                    cands = [(e2, d.k), (-e2, -d.k)]
                for e, st in cands:
                    if st > 0:
                        continue
                    lo = st if k1 in ('ge', 'seg') else 0
                    for g0 in (e - lo + st, e - lo):           # tested again before the next head, or not
                        if entails_ge(ca, g0) and entails_ge(cb, g0 + st):
                            c = c.add_ge(g0 + t.scale(st))
                            break
        tn = t.c[0][0]
        for g in c.ges:
            if g.coef(tn) < 0 and not any(q in params and q != tn for q in g.syms()):
                ranked = True
        out['ranked'] = ranked
        out['tparam'] = tn
        out['cons'] = c
        out['facts'] = {k: v for k, v in b.facts.items() if a.facts.get(k) == v}
        out['log'] = merge_log(a.log, b.log)
        out['params'] = params
        out['frames'] = [tuple(x) for x in out['frames']]
        return out

    def covers(self, s, cur):
        """The instance of the recorded state s that contains the current loop-head state, or None."""
        params = s.params or set()
        sub_ = {}
        eqs = []

        def f(x, y):
            # x from s (bound params), y current
            if x == y and not any(q in params for q in x.syms()):
                return y
            eqs.append((x, y))
            return y

        def segs(x, y):
            if x.tag in ('Buf', 'Seq') and y.tag == x.tag:
                sx, sy = segs_of(x), segs_of(y)
                vzip_head(x, y, f)
                if len(sx) != len(sy):
                    raise Mismatch('segments')
                for (hx, cx), (hy, cy) in zip(sx, sy):
                    f(hx, hy)
                ly = ZERO
                for (hx, cx), (hy, cy) in zip(sx, sy):
                    if self.known_eq(hy, ly + 1) and not (cx == RAW) and cx != cy:
                        vzip(inst(cx, ly), inst(cy, ly), f, segs)
                    else:
                        vzip(cx, cy, f, segs)
                    ly = hy
                return y
            return None
        try:
            for key, x, y in self.pairs(s, cur):
                if x is None or y is None:
                    if x is not y:
                        return None
                    continue
                vzip(x, y, f, segs)
        except Mismatch as e:
            if DEBUG_LOOPS and s.params:
                print('  not covered:', e)
            return None
        # solve for the parameters
        progress = True
        pend = eqs
        while progress and pend:
            progress = False
            rest = []
            for x, y in pend:
                x2 = x.subst({k: v for k, v in sub_.items()}) if sub_ else x
                # simultaneous substitution: bound parameters only
                un = [q for q in x.syms() if q in params and q not in sub_]
                if len(un) == 1:
                    q = un[0]
                    cf = x.coef(q)
                    others = Lin(tuple((a, b) for a, b in x.c if a != q), x.k).subst(sub_)
                    d = (y - others).divexact(cf) if cf > 0 else (others - y).divexact(-cf)
                    if d is None:
                        rest.append((x, y))
                        continue
                    sub_[q] = d
                    progress = True
                elif not un:
                    if not self.known_eq(x.subst(sub_), y):
                        return None
                    progress = True
                else:
                    rest.append((x, y))
            pend = rest
        if pend:
            if DEBUG_LOOPS and s.params:
                print('  not covered: unsolved', pend)
            return None
        for q in params:
            if q not in sub_:
                sub_[q] = Lin.sym(q)     # unconstrained by the values: same parameter
        failing = [e for e in s.cons.eqs if not entails_eq(cur.cons, e.subst(sub_))]
        if failing and not s.params:
            return None
        for e in s.cons.ges:
            if not entails_ge(cur.cons, e.subst(sub_)):
                if not s.params:
                    return None
                failing.append(e)
                if DEBUG_LOOPS:
                    print('  not covered: %r >= 0 with %r is not known from %s' % (e, sub_, cur.cons))
        for k, v in s.facts.items():
            k2 = vmap(k, lambda l: l.subst(sub_))
            if cur.facts.get(k2) != v:
                if not s.params:
                    return None
                failing.append(k)
        if not log_covers(s.log, cur.log):
            return None
        if failing:
            self.failing = (s, failing)
            return None
        return sub_


def vzip_head(x, y, f):
    """Zips everything of a Buf/Seq but its segments."""
    if x.tag == 'Seq':
        if x.a[0] != y.a[0]:
            raise Mismatch('kind')
        return x
    return V('Buf', vzip(x.a[0], y.a[0], f), x.a[1], x.a[2], x.a[3])


def segs_of(v):
    return v.a[1] if v.tag == 'Seq' else v.a[2]


def with_segs(v, segs):
    if v.tag == 'Seq':
        return V('Seq', v.a[0], tuple(segs), *v.a[2:])
    return V('Buf', v.a[0], v.a[1], tuple(segs), v.a[3])


MANY = ('...',)


def merge_log(a, b):
    if a == b:
        return a
    out = []
    for x, y in zip(a, b):
        if x != y or x == MANY:
            break
        out.append(x)
    return tuple(out) + (MANY,)


def log_covers(a, b):
    if a == b:
        return True
    if MANY in a:
        i = a.index(MANY)
        return b[:i] == a[:i] and a[i + 1:] == ()
    return False


def int_range(t):
    if t['k'] == 'bool':
        return 0, 1
    if t['sg']:
        return -(1 << (t['w'] - 1)), (1 << (t['w'] - 1)) - 1
    return 0, (1 << t['w']) - 1
