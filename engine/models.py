"""Abstract models of the standard library, keyed by the abstract value of the receiver."""
import re
from .lin import L, Lin, ZERO, ONE
from . import floats
from .vals import *
from .timing import Timing
from .frames import Frames
from .interp import (Infeasible, Throw, Terminate, Break, Cut, clean, segs_of, with_segs, int_range, VOID)

OSTREAM = ('std::basic_ostream', 'std::basic_iostream', 'std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_ofstream')


def exc(name, msg=None):
    return Throw(V('Exc', name, msg if msg is not None else V('Str', ())))


def rname(r):
    return clean(r['qn'])


SEQ = {'std::vector': 'vector', 'std::list': 'list', 'std::deque': 'deque', 'std::array': 'array', 'std::forward_list': 'list'}
ASSOC = {'std::set': 'set', 'std::map': 'map', 'std::unordered_set': 'set', 'std::unordered_map': 'map'}


def seq(kind, segs, ver=ZERO, cap=None):
    return V('Seq', kind, tuple(segs), ver, cap)


def seq_size(v):
    s = segs_of(v)
    return s[-1][0] if s else ZERO


def assoc(kind, entries=(), rest=None, size=None, pair=None):
    return V('Assoc', kind, tuple(entries), rest, size, pair)


class AIt(V):
    """Also records (outside its value) the iterator it was advanced from and when it was made."""
    __slots__ = ('prev', 'epoch', 'succ')

    def __init__(self, *a):
        V.__init__(self, *a)
        self.prev = None
        self.epoch = None
        self.succ = None


def ait(l, key, visited=(), mark=None):
    """Iterator into a keyed collection: key, named keys already visited, whether it is begin()."""
    return AIt('AIt', l, key, visited, mark)


class Models(Timing, Frames):
    # --- helpers -----------------------------------------------------------------------------------
    def kind_of(self, r):
        q = rname(r)
        return SEQ.get(q) or ASSOC.get(q)

    def targ_type(self, r, i):
        ta = r.get('targs') or []
        if i < len(ta) and ta[i] and 't' in ta[i]:
            return ta[i]['t']
        return None

    def pair_fields(self, I, rid):
        r = I.p.r[rid]
        f = r['fields']
        return [x for x in f if x['n'] in ('first', 'second')]

    def mkpair(self, I, rid, a, b):
        f = self.pair_fields(I, rid)
        return rec(rid, ((('f', f[0]['id']), a), (('f', f[1]['id']), b)))

    def pair_rec_of_map(self, I, r):
        """Record id of value_type of a std::map record."""
        k, v = self.targ_type(r, 0), self.targ_type(r, 1)
        for x in I.p.r.values():
            if rname(x) == 'std::pair' and x.get('fields'):
                ta = x.get('targs') or []
                if len(ta) == 2 and ta[0] and ta[1] and 't' in ta[0] and 't' in ta[1]:
                    kt = I.T(ta[0]['t'])
                    if ta[1]['t'] == v and kt.get('c') and kt['s'].replace('const ', '') == I.T(k)['s'].replace('const ', ''):
                        return x['id']
        return None

    def is_ostream(self, I, l):
        v = I.get(l)
        return isinstance(v, V) and v.tag == 'OStream'

    def type_cat(self, I, ti):
        _, t = I.unref(ti)
        return t

    # --- globals ---------------------------------------------------------------------------------------
    def global_var(self, I, v):
        q = clean(v['qn'])
        if q in ('std::cout', 'std::cerr', 'std::clog'):
            key = ('global', q)
            return I.newroot(V('OStream', q[5:], term('fmt', q), None), q)
        if q == 'std::cin':
            return I.newroot(V('IStream', 'cin', (), ZERO), q)
        if v.get('sys'):
            if v.get('cv') is not None:
                return I.newroot(L(int(v['cv'])), q)
            t = I.T(v['t'])
            if t['k'] in ('int', 'enum', 'bool'):
                return I.newroot(V('T', 'const', q), q)
            if t['k'] == 'rec':
                return I.newroot(V('Tag', q), q)
            return I.newroot(UNKNOWN, q)
        return None

    # --- default objects, construction, destruction -----------------------------------------------------
    def default_object(self, I, r):
        if not r['sys']:
            return None
        q = rname(r)
        if q in SEQ:
            if q == 'std::array':
                n = r['targs'][1]['i']
                el = self.targ_type(r, 0)
                return seq('array', ((L(n), I.default_value(el)),) if n else ())
            return seq(SEQ[q], ())
        if q in ASSOC:
            return self.empty_assoc(I, r)
        if q == 'std::basic_string':
            return V('Str', ())
        if q == 'std::shared_ptr':
            return V('SP', NULL, None)
        if q == 'std::weak_ptr':
            return V('SP', NULL, None)
        if q == 'std::unique_ptr':
            return V('UP', NULL)
        if q in ('std::atomic', 'std::atomic_flag', 'std::once_flag'):
            return V('Atomic', self.default_atomic(I, r))
        if q == 'std::function':
            return V('Func', None)
        if q == 'std::optional':
            return V('Opt', None)
        if q == 'std::pair':
            f = self.pair_fields(I, r['id'])
            return rec(r['id'], tuple((('f', x['id']), I.default_value(x['t'])) for x in f))
        if q == 'std::tuple':
            ts = self.tuple_types(r)
            return V('Tup', tuple(I.default_value(t) for t in ts))
        if q in ('std::basic_ostringstream',):
            return V('OStream', 'oss', term('fmt', 'default'), ())
        if q == 'std::basic_stringstream':
            return V('OStream', 'ss', term('fmt', 'default'), ())
        if q == 'std::integral_constant' or q.startswith('std::') and r.get('empty'):
            return V('Tag', q)
        if q in ('std::chrono::time_point', 'std::chrono::duration'):
            return self.chrono_value(I, r, ZERO)
        if q == 'std::mersenne_twister_engine':
            return V('Engine', term('default_seed'), L(self.engine_no(I)), ZERO)
        if q in ('std::uniform_int_distribution', 'std::uniform_real_distribution'):
            return self.default_distribution(I, r)
        if q == 'std::random_device':
            return V('RandomDevice')
        if q in ('std::basic_string_view',):
            return V('Str', ())
        if q == 'std::atomic':
            return I.default_value(self.targ_type(r, 0))
        if q == 'std::mutex':
            return V('Tag', q)
        return None

    def tuple_types(self, r):
        ta = r.get('targs') or []
        if ta and ta[0] and 'p' in ta[0]:
            return [x['t'] for x in ta[0]['p']]
        return [x['t'] for x in ta]

    def empty_assoc(self, I, r):
        q = rname(r)
        kind = ASSOC[q]
        pr = self.pair_rec_of_map(I, r) if kind == 'map' else None
        rest = None
        if getattr(I.cfg, 'named', None) is not None:
            rest = V('Rest', 'none')
        return assoc(kind, (), rest, ZERO, pr)

    def destroy(self, I, l, r):
        """End of life of a standard object."""
        if l.a[0] not in I.store:
            return
        v = I.get(l)
        q = rname(r)
        if v == RAW:
            return
        if isinstance(v, V):
            if v.tag == 'SP' and q == 'std::shared_ptr':
                I.put(l, RAW)
                self.sp_release(I, v)
                return
            if v.tag == 'UP':
                I.put(l, RAW)
                self.up_release(I, v, r)
                return
            if v.tag == 'Rec' and q == 'std::pair':
                for x in self.pair_fields(I, r['id']):
                    if I.T(x['t'])['k'] == 'rec':
                        I.destroy(sub(l, ('f', x['id'])), x['t'])
            if v.tag == 'Tup':
                for i, t in enumerate(self.tuple_types(r)):
                    if I.T(t)['k'] == 'rec':
                        if is_term(v.a[0][i]):
                            continue
                        I.destroy(sub(l, ('t', i)), t)
            if v.tag == 'Func' and isinstance(v.a[0], V) and v.a[0].tag == 'Rec':
                pass
            if v.tag == 'Opt':
                pass
        I.put(l, RAW)

    # shared pointers: V('SP', Ptr, control root); the control block is a root holding V('Ctl', count, loc)
    def sp_new(self, I, p, kind='new', dt=None):
        if is_null(p):
            c = I.newroot(V('Ctl', ONE, NULL, dt if dt is not None else 'none'), 'control block')
            return V('SP', p, c.a[0])
        I.may_throw('alloc', 'allocation of a control block') if False else None
        c = I.newroot(V('Ctl', ONE, p, dt if dt is not None else 'none'), 'control block')
        for c2, v in I.store.items():
            if isinstance(v, V) and v.tag == 'Ctl' and c2 != c.a[0] and not is_null(p) and isinstance(v.a[1], V) and v.a[1].tag == 'Ptr' \
                    and v.a[1].a[0] is not None and v.a[1].a[0].a[0] == p.a[0].a[0] and I.known_ge(v.a[0] - 1):
                I.fail('double ownership', 'a second shared_ptr takes ownership of an object that is already owned')
        return V('SP', p, c.a[0])

    def sp_share(self, I, v):
        if v.a[1] is not None:
            c = I.store[v.a[1]]
            I.store[v.a[1]] = V('Ctl', c.a[0] + 1, c.a[1], c.a[2])
        return v

    def sp_release(self, I, v):
        if v.a[1] is None:
            return
        c = I.store.get(v.a[1])
        if c is None:
            I.fail('double free', 'a shared object is released twice')
        n = c.a[0] - 1
        if I.eq(n):
            del I.store[v.a[1]]
            p = c.a[1]
            if not is_null(p):
                self.free_owned(I, p, c.a[2])
        else:
            I.store[v.a[1]] = V('Ctl', n, c.a[1], c.a[2])

    def free_owned(self, I, p, dt):
        l = p.a[0]
        h = I.cfg.hooks.get('free_owned')
        if h and h(I, p, dt):
            return
        root = l.a[0]
        if root not in I.store:
            I.fail('double free', 'releases an object that no longer exists')
        base = V('Loc', root, ())
        v = I.store[root]
        if I.heap.get(root) is None:
            I.fail('bad free', 'releases an object that was not allocated with new')
        if isinstance(v, V) and v.tag == 'Rec':
            I.destroy_rec(base, I.p.r[v.a[0]])
        elif isinstance(dt, int):
            I.destroy(base, dt)
        I.heap_free(root, ('new', 'make_shared'))

    def up_release(self, I, v, r):
        if is_null(v.a[0]):
            return
        et = self.targ_type(r, 0)
        self_t = I.T(et) if et is not None else {'k': 'other'}
        # custom deleters are not modelled except std::default_delete and free
        ta = r.get('targs') or []
        if len(ta) > 1 and ta[1] and 't' in ta[1]:
            d = I.T(ta[1]['t'])
            if 'default_delete' not in d['s']:
                h = I.cfg.hooks.get('deleter')
                if h:
                    return h(I, v.a[0], d)
                I.unknown('unique_ptr with a custom deleter')
        if self_t['k'] == 'array' or I.T(et)['s'].endswith('[]'):
            I.delete_at(v.a[0].a[0], True, et)
        else:
            I.delete_at(v.a[0].a[0], False, et)

    def copy_value(self, I, v, what='copy'):
        """Copies a standard value (shared ownership is counted)."""
        if isinstance(v, V):
            if v.tag == 'SP':
                return self.sp_share(I, v)
            if v.tag == 'Seq':
                return seq(v.a[0], v.a[1], ZERO, None)
            if v.tag == 'UP':
                I.unknown('copy of a unique_ptr')
        return v

    def construct(self, I, f, r, args, n, l):
        """Value of a standard object constructed with args (values, or locations for references)."""
        q = rname(r)
        a = [I.argval(x) for x in args] if q not in ('std::tuple', 'std::pair') else args
        if (f.get('copyctor') or f.get('movector')) and len(args) >= 1:
            v = I.read(args[0]) if isinstance(args[0], V) and args[0].tag == 'Loc' else args[0]
            if f.get('movector'):
                return self.move_value(I, args[0], v, r)
            if isinstance(v, V) and v.tag == 'UP':
                I.unknown('copy')
            if isinstance(v, V) and v.tag == 'Seq':
                I.may_throw('copy', 'copying a sequence')
            return self.copy_value(I, v)
        if not args and f.get('defctor') or not args:
            v = self.default_object(I, r)
            if v is not None:
                return v
            if '::' not in q and r.get('fields') and not r.get('bases') and all(I.T(fd['t'])['k'] != 'rec' for fd in r['fields']):
                return rec(r['id'], [(('f', fd['id']), I.uninit_value(fd['t'])) for fd in r['fields']])   # a C structure
        h = getattr(self, 'ctor_' + re.sub('<.*>', '', q).replace('std::', '').replace('::', '_'), None)
        if h:
            v = h(I, f, r, a, n, l)
            if args and q in ('std::shared_ptr', 'std::unique_ptr') and isinstance(a[0], V) and a[0].tag in ('SP', 'UP') and isinstance(args[0], V) \
                    and args[0].tag == 'Loc' and f['params'] and I.T(f['params'][0]['t'])['k'] == 'rref':
                I.put(args[0], V('SP', NULL, None) if a[0].tag == 'SP' else V('UP', NULL))      # a converting move
            return v
        if q in SEQ:
            return self.ctor_seq(I, f, r, args, SEQ[q])
        if q in ASSOC:
            return self.ctor_assoc(I, f, r, args)
        if self.is_exception(I, r):
            return V('Exc', q, a[0] if a else V('Str', ()))
        if r.get('empty'):
            return V('Tag', q)
        if 'iterator' in q:
            return a[0]
        I.unknown('constructor of %s with %d arguments' % (q, len(args)))

    # --- atomics: one thread at a time, so an atomic object is its value --------------------------------------
    def ctor_atomic(self, I, f, r, a, n, l):
        return V('Atomic', a[0] if a else self.default_atomic(I, r))

    def default_atomic(self, I, r):
        return I.default_value(self.targ_type(r, 0)) if r.get('targs') else ZERO

    def ctor_atomic_flag(self, I, f, r, a, n, l):
        return V('Atomic', a[0] if a else ZERO)

    def m_Atomic_load(self, I, f, this, v, args, n):
        return v.a[0]

    def m_Atomic_store(self, I, f, this, v, args, n):
        I.put(this, V('Atomic', I.argval(args[0])))
        return VOID

    def m_Atomic_exchange(self, I, f, this, v, args, n):
        I.put(this, V('Atomic', I.argval(args[0])))
        return v.a[0]

    def m_Atomic_fetch_add(self, I, f, this, v, args, n):
        I.put(this, V('Atomic', v.a[0] + I.argval(args[0])))
        return v.a[0]

    def m_Atomic_fetch_sub(self, I, f, this, v, args, n):
        I.put(this, V('Atomic', v.a[0] - I.argval(args[0])))
        return v.a[0]

    def m_Atomic_compare_exchange_strong(self, I, f, this, v, args, n):
        old = I.read(args[0])
        if I.truth(L(int(I.eq(v.a[0] - old)))):
            I.put(this, V('Atomic', I.argval(args[1])))
            return ONE
        I.put(args[0], v.a[0])
        return ZERO
    m_Atomic_compare_exchange_weak = m_Atomic_compare_exchange_strong

    def m_Atomic_test_and_set(self, I, f, this, v, args, n):
        I.put(this, V('Atomic', ONE))
        return v.a[0]

    def m_Atomic_test(self, I, f, this, v, args, n):
        return v.a[0]

    def m_Atomic_clear(self, I, f, this, v, args, n):
        I.put(this, V('Atomic', ZERO))
        return VOID

    def atomic_op(self, I, f, op, x, v, a):
        old = v.a[0]
        if op in ('++', '--'):
            new = old + (1 if op == '++' else -1)
            I.put(x, V('Atomic', new))
            return old if len(a) > 1 else new
        b = I.argval(a[1])
        if op == '=':
            I.put(x, V('Atomic', b))
            return b
        if op in ('+=', '-='):
            new = old + b if op == '+=' else old - b
            I.put(x, V('Atomic', new))
            return new
        I.unknown('operator%s of an atomic object' % op)

    def ctor_once_flag(self, I, f, r, a, n, l):
        return V('Atomic', ZERO)

    def f_call_once(self, I, f, args, n):
        v = I.get(args[0])
        if v.a[0] == ZERO:
            I.call_object(args[1], args[2:], None)
            I.put(args[0], V('Atomic', ONE))
        return VOID

    def ctor_error_code(self, I, f, r, a, n, l):
        return V('Tag', 'std::error_code')

    def is_exception(self, I, r):
        if rname(r) == 'std::exception':
            return True
        return any(self.is_exception(I, I.p.r[b['rec']]) for b in r.get('bases', []) if b['rec'] in I.p.r)

    def move_value(self, I, src, v, r):
        if isinstance(v, V) and isinstance(src, V) and src.tag == 'Loc':
            if v.tag == 'SP':
                I.put(src, V('SP', NULL, None))
            elif v.tag == 'UP':
                I.put(src, V('UP', NULL))
            elif v.tag == 'Seq' and v.a[0] != 'array':
                I.put(src, seq(v.a[0], (), v.a[2] + 1, None))
            elif v.tag == 'Assoc':
                I.put(src, assoc(v.a[1 - 1], (), V('Rest', 'none') if v.a[2] is not None else None, ZERO, v.a[4]))
            elif v.tag == 'Str':
                I.put(src, V('Str', ()))
            elif v.tag == 'Rec':
                # pair: moves both parts
                for x in self.pair_fields(I, v.a[0]):
                    if I.T(x['t'])['k'] == 'rec':
                        fl = sub(src, ('f', x['id']))
                        fv = I.get(fl)
                        if is_term(fv) and fv.a[0] != 'moved-from':
                            I.put(fl, term('moved-from', fv))
                        else:
                            self.move_value(I, fl, fv, None)
        return v

    def conv(self, I, v, src_t, dst_t):
        """Converts an element value between element types (converting constructors and conversion operators)."""
        if src_t is None or dst_t is None:
            return v
        (si, s), (di, d) = I.unref(src_t), I.unref(dst_t)
        if s['k'] != 'rec' and d['k'] != 'rec':
            if s['k'] == d['k'] and isinstance(v, Lin) or s['k'] == d['k']:
                return v
            I.unknown('conversion of an element from %s to %s' % (s['s'], d['s']))
        if s['k'] == 'rec' and d['k'] == 'rec' and s['rec'] == d['rec']:
            return v
        if d['k'] == 'rec':
            dr = I.p.r[d['rec']]
            for mid in dr.get('methods', []):
                m = I.p.f.get(mid)
                if m and m['kind'] == 'ctor' and len(m['params']) == 1 and not m.get('deleted'):
                    if self.same_type(I, I.unref(m['params'][0]['t'])[1], s):
                        l = I.newroot(v, 'converted element', si)
                        t = I.newroot(RAW, 'conversion', di)
                        try:
                            I.construct(m, t, [l])
                            return I.store.pop(t.a[0])
                        finally:
                            self._drop(I, l, t)
        if s['k'] == 'rec':
            sr = I.p.r[s['rec']]
            for mid in sr.get('methods', []):
                m = I.p.f.get(mid)
                if m and m['kind'] == 'conv' and self.same_type(I, I.unref(m['ret'])[1], d):
                    l = I.newroot(v, 'converted element', si)
                    try:
                        if m.get('body'):
                            I.unknown('conversion operator of an element')
                        return I.opaque_call(m, l, [])
                    finally:
                        self._drop(I, l)
        if d['k'] == 'rec' and I.is_opaque_rec(dr) and s['k'] != 'rec':
            return term('make', dr['qn'], v)
        I.unknown('conversion of an element from %s to %s' % (s['s'], d['s']))

    def same_type(self, I, a, b):
        if a['k'] != b['k']:
            return False
        if a['k'] == 'rec':
            return a['rec'] == b['rec']
        return a['s'].replace('const ', '') == b['s'].replace('const ', '')

    def iter_value_type(self, I, ti):
        """Element type behind an iterator type, if known."""
        if ti is None:
            return None
        i, t = I.unref(ti)
        if t['k'] == 'ptr':
            return t['to']
        if t['k'] == 'rec':
            r = I.p.r[t['rec']]
            if r['n'] == '__normal_iterator':
                return self.iter_value_type(I, self.targ_type(r, 0))
            if r['n'] in ('_List_iterator', '_List_const_iterator', '_Rb_tree_iterator', '_Rb_tree_const_iterator', '_Bit_iterator', '_Bit_const_iterator', '_Fwd_list_iterator'):
                if r['n'].startswith('_Bit'):
                    return None
                return self.targ_type(r, 0)
        return None

    # sequence constructors
    def ctor_seq(self, I, f, r, args, kind):
        ps = f['params']
        el = self.targ_type(r, 0)
        vals = [I.argval(x) for x in args]
        # drop a trailing allocator
        while vals and isinstance(vals[-1], V) and vals[-1].tag == 'Tag' and 'alloc' in str(vals[-1].a[0]):
            vals.pop()
        if not vals:
            return seq(kind, ())
        v0 = vals[0]
        if isinstance(v0, V) and v0.tag == 'IL':
            arr = I.get(v0.a[0])
            return seq(kind, arr.a[2])
        if isinstance(v0, V) and v0.tag == 'Seq':
            if len(ps) and I.T(ps[0]['t'])['k'] == 'rref':
                return self.move_value(I, args[0], v0, r)
            return self.copy_value(I, v0)
        if isinstance(v0, Lin) and len(vals) == 1:
            if not I.ge(v0):
                raise exc('std::length_error')
            return seq(kind, ((v0, I.default_value(el)),))
        if isinstance(v0, Lin) and len(vals) == 2 and len(ps) >= 2 and I.unref(ps[0]['t'])[1]['k'] == 'int' and not self.is_it(vals[1]):
            return seq(kind, ((v0, vals[1]),))
        if len(vals) == 2:
            return self.from_range(I, kind, vals[0], vals[1], el, self.iter_value_type(I, ps[0]['t']) if ps else None)
        I.unknown('sequence constructor')

    def from_range(self, I, kind, first, last, el, from_t=None):
        src = self.range_segs(I, first, last)
        if src is not None:
            segs, srcel = src
            out = []
            lo = ZERO
            for hi, c in segs:
                if c == RAW:
                    if not I.gt(hi - lo):
                        continue
                    I.fail('lifetime', 'copies an element that is not alive')
                lo = hi
                out.append((hi, self.conv(I, c, srcel if srcel is not None else from_t, el)))
            return seq(kind, out)
        # generic: iterate
        tmp = I.newroot(seq(kind, ()), 'sequence under construction')
        self.each(I, first, last, lambda x: self.seq_push(I, tmp, self.conv(I, I.argval(x), from_t, el)))
        return I.store.pop(tmp.a[0])

    def range_segs(self, I, first, last):
        """Segments of the elements in [first,last), renumbered from zero; None if not a sequence range."""
        if not (isinstance(first, V) and isinstance(last, V)):
            return None
        if first.tag == 'Ptr' and last.tag == 'Ptr':
            if first.a[0] is None and last.a[0] is None:
                return (), None
            if first.a[0] is None or last.a[0] is None:
                I.fail('bounds', 'range from a null pointer')
            n = I.ptr_diff(last, first)
            l = first.a[0]
            if l.a[1] and l.a[1][-1][0] == 'i':
                base, off = V('Loc', l.a[0], l.a[1][:-1]), l.a[1][-1][1]
            else:
                base, off = l, ZERO
            b = I.get(base)
            el = b.a[1] if isinstance(b, V) and b.tag == 'Buf' else None
            if not (isinstance(b, V) and b.tag in ('Buf', 'Seq')):
                return None
        elif first.tag == 'It' and last.tag == 'It':
            if first.a[0] != last.a[0]:
                I.fail('bounds', 'iterators of different containers form a range')
            self.it_check(I, first)
            self.it_check(I, last)
            n = last.a[1] - first.a[1]
            off = first.a[1]
            b = I.get(first.a[0])
            el = None
        else:
            return None
        if not I.ge(n):
            I.fail('bounds', 'range whose end precedes its start')
        return self.slice(I, b, off, n), el

    def slice(self, I, b, off, n):
        segs = segs_of(b)
        out = []
        lo = ZERO
        end = off + n
        if I.known_eq(n, ZERO):
            return ()
        if I.known_eq(off, ZERO) and segs and I.known_eq(segs[-1][0], n):
            return segs
        pos = off
        for hi, c in segs:
            if I.ge(hi - 1 - pos):
                stop = end if I.ge(hi - end) else hi
                if not I.known_eq(stop, pos) and I.gt(stop - pos):
                    sh = vmap(c, lambda x: x.subst({'#': HASH + off}))
                    out.append((stop - off, sh))
                pos = stop
                if I.known_eq(pos, end):
                    break
            lo = hi
        if not I.known_eq(pos, end) and I.gt(end - pos):
            I.fail('bounds', 'reads past the end of the sequence')
        return tuple(out)

    def ctor_assoc(self, I, f, r, args):
        e = self.empty_assoc(I, r)
        vals = [I.argval(x) for x in args]
        while vals and isinstance(vals[-1], V) and vals[-1].tag == 'Tag':
            vals.pop()
        if not vals:
            return e
        tmp = I.newroot(e, 'collection under construction')
        el = self.targ_type(r, 0)
        if isinstance(vals[0], V) and vals[0].tag == 'IL':
            n = vals[0].a[1]
            first, last = ptr(sub(vals[0].a[0], ('i', ZERO))), ptr(sub(vals[0].a[0], ('i', n)))
        elif isinstance(vals[0], V) and vals[0].tag == 'Assoc':
            return self.copy_value(I, vals[0])
        elif len(vals) == 2:
            first, last = vals
        else:
            I.unknown('associative constructor')
        # whole-collection copies
        if isinstance(first, V) and first.tag == 'AIt' and isinstance(last, V) and last.tag == 'AIt' and last.a[1] is None:
            src = I.get(first.a[0])
            ft = self.iter_value_type(I, f['params'][0]['t']) if f['params'] else None
            if self.is_begin(I, first) and e.a[0] == src.a[0] == 'set' and (ft is None or self.same_type(I, I.unref(ft)[1], I.unref(el)[1])):
                return src
        if isinstance(first, V) and first.tag == 'It' and I.get(first.a[0]).a[0] == e.a[0] and I.known_eq(first.a[1], ZERO):
            return I.get(first.a[0])       # ordered-sequence view of a set or map
        ft = self.iter_value_type(I, f['params'][0]['t']) if f['params'] and len(vals) == 2 else None
        self.each(I, first, last, lambda x: self.assoc_insert(I, tmp, self.elem_of(I, x, e, ft, el), el))
        return I.store.pop(tmp.a[0])

    def is_begin(self, I, it):
        return len(it.a) > 3 and it.a[3] == 'begin'

    def elem_of(self, I, x, e, from_t, to_t):
        v = I.argval(x)
        if e.a[0] == 'map' and isinstance(v, V) and v.tag == 'Rec' and v.a[0] != e.a[4]:
            src, dst = self.pair_fields(I, v.a[0]), self.pair_fields(I, e.a[4])
            k, w = self.split_pair(I, v)
            return self.mkpair(I, e.a[4], self.conv(I, k, src[0]['t'], dst[0]['t']), self.conv(I, w, src[1]['t'], dst[1]['t']))
        if e.a[0] == 'set' and from_t is not None and to_t is not None and not isinstance(v, Lin):
            return self.conv(I, v, from_t, to_t)
        return v

    # --- iterators ---------------------------------------------------------------------------------------
    def is_it(self, v):
        return isinstance(v, V) and v.tag in ('It', 'AIt', 'Ptr', 'RevIt', 'BackIt', 'InsIt', 'MoveIt')

    def it_check(self, I, it):
        c = I.get(it.a[0])
        if isinstance(c, V) and c.tag == 'Seq' and it.a[2] is not None:
            if not I.known_eq(c.a[2], it.a[2]):
                if c.a[0] != 'list' and I.vneq(c.a[2], it.a[2]):
                    I.fail('invalid iterator', 'uses an iterator invalidated by a change of its container')
                I.unknown('iterator validity')
        return c

    def it_loc(self, I, it):
        if it.tag == 'Ptr':
            return I.deref(it)
        if it.tag == 'It':
            c = self.it_check(I, it)
            return sub(it.a[0], ('i', it.a[1]))
        if it.tag == 'AIt':
            if it.a[1] is None:
                I.fail('bounds', 'dereferences the end iterator of a collection')
            c = I.get(it.a[0])
            if c.tag != 'Assoc':
                I.unknown('collection iterator')
            self.ait_check(I, c, it)
            e = getattr(it, 'epoch', None)
            if e is not None and e != I.epoch.get(it.a[1], e):
                I.unknown('two positions among the unnamed elements of a collection')
            if c.a[0] == 'set':
                return sub(it.a[0], ('k', it.a[1]))
            return sub(it.a[0], ('kk', it.a[1]))
        if it.tag == 'RevIt':
            return self.it_loc(I, self.it_add(I, it.a[0], L(-1)))
        if it.tag == 'MoveIt':
            return self.it_loc(I, it.a[0])
        I.unknown('dereference of %s' % show(it))

    def ait_check(self, I, c, it):
        key = it.a[1]
        if any(k == key for k, _ in c.a[1]):
            return
        if c.a[2] is not None and self.is_other(key):
            return
        I.fail('invalid iterator', 'uses an iterator to an erased element')

    def is_other(self, key):
        return is_term(key) and key.a[0] == 'other'

    def it_add(self, I, it, e):
        if it.tag == 'Ptr':
            return I.ptr_add(it, e)
        if it.tag == 'It':
            self.it_check(I, it)
            return V('It', it.a[0], it.a[1] + e, it.a[2])
        if it.tag == 'RevIt':
            return V('RevIt', self.it_add(I, it.a[0], -e))
        if it.tag == 'MoveIt':
            return V('MoveIt', self.it_add(I, it.a[0], e))
        if it.tag == 'AIt':
            if e == ZERO:
                return it
            if e.is_const() and e.k > 0:
                for _ in range(e.k):
                    it = self.ait_next(I, it)
                return it
            if e.is_const() and e.k == -1:
                return self.ait_prev(I, it)
        if it.tag in ('BackIt', 'InsIt'):
            return it
        I.unknown('iterator arithmetic on %s' % show(it))

    def ait_first(self, I, cl):
        c = I.get(cl)
        if c.a[2] is None:
            return ait(cl, c.a[1][0][0] if c.a[1] else None, (), 'begin')
        return self.ait_pick(I, cl, c, (), 'begin')

    def ait_pick(self, I, cl, c, visited, mark=None):
        """Any element not yet visited (order is not modelled when there are unnamed elements)."""
        cand = [k for k, _ in c.a[1] if k not in visited]
        opts = list(cand)
        if c.a[2] != V('Rest', 'none'):
            opts.append(term('other', c.a[2].a[0]))
        if not cand:
            opts.append(None)
        if not opts:
            opts = [None]
        k = opts[I.choose(len(opts))] if len(opts) > 1 else opts[0]
        if c.a[2] != V('Rest', 'none'):
            I.exact = False
        r = ait(cl, k, visited, mark)
        if k is not None and self.is_other(k):
            self.purge(I, k)
            I.picks += 1
            r.epoch = I.epoch[k] = I.picks
        return r

    def purge(self, I, k):
        def mentions(t):
            return t == k or (isinstance(t, V) and any(mentions(x) for x in t.a)) or (isinstance(t, tuple) and any(mentions(x) for x in t))
        for a in [a for a in I.facts if mentions(a)]:
            del I.facts[a]
        for a in [a for a in I.memo if mentions(a)]:
            del I.memo[a]

    def ait_next(self, I, it):
        c = I.get(it.a[0])
        if it.a[1] is None:
            I.fail('bounds', 'increments the end iterator of a collection')
        self.ait_check(I, c, it)
        if c.a[2] is None:
            ks = [k for k, _ in c.a[1]]
            i = ks.index(it.a[1])
            r = ait(it.a[0], ks[i + 1] if i + 1 < len(ks) else None)
            r.prev = it
            return r
        vis = it.a[2]
        if not self.is_other(it.a[1]):
            vis = tuple(sorted(vis + (it.a[1],), key=show))
        r = self.ait_pick(I, it.a[0], c, vis)
        r.prev = it
        if isinstance(it, AIt):
            it.succ = r
        return r

    def ait_prev(self, I, it):
        c = I.get(it.a[0])
        if c.a[2] is None:
            ks = [k for k, _ in c.a[1]]
            i = len(ks) if it.a[1] is None else ks.index(it.a[1])
            if i == 0:
                I.fail('bounds', 'decrements the begin iterator of a collection')
            return ait(it.a[0], ks[i - 1])
        I.unknown('backward iteration')

    def it_eq(self, I, a, b):
        if a.tag == 'Ptr' and b.tag == 'Ptr':
            return I.truth(I.compare_ptr('==', a, b))
        if a.tag == 'It' and b.tag == 'It':
            if a.a[0] != b.a[0]:
                I.fail('bounds', 'compares iterators of different containers')
            self.it_check(I, a)
            self.it_check(I, b)
            return I.eq(a.a[1] - b.a[1])
        if a.tag == 'AIt' and b.tag == 'AIt':
            if a.a[0] != b.a[0]:
                I.fail('bounds', 'compares iterators of different containers')
            return a.a[1] == b.a[1]
        if a.tag in ('RevIt', 'MoveIt') and b.tag == a.tag:
            return self.it_eq(I, a.a[0], b.a[0])
        if a.tag == 'EndIt' or b.tag == 'EndIt':
            I.unknown('sentinel')
        I.unknown('comparison of iterators %s and %s' % (show(a), show(b)))

    def it_diff(self, I, a, b):
        """a-b"""
        if a.tag == 'Ptr':
            return I.ptr_diff(a, b)
        if a.tag == 'It':
            if a.a[0] != b.a[0]:
                I.fail('bounds', 'difference of iterators of different containers')
            self.it_check(I, a)
            self.it_check(I, b)
            return a.a[1] - b.a[1]
        if a.tag in ('MoveIt',):
            return self.it_diff(I, a.a[0], b.a[0])
        if a.tag == 'RevIt':
            return self.it_diff(I, b.a[0], a.a[0])
        if a.tag == 'AIt' and a.a[1] is None:
            c = I.get(a.a[0])
            if c.a[2] is None and b.a[1] is not None:
                ks = [k for k, _ in c.a[1]]
                return L(len(ks) - ks.index(b.a[1]))
            if b.a[1] is None:
                return ZERO
            if c.a[3] is not None and self.is_begin(I, b):
                return c.a[3]
        I.unknown('iterator difference')

    def each(self, I, first, last, fn):
        """Abstract loop over [first,last); fn receives the element location."""
        fr = I.newroot(first, 'iterator')
        lr = I.newroot(last, 'iterator')

        def cond():
            return not self.it_eq(I, I.store[fr.a[0]], I.store[lr.a[0]])

        def body():
            fn(self.it_loc(I, I.store[fr.a[0]]))

        def inc():
            self.stepped(I, fr, I.store[fr.a[0]])
            I.store[fr.a[0]] = self.it_add(I, I.store[fr.a[0]], ONE)
        try:
            I.run_loop(cond, body, inc)
        finally:
            self._drop(I, fr, lr)

    def stepped(self, I, l, it, op='++'):
        """Records a step of the iterator variable at l along its collection (for termination)."""
        if it.tag == 'AIt' and op == '++':
            k = (l, it.a[0])
            I.adv[k] = I.adv.get(k, 0) + 1

    def _drop(self, I, *ls):
        for l in ls:
            I.store.pop(l.a[0], None)

    # --- elements of sequences ----------------------------------------------------------------------------
    def seq_push(self, I, l, val):
        v = I.get(l)
        n = seq_size(v)
        ver, cap = v.a[2], v.a[3]
        if v.a[0] in ('vector', 'deque'):
            if not (cap is not None and I.ge(cap - n - 1)):
                ver = ver + 1
                cap = None
        elif v.a[0] == 'list':
            ver = ver + 1           # positions of list iterators are not followed across changes
        I.put(l, V('Seq', v.a[0], I.seg_norm(list(v.a[1]) + [(n + 1, val)]), ver, cap))

    def seq_insert_segs(self, I, v, pos, segs2, n2):
        """Segments of v with segs2 (length n2) inserted at pos."""
        n = seq_size(v)
        a = list(self.slice(I, v, ZERO, pos)) if not I.known_eq(pos, ZERO) else []
        out = list(a)
        for hi, c in segs2:
            out.append((hi + pos, vmap(c, lambda x: x.subst({'#': HASH - pos}))))
        if not I.known_eq(pos, n):
            for hi, c in self.slice(I, v, pos, n - pos):
                off = pos + n2
                out.append((hi + off, vmap(c, lambda x: x.subst({'#': HASH - off}))))
        return I.seg_norm(out)

    # --- collections with keys -----------------------------------------------------------------------------
    def assoc_find(self, I, l, key):
        """Iterator to key in the collection at l, or end."""
        c = I.get(l)
        if c.tag == 'Seq':
            I.unknown('lookup in an ordered-sequence view')
        I.may_throw('compare', 'comparison of keys')
        for k, _ in c.a[1]:
            if k == key or I.teq(k, key):
                return ait(l, k)
        if c.a[2] is not None and self.in_rest(I, c, key):
            self_other = key if self.is_other(key) else term('other', c.a[2].a[0])
            return ait(l, self_other)
        return ait(l, None)

    def in_rest(self, I, c, key):
        rest = c.a[2]
        if rest.a[0] == 'none':
            return False
        named = getattr(I.cfg, 'named', None) or ()
        if rest.a[0] == 'prefix':
            seqname, b = rest.a[1], rest.a[2]
            # the rest holds seqname(j) for the unnamed j<b
            if is_term(key) and key.a[0] == seqname:
                if I.ge(b - 1 - key.a[1]) and I.ge(key.a[1]):
                    return True
            return I.atom('in-prefix', key, b)
        if self.is_other(key):
            t = term('in', rest.a[0], key)
            if t in I.facts:
                return I.facts[t]
            if key.a[1] == rest.a[0]:
                return True
        else:
            for k in named:
                if k == key:
                    return False        # named keys are tracked exactly
            for k in named:
                if I.teq(k, key):
                    return False
        return I.atom('in', rest.a[0], key)

    def key_less(self, I, a, b):
        rank = getattr(I.cfg, 'rank', None)
        if rank:
            r = rank(I, a, b)
            if r is not None:
                return r
        if isinstance(a, Lin) and isinstance(b, Lin):
            return I.ge(b - a - 1)
        known = self.known_order(I, a, b)
        if known is not None:
            return known
        return I.atom('lt', a, b)

    def known_order(self, I, a, b, total=True):
        """a<b as far as the recorded comparisons determine it (a strict order; total when said so)."""
        edges = {}
        cls = {}

        def find(x):
            while x in cls:
                x = cls[x]
            return x
        for k, v in I.facts.items():
            if k.a[0] == 'eq' and v:
                x, y = find(k.a[1]), find(k.a[2])
                if x != y:
                    cls[x] = y
        # names whose indices coincide
        seen = []
        for x in [a, b] + [x for k in list(I.facts) if k.a[0] in ('eq', 'lt') for x in k.a[1:3]]:
            if x in seen:
                continue
            for y in seen:
                if find(x) != find(y) and I.compat(x, y) and I.same(x, y):
                    cls[find(x)] = find(y)
                    break
            seen.append(x)
        for k, v in I.facts.items():
            if k.a[0] == 'lt':
                x, y = find(k.a[1]), find(k.a[2])
                if v:
                    edges.setdefault(x, []).append((y, True))
                elif total:
                    edges.setdefault(y, []).append((x, False))      # y<=x
        a, b = find(a), find(b)
        if a == b:
            return False

        def reach(p, q):
            """q>=p known (1), q>p known (2), or 0."""
            best = {p: 1}
            todo = [p]
            while todo:
                x = todo.pop()
                for y, strict in edges.get(x, ()):
                    s = 2 if strict or best[x] == 2 else 1
                    if best.get(y, 0) < s:
                        best[y] = s
                        todo.append(y)
            return best.get(q, 0)
        up, down = reach(a, b), reach(b, a)
        if up == 2:
            return True
        if down:
            return False
        if up == 1:
            for k, v in I.facts.items():
                if k.a[0] == 'eq' and v is False and {find(k.a[1]), find(k.a[2])} == {a, b}:
                    return True
        return None

    def assoc_insert(self, I, l, el, elt=None):
        """Inserts an element (key, or pair for maps); returns (iterator, inserted?)."""
        c = I.get(l)
        if c.tag == 'Seq':
            I.unknown('insertion in an ordered-sequence view')
        if c.a[0] == 'map':
            key, val = self.split_pair(I, el)
        else:
            key, val = el, VOID
        return self.assoc_insert_kv(I, l, key, val)

    def split_pair(self, I, el):
        if isinstance(el, V) and el.tag == 'Rec':
            f = self.pair_fields(I, el.a[0])
            return rget(el, ('f', f[0]['id'])), rget(el, ('f', f[1]['id']))
        if isinstance(el, V) and el.tag == 'Tup':
            return el.a[0]
        I.unknown('map element %s' % show(el))

    def assoc_insert_kv(self, I, l, key, val, throws=True):
        it = self.assoc_find(I, l, key)
        if it.a[1] is not None:
            return it, False
        if throws:
            I.may_throw('copy', 'copying an inserted element')
        I.grown[l] = I.grown.get(l, 0) + 1
        c = I.get(l)
        if c.a[2] is not None:
            named = getattr(I.cfg, 'named', None) or ()
            isnamed = not self.is_other(key) and any(k == key for k in named)
            if not isnamed and not self.is_other(key):
                for k in named:
                    if I.teq(k, key):
                        isnamed, key = True, k
                        break
            if not isnamed:
                rest = c.a[2]
                size = c.a[3] + 1 if c.a[3] is not None else None
                pfx = getattr(I.cfg, 'prefix_rest', None)
                if pfx and is_term(key) and key.a[0] == pfx and rest.a[0] in ('none', 'prefix'):
                    b = ZERO if rest.a[0] == 'none' else rest.a[2]
                    if I.known_eq(key.a[1], b):
                        I.put(l, V('Assoc', c.a[0], c.a[1], V('Rest', 'prefix', pfx, b + 1), None, c.a[4]))
                        return ait(l, term('other', 'prefix')), True
                name = ('mod', l.a[0])
                I.exact = False
                I.put(l, V('Assoc', c.a[0], c.a[1], V('Rest', name), None, c.a[4]))
                if self.is_other(key):
                    I.facts[term('in', name, key)] = True
                return ait(l, key if self.is_other(key) else term('other', name)), True
            es = list(c.a[1]) + [(key, val)]
            es.sort(key=lambda kv: show(kv[0]))
        else:
            es = list(c.a[1])
            i = 0
            while i < len(es) and not self.key_less(I, key, es[i][0]):
                i += 1
            es.insert(i, (key, val))
        size = c.a[3] + 1 if c.a[3] is not None else None
        I.put(l, V('Assoc', c.a[0], tuple(es), c.a[2], size, c.a[4]))
        return ait(l, key), True

    def assoc_erase_key(self, I, l, key):
        it = self.assoc_find(I, l, key)
        if it.a[1] is None:
            return ZERO
        self.assoc_erase_it(I, it)
        return ONE

    def assoc_erase_it(self, I, it):
        l = it.a[0]
        c = I.get(l)
        if it.a[1] is None:
            I.fail('bounds', 'erases the end iterator of a collection')
        self.ait_check(I, c, it)
        I.adv[('erase', l)] = I.adv.get(('erase', l), 0) + 1
        if self.is_other(it.a[1]):
            name = ('mod', l.a[0])
            I.put(l, V('Assoc', c.a[0], c.a[1], V('Rest', name), c.a[3] - 1 if c.a[3] is not None else None, c.a[4]))
            I.facts[term('in', name, it.a[1])] = False
            return
        es = tuple((k, v) for k, v in c.a[1] if k != it.a[1])
        I.put(l, V('Assoc', c.a[0], es, c.a[2], c.a[3] - 1 if c.a[3] is not None else None, c.a[4]))

    def assoc_elem(self, I, c, p):
        """Value at path element ('k', key) or ('kk', key)."""
        key = p[1]
        if p[0] == 'k':
            return key
        for k, v in c.a[1]:
            if k == key:
                return self.mkpair(I, c.a[4], k, v)
        if c.a[2] is not None and self.is_other(key):
            h = getattr(I.cfg, 'other_value', None)
            val = h(I, c, key) if h else term('value', c.a[2].a[0], key)
            return self.mkpair(I, c.a[4], key, val)
        I.fail('invalid iterator', 'accesses an element that was erased')

    def assoc_set(self, I, c, p, path, val):
        key = p[1]
        if p[0] == 'k':
            I.fail('key modification', 'writes to a key of a set')
        f = self.pair_fields(I, c.a[4])
        if not path or path[0] != ('f', f[1]['id']):
            I.fail('key modification', 'writes to a key of a map')
        for i, (k, v) in enumerate(c.a[1]):
            if k == key:
                nv = I._put(v, path[1:], val)
                es = c.a[1][:i] + ((k, nv),) + c.a[1][i + 1:]
                return V('Assoc', c.a[0], es, c.a[2], c.a[3], c.a[4])
        if c.a[2] is not None and self.is_other(key):
            return c
        I.fail('invalid iterator', 'writes to an element that was erased')

    # --- calls -------------------------------------------------------------------------------------------------
    def call(self, I, f, this, args, n):
        name = f['n']
        op = f.get('op')
        q = clean(f['qn'])
        if f['kind'] == 'conv':
            return self.conversion(I, f, this)
        if op and op not in ('new', 'delete', 'new[]', 'delete[]', '()'):
            return self.operator(I, f, op, ([this] if this is not None else []) + args, n)
        if this is not None:
            v = I.get(this) if this.tag == 'Loc' else this
            if not isinstance(v, V):
                I.unknown('member %s of %s' % (q, show(v)))
            if op == '()':
                h = getattr(self, 'call_' + v.tag, None)
                if h:
                    return h(I, f, this, v, args, n)
                if v.tag == 'Rec' or is_term(v):
                    return I.call_object(this, args, f['ret'])
                I.unknown('call operator of %s' % show(v))
            h = getattr(self, 'm_%s_%s' % (v.tag, name), None)
            if h:
                return h(I, f, this, v, args, n)
            if is_term(v) and v.a[0] == 'opaque-std':
                return I.opaque_result(f['ret'], term('call', q, v, *[I.argval(x) for x in args]))
            I.unknown('member function %s on %s' % (q, v.tag))
        if op in ('new', 'new[]'):
            return self.op_new(I, f, args)
        if op in ('delete', 'delete[]'):
            return self.op_delete(I, f, args)
        h = getattr(self, 'f_' + name, None)
        if h:
            return h(I, f, args, n)
        if f.get('rec') is not None:
            cls = rname(I.p.r[f['rec']]).split('::')[-1]
            h = getattr(self, 's_%s_%s' % (cls, name), None)
            if h:
                return h(I, f, args, n)
            if cls == 'numeric_limits':
                return self.numeric_limits(I, f, name)
        I.unknown('function %s' % q)

    def numeric_limits(self, I, f, name):
        t = I.T(f['ret'])
        if t['k'] == 'int':
            lo, hi = int_range(t)
            if name in ('max',):
                return L(hi)
            if name in ('min', 'lowest'):
                return L(lo)
        if t['k'] == 'float':
            return term('limit', name)
        I.unknown('numeric_limits')

    def conversion(self, I, f, this):
        v = I.get(this)
        tgt = I.T(f['ret'])
        if isinstance(v, V):
            if v.tag == 'BitRef':
                return self.bit_read(I, v)
            if v.tag == 'Atomic':
                return v.a[0]
            if v.tag in ('SP', 'UP') and tgt['k'] == 'bool':
                return L(int(not is_null(v.a[0])))
            if v.tag == 'Func' and tgt['k'] == 'bool':
                return L(int(v.a[0] is not None))
            if v.tag == 'Opt' and tgt['k'] == 'bool':
                return L(int(v.a[0] is not None))
            if v.tag == 'IStream' and tgt['k'] == 'bool':
                return L(int(not self.is_failed(I, this)))
            if v.tag == 'OStream' and tgt['k'] == 'bool':
                return self.out_good(I, v)
            if v.tag == 'It':
                return v
            if v.tag == 'Tag':
                cv = self.tag_value(I, this, f)
                if cv is not None:
                    return cv
            if v.tag == 'Str':
                return v
            if v.tag == 'SP' or v.tag == 'RefWrap':
                return v.a[0]
        I.unknown('conversion of %s to %s' % (show(v), tgt['s']))

    def tag_value(self, I, this, f):
        r = I.p.r.get(f.get('rec'))
        if r and rname(r) == 'std::integral_constant':
            ta = r['targs']
            if len(ta) > 1 and ta[1] and 'i' in ta[1]:
                return L(int(ta[1]['i']))
        return None

    # --- raw memory --------------------------------------------------------------------------------------------
    def op_new(self, I, f, args):
        I.may_throw('alloc', 'allocation')
        l = I.heap_new(V('Bytes', args[0]), 'operator new', 'buffer allocated at %s' % I.where())
        return ptr(l)

    def m_Tag_allocate(self, I, f, this, v, args, n):
        return self.f_allocate(I, f, [this] + list(args), n)

    def m_Tag_deallocate(self, I, f, this, v, args, n):
        return self.op_delete(I, f, args)

    def f_allocate(self, I, f, args, n):
        """std::allocator and std::allocator_traits of one."""
        t = I.T(f['ret'])
        sz = I.unref(t['to'])[1].get('sz')
        c = I.argval(args[1])
        if not sz or not isinstance(c, Lin):
            I.unknown('allocator')
        return I.retype(self.op_new(I, f, [c.scale(sz)]), f['ret'])

    def f_deallocate(self, I, f, args, n):
        return self.op_delete(I, f, [I.argval(x) for x in args[1:]])

    def f_construct(self, I, f, args, n):
        if len(args) < 2 or not isinstance(I.argval(args[0]), V) or I.argval(args[0]).tag != 'Tag':
            I.unknown('construct')
        self.f_construct_at(I, dict(f, params=f['params'][1:]), args[1:], n)
        return VOID

    def m_Tag_construct(self, I, f, this, v, args, n):
        self.f_construct_at(I, f, args, n)
        return VOID

    def m_Tag_destroy(self, I, f, this, v, args, n):
        return self.f_destroy_at(I, f, args, n)

    def op_delete(self, I, f, args):
        p = args[0]
        if isinstance(p, V) and p.tag in ('UNINIT', 'RAW'):
            I.fail('bad free', 'releases an indeterminate pointer')
        if is_null(p):
            return VOID
        if p.tag != 'Ptr':
            I.unknown('operator delete of %s' % show(p))
        l = p.a[0]
        pth = [x for x in l.a[1] if x[0] != 'b']
        if pth and not (len(pth) == 1 and pth[0][0] == 'i' and I.known_eq(pth[0][1], ZERO)):
            if len(pth) == 1 and pth[0][0] == 'i' and I.eq(pth[0][1]):
                pass
            else:
                I.fail('bad free', 'releases a pointer that was not returned by the allocation')
        root = l.a[0]
        if root in I.store:
            b = I.store[root]
            if isinstance(b, V) and b.tag == 'Buf' and I.heap.get(root) == 'operator new':
                self.check_dead(I, b, 'releases a buffer')
        I.heap_free(root, ('operator new',))
        return VOID

    def check_dead(self, I, b, what):
        el = I.T(b.a[1]) if isinstance(b.a[1], int) else {'k': 'other'}
        if el['k'] != 'rec' or I.p.r[el['rec']].get('tdtor'):
            return
        pos = ZERO
        for hi, c in b.a[2]:
            if c != RAW and c != UNINIT:
                if not I.known_eq(hi, pos) and I.gt(hi - pos):
                    I.fail('leak', '%s whose element %r is still alive (its destructor never runs)' % (what, pos))
            pos = hi

    def f_free(self, I, f, args, n):
        p = args[0]
        if is_null(p):
            return VOID
        h = I.cfg.hooks.get('free')
        if h and h(I, p):
            return VOID
        if not (isinstance(p, V) and p.tag == 'Ptr'):
            I.fail('bad free', 'free of %s' % show(p))
        I.heap_free(p.a[0].a[0], ('malloc',))
        return VOID

    def f_malloc(self, I, f, args, n):
        return ptr(I.heap_new(V('Bytes', args[0]), 'malloc', 'malloc'))

    # --- identity-like functions ------------------------------------------------------------------------------
    def _first(self, I, f, args, n):
        return args[0]
    f_move = f_forward = f_as_const = f_move_if_noexcept = f_addressof_ = _first

    def f_move(self, I, f, args, n):
        if len(args) == 3:
            return self.alg_copy(I, args[0], args[1], args[2], move=True)
        return args[0]

    def f_addressof(self, I, f, args, n):
        return ptr(args[0])
    f___addressof = f_addressof

    def f_declval(self, I, f, args, n):
        I.unknown('declval')

    def f_launder(self, I, f, args, n):
        return args[0]

    def f_swap(self, I, f, args, n):
        a, b = args
        if I.veq(a, b):
            return VOID
        x, y = I.get(a), I.get(b)
        for z in (x, y):
            if z == UNINIT:
                I.fail('uninitialised read', 'swaps an indeterminate value')
        ti = I.unref(f['params'][0]['t'])[1]
        if ti['k'] == 'rec' and not I.p.r[ti['rec']]['sys'] and not I.is_opaque_rec(I.p.r[ti['rec']]):
            # generic swap of a user class: through its move operations
            r = I.p.r[ti['rec']]
            return self.generic_swap(I, r, a, b, I.unref(f['params'][0]['t'])[0])
        if ti['k'] == 'rec' and I.is_opaque_rec(I.p.r[ti['rec']]):
            I.may_throw('move', 'swap')
        I.put(a, y)
        I.put(b, x)
        return VOID

    def generic_swap(self, I, r, a, b, ti):
        mc = ma = None
        for mid in r['methods']:
            m = I.p.f.get(mid)
            if m and m.get('movector') and not m.get('deleted'):
                mc = m
            if m and m.get('moveassign') and not m.get('deleted'):
                ma = m
        if not mc or not ma:
            I.put(a, I.get(b)) if False else None
            I.unknown('swap of %s' % r['dn'])
        tmp = I.newroot(RAW, 'swap temporary', ti)
        I.construct(mc, tmp, [a])
        I.frames[-1].temps[-1].append((tmp, ti))
        I.invoke(ma, a, [b], None)
        I.invoke(ma, b, [tmp], None)
        return VOID

    def f_iter_swap(self, I, f, args, n):
        return self.f_swap_locs(I, self.it_loc(I, args[0]), self.it_loc(I, args[1]))

    def f_swap_locs(self, I, a, b):
        x, y = I.get(a), I.get(b)
        I.put(a, y)
        I.put(b, x)
        return VOID

    def assign_elem(self, I, dst, val, src=None, move=False):
        """*dst = val for one element."""
        old = I.get(dst)
        if old == RAW:
            I.fail('lifetime', 'assigns to an element that is not alive')
        I.may_throw('assign', 'assignment of an element')
        I.put(dst, val)

    def f_exchange(self, I, f, args, n):
        l = args[0]
        old = I.read(l)
        new = I.argval(args[1])
        I.put(l, new)
        return old

    def f_min(self, I, f, args, n):
        if len(args) == 1:
            I.unknown('min of a list')
        a, b = I.argval(args[0]), I.argval(args[1])
        less = I.truth(I.compare('<', b, a))
        return args[1] if less else args[0]

    def f_max(self, I, f, args, n):
        if len(args) == 1:
            I.unknown('max of a list')
        a, b = I.argval(args[0]), I.argval(args[1])
        less = I.truth(I.compare('<', a, b))
        return args[1] if less else args[0]

    def f_abs(self, I, f, args, n):
        x = I.argval(args[0])
        if isinstance(x, Lin):
            return x if I.ge(x) else -x
        p = floats.parts(x)
        if p is not None:
            return x if I.ge(p[0]) else floats.rat(-p[0], p[1])
        return term('abs', x)
    f_fabs = f_abs

    def f_abort(self, I, f, args, n):
        raise Terminate('abort')

    def f_terminate(self, I, f, args, n):
        raise Terminate('terminate')

    def f_exit(self, I, f, args, n):
        raise Terminate('exit')
    f_quick_exit = f__Exit = f_exit

    def f___assert_fail(self, I, f, args, n):
        raise Terminate('assert')

    def f___builtin_unreachable(self, I, f, args, n):
        I.fail('unreachable', 'control reaches __builtin_unreachable')

    def f_unreachable(self, I, f, args, n):
        I.fail('unreachable', 'control reaches std::unreachable')

    def f___builtin_expect(self, I, f, args, n):
        return args[0]

    def f_distance(self, I, f, args, n):
        return self.it_diff(I, I.argval(args[1]), I.argval(args[0]))

    def f_advance(self, I, f, args, n):
        I.put(args[0], self.it_add(I, I.read(args[0]), I.argval(args[1])))
        return VOID

    def f_next(self, I, f, args, n):
        return self.it_add(I, I.argval(args[0]), I.argval(args[1]) if len(args) > 1 else ONE)

    def f_prev(self, I, f, args, n):
        return self.it_add(I, I.argval(args[0]), -I.argval(args[1]) if len(args) > 1 else L(-1))

    def std_base(self, I, l):
        """The std collection that an object is or is derived from."""
        v = I.get(l)
        while isinstance(v, V) and v.tag == 'Rec':
            bs = [k for k, x in v.a[1] if k[0] == 'b' and isinstance(x, V) and x.tag in ('Rec', 'Seq', 'Assoc')]
            if len(bs) != 1:
                break
            l = sub(l, bs[0])
            v = I.get(l)
        return l

    def coll_begin(self, I, l):
        l = self.std_base(I, l)
        v = I.get(l)
        if v.tag == 'Seq':
            return V('It', l, ZERO, v.a[2])
        if v.tag == 'Assoc':
            return self.ait_first(I, l)
        if v.tag == 'Buf':
            return ptr(sub(l, ('i', ZERO)))
        if v.tag == 'IL':
            return ptr(sub(v.a[0], ('i', ZERO)))
        if v.tag == 'Str':
            return V('StrIt', l, ZERO)
        I.unknown('begin of %s' % show(v))

    def coll_end(self, I, l):
        l = self.std_base(I, l)
        v = I.get(l)
        if v.tag == 'Seq':
            return V('It', l, seq_size(v), v.a[2])
        if v.tag == 'Assoc':
            return ait(l, None)
        if v.tag == 'Buf':
            return ptr(sub(l, ('i', v.a[0])))
        if v.tag == 'IL':
            return ptr(sub(v.a[0], ('i', v.a[1])))
        I.unknown('end of %s' % show(v))

    def f_begin(self, I, f, args, n):
        return self.coll_begin(I, args[0])
    f_cbegin = f_begin

    def f_end(self, I, f, args, n):
        return self.coll_end(I, args[0])
    f_cend = f_end

    def f_size(self, I, f, args, n):
        v = I.get(self.std_base(I, args[0]))
        if v.tag == 'Assoc':
            return self.m_Assoc_size(I, f, args[0], v, [], n)
        if v.tag == 'Seq':
            return seq_size(v)
        if v.tag == 'Buf':
            return v.a[0]
        I.unknown('size')

    def f_empty(self, I, f, args, n):
        l = self.std_base(I, args[0])
        v = I.get(l)
        if v.tag == 'Assoc':
            return self.m_Assoc_empty(I, f, l, v, [], n)
        return L(int(I.eq(seq_size(v))))

    def f_back_inserter(self, I, f, args, n):
        return V('BackIt', self.std_base(I, args[0]))

    def f_inserter(self, I, f, args, n):
        l = self.std_base(I, args[0])
        if I.get(l).tag == 'Seq' and not self.it_eq(I, I.argval(args[1]), self.m_Seq_end(I, None, l, I.get(l), [], n)):
            I.unknown('inserter before the end')
        return V('InsIt', l)

    def f_make_move_iterator(self, I, f, args, n):
        return V('MoveIt', I.argval(args[0]))

    def f_make_reverse_iterator(self, I, f, args, n):
        return V('RevIt', I.argval(args[0]))

    def f_ref(self, I, f, args, n):
        return V('RefWrap', args[0])
    f_cref = f_ref

    def f_invoke(self, I, f, args, n):
        return I.call_object(args[0], args[1:], I.unref(f['ret'])[0])

    # --- algorithms -----------------------------------------------------------------------------------------------
    def out_write(self, I, it, val, construct=False, move=False):
        """Writes val through output iterator it."""
        if it.tag == 'BackIt':
            self.seq_push(I, it.a[0], val)
            return
        if it.tag == 'InsIt':
            v = I.get(it.a[0])
            if v.tag == 'Assoc':
                self.assoc_insert(I, it.a[0], val)
                return
            self.seq_push(I, it.a[0], val)
            return
        l = self.it_loc(I, it)
        if construct:
            old = I.get(l)
            if old not in (RAW, UNINIT):
                I.fail('lifetime', 'constructs an element over one that is still alive')
            I.may_throw('copy', 'copy construction of an element')
            I.put(l, val)
        else:
            self.assign_elem(I, l, val)

    def loop2(self, I, first, last, out, step):
        """for(;first!=last;++first,++out) step(first,out); returns out."""
        fr, lr, orr = I.newroot(first, 'iterator'), I.newroot(last, 'iterator'), I.newroot(out, 'iterator')
        S = I.store

        def inc():
            S = I.store
            self.stepped(I, fr, S[fr.a[0]])
            S[fr.a[0]] = self.it_add(I, S[fr.a[0]], ONE)
            S[orr.a[0]] = self.it_add(I, S[orr.a[0]], ONE)
        try:
            I.run_loop(lambda: not self.it_eq(I, I.store[fr.a[0]], I.store[lr.a[0]]),
                       lambda: step(I.store[fr.a[0]], I.store[orr.a[0]]), inc)
            return I.store[orr.a[0]]
        finally:
            self._drop(I, fr, lr, orr)

    def alg_copy(self, I, first, last, out, construct=False, move=False):
        def step(a, b):
            l = self.it_loc(I, a)
            v = I.read(l)
            self.out_write(I, b, v, construct)
            if (move or a.tag == 'MoveIt') and is_term(v):
                I.put(l, term('moved-from', v))
        return self.loop2(I, first, last, out, step)

    def f_copy(self, I, f, args, n):
        a = [I.argval(x) for x in args]
        return self.alg_copy(I, a[0], a[1], a[2])

    def count_end(self, I, first, cnt):
        return self.it_add(I, first, cnt)

    def f_copy_n(self, I, f, args, n):
        a = [I.argval(x) for x in args]
        return self.alg_copy(I, a[0], self.count_end(I, a[0], a[1]), a[2])

    def f_uninitialized_copy(self, I, f, args, n):
        a = [I.argval(x) for x in args]
        return self.guarded(I, a[2], lambda out: self.alg_copy(I, a[0], a[1], out, construct=True))

    def f_uninitialized_copy_n(self, I, f, args, n):
        a = [I.argval(x) for x in args]
        return self.guarded(I, a[2], lambda out: self.alg_copy(I, a[0], self.count_end(I, a[0], a[1]), out, construct=True))

    def f_uninitialized_move(self, I, f, args, n):
        a = [I.argval(x) for x in args]
        return self.guarded(I, a[2], lambda out: self.alg_copy(I, a[0], a[1], out, construct=True, move=True))

    def guarded(self, I, out, fn):
        """uninitialized_*: on an exception the constructed elements are destroyed."""
        if not I.cfg.throwing:
            return fn(out)
        base = out
        l = self.it_loc(I, out) if not is_null(out) else None
        before = I.get(V('Loc', l.a[0], l.a[1][:-1])) if l is not None and l.a[1] else None
        try:
            return fn(out)
        except Throw:
            if before is not None:
                I.put(V('Loc', l.a[0], l.a[1][:-1]), before)
            raise

    def fill_range(self, I, first, last, mk, construct=False):
        fr, lr = I.newroot(first, 'iterator'), I.newroot(last, 'iterator')

        def body():
            self.out_write(I, I.store[fr.a[0]], mk(), construct)

        def inc():
            self.stepped(I, fr, I.store[fr.a[0]])
            I.store[fr.a[0]] = self.it_add(I, I.store[fr.a[0]], ONE)
        try:
            I.run_loop(lambda: not self.it_eq(I, I.store[fr.a[0]], I.store[lr.a[0]]), body, inc)
            return I.store[fr.a[0]]
        finally:
            self._drop(I, fr, lr)

    def f_fill(self, I, f, args, n):
        self.fill_range(I, I.argval(args[0]), I.argval(args[1]), lambda: I.argval(args[2]))
        return VOID

    def f_fill_n(self, I, f, args, n):
        a = I.argval(args[0])
        return self.fill_range(I, a, self.count_end(I, a, I.argval(args[1])), lambda: I.argval(args[2]))

    def f_uninitialized_fill(self, I, f, args, n):
        self.guarded(I, I.argval(args[0]), lambda o: self.fill_range(I, o, I.argval(args[1]), lambda: I.argval(args[2]), True))
        return VOID

    def f_uninitialized_fill_n(self, I, f, args, n):
        return self.guarded(I, I.argval(args[0]), lambda o: self.fill_range(I, o, self.count_end(I, o, I.argval(args[1])), lambda: I.argval(args[2]), True))

    def elem_type_of(self, I, it, f):
        t = I.unref(f['params'][0]['t'])[1]
        if t['k'] == 'ptr':
            return t['to']
        return None

    def f_uninitialized_value_construct(self, I, f, args, n):
        et = self.elem_type_of(I, args[0], f)
        self.guarded(I, I.argval(args[0]), lambda o: self.fill_range(I, o, I.argval(args[1]), lambda: I.default_value(et), True))
        return VOID
    def f_uninitialized_default_construct(self, I, f, args, n):
        et = self.elem_type_of(I, args[0], f)
        mk = (lambda: I.default_value(et)) if I.T(et)['k'] == 'rec' else (lambda: UNINIT)
        self.guarded(I, I.argval(args[0]), lambda o: self.fill_range(I, o, I.argval(args[1]), mk, True))
        return VOID

    def f_uninitialized_value_construct_n(self, I, f, args, n):
        et = self.elem_type_of(I, args[0], f)
        return self.guarded(I, I.argval(args[0]), lambda o: self.fill_range(I, o, self.count_end(I, o, I.argval(args[1])), lambda: I.default_value(et), True))

    def f_uninitialized_default_construct_n(self, I, f, args, n):
        et = self.elem_type_of(I, args[0], f)
        mk = (lambda: I.default_value(et)) if I.T(et)['k'] == 'rec' else (lambda: UNINIT)
        return self.guarded(I, I.argval(args[0]), lambda o: self.fill_range(I, o, self.count_end(I, o, I.argval(args[1])), mk, True))

    def f_construct_at(self, I, f, args, n):
        l = I.deref(args[0])
        et = I.unref(f['params'][0]['t'])[1]['to']
        t = I.T(et)
        vals = args[1:]
        if not vals:
            I.put(l, I.default_value(et))
        elif t['k'] == 'rec' and I.is_opaque_rec(I.p.r[t['rec']]):
            old = I.get(l)
            if old not in (RAW, UNINIT):
                I.fail('lifetime', 'constructs an element over one that is still alive')
            I.may_throw('copy', 'construction of an element')
            v = I.argval(vals[0])
            src = I.unref(f['params'][1]['t'])[1]
            if src['k'] == 'rec' and src['rec'] == t['rec'] and len(vals) == 1:
                I.put(l, v)
            else:
                I.put(l, term('make', I.p.r[t['rec']]['qn'], *[I.argval(x) for x in vals]))
        elif t['k'] != 'rec':
            I.put(l, I.argval(vals[0]))
        else:
            I.unknown('construct_at')
        return args[0]

    def f_destroy_at(self, I, f, args, n):
        if len(args) == 2 and f['n'] == 'destroy':
            args, f = args[1:], dict(f, params=f['params'][1:])
        l = I.deref(args[0])
        et = I.unref(f['params'][0]['t'])[1]['to']
        I.destroy(l, et)
        return VOID

    def f_destroy(self, I, f, args, n):
        if isinstance(I.argval(args[0]), V) and I.argval(args[0]).tag == 'Tag':
            return self.f_destroy_at(I, f, args, n)
        et = self.elem_type_of(I, args[0], f)
        self.destroy_loop(I, I.argval(args[0]), I.argval(args[1]), et)
        return VOID

    def f_destroy_n(self, I, f, args, n):
        et = self.elem_type_of(I, args[0], f)
        a = I.argval(args[0])
        e = self.count_end(I, a, I.argval(args[1]))
        self.destroy_loop(I, a, e, et)
        return e

    def destroy_loop(self, I, first, last, et):
        self.each(I, first, last, lambda l: I.destroy(l, et))

    def f_equal(self, I, f, args, n):
        a = [I.argval(x) for x in args[:4]]
        preds = [x for x in args if not self.is_it(I.argval(x))]
        its = [I.argval(x) for x in args if self.is_it(I.argval(x))]
        p = self.fobj(I, preds[0]) if preds else None
        if len(its) == 4:
            d1, d2 = self.it_diff(I, its[1], its[0]), self.it_diff(I, its[3], its[2])
            if not I.eq(d1 - d2):
                return ZERO
        res = I.newroot(ONE, 'result')

        def step(x, y):
            x, y = self.it_loc(I, x), self.it_loc(I, y)
            if not (self.pred(I, p, x, y) if p else I.teq(I.read(x), I.read(y))):
                I.store[res.a[0]] = ZERO
                raise Break()
        self.loop2(I, its[0], its[1], its[2], step)
        return I.store.pop(res.a[0])

    def of_bits(self, I, f):
        """Whether the function's first argument ranges over bool values."""
        if not f or not f.get('params'):
            return False
        t = I.unref(f['params'][0]['t'])[1]
        if t['k'] == 'ptr':
            return I.T(t['to']).get('k') == 'bool'
        if t['k'] != 'rec':
            return False
        q = I.p.r[t['rec']]
        return re.search(r'_Bit_(const_)?(iterator|reference)|\bvector<bool\b|__normal_iterator<(const )?bool \*', q.get('full') or q['qn']) is not None

    def f_lexicographical_compare(self, I, f, args, n):
        its = [I.argval(x) for x in args[:4]]
        if len(args) > 4:
            I.unknown('lexicographical_compare with a comparison')
        bits = self.of_bits(I, f)
        roots = [I.newroot(x, 'iterator') for x in its]
        res = I.newroot(V('None_'), 'result')
        g = lambda i: I.store[roots[i].a[0]]

        def cond():
            return not self.it_eq(I, g(0), g(1)) and not self.it_eq(I, g(2), g(3))

        def body():
            x, y = I.read(self.it_loc(I, g(0))), I.read(self.it_loc(I, g(2)))
            if I.truth(self.lt(I, x, y, bits)):
                I.store[res.a[0]] = ONE
                raise Break()
            if I.truth(self.lt(I, y, x, bits)):
                I.store[res.a[0]] = ZERO
                raise Break()

        def inc():
            I.store[roots[0].a[0]] = self.it_add(I, g(0), ONE)
            I.store[roots[2].a[0]] = self.it_add(I, g(2), ONE)
        I.run_loop(cond, body, inc)
        r = I.store[res.a[0]]
        if isinstance(r, Lin):
            out = r
        else:
            out = L(int(self.it_eq(I, g(0), g(1)) and not self.it_eq(I, g(2), g(3))))
        self._drop(I, res, *roots)
        return out

    def lt(self, I, x, y, bits=False):
        if bits and not (isinstance(x, Lin) and isinstance(y, Lin)):
            return L(int(not I.teq(x, y) and I.bit(x) < I.bit(y)))
        return I.compare('<', x, y)

    def find_loop(self, I, first, last, test):
        fr, lr = I.newroot(first, 'iterator'), I.newroot(last, 'iterator')

        def body():
            if test(self.it_loc(I, I.store[fr.a[0]])):
                raise Break()

        def inc():
            self.stepped(I, fr, I.store[fr.a[0]])
            I.store[fr.a[0]] = self.it_add(I, I.store[fr.a[0]], ONE)
        I.run_loop(lambda: not self.it_eq(I, I.store[fr.a[0]], I.store[lr.a[0]]), body, inc)
        r = I.store[fr.a[0]]
        self._drop(I, fr, lr)
        return r

    def pred(self, I, p, *ls):
        fobj = p
        r = I.full(lambda: I.call_object(fobj, list(ls), None))
        if is_term(r):
            return I.atom(*r.a)
        return I.truth(r)

    def f_find(self, I, f, args, n):
        a = [I.argval(x) for x in args]
        return self.find_loop(I, a[0], a[1], lambda l: I.teq(I.read(l), I.argval(args[2])))

    def fobj(self, I, a):
        """A location for a function-object argument, so it survives loop generalisation."""
        if isinstance(a, V) and a.tag == 'Loc':
            return a
        return I.newroot(a, 'function object')

    def f_find_if(self, I, f, args, n):
        a = [I.argval(x) for x in args[:2]]
        p = self.fobj(I, args[2])
        return self.find_loop(I, a[0], a[1], lambda l: self.pred(I, p, l))

    def f_find_if_not(self, I, f, args, n):
        a = [I.argval(x) for x in args[:2]]
        p = self.fobj(I, args[2])
        return self.find_loop(I, a[0], a[1], lambda l: not self.pred(I, p, l))

    def f_any_of(self, I, f, args, n):
        e = I.argval(args[1])
        return L(int(not self.it_eq(I, self.f_find_if(I, f, args, n), e)))

    def f_none_of(self, I, f, args, n):
        e = I.argval(args[1])
        return L(int(self.it_eq(I, self.f_find_if(I, f, args, n), e)))

    def f_all_of(self, I, f, args, n):
        e = I.argval(args[1])
        return L(int(self.it_eq(I, self.f_find_if_not(I, f, args, n), e)))

    def f_for_each(self, I, f, args, n):
        p = self.fobj(I, args[2])
        self.each(I, I.argval(args[0]), I.argval(args[1]), lambda l: I.full(lambda: I.call_object(p, [l])))
        return I.argval(args[2])

    def f_transform(self, I, f, args, n):
        if len(args) == 4:
            p = self.fobj(I, args[3])

            def step(a, b):
                v = I.full(lambda: I.argval(I.call_object(p, [self.it_loc(I, a)])))
                self.out_write(I, b, v)
            return self.loop2(I, I.argval(args[0]), I.argval(args[1]), I.argval(args[2]), step)
        if len(args) == 5:
            p = self.fobj(I, args[4])
            second = I.newroot(I.argval(args[2]), 'iterator')

            def step(a, b):
                v = I.full(lambda: I.argval(I.call_object(p, [self.it_loc(I, a), self.it_loc(I, I.store[second.a[0]])])))
                self.out_write(I, b, v)
                I.store[second.a[0]] = self.it_add(I, I.store[second.a[0]], ONE)
            r = self.loop2(I, I.argval(args[0]), I.argval(args[1]), I.argval(args[3]), step)
            self._drop(I, second)
            return r
        I.unknown('transform')

    def f_generate(self, I, f, args, n):
        p = self.fobj(I, args[2])
        self.fill_range(I, I.argval(args[0]), I.argval(args[1]), lambda: I.full(lambda: I.argval(I.call_object(p, []))))
        return VOID

    def f_copy_if(self, I, f, args, n):
        p = self.fobj(I, args[3])
        out = I.newroot(I.argval(args[2]), 'iterator')

        def go(l):
            if self.pred(I, p, l):
                self.out_write(I, I.store[out.a[0]], I.read(l))
                I.store[out.a[0]] = self.it_add(I, I.store[out.a[0]], ONE)
        self.each(I, I.argval(args[0]), I.argval(args[1]), go)
        return I.store.pop(out.a[0])

    def f_count(self, I, f, args, n):
        c = I.newroot(ZERO, 'count')

        def go(l):
            if I.teq(I.read(l), I.argval(args[2])):
                I.store[c.a[0]] = I.store[c.a[0]] + 1
        self.each(I, I.argval(args[0]), I.argval(args[1]), go)
        return I.store.pop(c.a[0])

    def f_count_if(self, I, f, args, n):
        c = I.newroot(ZERO, 'count')
        p = self.fobj(I, args[2])

        def go(l):
            if self.pred(I, p, l):
                I.store[c.a[0]] = I.store[c.a[0]] + 1
        self.each(I, I.argval(args[0]), I.argval(args[1]), go)
        return I.store.pop(c.a[0])

    def f_includes(self, I, f, args, n):
        a = [I.argval(x) for x in args[:4]]
        if a[0].tag != 'AIt' or a[2].tag != 'AIt':
            I.unknown('includes')
        res = I.newroot(ONE, 'result')

        def test(l):
            if self.assoc_find(I, a[0].a[0], I.read(l)).a[1] is None:
                I.store[res.a[0]] = ZERO
                return True
            return False
        self.find_loop(I, a[2], a[3], test)
        return I.store.pop(res.a[0])

    def set_alg(self, I, args, keep):
        a = [I.argval(x) for x in args[:4]]
        if a[0].tag != 'AIt' or a[2].tag != 'AIt':
            I.unknown('set algorithm on sequences')
        out = I.newroot(I.argval(args[4]), 'iterator')

        def put(l):
            self.out_write(I, I.store[out.a[0]], I.read(l))

        def first(l):
            inb = self.assoc_find(I, a[2].a[0], I.read(l)).a[1] is not None
            if keep(True, inb):
                put(l)
        self.each(I, a[0], a[1], first)
        if keep(False, True):
            def second(l):
                if self.assoc_find(I, a[0].a[0], I.read(l)).a[1] is None:
                    put(l)
            self.each(I, a[2], a[3], second)
        return I.store.pop(out.a[0])

    def f_set_union(self, I, f, args, n):
        return self.set_alg(I, args, lambda a, b: a or b)

    def f_set_intersection(self, I, f, args, n):
        return self.set_alg(I, args, lambda a, b: a and b)

    def f_set_difference(self, I, f, args, n):
        return self.set_alg(I, args, lambda a, b: a and not b)

    def f_set_symmetric_difference(self, I, f, args, n):
        return self.set_alg(I, args, lambda a, b: a != b)

    def f_erase_if(self, I, f, args, n):
        l = self.std_base(I, args[0])
        v = I.get(l)
        p = self.fobj(I, args[1])
        if v.tag != 'Assoc':
            I.unknown('erase_if')
        cnt = I.newroot(ZERO, 'count')
        it = I.newroot(self.ait_first(I, l), 'iterator')

        def body():
            cur = I.store[it.a[0]]
            el = self.it_loc(I, cur)
            dead = self.pred(I, p, el)
            self.stepped(I, it, cur)
            I.store[it.a[0]] = self.ait_next(I, cur)
            if dead:
                self.assoc_erase_it(I, cur)
                I.store[cnt.a[0]] = I.store[cnt.a[0]] + 1
        I.run_loop(lambda: I.store[it.a[0]].a[1] is not None, body, lambda: None)
        self._drop(I, it)
        return I.store.pop(cnt.a[0])

    def f_search(self, I, f, args, n):
        a = [I.argval(x) for x in args[:4]]
        n1, n2 = self.it_diff(I, a[1], a[0]), self.it_diff(I, a[3], a[2])
        pos = I.newroot(a[0], 'iterator')

        def cond():
            left = self.it_diff(I, a[1], I.store[pos.a[0]])
            return I.ge(left - n2)

        def body():
            ok = I.newroot(ONE, 'match')

            def step(x, y):
                if not I.teq(I.read(self.it_loc(I, x)), I.read(self.it_loc(I, y))):
                    I.store[ok.a[0]] = ZERO
                    raise Break()
            self.loop2(I, a[2], a[3], I.store[pos.a[0]], step)
            if I.truth(I.store.pop(ok.a[0])):
                raise Break()

        def inc():
            I.store[pos.a[0]] = self.it_add(I, I.store[pos.a[0]], ONE)
        found = I.newroot(ZERO, 'found')
        base_body = body

        def body2():
            try:
                base_body()
            except Break:
                I.store[found.a[0]] = ONE
                raise
        I.run_loop(cond, body2, inc)
        r = I.store[pos.a[0]] if I.truth(I.store[found.a[0]]) else a[1]
        self._drop(I, pos, found)
        return r

    def f_mismatch(self, I, f, args, n):
        its = [I.argval(x) for x in args]
        roots = [I.newroot(x, 'iterator') for x in its]
        g = lambda i: I.store[roots[i].a[0]]

        def cond():
            if self.it_eq(I, g(0), g(1)):
                return False
            return not (len(its) == 4 and self.it_eq(I, g(2), g(3)))

        def body():
            if not I.teq(I.read(self.it_loc(I, g(0))), I.read(self.it_loc(I, g(2)))):
                raise Break()

        def inc():
            I.store[roots[0].a[0]] = self.it_add(I, g(0), ONE)
            I.store[roots[2].a[0]] = self.it_add(I, g(2), ONE)
        I.run_loop(cond, body, inc)
        rid = I.T(f['ret'])['rec']
        r = self.mkpair(I, rid, g(0), g(2))
        self._drop(I, *roots)
        return r

    def f_accumulate(self, I, f, args, n):
        p = self.fobj(I, args[3]) if len(args) > 3 else None
        acc = I.newroot(I.argval(args[2]), 'sum')
        tt = I.unref(f['ret'])[0]

        def go(l):
            v = I.store[acc.a[0]]
            if p:
                r = I.full(lambda: I.argval(I.call_object(p, [v, l])))
            else:
                x = I.read(l)
                if not (isinstance(v, Lin) and isinstance(x, Lin)):
                    I.unknown('sum of opaque values')
                r = v + x
            I.store[acc.a[0]] = r
        self.each(I, I.argval(args[0]), I.argval(args[1]), go)
        return I.store.pop(acc.a[0])

    def f_iota(self, I, f, args, n):
        c = I.newroot(I.argval(args[2]), 'value')
        if not isinstance(I.store[c.a[0]], Lin):
            I.unknown('iota of objects')

        def mk():
            v = I.store[c.a[0]]
            I.store[c.a[0]] = v + 1
            return v
        self.fill_range(I, I.argval(args[0]), I.argval(args[1]), mk)
        self._drop(I, c)
        return VOID

    def f_generate_n(self, I, f, args, n):
        p = self.fobj(I, args[2])
        b = I.argval(args[0])
        if b.tag not in ('It', 'Ptr'):
            I.unknown('generate_n')
        return self.fill_range(I, b, self.it_add(I, b, I.argval(args[1])), lambda: I.full(lambda: I.argval(I.call_object(p, []))))

    def f_for_each_n(self, I, f, args, n):
        p = self.fobj(I, args[2])
        b = I.argval(args[0])
        if b.tag not in ('It', 'Ptr'):
            I.unknown('for_each_n')
        e = self.it_add(I, b, I.argval(args[1]))
        self.each(I, b, e, lambda l: I.full(lambda: I.call_object(p, [l])))
        return e

    def f_adjacent_find(self, I, f, args, n):
        a, e = I.argval(args[0]), I.argval(args[1])
        p = self.fobj(I, args[2]) if len(args) > 2 else None
        if self.it_eq(I, a, e):
            return e
        if a.tag not in ('It', 'Ptr'):
            I.unknown('adjacent_find')

        def match(l, i):
            m = self.it_loc(I, self.it_add(I, i, ONE))
            return self.pred(I, p, l, m) if p else I.teq(I.read(l), I.read(m))
        at = I.newroot(a, 'iterator')
        last = I.newroot(self.it_add(I, e, L(-1)), 'iterator')
        hit = I.newroot(ZERO, 'found')

        def body():
            i = I.store[at.a[0]]
            if match(self.it_loc(I, i), i):
                I.store[hit.a[0]] = ONE
                raise Break()

        def inc():
            I.store[at.a[0]] = self.it_add(I, I.store[at.a[0]], ONE)
        try:
            I.run_loop(lambda: not self.it_eq(I, I.store[at.a[0]], I.store[last.a[0]]), body, inc)
            return I.store[at.a[0]] if I.store[hit.a[0]] == ONE else e
        finally:
            self._drop(I, at, last, hit)

    def few(self, I, a, e, what, cap=12):
        """The number of elements, where the state determines it."""
        if not (isinstance(a, V) and a.tag in ('It', 'Ptr')):
            I.unknown(what)
        d = self.it_diff(I, e, a)
        if not d.is_const() or d.k > cap:
            if not d.is_const() and I.cfg.mode == 'exact':
                for k in range(cap + 1):
                    if I.eq(d - k):
                        return k
                raise Cut()
            I.unknown('%s over an undetermined number of elements' % what)
        return d.k

    def before(self, I, p, a, b):
        """Is a before b in the order of an algorithm; a and b are locations."""
        if p:
            return self.pred(I, p, a, b)
        x, y = I.read(a), I.read(b)
        if not isinstance(x, Lin) and x.tag not in ('Seq', 'Tup', 'Rec'):
            return self.key_less(I, x, y)       # as for ordered collections, the order has to be strict and total
        return I.truth(self.lt(I, x, y))

    def bisect(self, I, args, upper, what):
        """As the library does it, by halving: right also for ranges that are not ordered."""
        a, e = I.argval(args[0]), I.argval(args[1])
        x = args[2] if isinstance(args[2], V) and args[2].tag == 'Loc' else I.newroot(args[2], 'value')
        p = self.fobj(I, args[3]) if len(args) > 3 else None
        k = self.few(I, a, e, what)
        lo = 0
        while k > 0:
            h = k // 2
            l = self.it_loc(I, self.it_add(I, a, L(lo + h)))
            go = not self.before(I, p, x, l) if upper else self.before(I, p, l, x)
            if go:
                lo, k = lo + h + 1, k - h - 1
            else:
                k = h
        return self.it_add(I, a, L(lo)), x, p

    def f_lower_bound(self, I, f, args, n):
        return self.bisect(I, args, False, 'lower_bound')[0]

    def f_upper_bound(self, I, f, args, n):
        return self.bisect(I, args, True, 'upper_bound')[0]

    def f_binary_search(self, I, f, args, n):
        i, x, p = self.bisect(I, args, False, 'binary_search')
        if self.it_eq(I, i, I.argval(args[1])):
            return ZERO
        return L(int(not self.before(I, p, x, self.it_loc(I, i))))

    def f_sort(self, I, f, args, n):
        """Insertion; elements that compare equal are interchangeable or kept in order."""
        a, e = I.argval(args[0]), I.argval(args[1])
        p = self.fobj(I, args[2]) if len(args) > 2 else None
        k = self.few(I, a, e, 'sort', 6)
        at = lambda i: self.it_loc(I, self.it_add(I, a, L(i)))
        for i in range(1, k):
            j = i
            while j > 0 and self.before(I, p, at(j), at(j - 1)):
                self.f_swap_locs(I, at(j), at(j - 1))
                j -= 1
        return VOID

    f_stable_sort = f_sort

    def f_reverse(self, I, f, args, n):
        a, e = I.argval(args[0]), I.argval(args[1])
        k = self.few(I, a, e, 'reverse')
        at = lambda i: self.it_loc(I, self.it_add(I, a, L(i)))
        for i in range(k // 2):
            self.f_swap_locs(I, at(i), at(k - 1 - i))
        return VOID

    def f_is_sorted(self, I, f, args, n):
        a, e = I.argval(args[0]), I.argval(args[1])
        p = self.fobj(I, args[2]) if len(args) > 2 else None
        k = self.few(I, a, e, 'is_sorted')
        at = lambda i: self.it_loc(I, self.it_add(I, a, L(i)))
        return L(int(not any(self.before(I, p, at(i), at(i - 1)) for i in range(1, k))))

    def f_unique(self, I, f, args, n):
        a, e = I.argval(args[0]), I.argval(args[1])
        p = self.fobj(I, args[2]) if len(args) > 2 else None
        k = self.few(I, a, e, 'unique')
        at = lambda i: self.it_loc(I, self.it_add(I, a, L(i)))
        if k == 0:
            return a
        w = 0
        for i in range(1, k):
            same = self.pred(I, p, at(w), at(i)) if p else I.teq(I.read(at(w)), I.read(at(i)))
            if not same:
                w += 1
                if w != i:
                    I.put(at(w), I.read(at(i)))
        return self.it_add(I, a, L(w + 1))

    def extremum(self, I, args, largest):
        a, e = I.argval(args[0]), I.argval(args[1])
        p = self.fobj(I, args[2]) if len(args) > 2 else None
        k = self.few(I, a, e, 'extreme element')
        at = lambda i: self.it_loc(I, self.it_add(I, a, L(i)))
        b = 0
        for i in range(1, k):
            if self.before(I, p, at(b), at(i)) if largest else self.before(I, p, at(i), at(b)):
                b = i
        return self.it_add(I, a, L(b))

    def f_max_element(self, I, f, args, n):
        return self.extremum(I, args, True)

    def f_min_element(self, I, f, args, n):
        return self.extremum(I, args, False)

    # --- pairs and tuples ---------------------------------------------------------------------------------------
    def f_apply(self, I, f, args, n):
        t = args[1]
        v = I.argval(t)
        if not (isinstance(v, V) and v.tag == 'Tup') or not (isinstance(t, V) and t.tag == 'Loc'):
            I.unknown('apply')
        els = [x if isinstance(x, V) and x.tag == 'Loc' else sub(t, ('t', i)) for i, x in enumerate(v.a[0])]
        return I.call_object(args[0], els, I.unref(f['ret'])[0])

    def f_make_pair(self, I, f, args, n):
        return self.mkpair(I, I.T(f['ret'])['rec'], self.decay(I, args[0]), self.decay(I, args[1]))

    def decay(self, I, a):
        v = I.argval(a)
        if isinstance(a, V) and a.tag == 'Loc':
            return self.copy_value(I, v)
        return v

    def ctor_pair(self, I, f, r, args, n, l):
        fs = self.pair_fields(I, r['id'])
        if len(args) == 1:
            v = I.argval(args[0])
            if isinstance(v, V) and v.tag == 'Rec':
                k, w = self.split_pair(I, v)
                srcf = self.pair_fields(I, v.a[0])
                out = []
                for i, (x, fd, sf) in enumerate(zip((k, w), fs, srcf)):
                    out.append(self.ref_or_val(I, fd['t'], sub(args[0], ('f', sf['id'])) if args[0].tag == 'Loc' else x, sf['t']))
                return self.mkpair(I, r['id'], *out)
            I.unknown('pair conversion')
        if len(args) == 2:
            srct = [p['t'] for p in f['params']]
            return self.mkpair(I, r['id'], *[self.ref_or_val(I, fd['t'], a, st) for fd, a, st in zip(fs, args, srct)])
        if not args:
            return self.default_object(I, r)
        I.unknown('pair constructor')

    def ref_or_val(self, I, ti, a, src_t=None):
        if I.T(ti)['k'] in ('lref', 'rref'):
            if isinstance(a, V) and a.tag == 'Loc':
                v = I.get(a)
                if isinstance(v, V) and v.tag == 'Loc':
                    return v
                return a
            return I.newroot(a, 'dangling temporary')
        v = I.argval(a)
        if isinstance(v, V) and v.tag == 'Loc':
            v = I.read(v)
        st = I.unref(src_t)[0] if src_t is not None and src_t >= 0 else None
        if isinstance(a, V) and a.tag == 'Loc':
            v = self.copy_value(I, v)
        return self.conv(I, v, st, ti)

    def ctor_tuple(self, I, f, r, args, n, l):
        ts = self.tuple_types(r)
        if len(args) == 1 and len(ts) != 1 or (len(args) == 1 and isinstance(args[0], V) and args[0].tag == 'Loc' and isinstance(I.get(args[0]), V) and I.get(args[0]).tag == 'Tup'):
            v = I.argval(args[0])
            if isinstance(v, V) and v.tag == 'Tup':
                out = []
                for i, t in enumerate(ts):
                    x = v.a[0][i]
                    if I.T(t)['k'] in ('lref', 'rref'):
                        out.append(x if isinstance(x, V) and x.tag == 'Loc' else sub(args[0], ('t', i)))
                    else:
                        out.append(I.read(x) if isinstance(x, V) and x.tag == 'Loc' else x)
                return V('Tup', tuple(out))
            if isinstance(v, V) and v.tag == 'Rec':
                return V('Tup', tuple(self.split_pair(I, v)))
            I.unknown('tuple conversion')
        return V('Tup', tuple(self.ref_or_val(I, t, a, p['t']) for t, a, p in zip(ts, args, f['params'])))

    def f_make_tuple(self, I, f, args, n):
        return V('Tup', tuple(self.decay(I, a) for a in args))

    def f_tie(self, I, f, args, n):
        return V('Tup', tuple(args))

    def f_forward_as_tuple(self, I, f, args, n):
        return V('Tup', tuple(args))

    def f_get(self, I, f, args, n):
        ta = f.get('targs') or []
        idx = ta[0].get('i') if ta and ta[0] else None
        l = args[0]
        v = I.get(l) if l.tag == 'Loc' else l
        if idx is None:
            I.unknown('std::get by type')
        if v.tag == 'Tup':
            x = v.a[0][idx]
            if isinstance(x, V) and x.tag == 'Loc':
                return x
            return sub(l, ('t', idx))
        if v.tag == 'Rec':
            fs = self.pair_fields(I, v.a[0])
            x = rget(v, ('f', fs[idx]['id']))
            if isinstance(x, V) and x.tag == 'Loc':
                return x
            return sub(l, ('f', fs[idx]['id']))
        if v.tag == 'Seq':
            return sub(l, ('i', L(idx)))
        I.unknown('std::get of %s' % show(v))

    # --- strings --------------------------------------------------------------------------------------------------
    def str_of(self, I, v):
        """Atoms of anything string-like."""
        if isinstance(v, V):
            if v.tag == 'Str':
                return v.a[0]
            if v.tag == 'CStr':
                return tuple(L(ord(ch)) for ch in v.a[0])
            if v.tag == 'CStrOf':
                if I.mon.get('nuls') and not all(isinstance(x, Lin) and x.is_const() or self.whole(x, 0) for x in v.a[0]):
                    return (term('up to the first null character', V('Str', v.a[0])),)
                return v.a[0]
            if v.tag == 'Rec':
                for k, x in v.a[1]:
                    if k[0] == 'b':
                        return self.str_of(I, x)
            if v.tag == 'Loc':
                return self.str_of(I, I.get(v))
            if is_null(v):
                I.fail('null string', 'a null pointer is used as a string')
            if is_term(v):
                return (v,)
            if v.tag == 'Ptr' and not v.a[0].a[1] and isinstance(I.store.get(v.a[0].a[0]), V) and I.store[v.a[0].a[0]].tag == 'CStrOf':
                return I.store[v.a[0].a[0]].a[0]
            if v.tag == 'Ptr':
                I.read(v.a[0])
                h = I.cfg.hooks.get('cstring')
                if h:
                    r = h(I, v)
                    if r is not None:
                        return r
        if isinstance(v, Lin):
            return (v,)
        I.unknown('string %s' % show(v))

    def ctor_basic_string(self, I, f, r, a, n, l):
        if not a:
            return V('Str', ())
        vals = [x for x in a if not (isinstance(x, V) and x.tag == 'Tag')]
        v = vals[0]
        if isinstance(v, V) and v.tag == 'IL':
            arr = I.get(v.a[0])
            return V('Str', tuple(inst(arr.a[2][0][1], L(i)) if len(arr.a[2]) == 1 else I._get(arr, (('i', L(i)),)) for i in range(v.a[1].k)))
        if isinstance(v, Lin) and len(vals) == 2:
            if v.is_const():
                return V('Str', (vals[1],) * v.k)
            I.unknown('string fill')
        if len(vals) == 1:
            return V('Str', self.str_of(I, v))
        if len(vals) == 2 and isinstance(vals[1], Lin):
            s = self.str_of(I, v)
            if vals[1].is_const() and v.tag in ('CStr', 'CStrOf'):
                return V('Str', s[:vals[1].k])
            if vals[1].is_const():
                return V('Str', s[vals[1].k:])
        I.unknown('string constructor')

    ctor_basic_string_view = ctor_basic_string

    def m_Str_c_str(self, I, f, this, v, args, n):
        return V('CStrOf', v.a[0])
    m_Str_data = m_Str_c_str

    def m_Str_size(self, I, f, this, v, args, n):
        return L(len(v.a[0])) if all(isinstance(x, Lin) for x in v.a[0]) else I.opaque_result(f['ret'], term('strlen', v))
    m_Str_length = m_Str_size

    def m_Str_empty(self, I, f, this, v, args, n):
        if any(isinstance(x, Lin) for x in v.a[0]):
            return ZERO
        if not v.a[0]:
            return ONE
        return L(int(I.atom('emptystr', v)))

    def m_Str_append(self, I, f, this, v, args, n):
        I.put(this, V('Str', v.a[0] + self.str_of(I, I.argval(args[0]))))
        return this

    def m_Str_push_back(self, I, f, this, v, args, n):
        I.put(this, V('Str', v.a[0] + (I.argval(args[0]),)))
        return VOID

    def m_Str_clear(self, I, f, this, v, args, n):
        I.put(this, V('Str', ()))
        return VOID

    def f_to_string(self, I, f, args, n):
        return V('Str', (term('int', I.argval(args[0])),))

    def f_memcpy(self, I, f, args, n):
        """Whole elements keep their values; a part of an element leaves it indeterminate."""
        def pointee(e):
            while e.get('k') in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXReinterpretCastExpr', 'ParenExpr', 'CXXFunctionalCastExpr') and e.get('c'):
                t = I.T(e['t'])
                if t['k'] == 'ptr' and I.T(t['to'])['k'] != 'void':
                    break
                e = e['c'][0]
            t = I.T(e['t'])
            return I.T(t['to']) if t['k'] == 'ptr' else None
        cs = n.get('c') or []
        d, s = pointee(cs[1]), pointee(cs[2])
        dst, src, size = [I.argval(x) for x in args]
        if d is None or s is None or d.get('s', '').replace('const ', '') != s.get('s', '').replace('const ', '') or not d.get('sz') or d['k'] not in ('rec', 'int', 'bool', 'float', 'ptr', 'enum'):
            I.unknown('copying bytes')
        if d['k'] == 'rec' and not I.p.r[d['rec']].get('tdtor'):
            I.fail('lifetime', 'copies the bytes of %s, which cannot be copied so' % d['s'])
        sz = d['sz']
        if not isinstance(size, Lin):
            I.unknown('copying bytes')
        if all(k % sz == 0 for _, k in size.c) and size.k % sz == 0:
            count, rest = Lin(tuple((x, k // sz) for x, k in size.c), size.k // sz), ZERO
        else:
            count = I.divmod_('/', size, L(sz), None)
            rest = size - count.scale(sz)
        if is_null(dst) or is_null(src):
            if not I.eq(size):
                I.fail('null dereference', 'copies bytes through a null pointer')
            return dst

        def step(a, b):
            v = I.get(self.it_loc(I, a))
            if v == RAW:
                I.fail('lifetime', 'copies an element that is not alive')
            I.get(self.it_loc(I, b))
            I.put(self.it_loc(I, b), v)
        back = f['n'] == 'memmove' and dst.a[0].a[0] == src.a[0].a[0] and not I.ge(self.it_diff(I, src, dst))
        if back:
            I.unknown('moving bytes up within one array')
        e = self.loop2(I, src, self.it_add(I, src, count), dst, step)
        if I.ge(rest - 1):
            l = self.it_loc(I, e)
            I.get(l)
            I.put(l, UNINIT)
        return dst
    f_memmove = f_memcpy

    def f_memcmp(self, I, f, args, n):
        """Comparing all the bytes of whole integers compares the integers; fewer bytes may agree where they do not."""
        def pointee(e):
            while e.get('k') in ('ImplicitCastExpr', 'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXReinterpretCastExpr', 'ParenExpr', 'CXXFunctionalCastExpr') and e.get('c'):
                t = I.T(e['t'])
                if t['k'] == 'ptr' and I.T(t['to'])['k'] != 'void':
                    break
                e = e['c'][0]
            t = I.T(e['t'])
            return I.T(t['to']) if t['k'] == 'ptr' else None
        cs = n.get('c') or []
        d, s = pointee(cs[1]), pointee(cs[2])
        a, b, size = [I.argval(x) for x in args]
        if d is None or s is None or d.get('s', '').replace('const ', '') != s.get('s', '').replace('const ', '') or not d.get('sz') or d['k'] not in ('int', 'bool', 'ptr', 'enum', 'float', 'rec') or not isinstance(size, Lin):
            I.unknown('comparing bytes')
        sz = d['sz']
        if all(k % sz == 0 for _, k in size.c) and size.k % sz == 0:
            count, rest = Lin(tuple((x, k // sz) for x, k in size.c), size.k // sz), ZERO
        else:
            count = I.divmod_('/', size, L(sz), None)
            rest = size - count.scale(sz)
        if is_null(a) or is_null(b):
            if not I.eq(size):
                I.fail('null dereference', 'compares bytes through a null pointer')
            return ZERO
        res = I.newroot(ZERO, 'result')

        def alike(x, y):
            """Values of other kinds may be equal though their bytes differ: zeros, paddings, what == ignores."""
            if d['k'] not in ('float', 'rec'):
                return I.teq(x, y)
            if x == y:
                return True
            if I.choose(2):
                return False
            if not I.teq(x, y):
                raise Infeasible()
            return True

        def step(x, y):
            if not alike(I.read(self.it_loc(I, x)), I.read(self.it_loc(I, y))):
                I.store[res.a[0]] = L(1)
                raise Break()
        self.loop2(I, a, self.it_add(I, a, count), b, step)
        r = I.store.pop(res.a[0])
        if r == ZERO and I.ge(rest - 1):
            x, y = self.it_loc(I, self.it_add(I, a, count)), self.it_loc(I, self.it_add(I, b, count))
            if not alike(I.read(x), I.read(y)) and I.choose(2):
                r = L(1)
        if r != ZERO and I.choose(2):
            r = L(-1)
        return r

    def f_strcmp(self, I, f, args, n):
        a, b = self.str_of(I, args[0]), self.str_of(I, args[1])
        if a == b:
            return ZERO
        if all(isinstance(x, Lin) and x.is_const() for x in a + b):
            return L(-1 if [x.k for x in a] < [x.k for x in b] else 1)
        I.unknown('comparison of texts that are not known')

    def f_strlen(self, I, f, args, n):
        a = self.str_of(I, args[0])
        if all(isinstance(x, Lin) for x in a):
            return L(len(a))
        return I.opaque_result(f['ret'], term('strlen', V('Str', a)))

    # --- output streams ------------------------------------------------------------------------------------------
    def out(self, I, l, atoms):
        I.emit(l, atoms)
        return l

    def fmt_of(self, I, l):
        return I.get(l).a[1]

    def set_fmt(self, I, l, fmt):
        v = I.get(l)
        I.put(l, V('OStream', v.a[0], fmt, v.a[2]))

    def atoms_for(self, I, l, v, ti):
        _, t = I.unref(ti)
        k = t['k']
        if isinstance(v, V) and v.tag == 'BitRef':
            v = self.bit_read(I, v)
            k, t = 'bool', {'k': 'bool'}
        if k == 'int' and (t.get('ch') or t.get('w') == 8):
            return (v,)
        if k == 'int':
            return (term('int', v),)
        if k == 'bool':
            return (term('bool', v, self.boolalpha(I, l)),)
        if k == 'float':
            return (term('num', v),)
        if k == 'enum':
            return (term('int', v),)
        if k == 'ptr':
            to = I.T(t['to'])
            if to['k'] == 'int' and to.get('w') == 8:
                if is_null(v):
                    I.fail('null string', 'a null C string is inserted into a stream')
                return self.str_of(I, v)
            return (term('ptr', v),)
        if isinstance(v, V) and v.tag in ('Str', 'CStr', 'CStrOf'):
            return self.str_of(I, v)
        return (v,)

    def boolalpha(self, I, l):
        f = self.fmt_of(I, l)
        while is_term(f) and f.a[0] in ('set', 'manip'):
            if f.a[1] == 'boolalpha':
                return ONE
            if f.a[1] == 'noboolalpha':
                return ZERO
            f = f.a[2]
        return f

    def set_flag(self, I, l, name):
        f = self.fmt_of(I, l)
        if is_term(f) and f.a[0] == 'set' and f.a[1] == name:
            return
        self.set_fmt(I, l, term('set', name, f))

    def f_endl(self, I, f, args, n):
        return self.out(I, args[0], (L(10),))

    def f_flush(self, I, f, args, n):
        return args[0]

    def f_ends(self, I, f, args, n):
        return self.out(I, args[0], (L(0),))

    def f_boolalpha(self, I, f, args, n):
        self.set_flag(I, args[0], 'boolalpha')
        return args[0]

    def f_noboolalpha(self, I, f, args, n):
        self.set_flag(I, args[0], 'noboolalpha')
        return args[0]

    def _manip(name):
        def h(self, I, f, args, n):
            l = args[0]
            if I.get(l).tag == 'IStream':
                if name in ('skipws', 'noskipws'):
                    return self.is_manip(I, l, name)
                return l
            self.set_fmt(I, l, term('manip', name, self.fmt_of(I, l)))
            return l
        return h
    for _m in ('hex', 'dec', 'oct', 'fixed', 'scientific', 'defaultfloat', 'showpos', 'noshowpos', 'left', 'right', 'internal', 'skipws', 'noskipws',
               'uppercase', 'nouppercase', 'showbase', 'noshowbase', 'unitbuf', 'nounitbuf', 'hexfloat', 'showpoint', 'noshowpoint'):
        locals()['f_' + _m] = _manip(_m)
    del _manip, _m

    def m_OStream_flags(self, I, f, this, v, args, n):
        old = v.a[1]
        if args:
            a = I.argval(args[0])
            if is_term(a) and a.a[0] == 'flagsof':
                a = a.a[1]
            self.set_fmt(I, this, a)
        return term('flagsof', old)

    def m_OStream_setf(self, I, f, this, v, args, n):
        a = I.argval(args[0])
        self.set_fmt(I, this, self.fmt_name(a, True, v.a[1]))
        return term('flagsof', v.a[1])

    def m_OStream_unsetf(self, I, f, this, v, args, n):
        a = I.argval(args[0])
        self.set_fmt(I, this, self.fmt_name(a, False, v.a[1]))
        return VOID

    def fmt_name(self, a, on, old):
        if isinstance(a, Lin) and a.is_const() and a.k == 1:
            return term('set', 'boolalpha' if on else 'noboolalpha', old)
        return term('manip', ('setf', on, a), old)

    def m_OStream_precision(self, I, f, this, v, args, n):
        if args:
            self.set_fmt(I, this, term('manip', ('precision', I.argval(args[0])), v.a[1]))
        return I.opaque_result(f['ret'], term('precision', v.a[1]))

    def m_OStream_width(self, I, f, this, v, args, n):
        if args:
            self.set_fmt(I, this, term('manip', ('width', I.argval(args[0])), v.a[1]))
        return I.opaque_result(f['ret'], term('width', v.a[1]))

    def m_OStream_flush(self, I, f, this, v, args, n):
        return this

    def m_OStream_put(self, I, f, this, v, args, n):
        return self.out(I, this, (I.argval(args[0]),))

    def m_OStream_write(self, I, f, this, v, args, n):
        s = self.str_of(I, args[0])
        k = I.argval(args[1])
        if k.is_const() and len(s) >= k.k:
            return self.out(I, this, s[:k.k])
        I.unknown('ostream::write')

    def m_OStream_str(self, I, f, this, v, args, n):
        if args:
            I.put(this, V('OStream', v.a[0], v.a[1], self.str_of(I, I.argval(args[0]))))
            return VOID
        if v.a[2] is None:
            I.unknown('str() of a stream')
        if any(x == V('Many') for x in v.a[2]):
            I.unknown('collected output')
        return V('Str', v.a[2])

    def out_good(self, I, v):
        """A stream of the caller may be or become unusable; what it receives does not matter then."""
        if v.a[2] is not None or ('bad', v.a[0]) in I.mon:
            return ZERO if ('bad', v.a[0]) in I.mon else ONE
        if I.choose(2) == 0:
            return ONE
        I.note('the stream has failed')
        I.mon[('bad', v.a[0])] = ONE
        return ZERO

    def m_OStream_good(self, I, f, this, v, args, n):
        return self.out_good(I, v)

    def m_OStream_fail(self, I, f, this, v, args, n):
        return ONE - self.out_good(I, v)
    m_OStream_bad = m_OStream_fail

    def m_OStream_eof(self, I, f, this, v, args, n):
        return ZERO

    def ctor_basic_stringstream(self, I, f, r, a, n, l):
        vals = [x for x in a if isinstance(x, V)]
        if vals and vals[0].tag in ('Str', 'CStr', 'CStrOf') or vals and vals[0].tag == 'Rec':
            return self.make_istream(I, self.str_of(I, vals[0]))
        if vals:
            h = I.cfg.hooks.get('stringstream')
            if h:
                return h(I, vals[0])
        return V('OStream', 'ss', term('fmt', 'default'), ())
    ctor_basic_istringstream = ctor_basic_stringstream

    def ctor_basic_ostringstream(self, I, f, r, a, n, l):
        return V('OStream', 'oss', term('fmt', 'default'), ())

    def make_istream(self, I, atoms):
        h = I.cfg.hooks.get('spec::istream_of')
        if h:
            return h(I, atoms)
        I.unknown('string stream input')

    # --- input streams: delegated to the scenario's token source -----------------------------------------------------
    def ins(self, I):
        h = getattr(I.cfg, 'input', None)
        if h is None:
            I.unknown('input stream')
        return h

    def is_failed(self, I, l):
        return self.ins(I).failed(I, l)

    def is_manip(self, I, l, name):
        return self.ins(I).manip(I, l, name)

    def m_IStream_eof(self, I, f, this, v, args, n):
        return L(int(self.ins(I).eof(I, this)))

    def m_IStream_fail(self, I, f, this, v, args, n):
        return L(int(self.ins(I).failed(I, this)))

    def m_IStream_bad(self, I, f, this, v, args, n):
        return L(int(self.ins(I).bad(I, this)))

    def m_IStream_good(self, I, f, this, v, args, n):
        return L(int(not self.ins(I).failed(I, this) and not self.ins(I).eof(I, this)))

    def m_IStream_putback(self, I, f, this, v, args, n):
        return self.ins(I).putback(I, this, I.argval(args[0]))

    def m_IStream_unget(self, I, f, this, v, args, n):
        return self.ins(I).unget(I, this)

    def m_IStream_get(self, I, f, this, v, args, n):
        if args:
            return self.ins(I).get(I, this, args[0])
        tmp = I.newroot(L(-1), 'character')
        self.ins(I).get(I, this, tmp)
        return I.store.pop(tmp.a[0])

    def m_IStream_peek(self, I, f, this, v, args, n):
        return self.ins(I).peek(I, this)

    def m_IStream_ignore(self, I, f, this, v, args, n):
        tmp = I.newroot(ZERO, 'character')
        self.ins(I).get(I, this, tmp)
        I.store.pop(tmp.a[0])
        return this

    def m_IStream_clear(self, I, f, this, v, args, n):
        return self.ins(I).clear(I, this, I.argval(args[0]) if args else ZERO)

    def m_IStream_setstate(self, I, f, this, v, args, n):
        return self.ins(I).setstate(I, this, I.argval(args[0]))

    def m_IStream_rdstate(self, I, f, this, v, args, n):
        return self.ins(I).rdstate(I, this)

    # --- sequences ---------------------------------------------------------------------------------------------------
    def m_Seq_size(self, I, f, this, v, args, n):
        return seq_size(v)

    def m_Seq_max_size(self, I, f, this, v, args, n):
        return L((1 << 63) - 1)

    def m_Seq_empty(self, I, f, this, v, args, n):
        return L(int(I.eq(seq_size(v))))

    def m_Seq_begin(self, I, f, this, v, args, n):
        return V('It', this, ZERO, v.a[2])
    m_Seq_cbegin = m_Seq_begin

    def m_Seq_end(self, I, f, this, v, args, n):
        return V('It', this, seq_size(v), v.a[2])
    m_Seq_cend = m_Seq_end

    def m_Seq_rbegin(self, I, f, this, v, args, n):
        return V('RevIt', V('It', this, seq_size(v), v.a[2]))
    m_Seq_crbegin = m_Seq_rbegin

    def m_Seq_rend(self, I, f, this, v, args, n):
        return V('RevIt', V('It', this, ZERO, v.a[2]))
    m_Seq_crend = m_Seq_rend

    def m_Seq_data(self, I, f, this, v, args, n):
        return ptr(sub(this, ('i', ZERO)))

    def seq_at(self, I, f, this, e):
        if self.is_vbool(I, f):
            r = I.T(f['ret'])
            if r['k'] == 'rec':
                I.get(sub(this, ('i', e)))
                return V('BitRef', sub(this, ('i', e)))
            return I.read(sub(this, ('i', e)))
        v = I.get(this)
        # bounds are checked when the element is accessed; forming the reference needs the index in range
        I.seg_find(v, e)
        return sub(this, ('i', e))

    def is_vbool(self, I, f):
        r = I.p.r.get(f.get('rec'))
        if not r or rname(r) != 'std::vector':
            return False
        t = self.targ_type(r, 0)
        return t is not None and I.T(t)['k'] == 'bool'

    def bit_read(self, I, v):
        return I.read(v.a[0])

    def m_Seq_at(self, I, f, this, v, args, n):
        e = I.argval(args[0])
        if not (I.ge(e) and I.ge(seq_size(v) - 1 - e)):
            raise exc('std::out_of_range')
        return self.seq_at(I, f, this, e)

    def m_Seq_front(self, I, f, this, v, args, n):
        if not I.gt(seq_size(v)):
            I.fail('bounds', 'front() of an empty sequence')
        return self.seq_at(I, f, this, ZERO)

    def m_Seq_back(self, I, f, this, v, args, n):
        if not I.gt(seq_size(v)):
            I.fail('bounds', 'back() of an empty sequence')
        return self.seq_at(I, f, this, seq_size(v) - 1)

    def m_Seq_push_back(self, I, f, this, v, args, n):
        x = I.argval(args[0])
        I.may_throw('copy', 'copying an element into a sequence')
        self.seq_push(I, this, x)
        return VOID

    def m_Seq_emplace_back(self, I, f, this, v, args, n):
        if len(args) == 1:
            x = I.argval(args[0])
        else:
            I.unknown('emplace_back')
        I.may_throw('copy', 'copying an element into a sequence')
        self.seq_push(I, this, x)
        return sub(this, ('i', seq_size(I.get(this)) - 1))

    def m_Seq_pop_back(self, I, f, this, v, args, n):
        nn = seq_size(v)
        if not I.gt(nn):
            I.fail('bounds', 'pop_back on an empty sequence')
        I.put(this, V('Seq', v.a[0], I.seg_norm(self.slice(I, v, ZERO, nn - 1)), v.a[2], v.a[3]))
        return VOID

    def m_Seq_push_front(self, I, f, this, v, args, n):
        x = I.argval(args[0])
        I.put(this, V('Seq', v.a[0], self.seq_insert_segs(I, v, ZERO, ((ONE, x),), ONE), v.a[2] + 1, None))
        return VOID

    def m_Seq_clear(self, I, f, this, v, args, n):
        I.put(this, V('Seq', v.a[0], (), v.a[2] + 1, v.a[3]))
        return VOID

    def m_Seq_reserve(self, I, f, this, v, args, n):
        e = I.argval(args[0])
        if v.a[3] is not None and I.known_ge(v.a[3] - e):
            return VOID
        I.put(this, V('Seq', v.a[0], v.a[1], v.a[2] + 1, e))
        return VOID

    def m_Seq_shrink_to_fit(self, I, f, this, v, args, n):
        I.put(this, V('Seq', v.a[0], v.a[1], v.a[2] + 1, None))
        return VOID

    def m_Seq_capacity(self, I, f, this, v, args, n):
        return I.opaque_result(f['ret'], term('capacity', seq_size(v)))

    def m_Seq_resize(self, I, f, this, v, args, n):
        e = I.argval(args[0])
        nn = seq_size(v)
        r = I.p.r[f['rec']]
        if I.ge(nn - e):
            I.put(this, V('Seq', v.a[0], I.seg_norm(self.slice(I, v, ZERO, e)), v.a[2] + 1, v.a[3]))
        else:
            x = I.argval(args[1]) if len(args) > 1 else I.default_value(self.targ_type(r, 0))
            I.put(this, V('Seq', v.a[0], I.seg_norm(list(v.a[1]) + [(e, x)]), v.a[2] + 1, None))
        return VOID

    def m_Seq_assign(self, I, f, this, v, args, n):
        a = [I.argval(x) for x in args]
        r = I.p.r[f['rec']]
        if isinstance(a[0], V) and a[0].tag == 'IL':
            arr = I.get(a[0].a[0])
            I.put(this, V('Seq', v.a[0], arr.a[2], v.a[2] + 1, None))
        elif isinstance(a[0], Lin) and not self.is_it(a[1]) and I.unref(f['params'][0]['t'])[1]['k'] == 'int':
            I.put(this, V('Seq', v.a[0], ((a[0], a[1]),), v.a[2] + 1, None))
        else:
            s = self.from_range(I, v.a[0], a[0], a[1], self.targ_type(r, 0), self.iter_value_type(I, f['params'][0]['t']))
            I.put(this, V('Seq', v.a[0], s.a[1], v.a[2] + 1, None))
        return VOID

    def m_Seq_swap(self, I, f, this, v, args, n):
        o = I.get(args[0])
        I.put(this, o)
        I.put(args[0], v)
        return VOID

    def m_Seq_insert(self, I, f, this, v, args, n):
        it = I.argval(args[0])
        self.it_check(I, it)
        pos = it.a[1]
        a = [I.argval(x) for x in args[1:]]
        I.may_throw('copy', 'copying an element into a sequence')
        if len(a) == 1:
            if isinstance(a[0], V) and a[0].tag == 'IL':
                arr = I.get(a[0].a[0])
                segs2, n2 = arr.a[2], a[0].a[1]
            else:
                segs2, n2 = ((ONE, a[0]),), ONE
        elif isinstance(a[0], Lin):
            segs2, n2 = ((a[0], a[1]),), a[0]
        else:
            if v.a[0] in ('vector', 'deque') and isinstance(a[0], V) and a[0].tag == 'It' and a[0].a[0] == this:
                if not self.it_eq(I, a[0], a[1]):
                    I.fail('invalid iterator', 'inserts a range of a sequence into itself')
            s = self.from_range(I, 'vector', a[0], a[1], self.targ_type(I.p.r[f['rec']], 0), self.iter_value_type(I, f['params'][1]['t']))
            segs2, n2 = s.a[1], seq_size(s)
        v = I.get(this)
        I.put(this, V('Seq', v.a[0], self.seq_insert_segs(I, v, pos, segs2, n2), v.a[2] + 1, None))
        return V('It', this, pos, I.get(this).a[2])

    def m_Seq_erase(self, I, f, this, v, args, n):
        it = I.argval(args[0])
        self.it_check(I, it)
        pos = it.a[1]
        nn = seq_size(v)
        if len(args) > 1:
            it2 = I.argval(args[1])
            self.it_check(I, it2)
            end = it2.a[1]
            if not I.ge(end - pos):
                I.fail('bounds', 'erases a range whose end precedes its start')
        else:
            end = pos + 1
        if not (I.ge(pos) and I.ge(nn - end)):
            I.fail('bounds', 'erases an element past the end')
        out = list(self.slice(I, v, ZERO, pos))
        k = end - pos
        for hi, c in self.slice(I, v, end, nn - end):
            out.append((hi + pos, vmap(c, lambda x: x.subst({'#': HASH - pos}))))
        ver = v.a[2] + 1
        I.put(this, V('Seq', v.a[0], I.seg_norm(out), ver, v.a[3]))
        return V('It', this, pos, ver)

    def m_Seq_splice(self, I, f, this, v, args, n):
        it = I.argval(args[0])
        if len(args) != 2:
            I.unknown('splice of a range')
        o = args[1]
        if I.veq(o, this):
            I.fail('aliasing', 'a list is spliced into itself')
        ov = I.get(o)
        I.put(this, V('Seq', v.a[0], self.seq_insert_segs(I, v, it.a[1], ov.a[1], seq_size(ov)), v.a[2] + 1, None))
        I.put(o, V('Seq', ov.a[0], (), ov.a[2] + 1, None))
        return VOID

    def m_Seq_get_allocator(self, I, f, this, v, args, n):
        return V('Tag', 'std::allocator')

    def m_Seq_flip(self, I, f, this, v, args, n):
        I.unknown('flip')

    def m_BitRef_flip(self, I, f, this, v, args, n):
        x = I.read(v.a[0])
        I.put(v.a[0], term('notbit', x) if not isinstance(x, Lin) else ONE - x)
        return VOID

    def m_IL_begin(self, I, f, this, v, args, n):
        return ptr(sub(v.a[0], ('i', ZERO)))

    def m_IL_end(self, I, f, this, v, args, n):
        return ptr(sub(v.a[0], ('i', v.a[1])))

    def m_IL_size(self, I, f, this, v, args, n):
        return v.a[1]

    # --- sets and maps ------------------------------------------------------------------------------------------------
    def m_Assoc_find(self, I, f, this, v, args, n):
        return self.assoc_find(I, this, I.argval(args[0]))

    def m_Assoc_begin(self, I, f, this, v, args, n):
        return self.ait_first(I, this)
    m_Assoc_cbegin = m_Assoc_begin

    def m_Assoc_end(self, I, f, this, v, args, n):
        return ait(this, None)
    m_Assoc_cend = m_Assoc_end

    def m_Assoc_size(self, I, f, this, v, args, n):
        if v.a[2] is None:
            return L(len(v.a[1]))
        if v.a[3] is not None:
            return v.a[3]
        t = term('size', V('SizeOf', v.a[2], len(v.a[1])))
        return I.opaque_result(f['ret'], t)

    def m_Assoc_empty(self, I, f, this, v, args, n):
        if v.a[1]:
            return ZERO
        if v.a[2] is None or v.a[2].a[0] == 'none':
            return ONE
        return L(int(I.atom('emptyrest', v.a[2])))

    def m_Assoc_clear(self, I, f, this, v, args, n):
        I.put(this, V('Assoc', v.a[0], (), V('Rest', 'none') if v.a[2] is not None else None, ZERO, v.a[4]))
        return VOID

    def m_Assoc_count(self, I, f, this, v, args, n):
        return L(int(self.assoc_find(I, this, I.argval(args[0])).a[1] is not None))

    def m_Assoc_contains(self, I, f, this, v, args, n):
        return self.m_Assoc_count(I, f, this, v, args, n)

    def m_Assoc_insert(self, I, f, this, v, args, n):
        if len(args) == 2 and self.is_it(I.argval(args[0])):
            a, b = I.argval(args[0]), I.argval(args[1])
            if self.is_it(b):
                self.each(I, a, b, lambda x: self.assoc_insert(I, this, I.argval(x)))
                return VOID
            it, _ = self.assoc_insert(I, this, b)       # hinted
            return it
        a = I.argval(args[0])
        if isinstance(a, V) and a.tag == 'IL':
            first, last = ptr(sub(a.a[0], ('i', ZERO))), ptr(sub(a.a[0], ('i', a.a[1])))
            self.each(I, first, last, lambda x: self.assoc_insert(I, this, I.argval(x)))
            return VOID
        it, ok = self.assoc_insert(I, this, a)
        rt = I.T(f['ret'])
        if rt['k'] == 'rec' and rname(I.p.r[rt['rec']]) == 'std::pair':
            return self.mkpair(I, rt['rec'], it, L(int(ok)))
        return it

    def m_Assoc_emplace(self, I, f, this, v, args, n):
        if v.a[0] == 'map':
            if len(args) == 2:
                k, x = I.argval(args[0]), I.argval(args[1])
                vt = self.map_value_type(I, f)
                src = I.unref(f['params'][1]['t'])[0]
                x = self.emplace_conv(I, x, src, vt)
                it, ok = self.assoc_insert_kv(I, this, k, x)
            else:
                it, ok = self.assoc_insert(I, this, I.argval(args[0]))
        else:
            it, ok = self.assoc_insert(I, this, I.argval(args[0]))
        return self.mkpair(I, I.T(f['ret'])['rec'], it, L(int(ok)))

    def map_value_type(self, I, f):
        return self.targ_type(I.p.r[f['rec']], 1)

    def emplace_conv(self, I, x, src, dst):
        s, d = I.T(src), I.T(dst)
        if s['k'] == 'rec' and d['k'] == 'rec' and s['rec'] == d['rec']:
            return x
        if d['k'] == 'rec':
            I.unknown('in-place construction of a mapped value')
        return x

    def m_Assoc_try_emplace(self, I, f, this, v, args, n):
        k = I.argval(args[0])
        it = self.assoc_find(I, this, k)
        if it.a[1] is not None:
            return self.mkpair(I, I.T(f['ret'])['rec'], it, ZERO)
        vt = self.map_value_type(I, f)
        if len(args) == 1:
            x = I.default_value(vt)
        elif len(args) == 2:
            x = self.emplace_conv(I, I.argval(args[1]), I.unref(f['params'][1]['t'])[0], vt)
        else:
            x = self.construct_mapped(I, vt, args[1:], f)
        it, ok = self.assoc_insert_kv(I, this, k, x)
        return self.mkpair(I, I.T(f['ret'])['rec'], it, ONE)

    def construct_mapped(self, I, vt, args, f):
        I.unknown('in-place construction of a mapped value')

    def m_Assoc_insert_or_assign(self, I, f, this, v, args, n):
        k, x = I.argval(args[0]), I.argval(args[1])
        it, ok = self.assoc_insert_kv(I, this, k, x)
        if not ok:
            fs = self.pair_fields(I, v.a[4])
            I.put(sub(this, ('kk', it.a[1]), ('f', fs[1]['id'])), x)
        return self.mkpair(I, I.T(f['ret'])['rec'], it, L(int(ok)))

    def m_Assoc_erase(self, I, f, this, v, args, n):
        a = I.argval(args[0])
        if isinstance(a, V) and a.tag == 'AIt':
            if len(args) == 2:
                b = I.argval(args[1])
                if a.a[3:] and a.a[3] == 'begin' and b.a[1] is None:
                    self.m_Assoc_clear(I, f, this, v, (), n)
                    return b
                I.unknown('erase range')
            nxt = getattr(a, 'succ', None)
            if nxt is None or nxt.epoch != I.epoch.get(nxt.a[1]):
                nxt = self.ait_next(I, a)
            self.assoc_erase_it(I, a)
            return nxt
        return self.assoc_erase_key(I, this, a)

    def m_Assoc_swap(self, I, f, this, v, args, n):
        o = I.get(args[0])
        I.put(this, o)
        I.put(args[0], v)
        return VOID

    def m_Assoc_at(self, I, f, this, v, args, n):
        it = self.assoc_find(I, this, I.argval(args[0]))
        if it.a[1] is None:
            raise exc('std::out_of_range')
        fs = self.pair_fields(I, v.a[4])
        return sub(this, ('kk', it.a[1]), ('f', fs[1]['id']))

    def m_Assoc_lower_bound(self, I, f, this, v, args, n):
        key = I.argval(args[0])
        if v.a[2] is not None:
            it = self.assoc_find(I, this, key)
            if it.a[1] is not None:
                return it
            I.unknown('lower_bound')
        for k, _ in v.a[1]:
            if k == key or not self.key_less(I, k, key):
                return ait(this, k)
        return ait(this, None)

    def m_Assoc_key_comp(self, I, f, this, v, args, n):
        return V('Less')
    m_Assoc_value_comp = m_Assoc_key_comp

    def call_Less(self, I, f, this, v, args, n):
        return L(int(self.key_less(I, I.argval(args[0]), I.argval(args[1]))))

    def call_Tag(self, I, f, this, v, args, n):
        name = str(v.a[0]).split('::')[-1]
        if name == 'less' and len(args) == 2:
            return self.compare_vals(I, '<', I.argval(args[0]), I.argval(args[1]))
        if name == 'equal_to':
            return L(int(I.teq(I.argval(args[0]), I.argval(args[1]))))
        I.unknown('function object %s' % name)

    def compare_vals(self, I, op, a, b):
        return I.compare(op, a, b)

    # --- smart pointers ---------------------------------------------------------------------------------------------------
    def ctor_shared_ptr(self, I, f, r, a, n, l):
        if not a:
            return V('SP', NULL, None)
        v = a[0]
        if len(a) > 1 and not (isinstance(a[1], V) and a[1].tag == 'Tag'):
            I.unknown('shared_ptr with a deleter')
        if isinstance(v, V) and v.tag == 'SP':
            mv = I.T(f['params'][0]['t'])['k'] == 'rref'
            p = v.a[0]
            # converting constructors may need a derived-to-base adjustment
            p2 = self.adjust_ptr(I, p, self.targ_type(r, 0))
            if mv:
                return V('SP', p2, v.a[1])
            self.sp_share(I, v)
            return V('SP', p2, v.a[1])
        if isinstance(v, V) and v.tag == 'UP':
            return self.sp_new(I, v.a[0])
        if is_null(v):
            if I.T(f['params'][0]['t'])['k'] == 'nullptr':
                return V('SP', NULL, None)
            return V('SP', NULL, None)
        if isinstance(v, V) and v.tag == 'Ptr':
            pt = I.unref(f['params'][0]['t'])[1]
            return self.sp_new(I, self.adjust_ptr(I, v, self.targ_type(r, 0)), dt=pt.get('to'))
        I.unknown('shared_ptr from %s' % show(v))

    def adjust_ptr(self, I, p, et):
        if is_null(p) or et is None:
            return p
        t = I.T(et)
        if t['k'] != 'rec':
            return p
        cur = I.rec_at(p.a[0])
        if cur is not None and cur != t['rec']:
            path = I.p.derives(cur, t['rec'])
            if path:
                return ptr(I.up(p.a[0], path))
        return p

    def sp_construct(self, I, f, r, args):
        pass

    def m_SP_get(self, I, f, this, v, args, n):
        return v.a[0]
    m_UP_get = m_SP_get

    def m_SP_reset(self, I, f, this, v, args, n):
        if args:
            p = I.argval(args[0])
            pt = I.unref(f['params'][0]['t'])[1]
            new = self.sp_new(I, p, dt=pt.get('to')) if not is_null(p) else V('SP', NULL, None)
        else:
            new = V('SP', NULL, None)
        I.put(this, new)
        self.sp_release(I, v)
        return VOID

    def m_SP_swap(self, I, f, this, v, args, n):
        o = I.get(args[0])
        I.put(this, o)
        I.put(args[0], v)
        return VOID
    m_UP_swap = m_SP_swap

    def m_SP_use_count(self, I, f, this, v, args, n):
        if v.a[1] is None:
            return ZERO
        return I.store[v.a[1]].a[0]

    def m_SP_unique(self, I, f, this, v, args, n):
        return L(int(v.a[1] is not None and I.eq(I.store[v.a[1]].a[0] - 1)))

    def m_UP_reset(self, I, f, this, v, args, n):
        p = I.argval(args[0]) if args else NULL
        I.put(this, V('UP', p))
        self.up_release(I, v, I.p.r[f['rec']])
        return VOID

    def m_UP_release(self, I, f, this, v, args, n):
        I.put(this, V('UP', NULL))
        return v.a[0]

    def ctor_unique_ptr(self, I, f, r, a, n, l):
        if not a:
            return V('UP', NULL)
        v = a[0]
        if isinstance(v, V) and v.tag == 'UP':
            return V('UP', self.adjust_ptr(I, v.a[0], self.targ_type(r, 0)))
        return V('UP', self.adjust_ptr(I, v, self.targ_type(r, 0)))

    def make_obj(self, I, f, args, ti):
        l = I.heap_new(RAW, 'make_shared', 'object created at %s' % I.where(), ti)
        t = I.T(ti)
        try:
            self.construct_any(I, ti, l, args, f)
        except Throw:
            I.heap.pop(l.a[0], None)
            I.store.pop(l.a[0], None)
            raise
        return l

    def construct_any(self, I, ti, l, args, f):
        """Constructs an object of type ti from forwarded arguments (copy/move or single-argument forms)."""
        t = I.T(ti)
        if t['k'] != 'rec':
            I.put(l, I.argval(args[0]) if args else I.default_value(ti))
            return
        r = I.p.r[t['rec']]
        pts = [I.unref(p['t'])[1] for p in f['params'][-len(args):]] if args else []
        if not args:
            I.put(l, I.default_value(ti))
            return
        if len(args) == 1 and pts[0]['k'] == 'rec' and pts[0]['rec'] == t['rec']:
            want = 'movector' if I.T(f['params'][-1]['t'])['k'] == 'rref' else 'copyctor'
            for mid in r.get('methods', []):
                m = I.p.f.get(mid)
                if m and m.get(want) and not m.get('deleted'):
                    I.construct(m, l, [args[0]])
                    return
            I.put(l, I.argval(args[0]))
            return
        if I.is_opaque_rec(r):
            I.may_throw('convert', 'construction')
            I.put(l, term('make', r['qn'], *[I.argval(a) for a in args]))
            return
        # choose the user constructor by arity
        cands = [I.p.f[m] for m in r.get('methods', []) if m in I.p.f and I.p.f[m]['kind'] == 'ctor' and
                 len(I.p.f[m]['params']) == len(args) and I.p.f[m].get('body') and not I.p.f[m].get('copyctor') and not I.p.f[m].get('movector')]
        if len(cands) == 1:
            vals = []
            for p, a in zip(cands[0]['params'], args):
                pt = I.T(p['t'])
                if pt['k'] in ('lref', 'rref'):
                    vals.append(a if isinstance(a, V) and a.tag == 'Loc' else I.newroot(a, 'temporary', pt['to']))
                elif pt['k'] == 'rec':
                    vals.append(V('Arg', I.newroot(I.argval(a), p['n'], p['t'])))
                else:
                    vals.append(I.argval(a))
            I.construct(cands[0], l, vals)
            return
        I.unknown('forwarding construction of %s' % r['dn'])

    def f_make_shared(self, I, f, args, n):
        r = I.p.r[I.T(f['ret'])['rec']]
        ti = self.targ_type(r, 0)
        I.may_throw('alloc', 'allocation')
        l = self.make_obj(I, f, args, ti)
        return self.sp_new(I, ptr(l), dt=ti)

    def f_make_unique(self, I, f, args, n):
        r = I.p.r[I.T(f['ret'])['rec']]
        ti = self.targ_type(r, 0)
        I.may_throw('alloc', 'allocation')
        l = self.make_obj(I, f, args, ti)
        I.heap[l.a[0]] = 'new'
        return V('UP', ptr(l))

    def f_dynamic_pointer_cast(self, I, f, args, n):
        v = I.argval(args[0])
        r = I.p.r[I.T(f['ret'])['rec']]
        tt = I.T(self.targ_type(r, 0))
        if is_null(v.a[0]):
            return V('SP', NULL, None)
        src = v.a[0].a[0]
        h = I.cfg.hooks.get('dynamic_cast')
        res = h(I, src, tt) if h else None
        if res is None:
            m, rid = I.most_derived(src)
            if rid is None:
                I.unknown('dynamic type')
            path = I.p.derives(rid, tt['rec'])
            res = (path is not None, I.up(m, path) if path is not None else None)
        if not res[0]:
            return V('SP', NULL, None)
        self.sp_share(I, v)
        return V('SP', ptr(res[1]), v.a[1])

    def f_static_pointer_cast(self, I, f, args, n):
        v = I.argval(args[0])
        r = I.p.r[I.T(f['ret'])['rec']]
        et = self.targ_type(r, 0)
        if is_null(v.a[0]):
            return V('SP', NULL, None)
        t = I.T(et)
        self.sp_share(I, v)
        p = v.a[0]
        if t['k'] == 'rec':
            cur = I.rec_at(p.a[0])
            path = I.p.derives(cur, t['rec']) if cur is not None else None
            if path is None:
                p = ptr(I.down(p.a[0], [], t))
            else:
                p = ptr(I.up(p.a[0], path))
        return V('SP', p, v.a[1])
    f_const_pointer_cast = f_static_pointer_cast

    # --- std::function ------------------------------------------------------------------------------------------------------
    def ctor_function(self, I, f, r, a, n, l):
        if not a:
            return V('Func', None)
        v = a[0]
        if isinstance(v, V) and v.tag == 'Func':
            return v
        if is_null(v):
            return V('Func', None)
        return V('Func', v)

    def call_Func(self, I, f, this, v, args, n):
        return I.call_object(this, args, f['ret'])

    def m_Func_swap(self, I, f, this, v, args, n):
        o = I.get(args[0])
        I.put(this, o)
        I.put(args[0], v)
        return VOID

    # --- exceptions -----------------------------------------------------------------------------------------------------------
    def m_Exc_what(self, I, f, this, v, args, n):
        p = v.a[1]
        if isinstance(p, V) and p.tag in ('Str', 'CStr', 'CStrOf'):
            return V('CStrOf', self.str_of(I, p))
        return term('what', v)

    def m_TypeInfo_name(self, I, f, this, v, args, n):
        return term('cstr', v.a[0])

    # --- operators --------------------------------------------------------------------------------------------------------------
    def operator(self, I, f, op, a, n):
        x = a[0]
        v = I.get(x) if isinstance(x, V) and x.tag == 'Loc' else x
        tag = v.tag if isinstance(v, V) else 'int'
        ps = f['params']
        if tag == 'Atomic':
            return self.atomic_op(I, f, op, x, v, a)
        if op == '=':
            return self.assign(I, f, x, v, a[1:])
        if tag == 'OStream' and op == '<<':
            return self.stream_out(I, f, x, a[1], ps[-1]['t'])
        if tag == 'IStream' and op == '>>':
            return self.stream_in(I, f, x, a[1], ps[-1]['t'])
        if tag == 'OStream' and op == '>>' and isinstance(a[1], V) and a[1].tag == 'Loc' and isinstance(I.get(a[1]), V) and I.get(a[1]).tag == 'Str':
            return self.extract(I, x, a[1], None)
        if tag in ('IStream', 'OStream') and op == '!':
            return L(int(self.is_failed(I, x))) if tag == 'IStream' else ONE - self.out_good(I, v)
        if tag == 'Str' or (tag in ('CStr', 'CStrOf') and op == '+') or (op == '+' and len(a) == 2 and self.strlike(I, a[1])):
            return self.string_op(I, f, op, a)
        if tag in ('It', 'AIt', 'RevIt', 'BackIt', 'InsIt', 'MoveIt') or (tag == 'Ptr' and op in ('+', '-')):
            return self.iter_op(I, f, op, x, v, a)
        if tag == 'Seq' and op == '[]':
            return self.seq_at(I, f, x, I.argval(a[1]))
        if tag == 'Str' and op == '[]':
            return sub(x, ('i', I.argval(a[1])))
        if tag == 'Assoc' and op == '[]':
            it = self.assoc_find(I, x, I.argval(a[1]))
            fs = self.pair_fields(I, v.a[4])
            if it.a[1] is None:
                val = I.default_value(self.map_value_type(I, f))
                it, _ = self.assoc_insert_kv(I, x, I.argval(a[1]), val)
            return sub(x, ('kk', it.a[1]), ('f', fs[1]['id']))
        if tag in ('SP', 'UP'):
            if op == '*':
                return I.deref(v.a[0])
            if op == '->':
                if is_null(v.a[0]) and True:
                    return v.a[0]
                return v.a[0]
            if op == '[]':
                return I.deref(I.ptr_add(v.a[0], I.argval(a[1])))
            if op in ('==', '!='):
                o = I.argval(a[1])
                p2 = o.a[0] if isinstance(o, V) and o.tag in ('SP', 'UP') else NULL
                return I.compare_ptr(op, v.a[0], p2 if p2 is not None else NULL)
        if is_null(v) and op in ('==', '!=') and len(a) == 2:
            o = I.argval(a[1])
            if isinstance(o, V) and o.tag in ('SP', 'UP'):
                return I.compare_ptr(op, v, o.a[0])
            if isinstance(o, V) and o.tag == 'Func':
                return L(int((o.a[0] is None) == (op == '==')))
        if tag == 'Func' and op in ('==', '!='):
            return L(int((v.a[0] is None) == (op == '==')))
        if tag == 'BitRef':
            return self.bitref_op(I, f, op, x, v, a)
        if tag == 'Seq' and op in ('==', '!=', '<', '>', '<=', '>='):
            return self.seq_compare(I, f, op, x, a[1])
        if tag == 'Seq' and op == '<=>':
            return V('Ord', x, a[1])
        if tag == 'Tup' and op in ('==', '!='):
            o = I.argval(a[1])
            e = all(I.teq(I.argval(p) if isinstance(p, V) and p.tag == 'Loc' else p, q) for p, q in zip(v.a[0], o.a[0]))
            return L(int(e == (op == '==')))
        if tag == 'Rec' and op in ('==', '!=') and rname(I.p.r[v.a[0]]) == 'std::pair':
            o = I.argval(a[1])
            p, q = self.split_pair(I, v), self.split_pair(I, o)
            e = I.teq(p[0], q[0]) and I.teq(p[1], q[1])
            return L(int(e == (op == '==')))
        if tag == 'Assoc' and op in ('==', '!='):
            o = I.argval(a[1])
            if v.a[2] is None and o.a[2] is None:
                e = v.a[1] == o.a[1]
                return L(int(e == (op == '==')))
        if tag in ('Time', 'Dur') or (len(a) == 2 and isinstance(I.argval(a[1]), V) and I.argval(a[1]).tag in ('Time', 'Dur')):
            return self.chrono_op(I, f, op, a)
        if is_term(v) and op in ('&', '|', '^', '~', '&=', '|='):
            if op in ('&=', '|='):
                I.put(x, term('bit' + op[0], v, I.argval(a[1])))
                return x
            return term('bit' + op, *[I.argval(z) for z in a])
        if isinstance(v, Lin) and op in ('&', '|', '^', '~'):
            vals = [I.argval(z) for z in a]
            if len(vals) == 2 and all(isinstance(z, Lin) and z.is_const() for z in vals):
                p, q = vals[0].k, vals[1].k
                return L(p & q if op == '&' else p | q if op == '|' else p ^ q)
            return term('bit' + op, *vals)
        if isinstance(v, Lin) and op in ('|=', '&=', '^='):
            q = I.argval(a[1])
            if v.is_const() and isinstance(q, Lin) and q.is_const():
                I.put(x, L(v.k | q.k if op == '|=' else v.k & q.k if op == '&=' else v.k ^ q.k))
            else:
                I.put(x, term('bit' + op[0], v, q))
            return x
        if tag == 'TypeInfo' and op in ('==', '!='):
            o = I.argval(a[1])
            return L(int((v == o) == (op == '==')))
        if tag == 'RefWrap':
            I.unknown('reference wrapper')
        if tag == 'Ord' and op in ('<', '<=', '>', '>=') and isinstance(v.a[0], V) and v.a[0].tag in ('Dur', 'Time'):
            return self.chrono_op(I, f, op, v.a)
        if tag == 'Ord' and op in ('<', '<=', '>', '>='):
            return self.seq_compare(I, f, op, v.a[0], v.a[1])
        I.unknown('operator%s on %s' % (op, show(v)))

    def strlike(self, I, a):
        v = I.get(a) if isinstance(a, V) and a.tag == 'Loc' else a
        return isinstance(v, V) and v.tag in ('Str', 'CStr', 'CStrOf')

    def string_op(self, I, f, op, a):
        x = a[0]
        if op == '+':
            return V('Str', self.str_of(I, I.argval(a[0])) + self.str_of(I, I.argval(a[1])))
        if op == '+=':
            I.put(x, V('Str', I.get(x).a[0] + self.str_of(I, I.argval(a[1]))))
            return x
        if op in ('==', '!='):
            s, t = self.str_of(I, I.argval(a[0])), self.str_of(I, I.argval(a[1]))
            if s == t:
                e = True
            elif all(isinstance(z, Lin) and z.is_const() for z in s + t):
                e = False
            else:
                e = I.atom('streq', V('Str', s), V('Str', t))
            return L(int(e == (op == '==')))
        if op == '[]':
            return sub(x, ('i', I.argval(a[1])))
        I.unknown('string operator%s' % op)

    def iter_op(self, I, f, op, x, v, a):
        if op in ('==', '!='):
            o = I.argval(a[1])
            e = self.it_eq(I, v, o)
            return L(int(e == (op == '==')))
        if op == '*':
            if v.tag in ('BackIt', 'InsIt'):
                return x
            l = self.it_loc(I, v)
            if I.T(f['ret'])['k'] not in ('lref', 'rref'):
                # proxies of vector<bool>
                if I.T(f['ret'])['k'] == 'rec':
                    return V('BitRef', l)
                return I.read(l)
            if v.tag == 'It':
                I.get(l)
            return l
        if op == '->':
            return ptr(self.it_loc(I, v))
        if op in ('++', '--'):
            e = ONE if op == '++' else L(-1)
            post = len(f['params']) == (1 if f['kind'] != 'fn' else 2)
            new = self.it_add(I, v, e)
            I.put(x, new)
            self.stepped(I, x, v, op)
            return v if post else x
        if op in ('+', '-') and len(a) == 2:
            o = I.argval(a[1])
            if isinstance(o, Lin):
                return self.it_add(I, v, o if op == '+' else -o)
            return self.it_diff(I, v, o)
        if op in ('+=', '-='):
            o = I.argval(a[1])
            I.put(x, self.it_add(I, v, o if op == '+=' else -o))
            return x
        if op == '[]':
            return self.it_loc(I, self.it_add(I, v, I.argval(a[1])))
        if op in ('<', '>', '<=', '>='):
            d = self.it_diff(I, v, I.argval(a[1]))
            return I.compare(op, d, ZERO)
        if op == '<=>':
            return V('OrdI', self.it_diff(I, v, I.argval(a[1])))
        I.unknown('iterator operator%s' % op)

    def bitref_op(self, I, f, op, x, v, a):
        if op in ('==', '!='):
            o = I.argval(a[1])
            p, q = I.read(v.a[0]), I.read(o.a[0]) if isinstance(o, V) and o.tag == 'BitRef' else o
            e = I.teq(p, q)
            return L(int(e == (op == '==')))
        if op == '<':
            o = I.argval(a[1])
            return self.lt(I, I.read(v.a[0]), I.read(o.a[0]) if isinstance(o, V) and o.tag == 'BitRef' else o, True)
        I.unknown('bit reference operator%s' % op)

    def seq_compare(self, I, f, op, x, y):
        a, b = I.argval(x), I.argval(y)
        n1, n2 = seq_size(a), seq_size(b)
        if op in ('==', '!='):
            if not I.eq(n1 - n2):
                return L(int(op == '!='))
            i1, i2 = V('It', x, ZERO, a.a[2]), V('It', x, n1, a.a[2])
            r = self.f_equal(I, f, [i1, i2, V('It', y, ZERO, b.a[2])], None)
            return r if op == '==' else ONE - r
        if op == '>':
            return self.seq_compare(I, f, '<', y, x)
        if op == '>=':
            return ONE - self.seq_compare(I, f, '<', x, y)
        if op == '<=':
            return ONE - self.seq_compare(I, f, '<', y, x)
        return self.f_lexicographical_compare(I, f, [V('It', x, ZERO, a.a[2]), V('It', x, n1, a.a[2]), V('It', y, ZERO, b.a[2]), V('It', y, n2, b.a[2])], None)

    # --- assignment of standard objects ---------------------------------------------------------------------------------------
    def assign(self, I, f, l, old, args):
        src = args[0]
        v = I.argval(src)
        if old == RAW:
            I.fail('lifetime', 'assigns to an object that is not alive')
        tag = old.tag if isinstance(old, V) else ''
        if isinstance(v, V) and v.tag == 'AIt':
            I.reset[l] = I.reset.get(l, 0) + 1
        move = bool(f.get('moveassign')) or I.T(f['params'][0]['t'])['k'] == 'rref'
        if tag == 'BitRef':
            x = v
            if isinstance(x, V) and x.tag == 'BitRef':
                x = I.read(x.a[0])
            I.put(old.a[0], x)
            return l
        if tag == 'SP':
            if isinstance(v, V) and v.tag == 'SP':
                if isinstance(src, V) and src.tag == 'Loc' and I.veq(src, l):
                    return l
                r = I.p.r[f['rec']]
                p = self.adjust_ptr(I, v.a[0], self.targ_type(r, 0))
                new = V('SP', p, v.a[1])
                if move and isinstance(src, V) and src.tag == 'Loc':
                    I.put(src, V('SP', NULL, None))
                else:
                    self.sp_share(I, v)
                I.put(l, new)
                self.sp_release(I, old)
                return l
            if is_null(v):
                I.put(l, V('SP', NULL, None))
                self.sp_release(I, old)
                return l
            if isinstance(v, V) and v.tag == 'UP':
                I.put(l, self.sp_new(I, v.a[0]))
                if isinstance(src, V) and src.tag == 'Loc':
                    I.put(src, V('UP', NULL))
                self.sp_release(I, old)
                return l
        if tag == 'UP':
            if isinstance(v, V) and v.tag == 'UP':
                if isinstance(src, V) and src.tag == 'Loc':
                    I.put(src, V('UP', NULL))
                I.put(l, v)
                self.up_release(I, old, I.p.r[f['rec']])
                return l
            if is_null(v):
                I.put(l, V('UP', NULL))
                self.up_release(I, old, I.p.r[f['rec']])
                return l
        if tag == 'Seq':
            if isinstance(v, V) and v.tag == 'Seq':
                if isinstance(src, V) and src.tag == 'Loc' and I.veq(src, l):
                    return l
                I.may_throw('copy', 'copying a sequence') if not move else None
                I.put(l, V('Seq', old.a[0], v.a[1], old.a[2] + 1, None))
                if move and isinstance(src, V) and src.tag == 'Loc':
                    I.put(src, V('Seq', v.a[0], (), v.a[2] + 1, None))
                return l
            if isinstance(v, V) and v.tag == 'IL':
                arr = I.get(v.a[0])
                I.put(l, V('Seq', old.a[0], arr.a[2], old.a[2] + 1, None))
                return l
        if tag in ('BackIt', 'InsIt'):
            self.out_write(I, old, v)
            return l
        if tag == 'Str':
            I.put(l, V('Str', self.str_of(I, v)))
            return l
        if tag == 'Tup':
            if isinstance(v, V) and v.tag == 'Tup':
                items = v.a[0]
            elif isinstance(v, V) and v.tag == 'Rec':
                items = self.split_pair(I, v)
            else:
                I.unknown('tuple assignment')
            vals = [I.read(z) if isinstance(z, V) and z.tag == 'Loc' else z for z in items]
            for i, (t, z) in enumerate(zip(old.a[0], vals)):
                if isinstance(t, V) and t.tag == 'Loc':
                    I.put(t, z)
                else:
                    I.put(sub(l, ('t', i)), z)
            return l
        if tag == 'Rec' and isinstance(v, V) and v.tag == 'Rec':
            fs, gs = self.pair_fields(I, old.a[0]), self.pair_fields(I, v.a[0])
            for p, q in zip(fs, gs):
                t, z = rget(old, ('f', p['id'])), rget(v, ('f', q['id']))
                if isinstance(z, V) and z.tag == 'Loc':
                    z = I.read(z)
                if isinstance(t, V) and t.tag == 'Loc':
                    I.put(t, z)
                else:
                    I.put(sub(l, ('f', p['id'])), self.copy_value(I, z))
            return l
        if tag == 'Func':
            if isinstance(v, V) and v.tag == 'Func':
                I.put(l, v)
            elif is_null(v):
                I.put(l, V('Func', None))
            else:
                I.put(l, V('Func', v))
            return l
        if isinstance(v, V) and (v.tag == tag or tag in ('RAW', 'UNINIT')):
            if v.tag == 'Assoc' and isinstance(src, V) and src.tag == 'Loc' and move and not I.veq(src, l):
                I.put(src, V('Assoc', v.a[0], (), V('Rest', 'none') if v.a[2] is not None else None, ZERO, v.a[4]))
            h = I.cfg.hooks.get('assign_std')
            if h:
                h(I, l, old, v)
            I.put(l, v)
            return l
        if isinstance(old, Lin) or isinstance(v, Lin):
            I.put(l, v)
            return l
        I.unknown('assignment of %s' % show(v))

    # --- streams ------------------------------------------------------------------------------------------------------------------
    def stream_out(self, I, f, l, arg, ti):
        v = I.argval(arg)
        if isinstance(v, V) and v.tag == 'Fn':
            g = I.p.f[v.a[0]]
            h = getattr(self, 'f_' + g['n'], None)
            if g.get('body'):
                I.call_with(g, None, [l])
                return l
            if h is None:
                I.unknown('manipulator %s' % g['n'])
            h(I, g, [l], None)
            return l
        if isinstance(v, V) and v.tag == 'Manip':
            self.set_fmt(I, l, term('manip', v.a[0], self.fmt_of(I, l)))
            return l
        if isinstance(v, V) and v.tag == 'UNINIT':
            I.fail('uninitialised read', 'an indeterminate value is printed')
        atoms = self.atoms_for(I, l, v, ti)
        mods = self.mods(self.fmt_of(I, l))
        if mods:
            w = dict(mods).get('width')
            atoms = tuple(term('formatted', a, mods) if not isinstance(a, Lin) or w is not None and w != ZERO else a for a in atoms)
            if w is not None:           # the width is used up
                self.set_fmt(I, l, self.without(self.fmt_of(I, l), 'width'))
        return self.out(I, l, atoms)

    MODS = {'hex': ('base', 'hex'), 'dec': ('base', 'dec'), 'oct': ('base', 'oct'), 'fixed': ('float', 'fixed'), 'scientific': ('float', 'scientific'), 'hexfloat': ('float', 'hexfloat'),
            'defaultfloat': ('float', 'none'), 'left': ('adjust', 'left'), 'right': ('adjust', 'right'), 'internal': ('adjust', 'internal'), 'showpos': ('pos', 1), 'noshowpos': ('pos', 0),
            'uppercase': ('upper', 1), 'nouppercase': ('upper', 0), 'showbase': ('showbase', 1), 'noshowbase': ('showbase', 0), 'showpoint': ('point', 1), 'noshowpoint': ('point', 0)}
    PLAIN = {'base': 'dec', 'float': 'none', 'adjust': 'right', 'pos': 0, 'upper': 0, 'showbase': 0, 'point': 0, 'width': ZERO, 'precision': L(6), 'fill': L(32)}

    def mods(self, f):
        """What the code has changed of the formatting state it found, as far as it affects numbers and objects."""
        got = {}
        while is_term(f) and f.a[0] in ('set', 'manip'):
            name = f.a[1]
            if isinstance(name, tuple):
                k, x = (name[0], name[1]) if len(name) == 2 else (name[:1] + name[2:], name[1])
            elif name in self.MODS:
                k, x = self.MODS[name]
            else:
                f = f.a[2]
                continue
            got.setdefault(k, x)
            f = f.a[2]
        if f == term('fmt', 'default'):
            got = {k: x for k, x in got.items() if self.PLAIN.get(k) != x}
        return tuple(sorted(got.items(), key=lambda t: str(t[0])))

    def without(self, f, key):
        if is_term(f) and f.a[0] in ('set', 'manip'):
            rest = self.without(f.a[2], key)
            return rest if isinstance(f.a[1], tuple) and f.a[1][0] == key else term(f.a[0], f.a[1], rest)
        return f

    # extraction of texts from a string stream: exact for the first one, nothing is known after it
    def whole(self, a, lines):
        """The text of the atom certainly has no white space, or no line ends."""
        return is_term(a) and a.a[0] in ('int', 'num', 'bool', 'digit') and a.a[0] != 'bool'

    def extract(self, I, l, target, end):
        v = I.get(l)
        t = v.a[2]
        if not isinstance(t, tuple) or any(x == V('Many') for x in t):
            I.unknown('extraction from %s' % show(v))
        t = list(t)
        if end is None:
            while t and isinstance(t[0], Lin) and t[0].is_const() and t[0].k in (32, 9, 10, 11, 12, 13):
                t.pop(0)
        got, known = [], True
        for x in t:
            if isinstance(x, Lin) and x.is_const():
                if (x.k == end) if end is not None else x.k in (32, 9, 10, 11, 12, 13):
                    break
                got.append(x)
            elif self.whole(x, end):
                got.append(x)
            else:
                known = False
                break
        if known and not got and not t:
            I.unknown('extraction from an empty stream')
        if not known:
            got = [term('piece', V('Str', tuple(t)), L(end if end is not None else -1))]
        old = I.get(target)
        if not (isinstance(old, V) and old.tag == 'Str'):
            I.unknown('extraction to %s' % show(old))
        I.put(target, V('Str', tuple(got)))
        I.put(l, V('OStream', v.a[0], v.a[1], (V('Many'),)))
        return l

    def f_getline(self, I, f, args, n):
        v = I.get(args[0])
        if v.tag != 'OStream':
            I.unknown('function std::getline')
        end = I.argval(args[2]) if len(args) > 2 else L(10)
        if not end.is_const():
            I.unknown('getline with an arbitrary delimiter')
        return self.extract(I, args[0], args[1], end.k)

    def f_setw(self, I, f, args, n):
        return V('Manip', ('width', I.argval(args[0])))

    def f_setprecision(self, I, f, args, n):
        return V('Manip', ('precision', I.argval(args[0])))

    def f_setfill(self, I, f, args, n):
        return V('Manip', ('fill', I.argval(args[0])))

    def stream_in(self, I, f, l, arg, ti):
        v = I.argval(arg) if not (isinstance(arg, V) and arg.tag == 'Loc') else None
        if isinstance(arg, V) and arg.tag == 'Fn':
            g = I.p.f[arg.a[0]]
            return self.ins(I).manip(I, l, g['n'])
        _, t = I.unref(ti)
        if t['k'] == 'int' and (t.get('ch') or t.get('w') == 8):
            return self.ins(I).read_char(I, l, arg)
        return self.ins(I).read_item(I, l, arg, ti)


def install(machine_cls):
    machine_cls.models = Models()

    def assoc_at(self, v, p):
        if isinstance(v, V) and v.tag == 'Assoc':
            return self.models.assoc_elem(self, v, p)
        self.unknown('collection element of %s' % show(v))

    def assoc_put(self, v, p, path, val):
        if isinstance(v, V) and v.tag == 'Assoc':
            return self.models.assoc_set(self, v, p, path, val)
        self.unknown('collection element of %s' % show(v))
    machine_cls.assoc_at = assoc_at
    machine_cls.assoc_put = assoc_put
