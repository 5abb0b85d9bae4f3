"""Clocks and durations: counts are exact integers, or exact multiples of a fraction where they are floating;
random engines and distributions: every draw is recorded with its bounds and its source."""
from math import gcd
from .lin import L, Lin, ZERO, ONE
from .vals import *
from .interp import int_range, clean, VOID
from .floats import rat, parts, mul, div, add

HORIZON = 1 << 61       # clock readings, in nanoseconds, lie below this
STEADY = ('std::chrono::steady_clock',)


class Timing:
    # --- types ---------------------------------------------------------------------------------
    def ratio_of(self, I, r):
        ti = self.targ_type(r, 1)
        rr = I.p.r[I.T(ti)['rec']]
        n, d = [x['i'] for x in rr['targs'][:2]]
        g = gcd(n, d)
        return n // g, d // g

    def dur_type(self, I, ti):
        """Record of a duration type, and its representation type and period."""
        t = I.unref(ti)[1]
        r = I.p.r[t['rec']]
        if clean(r['qn']) == 'std::chrono::time_point':
            return self.dur_type(I, self.targ_type(r, 1))
        if clean(r['qn']) != 'std::chrono::duration':
            I.unknown('duration type %s' % r['dn'])
        return r, self.targ_type(r, 0), self.ratio_of(I, r)

    # --- values ----------------------------------------------------------------------------------
    def chrono_value(self, I, r, e):
        if clean(r['qn']) == 'std::chrono::time_point':
            _, rep, p = self.dur_type(I, self.targ_type(r, 1))
            return V('Time', I.T(self.targ_type(r, 0))['s'], e, p[0], p[1])
        rep, p = self.targ_type(r, 0), self.ratio_of(I, r)
        return V('Dur', V('FL', e) if I.T(rep)['k'] == 'float' else e, p[0], p[1])

    def rescale(self, I, x, src, rep, dst):
        """A count in periods of src, in periods of dst and representation rep; rounds towards zero."""
        n, d = src[0] * dst[1], src[1] * dst[0]
        g = gcd(n, d)
        n, d = n // g, d // g
        t = I.T(rep)
        if t['k'] == 'float':
            if isinstance(x, Lin):
                x = V('FL', x)
            y = div(mul(x, V('FL', L(n))), V('FL', L(d)))
            y = y if y is not None else term('op*', x, rat(L(n), d))
            return y if t.get('w', 64) >= 64 else I.narrow_float(y, t['w'])
        if isinstance(x, Lin):
            return I.wrap(I.trunc_div(x.scale(n), d), rep)
        y = div(mul(x, V('FL', L(n))), V('FL', L(d)))
        return I.float_to_int(y if y is not None else term('op*', x, rat(L(n), d)), rep)

    def to_dur(self, I, v, ti):
        _, rep, p = self.dur_type(I, ti)
        return V('Dur', self.rescale(I, v.a[0], (v.a[1], v.a[2]), rep, p), p[0], p[1])

    def ctor_chrono_duration(self, I, f, r, a, n, l):
        rep, p = self.targ_type(r, 0), self.ratio_of(I, r)
        v = a[0]
        if isinstance(v, V) and v.tag == 'Dur':
            return V('Dur', self.rescale(I, v.a[0], (v.a[1], v.a[2]), rep, p), p[0], p[1])
        fl = I.T(rep)['k'] == 'float'
        if isinstance(v, Lin):
            v = V('FL', v) if fl else I.wrap(v, rep)
        elif not fl:
            v = I.float_to_int(v, rep)
        return V('Dur', v, p[0], p[1])

    def ctor_chrono_time_point(self, I, f, r, a, n, l):
        v = a[0]
        if not isinstance(v, V) or v.tag not in ('Dur', 'Time'):
            I.unknown('time point from %s' % show(v))
        _, rep, p = self.dur_type(I, self.targ_type(r, 1))
        k = 0 if v.tag == 'Dur' else 1
        return V('Time', I.T(self.targ_type(r, 0))['s'], self.rescale(I, v.a[k], (v.a[k + 1], v.a[k + 2]), rep, p), p[0], p[1])

    def f_duration_cast(self, I, f, args, n):
        return self.to_dur(I, I.argval(args[0]), f['ret'])

    def f_floor(self, I, f, args, n):
        return self.rounded(I, f, args, -1)

    def f_ceil(self, I, f, args, n):
        return self.rounded(I, f, args, 1)

    def rounded(self, I, f, args, way):
        v = I.argval(args[0])
        if not isinstance(v, V) or v.tag != 'Dur' or not isinstance(v.a[0], Lin):
            I.unknown('function %s' % clean(f['qn']))
        d = self.to_dur(I, v, f['ret'])
        if isinstance(d.a[0], Lin):
            # the cast rounds towards zero
            x, y = v.a[0].scale(v.a[1] * d.a[2]), d.a[0].scale(d.a[1] * v.a[2])
            if way < 0 and not I.ge(x - y):
                return V('Dur', d.a[0] - 1, *d.a[1:])
            if way > 0 and not I.ge(y - x):
                return V('Dur', d.a[0] + 1, *d.a[1:])
        return d

    def f_time_point_cast(self, I, f, args, n):
        v = I.argval(args[0])
        _, rep, p = self.dur_type(I, f['ret'])
        return V('Time', v.a[0], self.rescale(I, v.a[1], (v.a[2], v.a[3]), rep, p), p[0], p[1])

    def now(self, I, f, name):
        cls = clean(I.p.r[f['rec']]['qn'])
        steady = cls in STEADY
        s = I.fresh('t')
        last = I.mon.get('clock')
        reads = last.a[0] if last is not None else ()
        if cls not in STEADY + ('std::chrono::system_clock',):
            I.unknown('clock %s' % cls)
        I.cons = I.cons.add_ge(s + (0 if steady else HORIZON)).add_ge(L(HORIZON) - s)
        if steady:
            for c, t in reads:
                if c == cls:
                    I.cons = I.cons.add_ge(s - t)
        I.mon['clock'] = V('Clock', reads + ((cls, s),))
        r = I.p.r[I.unref(f['ret'])[1]['rec']]
        v = self.chrono_value(I, r, ZERO)
        _, rep, p = self.dur_type(I, self.targ_type(r, 1))
        return V('Time', cls, self.rescale(I, s, (1, 1000000000), rep, p), p[0], p[1])

    def s_steady_clock_now(self, I, f, args, n):
        return self.now(I, f, 'steady')

    def s_system_clock_now(self, I, f, args, n):
        return self.now(I, f, 'system')

    def s_duration_zero(self, I, f, args, n):
        return self.chrono_value(I, I.p.r[f['rec']], ZERO)

    def m_Dur_count(self, I, f, this, v, args, n):
        return v.a[0]

    def m_Time_time_since_epoch(self, I, f, this, v, args, n):
        return V('Dur', v.a[1], v.a[2], v.a[3])

    def split_time(self, I, v):
        """Clock, count and period of a time or duration."""
        if v.tag == 'Dur':
            return None, v.a[0], (v.a[1], v.a[2])
        return v.a

    def chrono_op(self, I, f, op, a):
        vals = [I.argval(x) for x in a]
        if op in ('+=', '-=') and isinstance(vals[1], V) and vals[1].tag == 'Dur':
            x, y = vals
            k = 0 if x.tag == 'Dur' else 1
            p = (x.a[k + 1], x.a[k + 2])
            if (y.a[1], y.a[2]) != p:
                I.unknown('durations of different periods')
            s = self.plus(I, op[0], x.a[k], y.a[0])
            I.put(a[0], V(x.tag, *(x.a[:k] + (s,) + p)))
            return a[0]
        if op == '=':
            I.put(a[0], vals[1])
            return a[0]
        if op == '<=>':
            return V('Ord', *vals)
        if len(vals) == 1 and op in ('-', '+') and vals[0].tag == 'Dur':
            v = vals[0]
            return v if op == '+' else V('Dur', self.plus(I, '-', ZERO if isinstance(v.a[0], Lin) else V('FL', ZERO), v.a[0]), v.a[1], v.a[2])
        if len(vals) != 2:
            I.unknown('chrono operator %s' % op)
        x, y = vals
        tags = [v.tag if isinstance(v, V) else None for v in vals]
        if op == '/' and tags == ['Dur', 'Dur']:
            d = x.a[2] * y.a[2] // gcd(x.a[2], y.a[2])
            p, q = self.times(x.a[0], x.a[1] * (d // x.a[2])), self.times(y.a[0], y.a[1] * (d // y.a[2]))
            if I.T(f['ret'])['k'] == 'float':
                p, q = [V('FL', z) if isinstance(z, Lin) else z for z in (p, q)]
            return I.arith('/', p, q, f['ret'])
        if op in ('*', '/') and tags[0] == 'Dur' and tags[1] not in ('Dur', 'Time') or op == '*' and tags[1] == 'Dur':
            if tags[0] != 'Dur':
                x, y = y, x
            _, rep, p = self.dur_type(I, f['ret'])
            return V('Dur', I.arith(op, x.a[0], y, rep), p[0], p[1])
        if any(t not in ('Dur', 'Time') for t in tags):
            I.unknown('chrono operator %s' % op)
        cx, vx, px = (None,) + ((x.a[0], (x.a[1], x.a[2]))) if x.tag == 'Dur' else (x.a[0], x.a[1], (x.a[2], x.a[3]))
        cy, vy, py = (None,) + ((y.a[0], (y.a[1], y.a[2]))) if y.tag == 'Dur' else (y.a[0], y.a[1], (y.a[2], y.a[3]))
        if op in ('+', '-'):
            _, rep, p = self.dur_type(I, f['ret'])
            s = self.plus(I, op, self.rescale(I, vx, px, rep, p), self.rescale(I, vy, py, rep, p))
            rt = I.p.r[I.unref(f['ret'])[1]['rec']]
            if clean(rt['qn']) == 'std::chrono::duration':
                return V('Dur', s, p[0], p[1])
            return V('Time', cx or cy, s, p[0], p[1])
        if op in ('==', '!=', '<', '<=', '>', '>='):
            # exact comparison of the two lengths
            d = px[1] * py[1] // gcd(px[1], py[1])
            sx, sy = px[0] * (d // px[1]), py[0] * (d // py[1])
            return I.compare(op, self.times(vx, sx), self.times(vy, sy))
        I.unknown('chrono operator %s' % op)

    def times(self, v, k):
        if isinstance(v, Lin):
            return v.scale(k)
        y = mul(v, V('FL', L(k)))
        return y if y is not None else (v if k == 1 else term('op*', v, V('FL', L(k))))

    def plus(self, I, op, x, y):
        if isinstance(x, Lin) and isinstance(y, Lin):
            return x + y if op == '+' else x - y
        r = add(x, y, op)
        return r if r is not None else term('op' + op, x, y)

    # --- random numbers -----------------------------------------------------------------------------
    def call_RandomDevice(self, I, f, this, v, args, n):
        t = term('entropy', L(getattr(I, 'n_entropy', 0)))
        I.n_entropy = getattr(I, 'n_entropy', 0) + 1
        return I.opaque_result(f['ret'], t)

    def ctor_random_device(self, I, f, r, a, n, l):
        return V('RandomDevice')

    def ctor_seed_seq(self, I, f, r, a, n, l):
        vals = []
        for x in a:
            vals.append(I.get(x.a[0]) if isinstance(x, V) and x.tag == 'IL' else x)
        return V('SeedSeq', tuple(vals))

    def ctor_mersenne_twister_engine(self, I, f, r, a, n, l):
        return V('Engine', a[0], L(self.engine_no(I)), ZERO)

    def engine_no(self, I):
        I.n_engines = getattr(I, 'n_engines', 0) + 1
        return I.n_engines

    def m_Engine_seed(self, I, f, this, v, args, n):
        I.put(this, V('Engine', I.argval(args[0]) if args else term('default_seed'), L(self.engine_no(I)), ZERO))
        return VOID

    def m_Engine_discard(self, I, f, this, v, args, n):
        I.put(this, V('Engine', v.a[0], v.a[1], v.a[2] + I.argval(args[0])))
        return VOID

    def advance_engine(self, I, l):
        v = I.get(l)
        if not isinstance(v, V) or v.tag != 'Engine':
            I.unknown('random engine %s' % show(v))
        I.put(l, V('Engine', v.a[0], v.a[1], v.a[2] + 1))
        return v

    def call_Engine(self, I, f, this, v, args, n):
        self.advance_engine(I, this)
        return I.opaque_result(f['ret'], term('engine-output', v.a[0], v.a[1], v.a[2]))

    def ctor_uniform_int_distribution(self, I, f, r, a, n, l):
        return self.distribution(I, r, a, 'int')

    def ctor_uniform_real_distribution(self, I, f, r, a, n, l):
        return self.distribution(I, r, a, 'real')

    def distribution(self, I, r, a, kind):
        ti = self.targ_type(r, 0)
        if a and isinstance(a[0], V) and a[0].tag == 'Param':
            return V('Dist', kind, I.T(ti)['s'], *a[0].a)
        lo = a[0] if a else (ZERO if kind == 'int' else V('FL', ZERO))
        if len(a) > 1:
            hi = a[1]
        else:
            hi = L(int_range(I.T(ti))[1]) if kind == 'int' else V('FL', ONE)
        return V('Dist', kind, I.T(ti)['s'], lo, hi)

    def default_distribution(self, I, r):
        return self.distribution(I, r, (), 'int' if '_int_' in r['n'] else 'real')

    def m_Dist_a(self, I, f, this, v, args, n):
        return v.a[2]
    m_Dist_min = m_Dist_a

    def m_Dist_b(self, I, f, this, v, args, n):
        return v.a[3]
    m_Dist_max = m_Dist_b

    def m_Dist_reset(self, I, f, this, v, args, n):
        return VOID

    def m_Dist_param(self, I, f, this, v, args, n):
        if not args:
            return V('Param', v.a[2], v.a[3])
        p = I.argval(args[0])
        I.put(this, V('Dist', v.a[0], v.a[1], *p.a))
        return VOID

    def ctor_uniform_int_distribution_param_type(self, I, f, r, a, n, l):
        return V('Param', *a)
    ctor_uniform_real_distribution_param_type = ctor_uniform_int_distribution_param_type

    def call_Dist(self, I, f, this, v, args, n):
        l = args[0]
        e = self.advance_engine(I, l)
        kind, ty, lo, hi = v.a
        if len(args) > 1:
            lo, hi = I.argval(args[1]).a
        k = getattr(I, 'n_draws', 0)
        I.n_draws = k + 1
        t = term('draw', L(k))
        r = I.opaque_result(f['ret'], t)
        if isinstance(r, Lin) and isinstance(lo, Lin) and isinstance(hi, Lin):
            I.cons = I.cons.add_ge(r - lo).add_ge(hi - r)
        old = I.mon.get('draws')
        I.mon['draws'] = V('Draws', (old.a[0] if old is not None else ()) + (V('Draw', kind, ty, lo, hi, r, l, e),))
        return r


def depends(I, v, name, seen=None):
    """Whether a value depends on a term of the given name."""
    seen = set() if seen is None else seen
    syms = set()

    def terms(x):
        if isinstance(x, V):
            if x.tag == 'T' and x.a[0] == name:
                return True
            return any(terms(y) for y in x.a)
        if isinstance(x, tuple):
            return any(terms(y) for y in x)
        return False
    if terms(v):
        return True
    vsyms(v, syms)
    back = {}
    for t, s in I.memo.items():
        if isinstance(s, Lin):
            for y, _ in s.c:
                back.setdefault(y, []).append(t)
    for (e, w, sg), (q, s) in getattr(I, 'wraps', {}).items():
        for y, _ in s.c + q.c:
            back.setdefault(y, []).append(e)
    for y in syms:
        if y in seen:
            continue
        seen.add(y)
        if any(depends(I, t, name, seen) for t in back.get(y, ())):
            return True
    return False
