"""Abstract meaning of the intrinsics in drivers/spec.hpp."""
from .lin import Lin, L, ZERO, ONE
from . import floats, timing
from .vals import *
from .interp import Config, int_range, Infeasible, Violated

SIZE_MAX = (1 << 31) - 1
HOOKS = {}


def hook(name):
    def deco(fn):
        HOOKS['spec::' + name] = fn
        return fn
    return deco


def cstr(I, v):
    if isinstance(v, V) and v.tag == 'CStr':
        return v.a[0]
    if isinstance(v, V) and v.tag == 'Str':
        return atoms_text(v.a[0])
    return show(v)


@hook('claim')
def h_claim(I, f, this, a):
    I.claims = getattr(I, 'claims', 0) + 1
    if not I.truth(a[0]):
        I.fail('postcondition', cstr(I, a[1]))
    return VOID


@hook('never')
def h_never(I, f, this, a):
    I.claims = getattr(I, 'claims', 0) + 1
    I.fail('postcondition', cstr(I, a[0]))


@hook('reach')
def h_reach(I, f, this, a):
    I.reached = getattr(I, 'reached', ()) + (cstr(I, a[0]),)
    return VOID


@hook('assume')
def h_assume(I, f, this, a):
    if not I.truth(a[0]):
        raise Infeasible()
    return VOID


@hook('aborts')
def h_aborts(I, f, this, a):
    I.aborts = (a[0], I.read(a[0]))
    return VOID


@hook('any_bool')
def h_any_bool(I, f, this, a):
    return L(1 - I.choose(2))


def pinned(I, s):
    """An input; in a run that follows up an unconfirmed violation it has the value it had there."""
    I.inputs = getattr(I, 'inputs', ()) + (s.c[0][0],)
    pins = I.cfg.pins
    k = len(I.inputs) - 1
    if pins and k in pins:
        I.cons = I.cons.add_eq(s - pins[k])
    return s


@hook('any_char')
@hook('any_int')
def h_any_int(I, f, this, a):
    s = I.fresh('i')
    lo, hi = int_range(I.T(f['ret']))
    I.cons = I.cons.add_ge(s - lo).add_ge(L(hi) - s)
    return pinned(I, s)


@hook('any_size')
def h_any_size(I, f, this, a):
    s = I.fresh('n')
    I.cons = I.cons.add_ge(s).add_ge(L(SIZE_MAX) - s)
    return pinned(I, s)


@hook('any_word')
def h_any_word(I, f, this, a):
    s = I.fresh('u')
    I.cons = I.cons.add_ge(s).add_ge(L((1 << 64) - 1) - s)
    return pinned(I, s)


def clock(I):
    m = I.mon.get('clock')
    return m.a[0] if m is not None else ()


@hook('readings')
def h_readings(I, f, this, a):
    return L(len(clock(I)))


@hook('reading')
def h_reading(I, f, this, a):
    if not a[0].is_const() or not 0 <= a[0].k < len(clock(I)):
        I.fail('postcondition', 'the clock is not read')
    return clock(I)[a[0].k][1]


@hook('steady')
def h_steady(I, f, this, a):
    return L(int(all(c in timing.STEADY for c, _ in clock(I))))


@hook('exact_seconds')
def h_exact_seconds(I, f, this, a):
    p = floats.parts(a[0])
    if p is None:
        return L(0) if is_term(a[0]) else I.unknown('value %s' % show(a[0]))
    return L(int(I.eq(p[0].scale(1000000000) - a[1].scale(p[1]))))


def draws(I):
    m = I.mon.get('draws')
    return m.a[0] if m is not None else ()


@hook('draws')
def h_draws(I, f, this, a):
    return L(len(draws(I)))


@hook('uniform')
def h_uniform(I, f, this, a):
    if not draws(I):
        return ZERO
    kind, ty, lo, hi, r, l, e = draws(I)[-1].a
    t = I.T(f['targs'][0]['t'])
    if kind != ('real' if t['k'] == 'float' else 'int') or ty.replace('const ', '') != t['s'].replace('const ', ''):
        return ZERO
    x, p, q = [I.read(v) for v in a]
    return L(int(same_number(I, x, r) and same_number(I, lo, p) and same_number(I, hi, q)))


def same_number(I, x, y):
    if isinstance(x, Lin) and isinstance(y, Lin):
        return I.eq(x - y)
    return x == y


@hook('shared_source')
def h_shared_source(I, f, this, a):
    ds = draws(I)
    roots = {l.a[0] for l in I.globals.values()}
    for i, d in enumerate(ds):
        l, e = d.a[5], d.a[6]
        if l.a[0] not in roots:
            return ZERO
        if i and (l != ds[i - 1].a[5] or e.a[:2] != ds[i - 1].a[6].a[:2] or not I.known_ge(e.a[2] - ds[i - 1].a[6].a[2] - 1)):
            return ZERO
    return ONE


@hook('seeded_from_entropy')
def h_seeded(I, f, this, a):
    return L(int(all(timing.depends(I, d.a[6].a[0], 'entropy') for d in draws(I))))


@hook('any_double')
def h_any_double(I, f, this, a):
    I.n += 1
    return term('fl', 'x%d' % I.n)


def scalar_template(I, el, base):
    t = I.T(el)
    return t


@hook('any_elems')
def h_any_elems(I, f, this, a):
    rt = I.T(f['ret'])
    _, el = I.unref(rt['to'])
    I.n += 1
    name = 'x%d' % I.n
    val = term('elem', name, HASH)
    l = I.newroot(V('Buf', a[-1], rt['to'], ((a[-1], val),) if a[-1] != ZERO else (), 'array'), 'caller array ' + name, None)
    orig(I)[l.a[0]] = I.store[l.a[0]]
    return ptr(sub(l, ('i', ZERO)))


def orig(I):
    if not hasattr(I, '_orig'):
        I._orig = {}
    return I._orig


@hook('any')
def h_any(I, f, this, a):
    i, t = I.unref(f['ret'])
    I.n += 1
    l = I.newroot(term('any', 'v%d' % I.n), 'caller object', None)
    orig(I)[l.a[0]] = I.store[l.a[0]]
    return l


@hook('same')
def h_same(I, f, this, a):
    return L(int(I.same(I.read(a[0]), I.read(a[1]))))


@hook('untouched')
def h_untouched(I, f, this, a):
    p = a[0]
    r = p.a[0].a[0]
    return L(int(I.store.get(r) is not None and I.veq(I.store[r], orig(I)[r])))


@hook('untouched_obj')
def h_untouched_obj(I, f, this, a):
    r = a[0].a[0]
    return L(int(I.store.get(r) is not None and I.veq(I.store[r], orig(I)[r])))


@hook('throwing')
def h_throwing(I, f, this, a):
    I.cfg.throwing = set(cstr(I, a[0]).split())
    return VOID


@hook('nothrow')
def h_nothrow(I, f, this, a):
    I.cfg.nothrow_types = set(cstr(I, a[0]).split())
    return VOID


# --- arbitrary sets and maps -----------------------------------------------------------------------------
# In abstract mode a collection is described exactly on the named keys and by an uninterpreted predicate on
# all others; in exact mode it is one of the collections of at most cfg.small elements.
def abstract(I):
    return I.cfg.mode == 'abstract'


@hook('named')
def h_named(I, f, this, a):
    if abstract(I):
        k = I.read(a[0])
        old = getattr(I.cfg, 'named', None) or []
        for o in old:
            if I.teq(o, k):
                return VOID
        I.cfg.named = old + [k]
        if others_differ not in I.cfg.rules:
            I.cfg.rules = I.cfg.rules + [others_differ]
    return VOID


def others_differ(I, t):
    if t.a[0] == 'eq':
        x, y = t.a[1], t.a[2]
        for p, q in ((x, y), (y, x)):
            if is_term(p) and p.a[0] == 'other' and any(q == k for k in I.cfg.named):
                return False
    return None


def assoc_loc(I, l):
    """Location of the std::set/std::map inside the object at l."""
    v = I.get(l)
    while isinstance(v, V) and v.tag == 'Rec':
        for k, x in v.a[1]:
            if k[0] == 'b':
                l = sub(l, k)
                v = x
                break
        else:
            I.unknown('collection')
    if not (isinstance(v, V) and v.tag == 'Assoc'):
        I.unknown('collection %s' % show(v))
    return l, v


@hook('fill')
def h_fill(I, f, this, a):
    l, v = assoc_loc(I, a[0])
    I.n += 1
    name = 'S%d' % I.n
    ismap = v.a[0] == 'map'

    def val(i):
        return term('any', '%s.value%s' % (name, i)) if ismap else VOID
    if abstract(I):
        es = []
        for i, k in enumerate(getattr(I.cfg, 'named', [])):
            if I.choose(2) == 0:
                es.append((k, val(i)))
                I.note('%s holds %s' % (name, show(k)))
            else:
                I.note('%s does not hold %s' % (name, show(k)))
        es.sort(key=lambda kv: show(kv[0]))
        I.put(l, V('Assoc', v.a[0], tuple(es), V('Rest', name), None, v.a[4]))
    else:
        n = I.choose(getattr(I.cfg, 'small', 2) + 1)
        es = []
        for i in range(n):
            k = term('any', '%s.%d' % (name, i))
            for k0, _ in es:
                I.facts[term('eq', *sorted((k0, k), key=show))] = False
                I.facts[term('lt', k0, k)] = True
            es.append((k, val(i)))
        I.note('%s has %d elements' % (name, n))
        I.put(l, V('Assoc', v.a[0], tuple(es), None, L(n), v.a[4]))
    return VOID


@hook('abstract_collections')
def h_abstract_collections(I, f, this, a):
    """From here on collections are abstract, with no named key yet."""
    if abstract(I) and getattr(I.cfg, 'named', None) is None:
        I.cfg.named = []
        I.cfg.rules = I.cfg.rules + [others_differ]
    return VOID


@hook('renamed')
def h_renamed(I, f, this, a):
    """Collections filled from here on are described exactly on this key alone."""
    if abstract(I):
        I.cfg.named = [I.read(a[0])]
    return VOID


@hook('assume_absent')
def h_assume_absent(I, f, this, a):
    """The value equals none of the n elements of the block."""
    p, y = a[0], I.read(a[2])
    b = I.get(V('Loc', p.a[0].a[0], p.a[0].a[1][:-1])) if p.a[0] is not None else None
    name = segs_name(b)

    def rule(I, t):
        if t.a[0] == 'eq':
            for u, v in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if u == y and is_term(v) and v.a[0] == 'elem' and v.a[1] == name:
                    return False
        return None
    I.cfg.rules = I.cfg.rules + [rule]
    return VOID


def segs_name(b):
    if b is None or not b.a[2]:
        return None
    return b.a[2][0][1].a[1]


@hook('assume_no_image')
def h_assume_no_image(I, f, this, a):
    """No result of an opaque call equals the value."""
    y = I.read(a[0])

    def rule(I, t):
        if t.a[0] == 'eq':
            for u, v in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                if u == y and is_term(v) and v.a[0] == 'call':
                    return False
        return None
    I.cfg.rules = I.cfg.rules + [rule]
    return VOID


def rest_name(c):
    return None if c.a[2] is None or c.a[2].a[0] == 'none' else c.a[2].a[0]


@hook('assume_subset')
def h_assume_subset(I, f, this, a):
    """Every element of the first is an element of the second."""
    (la, x), (lb, y) = assoc_loc(I, a[0]), assoc_loc(I, a[1])
    for k, _ in x.a[1]:
        if I.models.assoc_find(I, lb, k).a[1] is None:
            raise Infeasible()
    if abstract(I):
        A, B = rest_name(x), rest_name(y)

        def rule(I, t):
            if t.a[0] == 'in':
                if t.a[1] == B and (t.a[2] == term('other', A) or I.facts.get(term('in', A, t.a[2]))):
                    return True
                if t.a[1] == A and I.facts.get(term('in', B, t.a[2])) is False:
                    return False
            return None
        I.cfg.rules = I.cfg.rules + [rule]
    return VOID


@hook('assume_disjoint')
def h_assume_disjoint(I, f, this, a):
    (la, x), (lb, y) = assoc_loc(I, a[0]), assoc_loc(I, a[1])
    for k, _ in x.a[1]:
        if I.models.assoc_find(I, lb, k).a[1] is not None:
            raise Infeasible()
    if abstract(I):
        A, B = rest_name(x), rest_name(y)

        def rule(I, t):
            if t.a[0] == 'in':
                for P, Q in ((A, B), (B, A)):
                    if t.a[1] == Q and (t.a[2] == term('other', P) or I.facts.get(term('in', P, t.a[2]))):
                        return False
            return None
        I.cfg.rules = I.cfg.rules + [rule]
    return VOID


# --- expected output --------------------------------------------------------------------------------------
# The text a stream is expected to receive is a sequence of parts: V('Lit', atom) and
# V('Each', n, body, separator), whose body and separator are atoms over the index #.  The progress of the
# output through it is part of the abstract state, so that loops that print are closed like any others.
class Expect:
    def __init__(self):
        self.parts = []
        self.body = None         # while an Each is being described
        self.sep = None
        self.index = None


def expects(I):
    if not hasattr(I, '_expect'):
        I._expect = {}
    return I._expect


def stream_name(I, l):
    v = I.get(l)
    if not (isinstance(v, V) and v.tag == 'OStream'):
        I.unknown('not an output stream: %s' % show(v))
    return v.a[0]


@hook('stream')
def h_stream(I, f, this, a):
    I.n += 1
    name = 'stream%d' % I.n
    return I.newroot(V('OStream', name, term('fmt', name), None), 'caller stream', None)


@hook('nuls')
def h_nuls(I, f, this, a):
    I.mon['nuls'] = ONE
    return VOID


@hook('expect')
def h_expect(I, f, this, a):
    name = stream_name(I, a[0])
    expects(I)[name] = Expect()
    I.mon[('out', name)] = V('At', 0, ZERO, 0)          # part, repetition, atom within it
    I.cfg.monitor = on_output
    return VOID


@hook('then')
def h_then(I, f, this, a):
    x = expects(I)[stream_name(I, a[0])]
    i = f['params'][1]['t']
    v = I.argval(a[1])
    atoms = I.models.atoms_for(I, a[0], v, i)
    return add_parts(I, x, atoms)


@hook('then_digit')
def h_then_digit(I, f, this, a):
    return add_parts(I, expects(I)[stream_name(I, a[0])], (term('digit', a[1]),))


def add_parts(I, x, atoms):
    for t in atoms:
        if x.body is None:
            x.parts.append(V('Lit', t))
        else:
            (x.body if x.sep is None else x.sep).append(t)
    return VOID


@hook('each')
def h_each(I, f, this, a):
    x = expects(I)[stream_name(I, a[0])]
    x.body, x.sep, x.n = [], None, a[1]
    q = I.fresh('q')
    x.index = q
    I.assume_ge(q)
    I.assume_ge(a[1] - 1 - q)
    return q


@hook('separator')
def h_separator(I, f, this, a):
    expects(I)[stream_name(I, a[0])].sep = []
    return VOID


def requantify(v, q):
    return vmap(v, lambda e: e.subst({q: HASH}))


@hook('each_end')
def h_each_end(I, f, this, a):
    x = expects(I)[stream_name(I, a[0])]
    q = x.index.c[0][0]
    x.parts.append(V('Each', x.n, tuple(requantify(t, q) for t in x.body), tuple(requantify(t, q) for t in x.sep or ())))
    x.body = x.sep = None
    return VOID


@hook('expected')
def h_expected(I, f, this, a):
    name = stream_name(I, a[0])
    parts = expects(I)[name].parts
    if ('bad', name) in I.mon:
        return VOID
    i, k, j = I.mon[('out', name)].a
    while i < len(parts):
        p = parts[i]
        if p.tag == 'Each' and (j == len(p.a[1]) and I.eq(p.a[0] - k - 1)):
            i, k, j = i + 1, ZERO, 0
            continue
        I.fail('postcondition', 'output ends before %s' % describe(I, p, k, j))
    I.claims = getattr(I, 'claims', 0) + 1
    return VOID


def describe(I, p, k, j):
    if p.tag == 'Lit':
        return atoms_text((p.a[0],))
    if j < len(p.a[1]):
        return atoms_text((inst(p.a[1][j], k),))
    return 'the separator or the end of the elements'


@hook('trace')
def h_trace(I, f, this, a):
    l = a[0]
    I.mon['trace'] = V('Lines', ZERO, 0)
    I.trace = (l, I.get(l).a[1])
    I.cfg.monitor = on_trace
    return VOID


@hook('lines')
def h_lines(I, f, this, a):
    return I.mon['trace'].a[0]


@hook('frames')
def h_frames(I, f, this, a):
    return I.mon.get('captured', L(-1))


@hook('trace_intact')
def h_trace_intact(I, f, this, a):
    l, fmt = I.trace
    return L(int(not I.mon['trace'].a[1] and I.get(l).a[1] == fmt))


def frames_of(v, out):
    if isinstance(v, V):
        if v.tag == 'T' and v.a[0] in ('frame', 'symbol') and len(v.a) == 2:
            out.append(v.a[1])
        for x in v.a:
            frames_of(x, out)
    elif isinstance(v, tuple):
        for x in v:
            frames_of(x, out)


def on_trace(I, name, atom):
    if name != I.get(I.trace[0]).a[0]:
        I.fail('postcondition', 'a stack trace writes to another stream')
    k, busy = I.mon['trace'].a
    if isinstance(atom, Lin) and atom.is_const():
        if atom.k == 10:
            if not busy:
                I.fail('postcondition', 'a line of the stack trace shows no frame')
            k, busy = k + 1, 0
    elif isinstance(atom, Lin):
        I.unknown('characters of a stack trace')
    else:
        fs = []
        frames_of(atom, fs)
        for e in fs:
            if not I.eq(e - k):
                I.fail('postcondition', 'line %s of the stack trace shows another frame' % show(k))
        if fs:
            busy = 1
    I.mon['trace'] = V('Lines', k, busy)


@hook('other_thread')
def h_other_thread(I, f, this, a):
    for i in list(I.globals):
        if I.p.vars.get(i, {}).get('tls'):
            del I.globals[i]
    for fr in I.frames:
        for i in list(fr.vars):
            if I.p.vars.get(i, {}).get('tls'):
                del fr.vars[i]
    return VOID


# --- texts that are kept ---------------------------------------------------------------------------------
def kept(I, x):
    v = I.get(x) if isinstance(x, V) and x.tag == 'Loc' else x
    if isinstance(v, V) and v.tag == 'OStream':
        if v.a[2] is None:
            I.unknown('what a stream has received')
        t = v.a[2]
    else:
        t = I.models.str_of(I, v)
    if any(x == V('Many') for x in t):
        I.unknown('collected output')
    return t


@hook('listen')
def h_listen(I, f, this, a):
    v = I.get(a[0])
    I.put(a[0], V('OStream', v.a[0], v.a[1], ()))
    return VOID


@hook('silent')
def h_silent(I, f, this, a):
    return L(int(not kept(I, a[0])))


def occurrences(t, s):
    return [i for i in range(len(t) - len(s) + 1) if t[i:i + len(s)] == s] if s else []


@hook('times')
def h_times(I, f, this, a):
    return L(len(occurrences(kept(I, a[0]), tuple(I.models.str_of(I, a[1])))))


@hook('lines_with')
def h_lines_with(I, f, this, a):
    t = kept(I, a[0])
    return L(sum(i == 0 or t[i - 1] == L(10) for i in occurrences(t, tuple(I.models.str_of(I, a[1])))))


@hook('whole_lines')
def h_whole_lines(I, f, this, a):
    t = kept(I, a[0])
    return L(int(not t or t[-1] == L(10)))


@hook('shows')
def h_shows(I, f, this, a):
    os = a[0] if isinstance(a[0], V) and a[0].tag == 'Loc' and I.get(a[0]).tag == 'OStream' else None
    if os is None:
        os = I.newroot(V('OStream', 'oss', term('fmt', 'default'), ()), 'stream')
    s = tuple(I.models.atoms_for(I, os, I.read(a[1]), f['targs'][0]['t']))
    return L(int(bool(occurrences(kept(I, a[0]), s))))


def on_output(I, name, atom):
    key = ('out', name)
    if key not in I.mon or ('bad', name) in I.mon:
        return
    parts = expects(I)[name].parts
    i, k, j = I.mon[key].a
    while True:
        if i >= len(parts):
            I.fail('postcondition', 'unexpected output %s after the end of the expected text' % atoms_text((atom,)))
        p = parts[i]
        if p.tag == 'Lit':
            want = p.a[0]
            nxt = (i + 1, ZERO, 0)
        else:
            n, body, sep = p.a
            if j == len(body):
                if I.eq(n - k - 1):
                    i, k, j = i + 1, ZERO, 0
                    continue
                if not sep:
                    k, j = k + 1, 0
            if j < len(body):
                want = inst(body[j], k)
            else:
                want = inst(sep[j - len(body)], k)
            nxt = (i, k, j + 1)
            if j + 1 == len(body) + len(sep) and sep:
                nxt = (i, k + 1, 0)
        break
    I.claims = getattr(I, 'claims', 0) + 1
    if not same_text(I, atom, want):
        I.fail('postcondition', 'output %s where %s is expected' % (atoms_text((atom,)), atoms_text((want,))))
    I.mon[key] = V('At', nxt[0], nxt[1], nxt[2])


def same_text(I, a, b):
    if is_term(b) and b.a[0] == 'digit' and isinstance(a, Lin):
        return I.eq(a - (49 if I.truth(b.a[1]) else 48))
    return I.same(a, b)


@hook('unroll')
def h_unroll(I, f, this, a):
    I.cfg.max_exact = max(I.cfg.max_exact, a[0].k)
    I.cfg.max_unroll = max(I.cfg.max_unroll, a[0].k)
    if a[0].k >= 500:
        I.cfg.max_steps = 12000000
    return VOID


def config():
    c = Config()
    c.hooks = dict(HOOKS)
    return c


def scenario_of(f):
    def scen(I):
        I.run(f)
        leak_check(I)
    return scen


def leak_check(I):
    for r, k in I.heap.items():
        raise Violated('leak', '%s is never released' % (I.rname.get(r) or 'storage from ' + k), I.allocsite.get(r, '?'), I.inside())
