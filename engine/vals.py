"""Abstract values: linear integers (Lin) and uniform tagged trees (V)."""
from .lin import Lin, L, ZERO


class V:
    __slots__ = ('tag', 'a', '_h')

    def __init__(self, tag, *a):
        self.tag = tag
        self.a = a
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.tag, self.a))
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, V) and self.tag == o.tag and hash(self) == hash(o) and self.a == o.a)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        return show(self)


def show(v):
    if isinstance(v, Lin):
        return repr(v)
    if isinstance(v, V):
        if v.tag == 'T':
            if len(v.a) == 1:
                return str(v.a[0])
            return '%s(%s)' % (v.a[0], ','.join(show(x) for x in v.a[1:]))
        if v.tag == 'Loc':
            return '@%s%s' % (v.a[0], ''.join('[%r]' % p[1] if p[0] == 'i' else '.%s' % (p[1],) for p in v.a[1]))
        if v.tag == 'Rec':
            return '{%s}' % ', '.join('%s:%s' % (k[1], show(x)) for k, x in v.a[1])
        if v.tag == 'Str':
            return 'str"%s"' % atoms_text(v.a[0])
        return '%s(%s)' % (v.tag, ','.join(show(x) for x in v.a))
    if isinstance(v, tuple):
        return '(' + ','.join(show(x) for x in v) + ')'
    return str(v)


def atoms_text(atoms):
    out = ''
    for x in atoms:
        if isinstance(x, Lin) and x.is_const():
            try:
                out += chr(x.k)
            except ValueError:
                out += '?'
        else:
            out += '<%s>' % show(x)
    return out


RAW = V('RAW')            # storage without a live object
UNINIT = V('UNINIT')      # indeterminate scalar
UNKNOWN = V('UNKNOWN')    # a value the analysis does not track
VOID = V('VOID')
NULL = V('Ptr', None, ZERO)
HASH = Lin.sym('#')


def term(op, *args):
    return V('T', op, *args)


def is_term(v):
    return isinstance(v, V) and v.tag == 'T'


def loc(root, *path):
    return V('Loc', root, tuple(path))


def sub(l, *el):
    return V('Loc', l.a[0], l.a[1] + tuple(el))


def ptr(l):
    return V('Ptr', l, ZERO)


def is_null(p):
    return isinstance(p, V) and p.tag == 'Ptr' and p.a[0] is None


def strv(s):
    return V('Str', tuple(Lin.const(ord(ch)) for ch in s))


def rec(rid, fields):
    return V('Rec', rid, tuple(fields))


def rget(r, key):
    for k, v in r.a[1]:
        if k == key:
            return v
    return None


def rset(r, key, val):
    fs = r.a[1]
    for i, (k, _) in enumerate(fs):
        if k == key:
            return V('Rec', r.a[0], fs[:i] + ((key, val),) + fs[i + 1:])
    return V('Rec', r.a[0], fs + ((key, val),))


def vmap(v, f):
    """Maps every Lin inside v."""
    if isinstance(v, Lin):
        return f(v)
    if isinstance(v, V):
        if not v.a:
            return v
        a = tuple(vmap(x, f) for x in v.a)
        if all(x is y for x, y in zip(a, v.a)):
            return v
        return V(v.tag, *a)
    if isinstance(v, tuple):
        a = tuple(vmap(x, f) for x in v)
        if all(x is y for x, y in zip(a, v)):
            return v
        return a
    return v


def inst(template, e):
    """Instantiates a segment template at position e."""
    m = {'#': e}
    return vmap(template, lambda l: l.subst(m))


class Mismatch(Exception):
    pass


def vzip(a, b, f, g=None):
    """Walks two values of the same shape, combining corresponding Lins with f.
    g, if given, may combine two differing values itself (returning None to decline)."""
    if isinstance(a, Lin) and isinstance(b, Lin):
        return f(a, b)
    if isinstance(a, V) and isinstance(b, V):
        if g is not None:
            r = g(a, b)
            if r is not None:
                return r
        if a is b and not _has_lin(a):
            return a
        if a.tag != b.tag or len(a.a) != len(b.a):
            raise Mismatch('%s vs %s' % (show(a), show(b)))
        return V(a.tag, *[vzip(x, y, f, g) for x, y in zip(a.a, b.a)])
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            raise Mismatch('%s vs %s' % (show(a), show(b)))
        return tuple(vzip(x, y, f, g) for x, y in zip(a, b))
    if type(a) == type(b) and a == b:
        return a
    raise Mismatch('%s vs %s' % (show(a), show(b)))


def _has_lin(v):
    if isinstance(v, Lin):
        return bool(v.c)
    if isinstance(v, V):
        return any(_has_lin(x) for x in v.a)
    if isinstance(v, tuple):
        return any(_has_lin(x) for x in v)
    return False


def vsyms(v, out):
    if isinstance(v, Lin):
        for s, _ in v.c:
            out.add(s)
    elif isinstance(v, V):
        for x in v.a:
            vsyms(x, out)
    elif isinstance(v, tuple):
        for x in v:
            vsyms(x, out)


def vroots(v, out):
    if isinstance(v, V):
        if v.tag == 'Loc':
            out.add(v.a[0])
        for x in v.a:
            vroots(x, out)
    elif isinstance(v, tuple):
        for x in v:
            vroots(x, out)


def interpolate(v1, e1, v2):
    """Template t with t[e1]==v1 and t[e1+1]==v2, or None."""
    def f(a, b):
        d = b - a
        if not d.c and d.k == 0:
            return a
        if not d.is_const():
            raise Mismatch()
        # a + d*(# - e1)
        return a + (HASH - e1).scale(d.k)
    try:
        return vzip(v1, v2, f)
    except Mismatch:
        return None
