"""Floating values that are exact: V('FL', n) is the integer n, V('Rat', n, d) is n/d."""
from fractions import Fraction
from math import gcd
from .lin import L, Lin, ZERO
from .vals import V


def rat(n, d):
    if d < 0:
        n, d = -n, -d
    g = d
    for _, k in n.c:
        g = gcd(g, int(k))
    g = gcd(g, int(n.k))
    if g > 1:
        n, d = n.divexact(g), d // g
    return V('FL', n) if d == 1 else V('Rat', n, d)


def parts(v):
    """Numerator and denominator, or None."""
    if isinstance(v, V) and v.tag == 'FL' and isinstance(v.a[0], Lin):
        return v.a[0], 1
    if isinstance(v, V) and v.tag == 'Rat':
        return v.a
    return None


def literal(s):
    try:
        f = Fraction(repr(float(s)))         # the shortest decimal that denotes it
    except (ValueError, OverflowError):
        return None
    if f.denominator > 10 ** 30 or abs(f.numerator) > 10 ** 30:
        return None
    return rat(L(f.numerator), f.denominator)


def add(x, y, op='+'):
    p, q = parts(x), parts(y)
    if p is None or q is None:
        return None
    a, b = p[0].scale(q[1]), q[0].scale(p[1])
    return rat(a + b if op == '+' else a - b, p[1] * q[1])


def mul(x, y):
    p, q = parts(x), parts(y)
    if p is None or q is None:
        return None
    if q[0].is_const():
        return rat(p[0].scale(q[0].k), p[1] * q[1])
    if p[0].is_const():
        return rat(q[0].scale(p[0].k), p[1] * q[1])
    return None


def div(x, y):
    q = parts(y)
    if x is None or q is None or not q[0].is_const() or q[0].k == 0:
        return None
    return mul(x, rat(L(q[1]), q[0].k))
