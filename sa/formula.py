"""Canonical form of algebraic value terms, to compare formulas.

A polynomial maps monomials to rational coefficients; a monomial is a frozenset
of (atom, exponent) pairs.  A formula is a pair (numerator, denominator).  Sums
with negative or fractional exponents become atoms themselves, so that two
formulas are equal when their cross products are.
"""

from fractions import Fraction


class Unknown(Exception):
    """A term that is not understood."""


ONE = {frozenset(): Fraction(1)}
ZERO = {}


def const(n):
    return ({frozenset(): Fraction(n)} if n else {}, ONE)


def atom(a):
    return ({frozenset([(a, Fraction(1))]): Fraction(1)}, ONE)


def madd(p, q, sign=1):
    out = dict(p)
    for m, c in q.items():
        c = out.get(m, 0) + sign * c
        if c:
            out[m] = c
        else:
            out.pop(m, None)
    return out


def mono(a, b, sign=1):
    out = dict(a)
    for k, e in b:
        e = out.get(k, 0) + sign * e
        if e:
            out[k] = e
        else:
            out.pop(k, None)
    return frozenset(out.items())


def pmul(p, q):
    if len(p) * len(q) > 4000:
        raise Unknown('too many terms')
    out = {}
    for m, c in p.items():
        for n, d in q.items():
            k = expand(mono(m, n))
            for kk, e in k.items():
                e = out.get(kk, 0) + c * d * e
                if e:
                    out[kk] = e
                else:
                    out.pop(kk, None)
    return out


def expand(m):
    """A monomial with integer powers of root atoms multiplied out."""
    for k, e in m:
        if k[0] == 'root' and e.denominator == 1 and e > 0:
            rest = frozenset(x for x in m if x[0] != k)
            out = {rest: Fraction(1)}
            for _ in range(int(e)):
                out = pmul(out, dict(k[1]))
            return out
    return {m: Fraction(1)}


def norm(f):
    """Divide by a monomial denominator; make other denominators monic."""
    p, q = f
    if not q:
        raise Unknown('division by zero')
    if not p:
        return ZERO, ONE
    lead = min(q, key=lambda m: sorted(map(repr, m)))
    c = q[lead]
    if len(q) == 1:
        return {mono(m, lead, -1): x / c for m, x in p.items()}, ONE
    return ({mono(m, lead, -1): x / c for m, x in p.items()},
            {mono(m, lead, -1): x / c for m, x in q.items()})


def add(f, g, sign=1):
    if f[1] == g[1]:
        return norm((madd(f[0], g[0], sign), f[1]))
    return norm((madd(pmul(f[0], g[1]), pmul(g[0], f[1]), sign),
                 pmul(f[1], g[1])))


def mul(f, g):
    return norm((pmul(f[0], g[0]), pmul(f[1], g[1])))


def inv(f):
    return norm((f[1], f[0]))


def div(f, g):
    return mul(f, inv(g))


def neg(f):
    return mul(const(-1), f)


def equal(f, g):
    return pmul(f[0], g[1]) == pmul(g[0], f[1])


def key(f):
    return (frozenset(f[0].items()), frozenset(f[1].items()))


def root(p, e):
    """A polynomial to a fractional power, as a polynomial."""
    if len(p) == 1:
        (m, c), = p.items()
        n = Fraction(1)
        if c != 1:
            r = _exact(c, e)
            if r is None:
                return {mono(frozenset((k, x * e) for k, x in m), frozenset(
                    [(('num', c), e)])): n}
            n = r
        return expand_all({frozenset((k, x * e) for k, x in m): n})
    return expand_all({frozenset([(('root', frozenset(p.items())), e)]):
                       Fraction(1)})


def expand_all(p):
    out = {}
    for m, c in p.items():
        for k, d in expand(m).items():
            out[k] = out.get(k, 0) + c * d
    return {k: v for k, v in out.items() if v}


def _exact(c, e):
    if e.denominator == 2 and c > 0:
        from math import isqrt
        a, b = isqrt(c.numerator), isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return Fraction(a, b) ** int(e * 2)
    return None


def power(f, e):
    e = Fraction(e)
    if e.denominator == 1:
        out = const(1)
        g = f if e > 0 else inv(f)
        for _ in range(abs(int(e))):
            out = mul(out, g)
        return out
    return norm((root(f[0], e), root(f[1], e)))


def symbolic(f, g):
    """f ** g for a symbolic exponent g."""
    if not g[0]:
        return const(1)
    if g[1] == ONE and list(g[0]) == [frozenset()]:
        return power(f, g[0][frozenset()])
    return atom(('pow', key(f), key(g)))


def fn(name, *args):
    return atom(('fn', name, *[key(a) if isinstance(a, tuple) and len(a) == 2 and
                               isinstance(a[0], dict) else a for a in args]))


def show(f):
    def sa(a):
        if a[0] == 'fn':
            return f"{a[1]}({', '.join(sk(x) for x in a[2:])})"
        if a[0] == 'pow':
            return f"({sk(a[1])})^({sk(a[2])})"
        if a[0] == 'root':
            return f"({sp(dict(a[1]))})"
        return '.'.join(str(x) for x in a[1:] if x) or str(a)

    def sk(k):
        if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], frozenset):
            return show((dict(k[0]), dict(k[1])))
        return str(k)

    def sm(m, c):
        parts = [str(c)] if c != 1 or not m else []
        parts += [sa(k) + (f"^{e}" if e != 1 else '')
                  for k, e in sorted(m, key=repr)]
        return '*'.join(parts)

    def sp(p):
        return ' + '.join(sm(m, c) for m, c in sorted(
            p.items(), key=lambda x: repr(sorted(map(repr, x[0]))))) or '0'
    s = sp(f[0])
    return s if f[1] == ONE else f"({s}) / ({sp(f[1])})"
