"""Sizes of units as monomials: which product of unit sizes a term computes.

A monomial maps atoms to exponents; an exponent maps symbolic exponent terms (or
1) to numbers.  ('V', x) is the size of the unit named by the term x, ('B', x)
the size of its unprefixed base unit, ('N', n) a number, ('T', x) another
quantity.
"""

from .absint import K, isk
from .util import callname

ONE = {}


def mul(a, b, sign=1):
    out = {k: dict(v) for k, v in a.items()}
    for k, e in b.items():
        cur = out.setdefault(k, {})
        for s, n in e.items():
            cur[s] = cur.get(s, 0) + sign * n
    return clean(out)


def clean(m):
    out = {}
    for k, e in m.items():
        e = {s: n for s, n in e.items() if n}
        if e:
            out[k] = e
    return out


def power(m, e):
    """m ** e for an exponent {symbol: number}."""
    out = {}
    for k, f in m.items():
        if set(f) == {1}:
            out[k] = {s: n * f[1] for s, n in e.items()}
        elif set(e) == {1}:
            out[k] = {s: n * e[1] for s, n in f.items()}
        else:
            return None
    return clean(out)


def V(x):
    return {('V', x): {1: 1}}


class Sizes:
    """Interprets terms, given contracts for calls and equalities of a path.

    contract(sizes, t) returns a monomial for a call term, None otherwise.
    """

    def __init__(self, contract, facts=()):
        self.contract = contract
        self.eq = {}
        self.eqexp = {}
        for a, v in dict(facts).items():
            if a[0] == 'op' and a[1] == 'eq' and v or \
                    a[0] == 'op' and a[1] == 'ne' and not v:
                self.learn(a[2], a[3])

    def learn(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x[0] == 'attr' and x[2] == 'exponent':
                e = self.exponent(y)
                if e is not None and y[0] == 'op':
                    self.eqexp[x] = e
                    return
        if a[0] == 'attr' and a[2] == 'base' and b[0] == 'attr' and b[2] == 'base':
            ua, ub = self.named(a[1]), self.named(b[1])
            if ua is not None and ub is not None:
                self.join(('B', ua), ('B', ub))
                return
        ua, ub = self.unit(a), self.unit(b)
        if ua is not None and ub is not None:
            self.join(('V', ua), ('V', ub))

    def join(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.eq[a] = b

    def find(self, a):
        while a in self.eq:
            a = self.eq[a]
        return a

    # ------------------------------------------------------------------

    def named(self, t):
        """The unit a NamedUnit-like term stands for."""
        if t[0] == 'call' and callname(t) == 'NamedUnit' and len(t[2]) == 1:
            return self.unit(t[2][0])
        return t if t[0] in ('sym', 'iter', 'sub', 'attr') else None

    def unit(self, t):
        """The unit a string, named unit, or expression stands for."""
        while True:
            if t[0] == 'call' and callname(t) in (
                    'NamedUnit', 'str', 'unit_factory', 'expression_factory',
                    'expression', 'Unit') and len(t[2]) == 1 and not t[3]:
                t = t[2][0]
            elif t[0] == 'attr' and t[2] in ('symbol', 'name'):
                t = t[1]
            elif t[0] == 'iter' and t[1][0] == 'call' and \
                    callname(t[1]) == '_get_aliases_of' and t[1][2]:
                t = t[1][2][0]
            elif t[0] in ('sym', 'iter', 'sub', 'attr', 'k'):
                return t
            else:
                return None

    def exponent(self, t):
        if isk(t, (int, float)) and not isinstance(t[2], bool):
            return {1: t[2]}
        if t in self.eqexp:
            return self.eqexp[t]
        if t[0] == 'op' and t[1] == 'neg' and len(t) == 3:
            e = self.exponent(t[2])
            return None if e is None else {s: -n for s, n in e.items()}
        if t[0] == 'op' and t[1] == 'mul' and isk(t[2], (int, float)):
            e = self.exponent(t[3])
            return None if e is None else {s: n * t[2][2] for s, n in e.items()}
        if t[0] in ('sym', 'attr', 'iter', 'sub'):
            return {t: 1}
        return None

    def size(self, x):
        return {self.find(('V', x)): {1: 1}}

    def mono(self, t):
        """The monomial a numeric term computes; None when not understood."""
        if isk(t, (int, float)) and not isinstance(t[2], bool):
            return {} if t[2] == 1 else {('N', t[2]): {1: 1}}
        if t[0] == 'op' and t[1] in ('mul', 'truediv') and len(t) == 4:
            a, b = self.mono(t[2]), self.mono(t[3])
            if a is None or b is None:
                return None
            return mul(a, b, 1 if t[1] == 'mul' else -1)
        if t[0] == 'op' and t[1] == 'pow' and len(t) == 4:
            a, e = self.mono(t[2]), self.exponent(t[3])
            return None if a is None or e is None else power(a, e)
        if t[0] == 'op' and t[1] in ('rshift', 'lshift') and len(t) == 4:
            a, b = self.unit(t[2]), self.unit(t[3])
            if a is None or b is None:
                return None
            if t[1] == 'lshift':
                a, b = b, a
            return mul(self.size(a), self.size(b), -1)
        if t[0] == 'call' and t[1] == ('ext', 'builtins.float') and len(t[2]) == 1:
            return self.mono(t[2][0])
        if t[0] == 'call':
            r = self.contract(self, t)
            if r is not None:
                return r
        if t[0] == 'attr' and t[2] == 'scale':
            u = self.named(t[1])
            if u is not None:
                return mul(self.size(u), {self.find(('B', u)): {1: 1}}, -1)
        r = self.contract(self, t)
        if r is not None:
            return r
        if t[0] == 'sym' or t[0] == 'attr' and t[2] == 'exponent':
            return {('T', t): {1: 1}}
        if t[0] == 'op' and t[1] in ('add', 'sub', 'floordiv', 'mod') and \
                all(self.mono(x) is not None for x in t[2:]):
            return {('T', t): {1: 1}}       # no product of sizes
        return None

    def ratio(self, a, b):
        return mul(self.size(self.unit(a)), self.size(self.unit(b)), -1)
