"""Unit terms of operator results as monomials over the operands' units."""

from fractions import Fraction

from .absint import K, show
from .ops import as_op
from .opspec import A, B, Equal, strip, unit
from .util import callname

ONE = K('1')
UA, UB = unit(A), unit(B)
MAKERS = ('unit', 'Unit', 'unit_factory', 'unitlike', 'str')


class UnitEqual(Equal):
    """Unit equalities the path conditions establish."""

    def __init__(self, facts, plain=()):
        super().__init__(facts)
        for x in plain:                 # plain numbers have no unit
            self.union(unit(x), ONE)
        for atom, v in facts.items():
            if atom[0] == 'attr' and atom[2] == 'isunitless':
                x = strip(atom[1])
                if x in (A, B):
                    if v:
                        self.union(unit(x), ONE)
                    else:
                        self.differ.add((unit(x), ONE))
            if atom[0] == 'op' and atom[1] == 'eq' and v:
                a, b = (unstr(strip(x)) for x in atom[2:4])
                self.union(a, b)

    def different(self, a, b):
        """True when the path conditions say the two units differ."""
        a, b = self.find(a), self.find(b)
        return any({self.find(unstr(x)), self.find(unstr(y))} == {a, b}
                   for x, y in self.differ)


def unstr(t):
    """str(unit) and unit(unit) read as the unit."""
    while t[0] == 'call' and len(t[2]) == 1 and not t[3] and \
            callname(t) in MAKERS:
        t = t[2][0]
    return t


def number(t):
    if t[0] == 'k' and isinstance(t[2], (int, float)) and \
            not isinstance(t[2], bool):
        return Fraction(t[2]).limit_denominator(10**6)
    if t[0] == 'op' and t[1] == 'neg':
        n = number(t[2])
        return None if n is None else -n
    if t[0] == 'op' and t[1] == 'truediv':
        a, b = number(t[2]), number(t[3])
        return a / b if a is not None and b else None
    return None


def monomial(t, eq):
    """{atom: exponent} of a unit term, or None when not understood.

    The exponents are fractions; a symbolic power is one atom ('pow', u, p).
    """
    t = unstr(strip(t))
    if t == ONE or (number(t) == 1):
        return {}
    got = as_op(t)
    if got is None and t[0] == 'call' and t[1][0] == 'ext' and t[2]:
        n = t[1][1].split('.')[-1]
        alias = {'multiply': 'mul', 'divide': 'truediv', 'true_divide': 'truediv',
                 'power': 'pow'}.get(n)
        if alias:
            got = alias, t[2]
        elif n == 'sqrt':
            got = 'pow', (t[2][0], K(0.5))
    if got:
        op, args = got
        if op in ('mul', 'truediv') and len(args) == 2:
            a, b = monomial(args[0], eq), monomial(args[1], eq)
            if a is None or b is None:
                return None
            return combine(a, b, 1 if op == 'mul' else -1)
        if op == 'pow':
            a = monomial(args[0], eq)
            if a is None:
                return None
            n = number(args[1])
            if n is not None:
                return {k: v * n for k, v in a.items() if v * n}
            if not a:
                return {}
            return {('pow', k, strip(args[1])): v for k, v in a.items()}
        if op in ('abs', 'pos', 'neg', 'round', 'floor', 'ceil', 'trunc'):
            return monomial(args[0], eq)
        return None
    if t in (UA, UB):
        r = eq.find(t)
        if r == eq.find(ONE):
            return {}
        return {r: Fraction(1)}
    if t[0] == 'k' and isinstance(t[2], str):
        if eq.find(t) == eq.find(ONE):
            return {}
        return {('k', t[2]): Fraction(1)}
    return None


def combine(a, b, sign):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + sign * v
        if not out[k]:
            del out[k]
    return out


def power(m, n):
    return {k: v * n for k, v in m.items() if v * n}
