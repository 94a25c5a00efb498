"""N07: results carry the unit the operation implies."""

from fractions import Fraction

from ..absint import K, show, subterms
from ..ops import built, as_op
from ..opspec import (A, B, KINDS, ADDITIVE, MULTIPLICATIVE, binary_kinds, owner,
                      strip, source, bare, operation)
from ..physops import physops
from ..unitexpr import UnitEqual, UA, UB, ONE, monomial, combine, power
from .n06 import feasible, PLAIN
from ..util import callname

LEVEL = 'other'
EXPLANATION = (
    "Path-sensitive abstract interpretation of the registered operators and "
    "functions of physical objects for every combination of operand kinds: on "
    "every path that returns, the unit given to the result is reduced to a "
    "product of powers of the operands' units, modulo the unit equalities the "
    "path conditions establish, and compared with the algebra of the operation."
)
ASSUMPTIONS = [
    "arithmetic on units follows the algebra of exponents",
    "user code does not register further implementations",
]
REDUCTIONS = ('numpy.squeeze', 'numpy.min', 'numpy.max', 'numpy.mean',
              'numpy.sum', 'numpy.cumsum', 'numpy.transpose')
TRIG = ('numpy.sin', 'numpy.cos', 'numpy.tan')
LOGS = ('numpy.log', 'numpy.log10', 'numpy.log2', 'numpy.log1p')
FACTORIES = {'scalar_factory': 'Scalar', 'vector_factory': 'Vector',
             'tensor_factory': 'Tensor', 'array_factory': 'Array'}


def run(program, rep):
    rep.rule('binary', "the unit of a binary operation's result follows from the "
             "units of its operands", 90)
    rep.rule('unary', "negation, absolute value, rounding and plus keep the unit",
             8)
    rep.rule('function', "the result of a function has the unit the function "
             "implies", 40)
    rep.rule('gradient', "a gradient has the unit of the object divided by the "
             "unit of the coordinates", 6)
    rep.rule('integral', "an integral has the unit of the object multiplied by the "
             "unit of the coordinates or of their spacing", 1)
    P = physops(program)
    for op in (*ADDITIVE, *MULTIPLICATIVE, 'pow'):
        for kinds in [*binary_kinds(), *((k, 'ndarray') for k in KINDS)]:
            if kinds[1] == 'ndarray' and op in (*ADDITIVE, 'pow'):
                continue
            binary(P, rep, op, kinds)
    for op in ('abs', 'pos', 'neg', 'round', 'floor', 'ceil', 'trunc'):
        for k in KINDS:
            res = P.outcomes(k, op, (k,))
            if res is None:
                continue
            results(P, rep, 'unary', f"{op}({k})", res, P.where(k, op),
                    lambda eq: [monomial(UA, eq)])
    for name in REDUCTIONS:
        for k in KINDS:
            for kw in (None, {'axis': ('sym', 'axis')}):
                res = P.outcomes(k, name, (k,), kwargs=kw)
                if res is None:
                    rep.ob('function', f"{name}({k})", False, "not implemented", '')
                    continue
                results(P, rep, 'function',
                        f"{name}({k}{', axis' if kw else ''})", res,
                        P.where(k, name), lambda eq: [monomial(UA, eq)],
                        selfok=True)
    for k in KINDS:
        res = P.outcomes(k, 'numpy.sqrt', (k,))
        if res is not None:
            results(P, rep, 'function', f"numpy.sqrt({k})", res,
                    P.where(k, 'numpy.sqrt'),
                    lambda eq: [power(monomial(UA, eq), Fraction(1, 2))])
        for name in (*TRIG, *LOGS):
            res = P.outcomes(k, name, (k,))
            if res is not None:
                results(P, rep, 'function', f"{name}({k})", res,
                        P.where(k, name), lambda eq: [{}])
    gradient(P, rep)
    integral(P, rep)


def results(P, rep, rule, what, res, where, want, selfok=False):
    """Compare the unit of each returned object with the wanted monomials."""
    for kind, t, facts in res:
        if kind != 'return' or not feasible(facts):
            continue
        if selfok and bare(t):
            rep.ob(rule, what, True, '', where)
            continue
        for item in items(t):
            one(rep, rule, what, item, facts, where, want)


def items(t):
    """The results in a returned list, or the result itself."""
    if t[0] in ('list', 'tuple'):
        out = []
        for x in t[1]:
            if x[0] in ('many', 'star'):
                x = x[1]
            out.append(x)
        return out
    return [t]


def one(rep, rule, what, t, facts, where, want, plain=()):
    b = built(t)
    if t == K(None):
        rep.ob(rule, what, False, "returns nothing", where)
        return
    if b is None or b.data is None:
        src = source(t)
        if src is not None and t[0] == 'attr':
            rep.ob(rule, what, False, f"returns {show(t)}, which has no unit",
                   where)
        else:
            rep.ob(rule, what, None, f"result {show(t)} not understood", where)
        return
    eq = UnitEqual(facts, plain)
    wants = want(eq)
    if b.unit is None or b.unit == K(None):
        missing = known_factory(b.maker) and bool_none(b)
        rep.ob(rule, what, any(w == {} for w in wants) if missing else None,
               f"the result {show(t)} is created without a unit", where)
        return
    got = monomial(b.unit, eq)
    if got is None:
        rep.ob(rule, what, None, f"unit {show(b.unit)} not understood", where)
        return
    rep.ob(rule, what, got in wants, f"the unit of the result is {show(b.unit)}",
           where)


def known_factory(name):
    return name in FACTORIES or name == 'Result'


def bool_none(b):
    """True when no other argument may carry the unit."""
    return not bare(b.data)


def binary(P, rep, op, kinds):
    cls = owner(kinds)
    res = P.outcomes(cls, op, kinds)
    if res is None:
        return
    what = f"{kinds[0]} {op} {kinds[1]}"
    where = P.where(cls, op)
    plain = [x for x, k in zip((A, B), kinds) if k in (*PLAIN, 'ndarray')]
    if op == 'pow' and plain and plain[0] == A:
        return                          # a number raised to an object

    def want(eq):
        ma, mb = monomial(UA, eq), monomial(UB, eq)
        if op in ADDITIVE:
            return [ma, mb] if not plain else [mb if plain[0] == A else ma]
        if op == 'mul':
            return [combine(ma, mb, 1)]
        if op in MULTIPLICATIVE:
            return [combine(ma, mb, -1)]
        p = ('attr', B, 'data')
        outs = []
        for x in (p, B, ('call', ('ext', 'builtins.float'), (B,), ()),
                  ('call', ('ext', 'builtins.float'), (p,), ())):
            m = monomial(('op', 'pow', UA, x), eq)
            if m not in outs:
                outs.append(m)
        if not ma:
            outs.append({})
        return outs

    for kind, t, facts in res:
        if kind != 'return' or not feasible(facts):
            continue
        for item in items(t):
            one(rep, 'binary', what, item, facts, where, want, plain)


def gradient(P, rep):
    for k in ('Vector', 'Array', 'Tensor'):
        for sp in (None, 'Scalar', 'Vector', 'Array', 'float', 'ndarray'):
            kinds = (k,) if sp is None else (k, sp)
            res = P.outcomes(k, 'numpy.gradient', kinds)
            if res is None:
                continue
            plain = [B] if sp in ('float', 'ndarray') else []
            what = f"gradient of {k}" + (f" over {sp}" if sp else '')
            n = 0
            for kind, t, facts in res:
                if kind != 'return' or not feasible(facts):
                    continue
                for item in items(t):
                    n += 1
                    one(rep, 'gradient', what, item, facts,
                        P.where(k, 'numpy.gradient'),
                        lambda eq: [monomial(UA, eq) if sp is None else
                                    combine(monomial(UA, eq), monomial(UB, eq), -1)],
                        plain)
            if not n:
                rep.ob('gradient', what, False, "never returns",
                       P.where(k, 'numpy.gradient'))


def integral(P, rep):
    """numpy.trapz over coordinates (x) or with a spacing (dx)."""
    for k in ('Vector', 'Array', 'Tensor'):
        for sp in (None, 'Vector', 'Array', 'ndarray', 'dx'):
            kinds = (k,) if sp in (None, 'dx') else (k, sp)
            res = P.outcomes(k, 'numpy.trapz', kinds,
                             kwargs={'dx': B} if sp == 'dx' else None)
            if res is None:
                continue
            what = f"integral of {k}" + (f" over {sp}" if sp else '')
            where = P.where(k, 'numpy.trapz')
            if not any(kind == 'return' and t != K(None) and feasible(facts)
                       for kind, t, facts in res):
                rep.ob('integral', what, False, "never returns", where)
            for kind, t, facts in res:
                if kind != 'return' or not feasible(facts):
                    continue
                units = spacing(sp, facts)
                for item in items(t):
                    b = built(item)
                    if units is None or (item != K(None) and (
                            b is None or b.data is None)):
                        continue        # a plain number has no unit
                    one(rep, 'integral', what, item, facts, where,
                        lambda eq: [monomial(UA, eq) if n == 0 else
                                    combine(monomial(UA, eq), monomial(UB, eq), 1)
                                    for n in units],
                        [B] if sp == 'ndarray' else [])


def spacing(sp, facts):
    """Powers of B's unit that the integral may carry on a path."""
    if sp in (None, 'ndarray'):
        return [0]
    if sp != 'dx':
        return [1]
    about = {f: v for f, v in facts.items() if B in subterms(f)
             and not any(x[:1] == ('call',) and B in subterms(x)
                         for x in subterms(f))}
    if not about:
        return [1]
    if len(about) > 1:
        return None
    (f, v), = about.items()
    if f[0] != 'isa' or f[1] != B or any(c[0] != 'class' for c in f[2]):
        return None
    return [int(bool(v))]
