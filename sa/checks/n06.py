"""N06: operands whose units do not allow an operation are refused."""

from ..absint import K, show, subterms
from ..opspec import (A, B, KINDS, COMPARE, ADDITIVE, binary_kinds, owner, strip,
                      axes, truth, consistent, unit, Equal)
from ..ops import built
from ..physops import physops
from ..unitexpr import UnitEqual, UA, UB, ONE, unstr
from ..util import callname

LEVEL = 'other'
EXPLANATION = (
    "Path-sensitive abstract interpretation of the registered operators and "
    "functions of physical objects, for every combination of operand kinds: the "
    "path conditions of every path that returns a result must imply the unit "
    "relation the operation requires, and a path that returns must exist when "
    "the relation holds."
)
ASSUMPTIONS = [
    "equality of units is decided by the unit class",
    "user code does not register further implementations",
]
TRIG = ('numpy.sin', 'numpy.cos', 'numpy.tan')
LOGS = ('numpy.log', 'numpy.log10', 'numpy.log2', 'numpy.log1p')
PLAIN = ('float', 'int')


def run(program, rep):
    rep.rule('same', "a sum, difference or ordering of two measured objects is "
             "returned only on paths where their units are equal", 60)
    rep.rule('plain', "a plain number is added to or subtracted from a measured "
             "object only on paths where the object is unitless", 12)
    rep.rule('accept', "objects with equal units are accepted", 30)
    rep.rule('equality', "two objects are equal exactly when their values, their "
             "units and (for arrays) their axes are equal", 10)
    rep.rule('exponent', "a power is returned only on paths where the exponent is "
             "unitless, and for a non-scalar exponent the base too", 12)
    rep.rule('function', "a function that needs a particular unit returns only on "
             "paths where the argument has it", 12)
    rep.rule('spacing', "a gradient over coordinates with different units is "
             "refused", 1)
    P = physops(program)
    same(P, rep)
    equality(P, rep)
    exponent(P, rep)
    functions(P, rep)
    gradient(P, rep)


def feasible(facts):
    """False for paths the analysis cannot rule out but python can."""
    for atom, v in facts.items():
        if atom[0] == 'isa' and v and any(
                c[0] == 'class' and c[1].endswith(':Result') for c in atom[2]):
            x = atom[1]
            if x[0] == 'call' and x[1][0] == 'attr' and x[1][2] == 'apply':
                return False
            if x[0] == 'call' and x[1][0] == 'ext' and \
                    x[1][1].startswith('numpy.'):
                return False
        if atom[0] == 'isa' and atom[1] != strip(atom[1]) and \
                strip(atom[1]) in (A, B) and v and measured_kind(atom):
            return False
    return True


def measured_kind(atom):
    """Whether a test asks if a measured plain operand is a physical object."""
    names = {c[1].split(':')[-1] for c in atom[2] if c[0] == 'class'}
    return bool(names & set(KINDS)) and 'Object' not in names


def operands(kinds):
    return ' '.join(kinds)


def same(P, rep):
    for op in (*ADDITIVE, *COMPARE):
        for kinds in binary_kinds():
            cls = owner(kinds)
            res = P.outcomes(cls, op, kinds)
            if res is None:
                continue
            plain = [x for x, k in zip((A, B), kinds) if k in PLAIN]
            if plain and op in COMPARE:
                continue
            what = f"{kinds[0]} {op} {kinds[1]}"
            where = P.where(cls, op)
            returns = 0
            for kind, t, facts in res:
                if kind != 'return' or not feasible(facts):
                    continue
                returns += 1
                eq = UnitEqual(facts, plain)
                if plain:
                    x = UB if plain[0] == A else UA
                    raw = UnitEqual(facts)
                    ok = raw.same(x, ONE)
                    rep.ob('plain', what, ok,
                           "a number can be combined with an object that is not "
                           "unitless", where)
                else:
                    ok = eq.same(UA, UB)
                    rep.ob('same', what, ok, "returns a result for operands "
                           "with different units" if eq.different(UA, UB) else
                           "returns a result without comparing the units of the "
                           "operands", where)
            if op in ADDITIVE and 'Array' in kinds and 'Vector' in kinds:
                continue
            # same units must be accepted
            accepted = any(
                kind == 'return' and feasible(facts) and not
                UnitEqual(facts, plain).different(UA, UB)
                for kind, t, facts in res)
            rep.ob('accept', what, accepted,
                   "no path returns a result for equal units", where)


def equality(P, rep):
    for op in ('eq', 'ne'):
        for kinds in [(x, y) for x in KINDS for y in KINDS]:
            cls = owner(kinds)
            res = P.outcomes(cls, op, kinds)
            what = f"{kinds[0]} {op} {kinds[1]}"
            where = P.where(cls, op)
            if res is None:
                rep.ob('equality', what, False, "not implemented", where)
                continue
            arrays = kinds == ('Array', 'Array')
            cases = [(d, u, x) for d in (True, False) for u in (True, False)
                     for x in ((True, False) if arrays else (True,))]
            for d, u, x in cases:
                want = d and u and x
                if op == 'ne':
                    want = not want
                verdict, detail = None, "result not understood"
                for kind, t, facts in res:
                    if kind != 'return':
                        continue
                    facts = {abstract(a): v for a, v in facts.items()}
                    env = {('sym', 'data equal'): d, ('sym', 'unit equal'): u,
                           ('sym', 'axes equal'): x}
                    if consistent(facts, env) is False:
                        continue
                    got = truth(abstract(t), env)
                    if got is None:
                        continue
                    if got != want:
                        verdict = False
                        detail = (f"is {got} when the values are "
                                  f"{'equal' if d else 'different'}, the units "
                                  f"{'equal' if u else 'different'}" +
                                  (f" and the axes {'equal' if x else 'different'}"
                                   if arrays else ''))
                        break
                    verdict = True
                rep.ob('equality', f"{what} "
                       f"[values {d}, units {u}, axes {x}]", verdict, detail,
                       where)
    # anything else is unequal
    for op, want in (('eq', False), ('ne', True)):
        for k in KINDS:
            res = P.outcomes(k, op, (k, 'float'))
            for kind, t, facts in res or ():
                if kind == 'return':
                    got = truth(t, {})
                    rep.ob('equality', f"{k} {op} number",
                           None if got is None else got == want,
                           f"is {show(t)}", P.where(k, op))


def abstract(t):
    """Equality tests of data, units and axes read as three atoms."""
    from ..util import mapterm

    def fields(x):
        x = strip(x)
        if x[0] == 'attr' and x[1] in (A, B):
            return x[1], x[2]
        if x[0] == 'call' and callname(x) in ('array', 'asarray') and x[2] and \
                x[2][0] in (A, B):
            return x[2][0], 'data'
        return None

    def fn(x):
        pair = None
        if x[0] == 'op' and x[1] in ('eq', 'ne'):
            pair, neg = x[2:4], x[1] == 'ne'
        elif x[0] == 'call' and callname(x) in ('isequal', 'array_equal') and \
                len(x[2]) == 2:
            pair, neg = x[2], False
        if pair:
            got = [fields(y) for y in pair]
            if None not in got and {g[0] for g in got} == {A, B} and \
                    got[0][1] == got[1][1]:
                name = {'data': 'data equal', 'unit': 'unit equal',
                        'axes': 'axes equal', 'array': 'data equal'}.get(got[0][1])
                if name:
                    s = ('sym', name)
                    return ('op', 'not', s) if neg else s
        return x
    return mapterm(t, fn)


def exponent(P, rep):
    for kinds in binary_kinds():
        cls = owner(kinds)
        res = P.outcomes(cls, 'pow', kinds)
        if res is None:
            continue
        what = f"{kinds[0]} ** {kinds[1]}"
        where = P.where(cls, 'pow')
        returned = False
        for kind, t, facts in res:
            if kind != 'return' or not feasible(facts):
                continue
            returned = True
            if kinds[1] in PLAIN:
                continue
            eq = UnitEqual(facts)
            ok = eq.same(UB, ONE)
            rep.ob('exponent', what, ok,
                   "returns a result without requiring a unitless exponent", where)
            if kinds[0] not in PLAIN and kinds[1] != 'Scalar':
                rep.ob('exponent', f"{what}: base", eq.same(UA, ONE),
                       "returns a result without requiring a unitless base", where)
        rep.ob('exponent', f"{what} is defined", returned,
               "no path returns a result", where)


def functions(P, rep):
    for name in (*TRIG, *LOGS):
        for k in KINDS:
            res = P.outcomes(k, name, (k,))
            what = f"{name}({k})"
            if res is None:
                rep.ob('function', what, False, "not implemented", '')
                continue
            where = P.where(k, name)
            allowed = {'rad', 'deg'} if name in TRIG else {'1'}
            accepted = set()
            for kind, t, facts in res:
                if kind != 'return' or not feasible(facts):
                    continue
                got = unit_among(facts)
                if got is None:
                    eq = UnitEqual(facts)
                    if name in LOGS and eq.same(UA, ONE):
                        got = {'1'}
                if got is None:
                    other = any(mentions_unit(a) for a in facts)
                    rep.ob('function', what, None if other else False,
                           "returns a result without checking the unit", where)
                    continue
                accepted |= got
                rep.ob('function', what, got <= allowed,
                       f"accepts units {sorted(got)}", where)
            if accepted:
                rep.ob('function', f"{what} accepts {sorted(allowed)}",
                       allowed <= accepted, f"accepts only {sorted(accepted)}",
                       where)
            elif not any(r[0] == 'return' for r in res):
                rep.ob('function', what, False, "never returns", where)


def mentions_unit(t):
    return any(x == UA for x in subterms(t))


def unit_among(facts):
    """The unit strings the path conditions restrict the operand to."""
    out = None
    for atom, v in facts.items():
        if atom[0] != 'op' or not v:
            continue
        got = None
        if atom[1] == 'in' and unstr(strip(atom[2])) == UA and \
                atom[3][0] in ('set', 'tuple', 'list', 'frozenset'):
            items = [x[2] for x in atom[3][1] if x[0] == 'k']
            if len(items) == len(atom[3][1]):
                got = set(items)
        elif atom[1] == 'eq':
            x, y = unstr(strip(atom[2])), unstr(strip(atom[3]))
            if y == UA:
                x, y = y, x
            if x == UA and y[0] == 'k' and isinstance(y[2], str):
                got = {y[2]}
        if got is not None:
            out = got if out is None else out & got
    return out


def gradient(P, rep):
    res = P.outcomes('Array', 'numpy.gradient', ('Array', 'Scalar', 'Scalar'))
    if res is None:
        return
    from ..opspec import A as a
    C = ('sym', 'c')
    where = P.where('Array', 'numpy.gradient')
    P.types = {A: P.classes['Array'], B: P.classes['Scalar'],
               C: P.classes['Scalar']}
    e = P.implementation('Array', 'numpy.gradient')
    st = {A: P.classes['Array'], B: P.classes['Scalar'], C: P.classes['Scalar']}
    out = P.reg.call(e[0], [A, B, C], {}, types=st)
    n = 0
    for kind, t, s in out:
        if kind != 'return':
            continue
        n += 1
        eq = Equal(dict(s.facts))
        ok = eq.same(unit(B), unit(C)) or None
        if ok is None and eq_different(s.facts, C):
            ok = False
        if ok is None and not any(
                unit(C) in set(subterms(x)) for x in s.facts):
            ok = False
        rep.ob('spacing', 'gradient over two coordinates', ok,
               "coordinates with different units are accepted", where)
    rep.ob('spacing', 'gradient over coordinates with one unit', n > 0,
           "never returns", where)


def eq_different(facts, C):
    return any(v is False and a[0] == 'op' and a[1] == 'eq' and
               {strip(a[2]), strip(a[3])} == {unit(B), unit(C)}
               for a, v in facts.items())
