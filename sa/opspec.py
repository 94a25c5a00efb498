"""Reading the outcomes of operators on physical and real objects."""

from .absint import K, show, subterms, isk
from .ops import as_op, built, UFUNC_OP, UNARY, BINARY
from .util import callname

A, B = ('sym', 'a'), ('sym', 'b')
KINDS = ('Scalar', 'Vector', 'Tensor', 'Array')
COMPARE = ('lt', 'le', 'gt', 'ge')
ADDITIVE = ('add', 'sub')
MULTIPLICATIVE = ('mul', 'truediv', 'floordiv', 'mod')
RANK = {'Scalar': 0, 'Vector': 1, 'Tensor': 2, 'Array': 3}
WRAPPERS = {'numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'builtins.float',
            'numpy.squeeze', 'numpy.ravel'}


def binary_kinds(number='float'):
    """Operand kinds of a binary operator on physical objects."""
    out = [(x, y) for x in KINDS for y in KINDS]
    out += [(number, y) for y in KINDS] + [(x, number) for x in KINDS]
    return out


def owner(kinds):
    """The class whose implementation python selects first."""
    return next(k for k in kinds if k in KINDS)


def source(t, field='data'):
    """The operand a `data` (or unit, axes) term belongs to, or None."""
    while True:
        if t in (A, B):
            return t
        if t[0] == 'attr' and t[2] in (field, 'array', '_data', '_object'):
            t = t[1]
        elif t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in WRAPPERS \
                and t[2]:
            t = t[2][0]
        elif t[0] == 'call' and callname(t) in ('measure', 'measurement') and t[2]:
            t = t[2][0]
        elif t[0] == 'call' and t[1][0] == 'func' and callname(t) in (
                'scalar_factory', 'vector_factory', 'tensor_factory',
                'array_factory') and len(t[2]) == 1 and not t[3]:
            t = t[2][0]
        else:
            return None


def bare(t):
    """True for the operand itself, possibly measured (no field taken)."""
    while t[0] == 'call' and callname(t) in ('measure', 'measurement') and t[2]:
        t = t[2][0]
    return t in (A, B)


def operation(t):
    """(op, args) of a data term, reading ufuncs and methods as operators."""
    got = as_op(t)
    if got:
        return got
    if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in UFUNC_OP:
        return UFUNC_OP[t[1][1]], t[2]
    return None


def field(t, name):
    """Operand whose attribute `name` the term is, else None."""
    if t is None:
        return None
    if t[0] == 'attr' and t[2] in (name, f"_{name}") and bare(t[1]):
        while t[1] not in (A, B):
            t = ('attr', t[1][2][0], t[2])
        return t[1]
    return None


def strip(t):
    """Reduce measured operands to the operand itself."""
    from .util import mapterm

    def fn(x):
        if x[0] == 'call' and callname(x) in ('measure', 'measurement') and x[2] \
                and x[2][0] in (A, B):
            return x[2][0]
        return x
    return mapterm(t, fn)


class Equal:
    """Equalities an outcome's path conditions establish."""

    def __init__(self, facts):
        self.parent = {}
        self.differ = set()
        for atom, v in facts.items():
            if atom[0] == 'op' and atom[1] == 'eq':
                a, b = strip(atom[2]), strip(atom[3])
                if v:
                    self.union(a, b)
                else:
                    self.differ.add((a, b))

    def find(self, x):
        while x in self.parent:
            x = self.parent[x]
        return x

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            self.parent[a] = b

    def same(self, a, b):
        return self.find(a) == self.find(b)


def unit(x):
    return ('attr', x, 'unit')


def axes(x):
    return ('attr', x, 'axes')


def truth(t, env):
    """Truth of a term under an assignment of atoms; None when unknown."""
    if t in env:
        return env[t]
    if isk(t):
        return bool(t[2])
    if t[0] == 'op' and t[1] == 'not':
        v = truth(t[2], env)
        return None if v is None else not v
    if t[0] == 'op' and t[1] in ('and', 'and_', 'or', 'or_'):
        vs = [truth(x, env) for x in t[2:]]
        if t[1].startswith('and'):
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    if t[0] == 'op' and t[1] == 'eq' and ('op', 'eq', t[3], t[2]) in env:
        return env[('op', 'eq', t[3], t[2])]
    if t[0] == 'op' and t[1] == 'ne':
        for x in (('op', 'eq', t[2], t[3]), ('op', 'eq', t[3], t[2])):
            if x in env:
                return not env[x]
    if t[0] == 'op' and t[1] in ('is', 'eq') and t[3] == K(None):
        return False
    if t[0] == 'call' and t[1] == ('ext', 'builtins.bool') and len(t[2]) == 1:
        return truth(t[2][0], env)
    return None


def consistent(facts, env):
    """Whether path conditions agree with an assignment; None when unsure."""
    unsure = False
    for atom, v in facts.items():
        if atom[0] == 'exc':
            continue
        got = truth(atom, env)
        if got is None:
            unsure = True
        elif got != bool(v):
            return False
    return None if unsure else True
