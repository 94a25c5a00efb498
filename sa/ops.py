"""Operator terms, operator registrations and physical results."""

from .absint import Interp, Config, State, K, show, subterms
from .model import AnalysisError
from .util import inmodules

DUNDERS = {
    '__eq__': ('eq', 0), '__ne__': ('ne', 0), '__lt__': ('lt', 0),
    '__le__': ('le', 0), '__gt__': ('gt', 0), '__ge__': ('ge', 0),
    '__abs__': ('abs', 0), '__pos__': ('pos', 0), '__neg__': ('neg', 0),
    '__round__': ('round', 0), '__floor__': ('floor', 0),
    '__ceil__': ('ceil', 0), '__trunc__': ('trunc', 0),
    '__int__': ('int', 0), '__float__': ('float', 0),
    '__complex__': ('complex', 0),
}
for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
    DUNDERS[f'__{_n}__'] = (_n, 0)
    DUNDERS[f'__r{_n}__'] = (_n, 1)
    DUNDERS[f'__i{_n}__'] = (_n, 0)

UNARY = {'abs', 'pos', 'neg', 'round', 'floor', 'ceil', 'trunc', 'int', 'float',
         'complex'}
BINARY = {'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'add', 'sub', 'mul', 'truediv',
          'floordiv', 'mod', 'pow'}
EXTNAMES = {}
for _n in BINARY | UNARY:
    EXTNAMES[f'operator.{_n}'] = _n
for _n in ('pow', 'abs', 'round', 'int', 'float', 'complex'):
    EXTNAMES[f'builtins.{_n}'] = _n
for _n in ('floor', 'ceil', 'trunc'):
    EXTNAMES[f'math.{_n}'] = _n
EXTNAMES['math.pow'] = 'math.pow'
UFUNC = {'add': 'numpy.add', 'sub': 'numpy.subtract', 'mul': 'numpy.multiply',
         'truediv': 'numpy.true_divide', 'floordiv': 'numpy.floor_divide',
         'mod': 'numpy.mod', 'pow': 'numpy.power'}
UFUNC_OP = {v: k for k, v in UFUNC.items()}
UFUNC_OP.update({'numpy.divide': 'truediv', 'numpy.remainder': 'mod'})


def opname(t):
    """Operator name of a callable term, or None."""
    if t[0] == 'ext':
        return EXTNAMES.get(t[1])
    return None


def as_op(t):
    """(operator, args) when a term applies an operator, else None."""
    if t[0] == 'op' and t[1] in BINARY | UNARY:
        return t[1], t[2:]
    if t[0] == 'call':
        n = opname(t[1])
        if n and t[2]:
            return n, t[2]
        if t[1][0] == 'attr' and t[1][2] in DUNDERS:
            n, rev = DUNDERS[t[1][2]]
            args = (t[1][1], *t[2])
            return n, args[::-1] if rev else args
    return None


def roots(t):
    """Input symbols a term is computed from."""
    return {x for x in subterms(t) if x[0] == 'sym'}


IMPLEMENTS = ('eprempy.numeric._mixins:Operators.implements',
              'eprempy.numeric._mixins:Functions.implements')


class Registrations:
    """The operator implementations a module registers on classes."""

    def __init__(self, program, modname, inline=(), **cfg):
        self.p = program
        self.entries = []           # (class qual, op term, value term, state)
        self.count = 0
        models = dict(cfg.pop('models', {}))
        for c in ('implements',):
            models[('.', c)] = self._implements
        for q in self._methods():
            models[q] = self._implements
        self.cfg = Config(inline=inmodules(modname, *inline), models=models,
                          trace=False, **cfg)
        self.it = Interp(program, self.cfg)
        outs, self.frame = self.it.run_module(modname)
        outs = [o for o in outs if o.kind == 'fall']
        if len(outs) != 1:
            raise AnalysisError(
                f"{modname}: {len(outs)} normal outcomes of the module body")
        self.state = outs[0].st

    def _methods(self):
        for q, f in self.p.funcs.items():
            if f.name == 'implements' and f.cls:
                yield q

    def _implements(self, it, f, args, kwargs, st, node, fr):
        if f[0] == 'bound':
            recv = f[1]
        elif f[0] == 'attr':
            recv = f[1]
        else:
            return None
        if recv[0] != 'class':
            return None
        args = list(args) + list(kwargs.values())
        if f[0] == 'bound' and args and args[0] == recv:
            args = args[1:]
        if len(args) != 1:
            return None
        self.count += 1
        term = ('sym', f'<registration {self.count}>')
        cls, op = recv[1], it.snap(args[0], st)

        def register(it, f, args, kwargs, st, node, fr):
            self.entries.append((cls, op, args[0], node))
            return [(args[0], st)]
        self.cfg.models[term] = register
        return [(term, st)]

    def call(self, value, args, kwargs=None, types=None, facts=None):
        """[(kind, term, facts, state)] of calling a registered value."""
        st = self.state.copy()
        st.types.update(types or {})
        st.facts.update(facts or {})
        self.it.sinks.append([])
        self.it.steps = 0
        res = self.it.call(value, list(args), dict(kwargs or {}), st, None,
                           self.frame)
        raised = self.it.sinks.pop()
        out = [('return', self.it.snap(v, s), s) for v, s in res]
        out += [('raise', o.value, o.st) for o in raised]
        return out


# ----------------------------------------------------------------------
# operands of exactly known type
# ----------------------------------------------------------------------

NUMERIC_ABCS = {'numbers.Real', 'numbers.Number', 'numbers.Complex'}


def exact(program, types):
    """A decision procedure for isinstance tests on operands of known type.

    types: {term: class qualname, or 'float' / 'int' / 'ndarray'}.
    """
    def one(kind, c, it):
        if c[0] == 'sub':
            c = c[1]
        if kind in ('float', 'int', 'ndarray'):
            if c[0] == 'ext':
                if kind == 'ndarray':
                    return c[1] == 'numpy.ndarray' or (
                        None if c[1].startswith(('typing.', 'collections.'))
                        else False)
                if c[1] in NUMERIC_ABCS or c[1] == f"builtins.{kind}":
                    return True
                if c[1] == 'numbers.Integral':
                    return kind == 'int'
                if c[1] in ('typing.SupportsFloat', 'typing.SupportsInt'):
                    return True
                if c[1] in ('typing.SupportsIndex',):
                    return kind == 'int'
                if c[1].startswith(('numpy.', 'builtins.', 'pathlib.', 'typing.',
                                    'collections.')):
                    return False
                return None
            if c[0] == 'class':
                return None if it._structural(c[1]) else False
            return None
        if c[0] == 'class':
            if program.issub(kind, c[1]):
                return True
            if it._structural(c[1]):
                return None
            return False
        if c[0] == 'ext':
            if c[1] in program.extbases(kind):
                return True
            if c[1] in NUMERIC_ABCS or c[1] == 'numbers.Integral' or \
                    c[1].startswith(('numpy.', 'builtins.', 'pathlib.')):
                return False
        return None

    def result_class(t):
        """Class named by the return annotation of a called function."""
        if t[0] == 'call' and t[1][0] == 'func':
            f = program.funcs.get(t[1][1])
            node = f and f.node.returns
            if node is not None:
                from .model import dotted
                text = dotted(node)
                if text:
                    r = program.resolve_dotted(f.module.name, text)
                    if r and r[0] == 'class':
                        return r[1]
        return None

    def decide(it, atom, st):
        if atom[0] != 'isa':
            return None
        x, classes = atom[1], atom[2]
        kind = types.get(x) or result_class(x)
        if kind is None:
            return None
        res = [one(kind, c, it) for c in classes]
        if any(r is True for r in res):
            return True
        if res and all(r is False for r in res):
            return False
        return None
    return decide


class Built:
    """A measured result: data, unit and axes terms."""

    def __init__(self, maker, data, unit, axes):
        self.maker, self.data, self.unit, self.axes = maker, data, unit, axes


def built(t):
    """Read `f(data, unit=..., axes=...)` or Result(...).apply(f); else None."""
    while t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'apply':
        t = t[1][1]
    if t[0] == 'call' and t[1][0] in ('func', 'class', 'attr', 'new') and t[2]:
        name = t[1][-1] if t[1][0] == 'attr' else t[1][1].split(':')[-1]
        kw = dict(t[3])
        pos = t[2]
        unit = kw.get('unit', pos[1] if len(pos) > 1 else None)
        axes = kw.get('axes', pos[2] if len(pos) > 2 else None)
        return Built(name, pos[0], unit, axes)
    if t[0] == 'new':
        kw = dict(t[3])
        pos = t[2]
        return Built(t[1].split(':')[-1], pos[0] if pos else None,
                     kw.get('unit', pos[1] if len(pos) > 1 else None),
                     kw.get('axes', pos[2] if len(pos) > 2 else None))
    return None
