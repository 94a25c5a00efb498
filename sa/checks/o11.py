"""O11: every observable quantity computes its defining formula."""

from .. import formula as F
from ..absint import Interp, Config, K, show, isk
from ..formula import Unknown
from ..model import AnalysisError

LEVEL = 'other'
EXPLANATION = (
    "Abstract interpretation of the implementation of every observable quantity "
    "(private helpers inlined): on every path that returns, the returned term is "
    "reduced to a canonical rational function over the primary simulated "
    "quantities, constants and parameters, and compared with the defining "
    "formula; alongside, the way each dimension is indexed, shifted, reduced "
    "and interpolated is tracked, so that each user index and each assumption "
    "is applied exactly once and never inside a whole-axis operation."
)
ASSUMPTIONS = [
    "numpy functions compute what their names say",
    "operators of physical arrays follow ordinary algebra (checked by N05-N08)",
    "constants and parameters denote the physical quantities they are named for",
]
M = 'eprempy.observable._interfaces'
C = M + ':Implementations'
GRID = ['time', 'shell']
DIST = GRID + ['species', 'energy', 'mu']
DIMS = {
    'time': ['time'], 'energy': ['energy'], 'v': ['energy'], 'mu': ['mu'],
    'mass': ['species'], 'charge': ['species'],
    **{k: GRID for k in ('r', 'theta', 'phi', 'br', 'btheta', 'bphi', 'ur',
                         'utheta', 'uphi', 'rho')},
    'f': DIST,
}
AXISLIKE = ('time', 'energy', 'v', 'mu', 'mass', 'charge')
PRIMARY = [k for k in DIMS if k not in AXISLIKE]
CONST_UNITS = {'MeV': 'energy', 'au': 'r', 'c': 'v'}
INTERP = ('time', 'shell', 'energy', 'mu')
NUMPY = {'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh',
         'tanh', 'exp', 'log', 'log10', 'log2', 'log1p', 'expm1', 'cbrt',
         'floor', 'ceil', 'sign', 'deg2rad', 'rad2deg', 'degrees', 'radians'}
REDUCE = {'sum', 'mean', 'cumsum', 'prod', 'cumprod', 'min', 'max', 'median',
          'std', 'var', 'trapz', 'nansum', 'nanmean'}
INDEXCLASS = 'numeric._index'


class Wrong(Exception):
    """A construct that breaks the property."""


class V:
    """What a term denotes."""

    def __init__(self, f, dims=(), status=None, unit=None):
        self.f = f
        self.dims = list(dims)
        self.status = dict(status or {})
        self.unit = unit

    def copy(self, **kw):
        v = V(self.f, self.dims, self.status, self.unit)
        for k, x in kw.items():
            setattr(v, k, x)
        return v


def merge(x, y):
    """The order of dimensions in a result, after `container.merge`."""
    both = [i for i in x if i in y]
    if not both:
        return x + y
    if both != [i for i in y if i in x]:
        raise Wrong(f"operands with dimensions {x} and {y}, in different order")
    out, a, b = [], 0, 0
    for v in both:
        i, j = x.index(v), y.index(v)
        out += x[a:i] + y[b:j] + [v]
        a, b = i + 1, j + 1
    return out + x[a:] + y[b:]


def combine(op, a, b):
    f = {'add': F.add, 'mul': F.mul, 'truediv': F.div}.get(op)
    if op == 'sub':
        value = F.add(a.f, b.f, -1)
    elif f:
        value = f(a.f, b.f)
    else:
        raise Unknown(f"operator {op}")
    dims = merge(a.dims, b.dims)
    status = dict(a.status)
    for k, s in b.status.items():
        t = status.get(k)
        if t is None or t == 'one':
            status[k] = s
        elif s == 'one' or s == t:
            pass
        else:
            raise Wrong(f"combines values {text(t)} along {k!r} with values "
                        f"{text(s)}")
    unit = None
    if op in ('add', 'sub'):
        if a.unit is not None and b.unit is not None and F.equal(a.unit, b.unit):
            unit = a.unit
    elif a.unit is not None and b.unit is not None:
        unit = f(a.unit, b.unit)
    return V(value, dims, status, unit)


def text(s):
    return {'full': 'at every index', 'one': 'of length one',
            'idx': 'at the requested indices', 'done': 'interpolated'}.get(s, s)


ONE = F.const(1)


class Reader:
    """Reads terms of one path of one method."""

    def __init__(self, P, name, facts, trace, results):
        self.P = P
        self.name = name
        self.facts = facts
        self.trace = trace
        self.results = results
        self.flux = facts.get(('truthy', self_attr('dataset', 'hasflux')))
        self.clipped = []

    # -- indices ---------------------------------------------------------

    def index(self, t, dim):
        """The status and shift an index term stands for."""
        if t is not None and t[0] == 'unbound':
            raise Wrong(f"uses {t[1]!r}, which is not defined")
        if t is None or t == K(None) or is_full(t):
            return 'full', ''
        if t == ('sym', dim):
            return 'idx', ''
        if t[0] == 'sym':
            raise Wrong(f"{dim!r} is indexed with the argument {t[1]!r}")
        if t[0] == 'call':
            f, args, kwargs = t[1], t[2], dict(t[3])
            if f == ('ext', 'builtins.int') and len(args) == 1:
                return self.index(args[0], dim)
            if f[0] == 'func' and f[1].endswith('_index:sequence') and \
                    len(args) == 1 and args[0][0] in ('list', 'tuple') and \
                    len(args[0][1]) == 1:
                return self.index(args[0][1][0], dim)
            if f[0] == 'func' and f[1].endswith('_index:sequence') and \
                    len(args) == 1 and args[0] == ('sym', dim):
                return 'idx', ''
            if f[0] == 'attr' and f[2] == 'shift':
                s, shift = self.index(f[1], dim)
                if shift:
                    raise Unknown('repeated shift')
                n = args[0] if args else kwargs.get('n') or kwargs.get('new')
                if not isk(n):
                    raise Unknown('shift by an unknown number')
                n = n[2]
                floor = args[1] if len(args) > 1 else kwargs.get('floor')
                ceil = args[2] if len(args) > 2 else kwargs.get('ceil')
                if n == 1 and ceil is not None and floor in (None, K(0)):
                    if not is_last(ceil, dim):
                        raise Wrong(f"the next {dim} is bounded by {show(ceil)}, "
                                    "not by the last index")
                    return s, 'next'
                if n == -1 and floor == K(0):
                    return s, 'prev'
                if n in (1, -1):
                    raise Wrong(f"the {dim} shifted by {n} may leave the axis")
                raise Wrong(f"the {dim} is shifted by {n}")
            if f[0] == 'attr' and f[2] == 'index' and not args and not kwargs \
                    and is_axis(f[1], dim):
                return self.default(dim), ''
        if t[0] == 'attr' and t[2] == 'indices' and is_axis(t[1], dim):
            return self.default(dim), ''
        if t[0] == 'sub' and t[1] == ('attr', axis(dim), 'indices'):
            if is_full(t[2]):
                return 'full', ''
            return f"restricted to {show(t[2])}", ''
        raise Unknown(f"index {show(t)}")

    def default(self, dim):
        """All indices along a dimension, in place of the argument or not."""
        kinds = {str(k[2]) for k, v in self.facts.items()
                 if k[0] == 'isa' and k[1] == ('sym', dim) and not v}
        none = any(
            k[:2] == ('op', 'is') and ('sym', dim) in k[2:] and v
            or k == ('truthy', ('sym', dim)) and not v
            or k == ('sym', dim) and not v for k, v in self.facts.items())
        if not kinds or none:
            return 'default' if kinds or none else 'full'
        for c in ('Value', 'Sequence'):
            if not any(c in k or 'index:Object' in k for k in kinds):
                raise Wrong(f"ignores a {dim} index that is a {c}")
        return 'default'

    # -- values ----------------------------------------------------------

    def value(self, t):
        tag = t[0]
        if tag == 'unbound':
            raise Wrong(f"uses {t[1]!r}, which is not defined")
        if t == K(None):
            raise Wrong("uses or returns None")
        if t == ('sym', 'assumptions'):
            raise Wrong("uses the assumptions as a value")
        if tag == 'k' and t[1] in ('int', 'float') and not isinstance(t[2], bool):
            return V(F.const(F.Fraction(t[2])), unit=ONE)
        if tag == 'op':
            return self.operation(t)
        if tag == 'attr':
            if t[2] in ('asscalar', 'data', 'array'):
                return self.value(t[1])
            if t[1] == ('attr', ('sym', 'self'), 'dataset'):
                return self.dataset(t[2])
            raise Unknown(f"attribute {show(t)}")
        if tag == 'sub':
            return self.subscript(t)
        if tag == 'call':
            return self.call(t)
        if tag in ('list', 'tuple') and len(t[1]) == 1:
            v = self.value(t[1][0])
            if v.dims:
                raise Unknown('list of arrays')
            return v.copy(dims=['?'], status={'?': 'one'})
        raise Unknown(f"{show(t)[:80]}")

    def dataset(self, name):
        if name == 'flux':
            dims = DIST[:4]
        elif name in DIMS:
            dims = DIMS[name]
        else:
            raise Unknown(f"dataset attribute {name}")
        return V(F.atom(('q', name, '')), dims, {d: 'full' for d in dims},
                 F.atom(('u', UNIT.get(name, name))))

    def subscript(self, t):
        base, i = t[1], t[2]
        if base == ('attr', ('sym', 'self'), 'constants') and isk(i):
            u = CONST_UNITS.get(i[2])
            return V(F.atom(('c', i[2], '')),
                     unit=F.atom(('u', UNIT.get(u, u))) if u else None)
        if base == ('attr', ('sym', 'self'), 'parameters') and isk(i):
            return V(F.atom(('p', i[2], '')))
        v = self.value(base)
        if i[0] not in ('tuple', 'list'):
            i = ('tuple', (i,))
        items = list(i[1])
        dots = [n for n, x in enumerate(items)
                if x[0] == 'k' and x[2] is Ellipsis]
        if len(dots) == 1:
            fill = [None] * (len(v.dims) - len(items) + 1)
            items[dots[0]:dots[0] + 1] = fill
        if len(items) != len(v.dims):
            raise Unknown(f"subscript {show(i)}")
        for d, x in zip(v.dims, items):
            s, shift = self.index(x, d)
            v = self.restrict(v, d, s, shift)
        return v

    def restrict(self, v, d, s, shift):
        if s == 'full' and not shift:
            return v
        if v.status[d] != 'full':
            raise Wrong(f"the {d} dimension is indexed again after it was "
                        f"{text(v.status[d])}")
        v = v.copy(status={**v.status, d: s})
        if shift:
            v.f = tagged(v.f, shift)
        return v

    def operation(self, t):
        op = t[1]
        if op in ('neg', 'usub'):
            v = self.value(t[2])
            return v.copy(f=F.neg(v.f))
        if op in ('pos', 'uadd'):
            return self.value(t[2])
        if op == 'pow':
            a, b = self.value(t[2]), self.value(t[3])
            if b.dims:
                raise Wrong(f"raises {F.show(a.f)[:60]} to the power of an array")
            unit = None
            if a.unit is not None:
                unit = F.symbolic(a.unit, b.f) if not F.equal(a.unit, ONE) else ONE
            return a.copy(f=F.symbolic(a.f, b.f), unit=unit)
        return combine(op, self.value(t[2]), self.value(t[3]))

    def call(self, t):
        f, args, kwargs = t[1], t[2], dict(t[3])
        if f == ('attr', ('sym', 'self'), '_observe'):
            return self.observe(args, kwargs)
        if f[0] == 'attr' and f[1] == ('sym', 'self'):
            return self.method(f[2], args, kwargs)
        if f[0] == 'attr':
            if f[2] in ('withunit', 'copy'):
                return self.withunit(self.value(f[1]), args, f[2])
            if f[2] == 'transpose':
                return self.transpose(self.value(f[1]), args)
            if f[2] in REDUCE:
                return self.reduce(f[2], (f[1], *args), kwargs)
        if f[0] == 'ext':
            return self.external(f[1], args, kwargs)
        if f[0] == 'func':
            n = f[1]
            if n == 'eprempy.physical:scalar' and args:
                return self.value(args[0]).copy(unit=self.unit(
                    args[1] if len(args) > 1 else kwargs.get('unit')))
            if n == 'eprempy.physical:array' and args:
                return self.array(args[0], kwargs)
            if n in ('eprempy.physical:tensor', 'eprempy.physical:vector') and args:
                return self.value(args[0])
        raise Unknown(f"call of {show(f)[:60]}")

    def withunit(self, v, args, name):
        return v

    def transpose(self, v, args):
        names = [x[2] for x in args if isk(x, str)]
        if len(names) != len(args) or not names:
            raise Unknown('transposition')
        if sorted(names) != sorted(v.dims):
            raise Wrong(f"transposes dimensions {v.dims} to {names}")
        return v.copy(dims=names)

    def external(self, name, args, kwargs):
        short = name.rpartition('.')[2]
        if name in ('builtins.abs', 'numpy.abs', 'numpy.absolute', 'numpy.fabs'):
            v = self.value(args[0])
            return v.copy(f=absolute(v.f))
        if name == 'builtins.float':
            return self.value(args[0])
        if not name.startswith('numpy.'):
            raise Unknown(f"call of {name}")
        if short in ('array', 'asarray', 'squeeze') and len(args) == 1:
            return self.value(args[0])
        if short == 'sqrt':
            v = self.value(args[0])
            return v.copy(f=F.power(v.f, F.Fraction(1, 2)),
                          unit=None if v.unit is None else
                          F.power(v.unit, F.Fraction(1, 2)))
        if short == 'square':
            v = self.value(args[0])
            return combine('mul', v, v)
        if short in ('multiply', 'divide', 'true_divide', 'add', 'subtract'):
            op = {'multiply': 'mul', 'add': 'add', 'subtract': 'sub'}.get(
                short, 'truediv')
            return combine(op, self.value(args[0]), self.value(args[1]))
        if short in ('power', 'float_power'):
            return self.operation(('op', 'pow', *args))
        if short == 'negative':
            return self.operation(('op', 'neg', args[0]))
        if short == 'hypot':
            a, b = self.value(args[0]), self.value(args[1])
            s = combine('add', combine('mul', a, a), combine('mul', b, b))
            return s.copy(f=F.power(s.f, F.Fraction(1, 2)), unit=a.unit)
        if short == 'clip':
            v = self.value(args[0])
            lo = args[1] if len(args) > 1 else kwargs.get('a_min')
            hi = args[2] if len(args) > 2 else kwargs.get('a_max')
            if num(lo) == -1 and num(hi) == 1:
                self.clipped.append(F.key(v.f))
                return v
            if num(lo) is None or num(hi) is None:
                raise Unknown('clip')
            raise Wrong(f"limits a value to [{num(lo)}, {num(hi)}]")
        if short in ('minimum', 'maximum') and len(args) == 2:
            n = [num(x) for x in args]
            want = 1 if short == 'minimum' else -1
            k = [i for i in (0, 1) if n[i] is not None]
            if len(k) == 1:
                if n[k[0]] != want:
                    raise Wrong(f"{short} with {n[k[0]]}")
                v = self.value(args[1 - k[0]])
                self.clipped.append((short, F.key(v.f)))
                return v
            raise Unknown(short)
        if short in NUMPY and len(args) == 1 and not kwargs:
            v = self.value(args[0])
            if short == 'arccos':
                self.check_clip(args[0], v)
            return v.copy(f=F.fn(short, v.f), unit=ONE if short != 'arccos' else
                          F.atom(('u', 'rad')))
        if short == 'gradient':
            return self.gradient(args, kwargs)
        if short in REDUCE:
            return self.reduce(short, args, kwargs)
        raise Unknown(f"call of {name}")

    def check_clip(self, t, v):
        """The argument of arccos must be limited to [-1, 1]."""
        k = F.key(v.f)
        if k in self.clipped or {('minimum', k), ('maximum', k)} <= set(
                self.clipped):
            return
        low = high = False
        for e in self.trace:
            if e.kind != 'setitem' or e.data[0] != t:
                continue
            mask, value = e.data[1], e.data[2]
            side = cut(mask, t)
            if side is None or num(value) is None:
                raise Unknown(f"assignment to {show(mask)[:60]}")
            op, bound = side
            if (op, bound, num(value)) in (('lt', -1, -1), ('le', -1, -1)):
                low = True
            elif (op, bound, num(value)) in (('gt', 1, 1), ('ge', 1, 1)):
                high = True
            else:
                raise Wrong(f"sets values {op} {bound} to {num(value)}")
        if not (low and high):
            raise Wrong("takes arccos of a ratio that rounding may carry outside "
                        "[-1, 1]")

    def gradient(self, args, kwargs):
        v = self.value(args[0])
        d = self.axis(v, kwargs.get('axis'))
        if v.status[d] != 'full':
            raise Wrong(f"takes the gradient along {d!r} of values "
                        f"{text(v.status[d])}")
        if len(args) == 1:
            return v.copy(f=F.fn('gradient', d, v.f))
        x = self.value(args[1])
        if len(args) > 2:
            raise Unknown('gradient with several coordinates')
        if x.dims and (x.dims != [d] or x.status[d] != 'full'):
            raise Wrong(f"takes the gradient along {d!r} with respect to a "
                        f"coordinate along {x.dims} {text(x.status[x.dims[0]])}")
        return v.copy(f=F.fn('gradient', d, v.f, x.f),
                      unit=None if v.unit is None or x.unit is None else
                      F.div(v.unit, x.unit))

    def axis(self, v, a):
        if a is None:
            raise Unknown('no axis')
        if not isk(a):
            raise Unknown(f"axis {show(a)}")
        if isinstance(a[2], str):
            if a[2] not in v.dims:
                raise Wrong(f"no dimension {a[2]!r} in {v.dims}")
            return a[2]
        if not isinstance(a[2], int):
            raise Unknown('axis')
        try:
            return v.dims[a[2]]
        except IndexError:
            raise Wrong(f"no axis {a[2]} in {v.dims}") from None

    def reduce(self, name, args, kwargs):
        v = self.value(args[0])
        a = args[1] if len(args) > 1 else kwargs.get('axis')
        if set(kwargs) - {'axis'} or len(args) > 2:
            raise Unknown(f"{name} with further arguments")
        if a is None and not v.dims:
            raise Unknown(f"{name} of a scalar")
        if a in (None, K(None)):
            raise Wrong(f"takes the {name} over every dimension")
        d = self.axis(v, a)
        if v.status[d] != 'full' and not (
                self.name == 'intflux' and v.status[d].startswith('restricted')):
            raise Wrong(f"takes the {name} along {d!r} of values "
                        f"{text(v.status[d])}")
        if name.startswith('cum'):
            return v.copy(f=F.fn(name, d, v.f))
        return v.copy(f=F.fn(name, d, v.f), dims=[x for x in v.dims if x != d],
                      status={k: s for k, s in v.status.items() if k != d})

    def array(self, data, kwargs):
        v = self.value(data)
        u = kwargs.get('unit')
        raw = israw(data)
        if u is None and raw and v.unit is not None:
            if not F.equal(v.unit, ONE):
                raise Wrong(f"drops the unit of data in {F.show(v.unit)}")
        if u is not None:
            new = self.unit(u, v)
            if new is not None and v.unit is not None and \
                    not F.equal(new, v.unit):
                raise Wrong(f"states the unit of {show(u)[:60]} for data in "
                            f"{F.show(v.unit)}")
            v = v.copy(unit=new)
        axes = kwargs.get('axes')
        if axes is None:
            if raw and v.dims:
                raise Wrong(f"drops the axes {v.dims}")
            return v
        if axes[0] == 'attr' and axes[2] == 'axes':
            w = self.value(axes[1])
            if v.dims == ['?']:
                return v.copy(dims=w.dims, status={d: 'one' for d in w.dims})
            if w.dims != v.dims:
                raise Wrong(f"gives axes {w.dims} to data with axes {v.dims}")
            if w.status != v.status:
                raise Wrong(f"gives the axes of values {w.status} to data "
                            f"{v.status}")
            return v
        if axes[0] == 'dict':
            keys = [k[2] for k, _ in axes[1] if isk(k, str)]
            if len(keys) != len(v.dims):
                return v
            if len(keys) == len(axes[1]) and keys != v.dims:
                raise Wrong(f"gives axes {keys} to data with axes {v.dims}")
            for k, a in axes[1]:
                if isk(k, str) and is_any_axis(a):
                    if not is_axis(a, k[2]):
                        raise Wrong(f"labels the {k[2]} axis with {show(a)}")
                    if v.status.get(k[2]) != 'full':
                        raise Wrong(f"gives the whole {k[2]} axis to values "
                                    f"{text(v.status.get(k[2]))}")
        return v

    def unit(self, t, data=None):
        """A unit term in the units of the primary quantities."""
        if t is None:
            return ONE
        if isk(t, str):
            return {'rad': F.atom(('u', 'rad')), '1': ONE}.get(
                t[2], F.atom(('u', t[2])))
        if t[0] == 'attr' and t[2] == 'unit':
            if t[1][0] == 'sub' and t[1][1] == ('attr', ('sym', 'self'), 'system'):
                return None
            return self.value(t[1]).unit
        if t[0] == 'op' and t[1] in ('mul', 'truediv'):
            a, b = self.unit(t[2]), self.unit(t[3])
            if a is None or b is None:
                return None
            return (F.mul if t[1] == 'mul' else F.div)(a, b)
        return None

    # -- calls of other quantities ----------------------------------------

    def bind(self, name, args, kwargs):
        found = self.P.lookup(C, name)
        if not found:
            raise Wrong(f"calls {name!r}, which is not defined")
        fn = found[1][1]
        a = fn.node.args
        names = [x.arg for x in a.args[1:]]
        out = dict(zip(names, args))
        out.update(kwargs)
        if len(args) > len(names) or set(kwargs) - set(names) - {
                x.arg for x in a.kwonlyargs}:
            raise Wrong(f"calls {name} with arguments it does not take")
        return out

    def method(self, name, args, kwargs):
        bound = self.bind(name, args, kwargs)
        if name in DIMS or name in self.results(None):
            base = self.results(name)
        else:
            raise Unknown(f"call of {name}")
        v = V(F.atom(('q', name, '')), base.dims,
              {d: 'full' for d in base.dims}, base.unit)
        tags = []
        for d in v.dims:
            s, shift = self.index(bound.pop(d, None), d)
            if s != 'full':
                v.status[d] = s
            if shift:
                tags.append(f"{d} {shift}")
        a = bound.pop('assumptions', None)
        for k, x in bound.items():
            if x != K(None) and k not in base.status:
                # An index along a dimension that is not in the result.
                if x != ('sym', k):
                    raise Unknown(f"argument {k} of {name}")
        if tags:
            v.f = F.atom(('q', name, ', '.join(tags)))
        if a == ('sym', 'assumptions'):
            for d in v.dims:
                if d in INTERP:
                    if v.status[d] not in ('idx', 'full'):
                        raise Unknown('interpolated shifted values')
                    v.status[d] = 'done' if v.status[d] == 'idx' else 'unindexed'
        elif a not in (None, K(None)):
            raise Unknown(f"assumptions {show(a)[:40]}")
        return v

    def observe(self, args, kwargs):
        v = self.value(args[0])
        a = args[1] if len(args) > 1 else kwargs.get('assumptions')
        indices = {k: x for k, x in kwargs.items() if k != 'assumptions'}
        for d in v.dims:
            s, shift = self.index(indices.get(d), d)
            if shift:
                raise Unknown('shifted index')
            if v.status[d] == 'default':
                v = v.copy(status={**v.status, d: 'idx'})
            v = self.restrict(v, d, s, '')
        if a in (None, K(None)):
            return v
        if a != ('sym', 'assumptions') and not (
                a[0] == 'sym' or a[0] == 'op' and a[1] == 'or'):
            raise Unknown(f"assumptions {show(a)[:40]}")
        status = dict(v.status)
        for d in v.dims:
            if d in INTERP:
                if status[d] in ('done', 'unindexed'):
                    raise Wrong(f"interpolates again along {d!r}")
                if status[d] == 'idx':
                    status[d] = 'done'
                elif status[d] == 'full':
                    status[d] = 'unindexed'
                elif status[d] == 'default':
                    status[d] = 'done'
        return v.copy(status=status)


UNIT = {'btheta': 'br', 'bphi': 'br', 'utheta': 'ur', 'uphi': 'ur'}


def tagged(f, shift):
    if len(f[0]) == 1:
        (m, c), = f[0].items()
        if c == 1 and len(m) == 1 and f[1] == F.ONE:
            (a, e), = m
            if e == 1 and a[0] == 'q':
                return F.atom(('q', a[1], shift))
    raise Unknown('shifted expression')


def absolute(f):
    if len(f[0]) == 1 and f[1] == F.ONE:
        (m, c), = f[0].items()
        if m == frozenset():
            return F.const(abs(c))
    a, b = F.key(f), F.key(F.neg(f))
    return F.fn('abs', min((f, F.neg(f)), key=lambda x: repr(sorted(
        (sorted(map(repr, m)), c) for m, c in x[0].items()))))


def israw(t):
    """Whether a term is certainly plain numeric data."""
    if t[0] == 'call' and t[1] in (('ext', 'numpy.array'), ('ext', 'numpy.asarray')):
        return True
    if t[0] == 'attr' and t[2] == 'data':
        return True
    return t[0] == 'op' and len(t) == 4 and all(
        israw(x) or x[0] == 'k' for x in t[2:])


def self_attr(*names):
    t = ('sym', 'self')
    for n in names:
        t = ('attr', t, n)
    return t


def axis(dim):
    return ('sub', ('attr', ('sym', 'self'), 'axes'), K(dim))


def is_axis(t, dim):
    return t == axis(dim) or t == ('attr', self_attr('axes'), dim)


def is_any_axis(t):
    return t[0] in ('sub', 'attr') and t[1] == self_attr('axes')


def is_full(t):
    if t[0] == 'call' and t[1] == ('ext', 'builtins.slice'):
        return all(x == K(None) for x in t[2])
    if t[0] == 'call' and t[1] == ('ext', 'builtins.int') and len(t[2]) == 1:
        return is_full(t[2][0])
    return t[0] == 'slice' and all(x in (None, K(None)) for x in t[1:])


def is_last(t, dim):
    """len(axis) - 1."""
    return t[0] == 'op' and t[1] == 'sub' and t[3] == K(1) and (
        t[2][0] == 'call' and t[2][1] == ('ext', 'builtins.len') and
        is_axis(t[2][2][0], dim)
        or t[2][0] == 'attr' and t[2][2] == 'size' and is_axis(t[2][1], dim))


def num(t):
    if t is None:
        return None
    if isk(t) and isinstance(t[2], (int, float)):
        return t[2]
    if t[0] == 'op' and t[1] in ('neg', 'usub') and isk(t[2]):
        return -t[2][2]
    if t[0] == 'op' and t[1] in ('pos', 'uadd') and isk(t[2]):
        return t[2][2]
    return None


def cut(mask, t):
    """(operator, bound) of a mask ``t < bound``."""
    if mask[0] == 'op' and len(mask) == 4 and mask[1] in ('lt', 'le', 'gt', 'ge'):
        if mask[2] == t and num(mask[3]) is not None:
            return mask[1], num(mask[3])
        if mask[3] == t and num(mask[2]) is not None:
            return {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}[mask[1]], \
                num(mask[2])
    return None


# -- the defining formulas ---------------------------------------------------

def q(name, tag=''):
    return F.atom(('q', name, tag))


def sq(x):
    return F.mul(x, x)


def sqrt(x):
    return F.power(x, F.Fraction(1, 2))


def prod(*xs):
    out = ONE
    for x in xs:
        out = F.mul(out, x)
    return out


def total(*xs):
    out = F.const(0)
    for x in xs:
        out = F.add(out, x)
    return out


def rigidity(e):
    c = F.atom(('c', 'c', ''))
    t = F.add(F.div(e, q('mass')), sq(c))
    p = F.mul(sqrt(F.add(sq(t), sq(sq(c)), -1)), F.div(q('mass'), c))
    return F.div(p, q('charge'))


def fiso(flux):
    if flux:
        return prod(F.const(F.Fraction(1, 2)), q('flux'), sq(q('mass')),
                    F.power(q('energy'), -1))
    return F.fn('mean', 'mu', q('f'))


def formulas(flux):
    """Name -> the formula it stands for, in terms of other quantities."""
    sin, cos = (lambda x: F.fn('sin', x)), (lambda x: F.fn('cos', x))
    out = {k: q(k) for k in DIMS}
    out['x'] = prod(q('r'), sin(q('theta')), cos(q('phi')))
    out['y'] = prod(q('r'), sin(q('theta')), sin(q('phi')))
    out['z'] = prod(q('r'), cos(q('theta')))
    for k in 'bu':
        out[f"{k}mag"] = sqrt(total(*[sq(q(f"{k}{c}"))
                                      for c in ('r', 'theta', 'phi')]))
    out['ubmag'] = prod(q('umag'), q('bmag'))
    out['udotb'] = total(*[prod(q(f"u{c}"), q(f"b{c}"))
                           for c in ('r', 'theta', 'phi')])
    out['angle'] = F.fn('arccos', F.div(q('udotb'), q('ubmag')))
    out['upara'] = F.div(q('udotb'), q('bmag'))
    out['uperp'] = sqrt(F.add(sq(q('umag')), sq(q('upara')), -1))
    out['divu'] = F.neg(F.div(F.fn('gradient', 'time', q('rho'), q('time')),
                              q('rho')))
    out['rigidity'] = rigidity(q('energy'))
    p = lambda n: F.atom(('p', n, ''))
    out['mfp'] = prod(
        p('lambda0'),
        F.symbolic(F.div(q('r'), F.atom(('c', 'au', ''))), p('mfpRadialPower')),
        F.symbolic(F.div(rigidity(q('energy')),
                         rigidity(F.atom(('c', 'MeV', '')))),
                   p('rigidityPower')))
    one, two = 'shell next', 'shell prev'

    def kappa(tag):
        return prod(
            q('mfp', tag),
            F.add(sq(cos(q('angle', tag))),
                  prod(p('kper / kpar'), sq(sin(q('angle', tag))))),
            q('v'), F.const(F.Fraction(1, 3)), F.power(q('umag', tag), -1))
    dot = total(*[prod(q(f"u{c}", one), q(f"u{c}", two))
                  for c in ('r', 'theta', 'phi')])
    out['ar'] = F.div(
        prod(q('umag', one), absolute(F.add(
            ONE, F.div(dot, sq(q('umag', one))), -1))),
        F.add(kappa(one), kappa(two)))
    dv = F.fn('gradient', 'energy', q('v'))
    four = sq(sq(q('v')))
    out['energy_density'] = prod(q('mass'), F.fn('sum', 'energy', prod(
        four, fiso(flux), dv)))
    out['average_energy'] = F.div(
        prod(F.const(F.Fraction(1, 2)), q('energy_density')),
        F.fn('sum', 'energy', prod(sq(q('v')), fiso(flux), dv)))
    out['flux'] = q('flux') if flux else F.div(
        prod(F.const(2), fiso(flux), q('energy')), sq(q('mass')))
    out['fluence'] = F.fn('cumsum', 'time', F.mul(
        q('flux'), F.add(q('time'), q('time', 'time prev'), -1)))
    out['intflux'] = F.fn('cumsum', 'energy', F.mul(
        q('flux'), F.add(q('energy'), q('energy', 'energy prev'), -1)))
    return out


DERIVED = ('x', 'y', 'z', 'bmag', 'umag', 'ubmag', 'udotb', 'angle', 'upara',
           'uperp', 'divu', 'rigidity', 'mfp', 'ar', 'energy_density',
           'average_energy', 'flux', 'fluence', 'intflux')
RESULT = {
    **DIMS, **{k: GRID for k in ('x', 'y', 'z', 'bmag', 'umag', 'ubmag', 'udotb',
                                 'angle', 'upara', 'uperp', 'divu')},
    'rigidity': ['species', 'energy'],
    **{k: DIST[:4] for k in ('mfp', 'ar', 'flux', 'fluence')},
    **{k: DIST[:3] for k in ('energy_density', 'average_energy')},
    'intflux': DIST[:4],
}


def outcomes(P, name):
    found = P.lookup(C, name)
    if not found:
        return None
    fn = found[1][1]
    a = fn.node.args
    names = [x.arg for x in a.args[1:] + a.kwonlyargs]
    keep = set(RESULT) | {'_observe', '_check_interp'}
    it = Interp(P, Config(inline=lambda g: g.module.name == M and
                          g.name not in keep, trace=True))
    outs = it.run(fn, selfclass=C, args={x: ('sym', x) for x in names})
    return fn, names, it, outs


def run(program, rep):
    P = program
    rep.rule('formula', "the implementation computes the defining formula", 25)
    rep.rule('indices', "each requested index and each assumption is applied "
             "exactly once, outside whole-axis operations", 25)
    rep.rule('definitions', "each name denotes the implementation of that name",
             30)
    rep.rule('integral', "the integral flux above a minimum energy integrates the "
             "flux from that energy up", 0)
    rep.rule('power law', "the flux at a minimum energy is interpolated by a power "
             "law", 0)
    if C not in P.classes:
        raise AnalysisError('Implementations not found')
    memo = {}

    def results(name):
        if name is None:
            return RESULT
        return memo.setdefault(name, V(None, RESULT[name], {
            d: 'full' for d in RESULT[name]},
            F.atom(('u', UNIT.get(name, name)))
            if name in DIMS or name == 'flux' else UNITS.get(name)))
    for name in RESULT:
        quantity(P, rep, name, results)
    definitions(P, rep)
    integral(P, rep, results)
    powerlaw(P, rep)


UNITS = {
    'umag': F.atom(('u', 'ur')), 'bmag': F.atom(('u', 'br')),
    'ubmag': F.mul(F.atom(('u', 'ur')), F.atom(('u', 'br'))),
    'udotb': F.mul(F.atom(('u', 'ur')), F.atom(('u', 'br'))),
    'upara': F.atom(('u', 'ur')), 'uperp': F.atom(('u', 'ur')),
    'angle': F.atom(('u', 'rad')), 'mfp': F.atom(('u', 'r')),
}


def quantity(P, rep, name, results):
    got = outcomes(P, name)
    if got is None:
        rep.ob('formula', name, False, 'there is no implementation')
        return
    fn, names, it, outs = got
    where = fn.where
    where = where() if callable(where) else where
    rep.count('implementations')
    seen = set()
    reached, refused = False, ''
    for o in outs:
        if o.kind != 'return':
            continue
        facts = o.st.facts
        flux = facts.get(('truthy', self_attr('dataset', 'hasflux')))
        if flux is None:
            flux = flux_fact(facts)
        t = it.snap(o.value, o.st)
        if name == 'intflux' and minimum_path(facts):
            continue
        if infeasible(facts):
            continue
        why = contradicted(Reader(P, name, facts, o.st.trace, results), facts)
        if why:
            refused = refused or why
            continue
        reached = True
        key = (t, flux)
        if key in seen:
            continue
        seen.add(key)
        rep.count('paths')
        label = name if flux is None else \
            f"{name} ({'flux' if flux else 'distribution'} dataset)"
        rd = Reader(P, name, facts, o.st.trace, results)
        try:
            v = rd.value(t)
        except Unknown as err:
            rep.ob('formula', label, None, f"not understood: {err}", where)
            continue
        except Wrong as err:
            rep.ob('indices', label, False, str(err), where)
            continue
        for variant in ([flux] if flux is not None else [False, True]):
            ref = formulas(variant)[name]
            if flux is None and name == 'flux':
                rep.ob('formula', label, False,
                       'does not distinguish the kinds of dataset', where)
                break
            try:
                ok = F.equal(v.f, ref)
            except Unknown as err:
                rep.ob('formula', label, None, str(err), where)
                break
            rep.ob('formula', label, ok,
                   '' if ok else f"computes {F.show(v.f)[:300]} instead of "
                   f"{F.show(ref)[:300]}", where)
        indices(rep, label, name, names, v, where, facts)
    if refused and not reached:
        rep.ob('formula', name, False, refused, where)


def contradicted(rd, facts):
    """Why these facts cannot hold of valid arguments."""
    for k, v in facts.items():
        if k[0] == 'op' and k[1] in ('eq', 'ne') and len(k) == 4:
            same = v == (k[1] == 'eq')
            if same:
                continue
            a, b = k[2], k[3]
            if not (a[0] == 'attr' and b[0] == 'attr' and a[2] == b[2]):
                continue
            try:
                x, y = rd.value(a[1]), rd.value(b[1])
            except (Unknown, Wrong):
                continue
            if a[2] == 'unit' and x.unit is not None and y.unit is not None \
                    and F.equal(x.unit, y.unit):
                return 'refuses operands with equal units'
            if a[2] == 'dimensions' and x.dims == y.dims:
                return 'refuses operands with equal dimensions'
        if k[0] == 'isa' and not v and str(k[2]).endswith(
                ('physical:Array', 'physical._array:Array')):
            try:
                rd.value(k[1])
            except (Unknown, Wrong):
                continue
            return f"refuses {show(k[1])[:80]}, which is an array"
    return ''


def flux_fact(facts):
    for k, x in facts.items():
        if k[0] in ('attr', 'call') and k == self_attr('dataset', 'hasflux'):
            return x
    return facts.get(self_attr('dataset', 'hasflux'))


def infeasible(facts):
    for k, v in facts.items():
        if k[0] == 'isa' and v and is_full(k[1]):
            return True
    return False


def minimum_path(facts):
    """Paths on which explicit minimum energies are given."""
    for k, v in facts.items():
        if k[0] == 'isa' and not v and 'slice' in str(k[2]):
            return True
    return False


def absent(facts, d):
    """Whether these facts say that the index along `d` was not given."""
    t = ('sym', d)
    for k, v in facts.items():
        if k in (t, ('truthy', t)) and not v:
            return True
        if k[:2] == ('op', 'is') and t in k[2:] and K(None) in k[2:] and v:
            return True
    return False


def indices(rep, label, name, names, v, where, facts):
    want = RESULT[name]
    if sorted(v.dims) != sorted(want):
        rep.ob('indices', label, False, f"has dimensions {v.dims} instead of "
               f"{want}", where)
        return
    if v.dims != want:
        rep.ob('indices', label, False, f"has dimensions in the order {v.dims} "
               f"instead of {want}", where)
        return
    bad = []
    for d in v.dims:
        s = v.status[d]
        if name == 'intflux' and d == 'energy':
            if s != 'full' and not s.startswith('restricted'):
                bad.append(f"{d} {text(s)}")
            continue
        if d not in names:
            bad.append(f"{d} cannot be requested")
        elif d in INTERP and name not in AXISLIKE:
            if 'assumptions' not in names:
                bad.append(f"assumptions about {d} cannot be given")
            elif s == 'idx':
                bad.append(f"assumptions about {d} are ignored")
            elif s == 'unindexed' or s == 'full':
                bad.append(f"the {d} index is ignored")
            elif s != 'done':
                bad.append(f"{d} {text(s)}")
        elif s == 'full':
            # axis-like quantities, when the argument is absent
            if name not in AXISLIKE or not absent(facts, d):
                bad.append(f"the {d} index is ignored")
        elif s == 'idx' and absent(facts, d):
            bad.append(f"the {d} index is used when there is none")
        elif s != 'idx':
            bad.append(f"{d} {text(s)}")
    rep.ob('indices', label, not bad, '; '.join(bad), where)


def definitions(P, rep):
    found = P.lookup(C, 'definitions')
    if not found:
        rep.ob('definitions', 'definitions', None, 'not found')
        return
    fn = found[1][1]
    it = Interp(P, Config())
    for o in it.run(fn, selfclass=C):
        if o.kind != 'return':
            continue
        t = it.snap(o.value, o.st)
        if t[0] != 'dict':
            continue
        for k, v in t[1]:
            if not isk(k, str):
                continue
            name = k[2].replace(' ', '_')
            got = None
            if v[0] == 'attr' and v[1] == ('sym', 'self'):
                got = v[2]
            elif v[0] in ('meth', 'bound'):
                got = next((x for x in v[1:] if isinstance(x, str)), '')
                got = got.rpartition('.')[2]
            if got:
                rep.ob('definitions', k[2], got == name,
                       f"{k[2]!r} denotes {got}", fn.where)
            else:
                rep.ob('definitions', k[2], None, f"{show(v)[:80]}")


def integral(P, rep, results):
    """The integral flux above explicit minimum energies."""
    found = P.lookup(C, 'intflux')
    if not found:
        return
    fn, names, it, outs = outcomes(P, 'intflux')
    where = fn.where
    for o in outs:
        if o.kind != 'return' or not minimum_path(o.st.facts):
            continue
        sets = [e for e in o.st.trace if e.kind == 'setitem']
        rd = Reader(P, 'intflux', o.st.facts, o.st.trace, results)
        done = False
        for e in sets:
            value = e.data[2]
            value = it.snap(value, o.st) if hasattr(it, 'snap') else value
            if not (value[0] == 'call' and value[1][0] == 'ext'):
                continue
            short = value[1][1].rpartition('.')[2]
            if short not in ('simpson', 'trapezoid', 'trapz', 'cumulative_trapezoid',
                             'simps'):
                continue
            args = dict(zip(('y', 'x'), value[2]))
            args.update(dict(value[3]))
            y, x = args.get('y'), args.get('x')
            problem = source(rd, y, 0) or source(rd, x, 1)
            if problem is None:
                continue
            rep.ob('integral', 'intflux', problem == 'ok', problem, where)
            done = True
        if not done and sets:
            rep.ob('integral', 'intflux', None, 'integration not recognised',
                   where)
        t = it.snap(o.value, o.st)
        if t == K(None):
            rep.ob('integral', 'intflux (result)', False, 'returns None', where)
        elif t[0] == 'call' and t[1] == self_attr('_observe') and t[2]:
            made(rep, rd, t[2][0], where)


def made(rep, rd, t, where):
    """The array of integral fluxes has the right unit and axes."""
    if t == K(None):
        rep.ob('integral', 'intflux (result)', False, 'observes None', where)
        return
    if t[0] != 'call' or t[1] != ('func', 'eprempy.physical:array'):
        rep.ob('integral', 'intflux (result)', None, show(t)[:80], where)
        return
    a = dict(zip(('data', 'unit', 'axes'), t[2]))
    a.update(dict(t[3]))
    problems = []
    try:
        want = F.mul(F.atom(('u', 'flux')), F.atom(('u', 'energy')))
        u = rd.unit(a.get('unit'))
        if u is not None and not F.equal(u, want):
            problems.append(f"unit {F.show(u)}")
        axes = a.get('axes')
        if axes is None:
            problems.append('no axes')
        elif axes[0] == 'op' and axes[1] in ('or_', 'and_'):
            names = [keys(x) for x in axes[2:]]
            if axes[1] == 'and_':
                problems.append('intersects the axes')
            elif None not in names and sum(names, []) != [
                    'time', 'shell', 'species', 'minimum energy']:
                problems.append(f"axes {sum(names, [])}")
    except (Unknown, Wrong) as err:
        rep.ob('integral', 'intflux (result)', None, str(err), where)
        return
    rep.ob('integral', 'intflux (result)', not problems,
           '; '.join(problems), where)


def keys(t):
    """The names of a collection of axes."""
    if t[0] == 'call' and t[1] == ('func', 'eprempy.physical:axes') and \
            len(t[2]) == 1 and t[2][0][0] == 'dict':
        ks = [k[2] if isk(k, str) else None for k, _ in t[2][0][1]]
        return None if None in ks else ks
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'without' and \
            t[1][1][0] == 'attr' and t[1][1][2] == 'axes':
        base = t[1][1][1]
        gone = [x[2] if isk(x, str) else None for x in t[2]]
        if None in gone or not (base[0] == 'call' and
                                base[1] == self_attr('flux')):
            return None
        if not set(gone) <= set(RESULT['flux']):
            raise Wrong(f"removes {gone}")
        return [d for d in RESULT['flux'] if d not in gone]
    return None


def source(rd, t, n):
    """Whether `t` is item n of the interpolation of flux over energy."""
    if t is None:
        return 'no coordinate is given'
    if not (t[0] in ('sub', 'item') and isk(t[2])):
        return None
    if t[2][2] != n:
        return f"integrates {show(t)[:100]} in place of item {n}"
    c = t[1]
    if not (c[0] == 'call' and c[1] == self_attr('_check_interp')):
        return None
    a = dict(zip(('y', 'x', 'p'), c[2]))
    a.update(dict(c[3]))
    try:
        y, x = rd.value(a['y']), rd.value(a['x'])
    except Wrong as err:
        return str(err)
    except (Unknown, KeyError):
        return None
    if not F.equal(y.f, q('flux')):
        return f"integrates {F.show(y.f)}"
    if not F.equal(x.f, q('energy')):
        return f"integrates over {F.show(x.f)}"
    if y.status.get('energy') != 'full' or x.status.get('energy') != 'full':
        return "integrates over part of the energies"
    return 'ok'


def powerlaw(P, rep):
    """The interpolation of flux at a lower bound."""
    found = P.lookup(C, '_check_interp')
    if not found:
        rep.ob('power law', '_check_interp', None, 'not found')
        return
    fn = found[1][1]
    it = Interp(P, Config(inline=lambda g: g.module.name == M, trace=True))
    outs = it.run(fn, selfclass=C, args={x: ('sym', x) for x in ('y', 'x', 'p')})
    X = ('call', ('ext', 'numpy.array'), (('sym', 'x'),), ())
    Y = ('call', ('ext', 'numpy.array'), (('sym', 'y'),), ())
    near = ('func', 'eprempy.container:nearest')
    low, x1 = F.atom(('x', '0')), F.atom(('x', '1'))
    y0, y1 = F.atom(('y', '0')), F.atom(('y', '1'))
    p = F.atom(('p', 'p'))
    want = F.mul(y0, F.symbolic(F.div(p, low), F.div(
        F.fn('log', F.div(y1, y0)), F.fn('log', F.div(x1, low)))))

    def found_at(t):
        """0 for the index of the bound, 1 for the next one."""
        if t[0] == 'op' and t[1] == 'add':
            for i, j in ((2, 3), (3, 2)):
                if isk(t[j], int):
                    n = found_at(t[i])
                    return None if n is None else n + t[j][2]
        if t[0] == 'op' and t[1] == 'sub' and isk(t[3], int):
            n = found_at(t[2])
            return None if n is None else n - t[3][2]
        if t[0] in ('sub', 'item') and t[2] == K(0) or \
                t[0] == 'attr' and t[2] == 'index':
            if nearest(t[1]):
                return 0
        return None

    def nearest(t):
        if t[0] != 'call' or t[1] != near:
            return False
        a = dict(zip(('values', 'target', 'bound'), t[2]))
        a.update(dict(t[3]))
        if a.get('values') != X or a.get('target') != ('sym', 'p'):
            raise Wrong(f"looks for {show(t)[:120]}")
        if a.get('bound') != K('upper'):
            raise Wrong("interpolates from a value which the minimum energy does "
                        "not bound")
        return True

    def place(t):
        """The offset of an index of the last axis."""
        if t[0] == 'tuple' and len(t[1]) == 2 and t[1][0][0] == 'k' and \
                t[1][0][2] is Ellipsis:
            return found_at(t[1][1])
        return None

    def value(t):
        if t == ('sym', 'p'):
            return p
        if t[0] == 'k' and isinstance(t[2], (int, float)):
            return F.const(F.Fraction(t[2]))
        if t[0] in ('sub', 'item'):
            if t[1] == X:
                n = found_at(t[2])
                if n in (0, 1):
                    return (low, x1)[n]
                if n is not None:
                    raise Wrong(f"uses the value at offset {n}")
            if t[1] == Y:
                n = place(t[2])
                if n in (0, 1):
                    return (y0, y1)[n]
                if n is not None:
                    raise Wrong(f"uses the flux at offset {n}")
            if t[2] == K(1) and nearest(t[1]):
                return low
        if t[0] == 'attr' and t[2] == 'value' and nearest(t[1]):
            return low
        if t[0] == 'op' and t[1] in ('mul', 'truediv', 'add', 'sub', 'pow'):
            a, b = value(t[2]), value(t[3])
            if t[1] == 'sub':
                return F.add(a, b, -1)
            return {'mul': F.mul, 'truediv': F.div, 'add': F.add,
                    'pow': F.symbolic}[t[1]](a, b)
        if t[0] == 'op' and t[1] in ('neg', 'usub'):
            return F.neg(value(t[2]))
        if t[0] == 'call' and t[1][0] == 'ext':
            n = t[1][1].rpartition('.')[2]
            if n == 'full_like' and len(t[2]) == 2:
                return value(t[2][1])
            if n in ('power', 'float_power'):
                return F.symbolic(value(t[2][0]), value(t[2][1]))
            if n in ('array', 'asarray', 'float') and len(t[2]) == 1:
                return value(t[2][0])
            if n in ('log', 'log10', 'log2', 'log1p', 'exp', 'sqrt') and \
                    len(t[2]) == 1:
                return F.fn(n, value(t[2][0]))
        raise Unknown(show(t)[:100])

    def start(t, base):
        if t[0] not in ('sub', 'item') or t[1] != base:
            return None
        i = t[2]
        if base == Y and i[0] == 'tuple' and len(i[1]) == 2:
            i = i[1][1]
        if i[0] == 'slice' and i[2] in (None, K(None)) and \
                i[3] in (None, K(None)):
            return found_at(i[1])
        return None

    accepted = None
    for o in outs:
        if o.kind != 'return':
            continue
        accepted = accepted or False
        t = it.snap(o.value, o.st)
        sets = [e for e in o.st.trace if e.kind == 'setitem']
        below = {k: v for k, v in o.st.facts.items()
                 if k[0] == 'op' and k[1] in ('lt', 'le', 'gt', 'ge')
                 and ('sym', 'p') in (k[2], k[3])}
        try:
            if not sets:
                ok = t[0] == 'tuple' and tuple(t[1]) == (Y, X)
                if not ok:
                    rep.ob('power law', 'below the first energy', None,
                           show(t)[:100], fn.where)
                    continue
                good = None
                if fits(o.st.facts, X, Y):
                    continue
                for k, v in below.items():
                    other = k[3] if k[2] == ('sym', 'p') else k[2]
                    op = k[1] if k[2] == ('sym', 'p') else {
                        'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}[k[1]]
                    text = show(other)
                    if '.min' in text or 'numpy.min' in text:
                        good = (op in ('lt', 'le')) == v
                    elif '.max' in text or 'numpy.max' in text:
                        good = False
                rep.ob('power law', 'below the first energy', good,
                       'leaves values unchanged above the first energy',
                       fn.where)
                continue
            if fits(o.st.facts, X, Y):
                continue
            accepted = True
            problems = []
            done = set()
            for e in sets:
                base, i, x = (it.snap(y, o.st) if isinstance(y, tuple) else y
                              for y in e.data[:3])
                if base == X:
                    n = found_at(i)
                    if n != 0:
                        problems.append(f"sets the energy at offset {n}"
                                        if n is not None else None)
                    elif x != ('sym', 'p'):
                        problems.append(f"sets the first energy to {show(x)}")
                    done.add('x')
                elif base == Y:
                    n = place(i)
                    if n != 0:
                        problems.append(f"sets the flux at offset {n}"
                                        if n is not None else None)
                    else:
                        v = value(x)
                        if not F.equal(v, want):
                            problems.append(f"computes {F.show(v)} instead of "
                                            f"{F.show(want)}")
                    done.add('y')
                elif base in (('sym', 'x'), ('sym', 'y')) or (
                        base[0] == 'call' and base[1] == (
                            'ext', 'numpy.asarray')):
                    problems.append(f"writes to its argument {show(base)}")
                    done |= {'x', 'y'}
                else:
                    problems.append(None)
            if done != {'x', 'y'}:
                problems.append(f"does not set {'xy'.strip(''.join(done))}")
            if t[0] == 'tuple' and len(t[1]) == 2:
                for part, base in zip(t[1], (Y, X)):
                    n = start(part, base)
                    if n is None:
                        problems.append(
                            'returns the two arrays in the wrong order'
                            if start(part, X if base == Y else Y) is not None
                            else f"returns all of {show(base)}"
                            if part == base else None)
                    elif n != 0:
                        problems.append(f"starts at offset {n}")
            else:
                problems.append(None)
            known = [x for x in problems if x]
            rep.ob('power law', 'at the minimum energy',
                   False if known else None if problems else True,
                   '; '.join(known), fn.where)
        except Wrong as err:
            rep.ob('power law', 'at the minimum energy', False, str(err), fn.where)
            accepted = True
        except Unknown as err:
            rep.ob('power law', 'at the minimum energy', None, str(err), fn.where)
            accepted = True
    if accepted is False:
        rep.ob('power law', 'valid arguments', False,
               'refuses a one-dimensional coordinate as long as the flux', fn.where)


def fits(facts, X, Y):
    """Whether these facts exclude a coordinate along the last axis."""
    def size(t, base):
        return t in (('attr', base, 'size'), ('sub', ('attr', base, 'shape'), K(-1)),
                     ('call', ('ext', 'builtins.len'), (base,), ()),
                     ('sub', ('attr', base, 'shape'),
                      K(0) if base == X else K(-1)))
    for k, v in facts.items():
        if k[0] == 'op' and k[1] in ('eq', 'ne') and len(k) == 4:
            same = v == (k[1] == 'eq')
            if same:
                continue
            a, b = k[2:]
            if {a, b} == {('attr', X, 'ndim'), K(1)}:
                return True
            if size(a, X) and size(b, Y) or size(a, Y) and size(b, X):
                return True
    return False

