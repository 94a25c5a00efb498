"""T29: physical objects are made from the data, unit and axes given, and keep them."""

import ast

from ..model import Func
from ..spec import table, Case

LEVEL = 'other'
EXPLANATION = (
    "Abstract interpretation of the factories and classes of eprempy.physical, of the "
    "registries of eprempy.numeric and of the variables of eprempy.real. Functions are "
    "compared with decision tables, path by path: which data, unit and axes an object gets "
    "from each form of input, which input is refused, and what the object gives back."
)
ASSUMPTIONS = [
    "numpy arrays, numbers and mappings behave as documented",
    "measured objects hold their data and unit as property Q26 says",
]
P_ = 'eprempy.physical.'
F = P_ + '_object_factories:'
X = P_ + '_axis_factories:'
N = 'eprempy.numeric.'
R = 'eprempy.real.'
KNOWN = {'_wrap_factory', '_spawn', '_getattr', '_as_builtin', '_cast_to', '_create_plot',
         '_check_metadata'}


def extracted(g):
    """Whether a function is a helper that this check does not know."""
    return g.module.name.startswith(('eprempy.physical', 'eprempy.numeric', 'eprempy.real')) \
        and g.name[:1] == '_' and g.name[:2] != '__' and g.name not in KNOWN


def tables(P, rep, rule):
    def t(qual, params, cases, **k):
        k.setdefault('inline', extracted)
        table(P, rep, rule, qual, params, cases, **k)
    return t


def either(*p):
    return f"either({', '.join(p)})"


def run(P, rep):
    rep.rule('made', "objects get the data, unit and axes of the arguments", 10)
    rep.rule('fixed', "units and axes of existing objects are not replaced", 4)
    rep.rule('kept', "objects give the data, unit, axes and sizes they hold", 10)
    rep.rule('cast', "objects of one value, and no others, become numbers", 5)
    made(P, rep)
    fixed(P, rep)
    kept(P, rep)
    cast(P, rep)


def array(x):
    return either(f'numpy.array({x})', f'numpy.asarray({x})')


def made(P, rep):
    t = tables(P, rep, 'made')
    words = ('array', 'asarray', 'data', 'unit', 'ravel')
    held = 'isa(x, Scalar, measured.Value)'
    real = 'isa(x, numbers.Real)'
    axis = either('isa(x, physical.Coordinates)', 'isa(x, Coordinates)')
    plain = {held: False, real: False}
    obj = either('isa(x, measured.Object, Coordinates)', 'isa(x, Coordinates, measured.Object)')
    rows = []
    for c in (True, False):
        a = array('x.data') if c else array('x')
        one = f'{a}.size == 1'
        rows.append(Case('raise TypeError', {**plain, axis: c, one: False}, name=f'many {c}'))
        for o in ((True,) if c else (True, False)):
            unit = 'x.unit' if o else 'unit'
            rows.append(Case(f"return ({either(f'{a}.ravel()[0]', f'{a}.flatten()[0]')}, {unit})",
                             {**plain, axis: c, one: True, obj: o}, name=f'one {c} {o}'))
    t(F + 'scalar_args', 'x unit', [
        Case('return (x.data, x.unit)', {held: True}),
        Case('return (x, unit)', {held: False, real: True}),
        *rows,
    ], words=words, impossible=[{axis: True, obj: False}],
       wrong=['isa(x, measured.Object)', 'isa(x, measured.Value)', 'isa(x, Scalar)'])
    own = 'isa(x, Vector, Coordinates)'
    measured = 'isa(x, quantity.Measurement, Scalar)'
    scalar = 'isa(x, Scalar)'
    obj = 'isa(x, measured.Object)'
    one = f"{array('x')}.ndim == 1"
    t(F + 'vector_args', 'x unit', [
        Case('return (x.data, x.unit)', {own: True}),
        Case(f"return vector_args({array('[x.data]')}, x.unit)", {
            own: False, measured: True, scalar: True}),
        Case(f"return vector_args({array('x')}, x.unit)", {
            own: False, measured: True, scalar: False}),
        Case(f"return vector_args({array('x.data')}, x.unit)", {
            own: False, measured: False, obj: True}),
        Case('raise TypeError', {own: False, measured: False, obj: False, one: False}),
        Case(f"return ({array('x')}, unit)", {
            own: False, measured: False, obj: False, one: True}),
    ], words=words, wrong=['isa(x, Vector)', 'isa(x, quantity.Measurement)'])
    arr, own = 'isa(x, Array)', 'isa(x, Tensor)'
    obj = 'isa(x, measured.Object, Coordinates)'
    none = f"{array('x')}.ndim == 0"
    t(F + 'tensor_args', 'x unit', [
        Case('return (x.data.array, x.unit)', {arr: True}),
        Case('return (x.data, x.unit)', {arr: False, own: True}),
        Case(f"return tensor_args({array('[x.data]')}, x.unit)", {
            arr: False, own: False, measured: True, scalar: True}),
        Case(f"return tensor_args({array('x')}, x.unit)", {
            arr: False, own: False, measured: True, scalar: False}),
        Case(f"return tensor_args({array('x.data')}, x.unit)", {
            arr: False, own: False, measured: False, obj: True}),
        Case('raise TypeError', {
            arr: False, own: False, measured: False, obj: False, none: True}),
        Case(f"return ({array('x')}, unit)", {
            arr: False, own: False, measured: False, obj: False, none: False}),
    ], words=words, wrong=['isa(x, measured.Object)', 'isa(x, Coordinates)',
                           'isa(x, quantity.Measurement)'])
    rows = []
    for g in (True, False):
        data = 'real.array_factory(array_data(x), many(each(axes)))' if g \
            else 'real.array_factory(array_data(x))'
        for o in (True, False):
            rows.append(Case(
                f"return ({data}, {'x.unit' if o else 'unit'}, "
                f"array_axes({data}.shape, axes))",
                {arr: False, obj: o, 'axes': g}, name=f'{o} {g}'))
    t(F + 'array_args', 'x unit axes', [
        Case('return (x.data, x.unit, x.axes)', {arr: True}), *rows,
    ], words=('array_data', 'array_axes', 'array', 'unit'),
       wrong=['isa(x, measured.Object)', 'isa(x, Coordinates)'])
    is_ = {k: f'isa(x, {v})' for k, v in dict(
        real='real.Array', has='Tensor, Vector, measured.Sequence',
        one='Scalar, measured.Value', numpy='numpy.ndarray', number='numbers.Complex',
        seq='typing.Sequence').items()}
    def before(k):
        keys = list(is_)
        return {is_[j]: False for j in keys[:keys.index(k)]}
    def kind(k):
        return {**before(k), is_[k]: True}
    t(F + 'array_data', 'x', [
        Case('return x._object', kind('real')),
        Case('return x.data', kind('has')),
        Case(f"return {array('[x.data]')}", kind('one')),
        Case('return x', kind('numpy')),
        Case(f"return {array('[float(x)]')}", kind('number')),
        Case(f"return {array('x')}", kind('seq')),
        Case('return x', {v: False for v in is_.values()}),
    ], words=words + ('float', '_object'))
    mapping = 'isa(axes, typing.Mapping)'
    t(F + 'array_axes', 'shape axes', [
        Case('return axes_factory(axes)', {mapping: True, 'except': False}),
        Case('return axes_factory(shape=shape, dimensions=axes)', {
            mapping: False, 'except': False}),
        Case('raise TypeError', {mapping: False, 'except': True}),
        Case('raise _', {mapping: True, 'except': True}, choice=True, name='bad mapping'),
    ], words=('axes_factory', 'shape', 'axes'), maybe=('bad mapping',))
    for name, cls, args, conv in (
            ('scalar', 'Scalar', 'x unit', 'singular'),
            ('vector', 'Vector', 'x unit', 'arraylike'),
            ('tensor', 'Tensor', 'x unit', 'arraylike'),
            ('array', 'Array', 'x unit axes', 'converter')):
        got = f"{name}_args({', '.join(args.split())})"
        more = f', {got}[2]' if name == 'array' else ''
        t(F + name + '_factory', args, [
            Case(f'return {cls}({got}[0], context_factory({got}[1], {conv}){more})'),
        ], words=(f'{name}_args', 'context', 'converter', 'convert'))
    for name, cls in (('symbols', 'Symbols'), ('coordinates', 'Coordinates'),
                      ('points', 'Points')):
        t(X + name + '_factory', 'x', [Case(f'return {cls}({name}_args(x))')],
          words=(f'{name}_args',))


def fixed(P, rep):
    t = tables(P, rep, 'fixed')
    q = driver(P, N + '_objects', 'def _use_(f, key, x, keywords):\n'
               '    return _wrap_factory(f, key)(x, **keywords)\n')
    use = P.funcs[q]
    held = either('isa(x, numeric.Object)', 'isa(x, Object)')
    other = either('each(keywords) in (key,)', 'each(keywords) == key', 'each(keywords) in [key]',
                   'each(keywords) in {key}')
    none = 'keywords[each(keywords)] is None'
    table(P, rep, 'fixed', q, 'f key x keywords', [
        Case('raise ValueError', {held: True, other: False, none: False}),
        Case('return f(x, **keywords)', {held: False}),
        Case('return f(x, **keywords)', {held: True}, name='nothing new', choice=True),
    ], name='wrapped factory', ignore=('inspect',),
        wrong=['each(keywords) not in _', 'keywords[each(keywords)] is not None'],
        inline=lambda g: g is use or g.name == '_wrap_factory' or extracted(g))
    del P.funcs[q]
    Rg = N + '_objects:Registry'
    t(Rg + '.__init__', 'type', [
        Case('return _', stores={'_type': 'type', '_registered': "{'factory': type}"})])
    t(Rg + '.__len__', '', [Case('return len(self._registered)')])
    t(Rg + '.__iter__', '', [Case('return iter(self._registered)')])
    t(Rg + '.__getitem__', 'k', [
        Case('return self._registered[k]', {'except': False}),
        Case('raise KeyError', {'except': True}),
    ])
    t(N + '_objects:Registered._getattr', 'name', [
        Case('return self.registry[name]', {'except': False}),
        Case('raise AttributeError', {'except': True}),
    ])
    t(N + '_objects:Registered.factory', '', [Case("return self._getattr('factory')")])
    t(N + '_objects:Mixin.spawn', 'x **metadata', [
        Case('return _._spawn(x, **metadata)')])
    t(N + '_objects:Mixin._spawn', '*args **kwargs', [
        Case('return Mixin.registered.factory(*args, **kwargs)', {"Mixin.has('factory')": True}),
        Case('raise NotImplementedError', {"Mixin.has('factory')": False}),
    ])


def driver(P, module, source):
    """A function, in a module, that uses other functions of it."""
    m = P.modules[module]
    node = ast.parse(source).body[0]
    q = f"{module}:{node.name}"
    P.funcs[q] = Func(m, q, node)
    return q


def kept(P, rep):
    t = tables(P, rep, 'kept')
    O = P_ + '_object:Object'
    t(O + '.__measure__', '', [
        Case('return measurement(self.data, unit=self.unit)')], words=('data', 'unit'))
    for name in ('Vector', 'Tensor'):
        C = f"{P_}_{name.lower()}:{name}"
        t(C + '.__contains__', 'v', [Case('return v in self.data')], words=('in',))
        t(C + '.__len__', '', [Case('return len(self.data)')], words=('len', 'size'))
        t(C + '.__getitem__', 'i', [
            Case('return Scalar.spawn(self.data[i], unit=self.unit)', {'except': False}),
            Case('return type(self).spawn(self.data[i], unit=self.unit)', {'except': True}),
        ], words=('spawn', 'data', 'unit'))
        data = 'self.data' if name == 'Vector' else either(
            'numpy.array(self.data).flat', 'numpy.asarray(self.data).flat')
        t(C + '.__iter__', '', [
            Case(f'return [many(Scalar.spawn(each({data}), unit=self.unit))]')],
          words=('spawn', 'data', 'unit', 'array', 'unique', 'sort', 'flat', 'squeeze'))
        t(C + '.__array__', '*args **kwargs', [
            Case('return either(numpy.array(self.data, *args, **kwargs), '
                 'numpy.asarray(self.data, *args, **kwargs))')], words=('array', 'data'))
        t(C + '._get_numpy_array', '', [Case(f"return {array('self.data')}")],
          words=('array', 'data'))
        t(C + '.size', '', [Case('return self._size')])
    C = P_ + '_scalar:Scalar'
    t(C + '._get_numpy_array', '', [Case(f"return {array('self.data')}")],
      words=('array', 'data'))
    t(C + '.__init__', 'data context', [
        Case('raise TypeError', {'isa(data, base.Scalar)': False}),
        Case('return _', {'isa(data, base.Scalar)': True},
             does=['_.__init__(data, context)']),
    ])
    C = P_ + '_tensor:Tensor'
    t(C + '.__init__', 'data context', [
        Case('raise TypeError', {'isa(data, base.Array)': False}),
        Case('return _', {'isa(data, base.Array)': True}, does=['_.__init__(data, context)'],
             stores={'_size': 'data.size', '_ndim': 'data.ndim', '_shape': 'data.shape'}),
    ])
    t(C + '.ndim', '', [Case('return self._ndim')])
    t(C + '.shape', '', [Case('return self._shape')])
    a = either('numpy.asanyarray(data)', 'numpy.asarray(data)', 'numpy.array(data)')
    t(P_ + '_vector:Vector.__init__', 'data context', [
        Case('return _', does=[f'_.__init__({a}, context)'], stores={'_size': f'{a}.size'})])
    C = P_ + '_array:Array'
    t(C + '.__init__', 'data context axes', [
        Case('return _', does=['_.__init__(data, context)'],
             stores={'_data_interface': 'data', '_axes': 'axes', '_scale': '1.0',
                     '_scaled': 'None', '_squeezed': 'None'})])
    t(C + '.data', '', [
        Case('return self._scale * self._data_interface', {'self._scaled is None': True}),
        Case('return self._scaled', {'self._scaled is None': False}),
    ], words=('_scale', 'data_interface'))
    t(C + '.squeezed', '', [
        Case('return numpy.array(self).squeeze()', {'self._squeezed is None': True}),
        Case('return self._squeezed', {'self._squeezed is None': False}),
    ], words=('squeeze', 'array'))
    t(C + '.shapemap', '', [Case('return self._data_interface.shapemap')])
    t(C + '.dimensions', '', [Case('return self.axes.dimensions')])
    t(C + '.axes', '', [Case('return self._axes')])
    t(C + '.transpose', '*args', [
        Case('return self', {'args': False}),
        Case('return type(self).spawn(self.data.transpose(*args), unit=self.unit, '
             'axes=self.axes.permute(*args))', {'args': True}),
    ], words=('spawn', 'data', 'unit', 'permute', 'transpose'))
    V = R + '_objects:Variable'
    t(V + '.__len__', '', [Case('return len(self.data)')], words=('len', 'size'))
    t(V + '.__getitem__', 'i', [Case('return self.data[i]')])
    t(V + '.__array__', '*args **kwargs', [
        Case('return either(numpy.array(self.data, *args, **kwargs), '
             'numpy.asarray(self.data, *args, **kwargs))')], words=('array', 'data'))


def cast(P, rep):
    t = tables(P, rep, 'cast')
    for name in ('int', 'float', 'complex'):
        t(f"{P_}_scalar:Scalar.__{name}__", '', [
            Case(f'return self._OPERATORS.get({name})(self)', {f'self._OPERATORS.get({name})': True}),
            Case('raise TypeError', {f'self._OPERATORS.get({name})': False}),
        ], words=('int', 'float', 'complex'))
        t(f"{R}_objects:Variable.__{name}__", '', [
            Case(f'return self._cast_to({name})')], words=('int', 'float', 'complex'))
        t(f"{P_}_array:Array.__{name}__", '', [
            Case('return complex(float(self))' if name == 'complex'
                 else f'return self._as_builtin({name})')], words=('int', 'float', 'complex'))
        kinds = {'int': 'typing.SupportsInt', 'float': 'typing.SupportsFloat',
                 'complex': '(typing.SupportsComplex, typing.SupportsFloat)'}
        t(f"{P_}_operations:as{name}", 'x', [
            Case(f'return cast({name}, x, {kinds[name]})')], words=('int', 'float', 'complex'))
    t(P_ + '_array:Array._as_builtin', 't', [
        Case(f"return t({either('self.data.array.ravel()[0]', 'self.data.array.flatten()[0]')})",
             {'self.size == 1': True}),
        Case('raise TypeError', {'self.size == 1': False}),
    ], words=('ravel', 'array', 'data', '_data_interface', '_object'))
    t(R + '_objects:Variable._cast_to', 'type', [
        Case('return type(self.data[0])', {'self.size == 1': True}),
        Case('raise TypeError', {'self.size == 1': False}),
    ])
    held = either('isa(a, measured.Object)', 'isa(a, physical.Object)')
    t(P_ + '_operations:cast', 'type a protocol', [
        Case('return type(a.data)', {held: True, 'protocol': True, 'isa(a.data, protocol)': True}),
        Case('raise PhysicalTypeError', {held: False}),
        Case('raise PhysicalTypeError', {held: True, 'protocol': False}),
        Case('raise PhysicalTypeError', {
            held: True, 'protocol': True, 'isa(a.data, protocol)': False}),
    ], words=('data', 'type'))
    V = 'eprempy.real:variable'
    sep, one = 'container.isseparable(x)', either('base.isreal(x)', 'isreal(x)')
    sep = either(sep, 'isseparable(x)')
    every = either('all([many(base.isreal(each(x)))])', 'all([many(isreal(each(x)))])')
    t(V, 'x', [
        Case('return Variable(x)', {sep: True, every: True}),
        Case('raise TypeError', {sep: True, every: False}),
        Case('return Variable([x])', {sep: False, one: True}),
        Case('raise TypeError', {sep: False, one: False}),
    ], words=('Variable', 'isreal'))
