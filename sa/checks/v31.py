"""V31: numpy functions and operators apply to the data of objects and keep what they describe."""

from ..spec import table, Case

LEVEL = 'other'
EXPLANATION = (
    "Abstract interpretation of the numpy interface of eprempy.numeric and of the functions "
    "that eprempy.real registers for arrays. Functions are compared with decision tables, "
    "path by path: which implementation is called with which data, which dimensions name "
    "the axes of the result, and which operands are refused."
)
ASSUMPTIONS = [
    "numpy calls __array_ufunc__ and __array_function__ as it documents, and numpy "
    "functions compute what they document",
]
M = 'eprempy.numeric._mixins:'
R = 'eprempy.real._array:'
KNOWN = {'_implements', '_apply_ufunc', '_apply_function', '_get_numpy_array',
         '_get_numpy_args', '_get_numpy_types', '_get_arg_data', '_get_operand',
         '_get_operands', '_apply_gradient'}


def extracted(g):
    """Whether a function is a helper that this check does not know."""
    return g.module.name.startswith(('eprempy.numeric', 'eprempy.real')) \
        and g.name[:1] == '_' and g.name[:2] != '__' and g.name not in KNOWN


def tables(P, rep, rule):
    def t(qual, params, cases, **k):
        k.setdefault('inline', extracted)
        table(P, rep, rule, qual, params, cases, **k)
    return t


def either(*p):
    return f"either({', '.join(p)})"


def run(P, rep):
    rep.rule('dispatch', "registered implementations are used, else the data", 10)
    rep.rule('register', "implementations are registered for the operation named", 3)
    rep.rule('operands', "operators apply to the data of arrays of the same dimensions", 8)
    rep.rule('reduce', "results keep the names of the dimensions that remain", 8)
    dispatch(P, rep)
    register(P, rep)
    operands(P, rep)
    reduce(P, rep)


def dispatch(P, rep):
    t = tables(P, rep, 'dispatch')
    words = ('_apply_ufunc', '_apply_function', '_FUNCTIONS', '_OPERATORS', '_get_numpy_args',
             '_get_numpy_types', '_get_numpy_array')
    out = "kwargs.get('out', ())"
    fits = f'all([many(isa(each(args + {out}), _))])'
    has = '_._implements(ufunc)'
    t(M + 'Functions.__array_ufunc__', 'ufunc method *args **kwargs', [
        Case('return NotImplemented', {fits: False}),
        Case('return _[ufunc](*args, **kwargs)', {fits: True, has: True}),
        Case('return self._apply_ufunc(ufunc, method, *args, **kwargs)', {
            fits: True, has: False}),
    ], words=words, ignore=(out, f'isa(each({out}), Object)'))
    fits = 'all([many(issubclass(each(types), _))])'
    has = '_._implements(func)'
    t(M + 'Functions.__array_function__', 'func types args kwargs', [
        Case('return NotImplemented', {fits: False}),
        Case('return _[func](*args, **kwargs)', {fits: True, has: True}),
        Case('return self._apply_function(func, types, args, kwargs)', {
            fits: True, has: False}),
    ], words=words)
    a = 'self._get_numpy_array()'
    t(M + 'Functions._apply_function', 'func types args kwargs', [
        Case('return NotImplemented', {f'{a} is None': True}),
        Case('raise TypeError', {f'{a} is None': False, f'isa({a}, numpy.ndarray)': False}),
        Case(f'return {a}.__array_function__(func, self._get_numpy_types(types), '
             'self._get_numpy_args(args), kwargs)',
             {f'{a} is None': False, f'isa({a}, numpy.ndarray)': True}),
    ], words=words)
    at = "method == 'at'"
    t(M + 'Functions._apply_ufunc', 'ufunc method *args **kwargs', [
        Case('raise TypeError', {'except': True}),
        Case('return getattr(ufunc, method)(*_, **kwargs)', {at: False, 'except': False}),
        Case('return None', {at: True, 'except': False},
             does=['getattr(ufunc, method)(*_, **kwargs)']),
    ], words=words)
    t(M + 'Functions._get_numpy_args', 'args', [
        Case(f"return {either('(many(self._get_arg_data(each(args))),)')}")])
    t(M + 'Functions._get_arg_data', 'arg', [
        Case('return arg.data', {'isa(arg, Object)': True}),
        Case('return arg', {'isa(arg, Object)': False}),
    ])
    t(M + 'Functions._get_numpy_types', 'types', [
        Case('return (many(each(types)),)', {'issubclass(each(types), Object)': False},
             sure=True),
        Case('return NotThis', {'each(types) is Object': False}, sure=True, name='itself',
             choice=True),
        Case('return NotThis', {'each(types) == Object': False}, sure=True, name='equal',
             choice=True)], maybe=('itself', 'equal'))
    has = '_._implements(operation)'
    t(M + 'Operators.__object_operator__', 'operation *args **kwargs', [
        Case('return _[resolve(operation)](*args, **kwargs)', {has: True}),
        Case('return NotImplemented', {has: False}),
    ], words=words + ('resolve',))


def register(P, rep):
    t = tables(P, rep, 'register')
    t(M + 'Functions._implements', 'operation', [
        Case('return operation in _', {'except': False}),
        Case('return False', {'except': True}),
    ])
    found = 'resolve(operation)'
    none = f'{found} is None'
    t(M + 'Operators._implements', 'operation', [
        Case('return _._implements(operation)', {none: True, 'except': False}),
        Case(f'return {found} in _', {none: False, 'except': False}),
        Case('return False', {none: False, 'except': True}),
    ], words=('resolve', '_implements'))
    ok = 'callable(numpy_function)'
    t(M + 'Functions.implements', 'numpy_function', [
        Case('raise TypeError', {ok: False}),
        Case('return _', {ok: True}),
    ])
    t('eprempy.numeric._operations:resolve', 'operation strict', [
        Case('raise TypeError', {'isa(operation, str)': False, 'callable(operation)': False}),
        Case('return operation', {'operation in _OPERATORS.values()': True},
             sure=True),
        Case('return _OPERATORS.get(operation)', {
            'operation in _OPERATORS.values()': False, '_OPERATORS.get(operation)': True},
            sure=True),
        Case('raise ValueError', {
            'operation in _OPERATORS.values()': False, '_OPERATORS.get(operation)': False,
            'strict': True}, sure=True),
        Case('return None', {
            'operation in _OPERATORS.values()': False, '_OPERATORS.get(operation)': False,
            'strict': False}, sure=True),
    ])


def operands(P, rep):
    t = tables(P, rep, 'operands')
    words = ('array', 'dimensions', 'array_factory', 'or', 'f', 'data')
    arr = {x: f'isa({x}, real.Array)' for x in 'ab'}
    both = {arr['a']: True, arr['b']: True}
    only = {'a': {arr['a']: True, arr['b']: False}, 'b': {arr['a']: False, arr['b']: True}}
    none = {arr['a']: False, arr['b']: False}
    same = 'a.dimensions == b.dimensions'
    other = ['set(_) == set(_)', 'len(_) == len(_)', 'sorted(_) == sorted(_)',
             'a.ndim == b.ndim', 'a.shape == b.shape', 'a.size == b.size']

    def new(data, dims):
        return either(f'array_factory({data}, dimensions={dims})',
                      f'array_factory({data}, {dims})')

    t(R + 'unary', 'f a', [
        Case(f"return {new('f(a.array)', 'a.dimensions')}", {arr['a']: True}),
        Case('raise OperandTypeError', {arr['a']: False}),
    ], words=words)
    t(R + 'comparative', 'f a b', [
        Case('raise ValueError', {**both, same: False}),
        Case('return f(a.array, b.array)', {**both, same: True}),
        Case('return f(a.array, b)', {arr['a']: False}, choice=True),
        Case('return f(a.array, b)', {arr['a']: True, arr['b']: False}),
    ], words=words, maybe=(2,), wrong=other)
    t(R + 'additive', 'f a b', [
        Case('raise ValueError', {**both, same: False}),
        Case(f"return {new('f(a.array, b.array)', 'a.dimensions')}", {**both, same: True}),
        Case('return f(a.array, b)', only['a']),
        Case('return f(a, b.array)', only['b']),
        Case('raise OperandTypeError', none),
    ], words=words, wrong=other)
    got = '_get_operands(a, b)'
    data = either(f'f(*{got}, **kwargs)', f'f(many(each({got})), **kwargs)')
    ok = {'except': False}
    t(R + 'multiplicative', 'f a b **kwargs', [
        Case(f"return {new(data, 'a.dimensions | b.dimensions')}", {**both, **ok}),
        Case(f"return {new(data, 'a.dimensions')}", {**only['a'], **ok}),
        Case(f"return {new(data, 'b.dimensions')}", {**only['b'], **ok}),
        Case('raise OperandTypeError', {**none, **ok}),
        Case('raise OperandTypeError', {'except': True}, name='refused'),
    ], words=words + ('_get_operands',))
    t(R + '_get_operands', 'a b', [
        Case('return remesh(a, b)', both),
        Case('return (_get_operand(a), _get_operand(b))', only['a'], name='a'),
        Case('return (_get_operand(a), _get_operand(b))', {arr['a']: False}, name='not a'),
    ], words=words + ('remesh', '_get_operand'))
    x = 'isa(x, real.Array)'
    obj, num = 'isa(x, numeric.Object)', 'isa(x, numbers.Real, numpy.ndarray)'
    t(R + '_get_operand', 'x', [
        Case('return x.array', {x: True}),
        Case('return x.data', {x: False, obj: True}),
        Case('return x', {x: False, obj: False, num: True}),
        Case('raise TypeError', {x: False, obj: False, num: False}),
    ], words=words)
    eq = either('numpy.array_equal(a, b)', 'numpy.array_equal(a.array, b.array)')
    t(R + 'eq', 'a b', [
        Case('return a.dimensions == b.dimensions', {**both, eq: True}),
        Case('return either(False, numpy.array_equal(a, b))', {**both, eq: False}),
        Case('return False', {arr['a']: False}, name='not a'),
        Case('return False', {arr['a']: True, arr['b']: False}, name='not b'),
    ], words=words + ('array_equal', 'eq', 'array'))
    t(R + 'ne', 'a b', [Case('return not (a == b)')], words=('eq', 'ne', 'not'))


    t(R + 'Array._get_arg_data', 'arg', [
        Case('return arg.array', {'isa(arg, real.Array)': True}),
        Case('return _._get_arg_data(arg)', {'isa(arg, real.Array)': False}),
    ])
    num = 'isa(a, numbers.Number, numpy.ndarray)'
    rest = 'return multiplicative(pow, a, b, mod=mod)'
    t(R + 'pow', 'a b mod', [
        Case('raise ValueError', {**both, same: False}),
        Case(rest, {**both, same: True, num: False}, name='arrays'),
        Case(rest, {**only['a'], num: False}, name='array'),
        Case('return a ** b.array', {arr['a']: False, num: True}),
        Case(rest, {arr['a']: False, num: False}, name='other'),
    ], words=('multiplicative', 'pow', 'array', 'data', 'dimensions'),
       impossible=[{arr['a']: True, num: True}], wrong=other)


def reduce(P, rep):
    t = tables(P, rep, 'reduce')
    axis, keep = "kwargs.get('axis')", "kwargs.get('keepdims')"
    words = ('array', 'dimensions', 'array_factory', 'mean', 'sum', 'cumsum', 'transpose',
             'squeeze', 'get', 'shapemap', 'index', 'trapz', 'kwargs')
    dims = 'x.dimensions'
    each = f'each({dims})'

    def new(data, d):
        return either(f'array_factory({data}, dimensions={d})', f'array_factory({data}, {d})')

    def gone(ax):
        return either(*(f'{i} == {ax}' for i in (f'{dims}.index({each})',
                                                 f'position({dims})')))
    rest = f'[many({each})]'
    # dimensions that are never the one over which to reduce
    off = [('x.ndim - 1', {}), (f'x.ndim - {axis}', {}), (f'abs({axis})', {}), (f'-{axis}', {}),
           (f'{axis} - _', {}), (f'{axis} + 1', {}),
           (axis, {f'{axis} < 0': True}), (f'x.ndim + {axis}', {f'{axis} < 0': False}),
           (f'{axis} + x.ndim', {f'{axis} < 0': False})]
    for name in ('mean', 'sum'):
        data = either(f'x.array.{name}(**kwargs)', f'numpy.{name}(x.array, **kwargs)')
        some = {f'{axis} is None': False, keep: False}
        t(R + name, 'x **kwargs', [
            Case(f'return {data}', {f'{axis} is None': True}),
            Case(f'return {new(data, dims)}', {f'{axis} is None': False, keep: True}),
            Case(f'return {new(data, rest)}', {**some, gone(f'{axis} % x.ndim'): False},
                 sure=True, name='modulo'),
            Case(f"return {new(data, '[]')}", {**some, gone('_'): True}, sure=True,
                 name='others'),
            Case(f'return {new(data, rest)}', {
                **some, f'{axis} < 0': True, either(gone(f'x.ndim + {axis}'),
                                                    gone(f'{axis} + x.ndim')): False},
                 sure=True, name='negative'),
            Case(f'return {new(data, rest)}', {
                **some, f'{axis} < 0': False, gone(axis): False}, sure=True,
                 name='positive'),
            *(Case('return NotThis', {**some, gone(x): False, **c}, choice=True, sure=True,
                   name=f'not {i}') for i, (x, c) in enumerate(off)),
        ], words=words, maybe=('modulo', 'negative', 'positive', 'others',
                               *(f'not {i}' for i in range(len(off)))))
    data = either('x.array.cumsum(**kwargs)', 'numpy.cumsum(x.array, **kwargs)')
    t(R + 'cumsum', 'x **kwargs', [
        Case(f'return {data}', {f'{axis} is None': True}),
        Case(f'return {new(data, dims)}', {f'{axis} is None': False}),
    ], words=words)
    data = 'numpy.trapz(x.array, *args, **kwargs)'
    t(R + 'trapz', 'x *args **kwargs', [
        Case(f"return {new(data, f'{dims}[:-1]')}", {f'{axis} is None': True}),
        Case(f'return {new(data, rest)}', {
            f'{axis} is None': False, gone(f'{axis} % x.ndim'): False}, sure=True),
        Case(f"return {new(data, '[]')}", {f'{axis} is None': False, gone('_'): True},
             sure=True, name='others'),
    ], words=words, maybe=('others',))
    data = 'x.array.transpose()'
    axes = "kwargs.get('axes')"
    t(R + 'transpose', 'x **kwargs', [
        Case(f"return {new('_', f'{dims}[::-1]')}", {f'{axes} is None': True}),
        Case(f"return {new('_', f'[many({dims}[each({axes})])]')}", {
            f'{axes} is None': False}),
    ], words=words)
    data = either('numpy.squeeze(x.array, **kwargs)', 'x.array.squeeze(**kwargs)')
    nd = f'{data}.ndim == 0'
    size = 'x.shapemap[each(x.shapemap)] == 1'
    many = f'isa({axis}, tuple)'
    at = f'position({dims})'
    t(R + 'squeeze', 'x **kwargs', [
        Case(f'return float({data})', {nd: True}),
        Case(f"return {new(data, '[many(each(x.shapemap))]')}", {
            nd: False, f'{axis} is None': True, size: False}),
        Case(f'return {new(data, rest)}', {
            nd: False, f'{axis} is None': False, many: True,
            f'{at} in [many(each({axis}) % x.ndim)]': False}, sure=True),
        Case(f'return {new(data, rest)}', {
            nd: False, f'{axis} is None': False, many: False,
            f'{at} in [{axis} % x.ndim]': False}, sure=True),
    ], words=words)
    g = either('numpy.gradient(*args, **kwargs)')
    made = either('_apply_gradient(x.dimensions, x.array, {}**kwargs)')
    arg = 'each(args)'
    t(R + 'gradient', 'x *args **kwargs', [
        Case('return _apply_gradient(x.dimensions, x.array, **kwargs)', {'args': False}),
        *(Case(f'return _apply_gradient(x.dimensions, x.array, many({v}), **kwargs)',
               {'args': True, **f}) for v, f in (
                   (f'{arg}.array', {f'isa({arg}, real.Array)': True}),
                   (f'float({arg})', {f'isa({arg}, real.Array)': False,
                                      f'isa({arg}, numbers.Real)': True}),
                   (f'numpy.array({arg})', {f'isa({arg}, real.Array)': False,
                                            f'isa({arg}, numbers.Real)': False})))
    ], words=words + ('_apply_gradient', 'float'))
    t(R + '_apply_gradient', 'dimensions *args **kwargs', [
        Case(f"return [many({new(f'each({g})', 'dimensions')})]", {f'isa({g}, list)': True}),
        Case(f"return {new(g, 'dimensions')}", {f'isa({g}, list)': False}),
    ], words=words)
