"""D22: arrays keep the names of their dimensions with their axes."""

from ..absint import K
from ..spec import table, Case

LEVEL = 'other'
EXPLANATION = (
    "Abstract interpretation of the class of dimensions, of the base class of arrays, and "
    "of the functions that create and mesh arrays. Each is compared with a decision table "
    "that states, on every path, the names of the result in order, the axis and data each "
    "belongs to, and what is refused."
)
ASSUMPTIONS = [
    "numpy indexes, transposes and meshes arrays as documented",
    "container.merge and container.unique keep their contracts (C21)",
]
N = 'eprempy.numeric._array:'
D = N + 'Dimensions.'
A = N + 'Array.'


def run(P, rep):
    rep.rule('dimensions', "set-like operations on dimensions keep names in order", 12)
    rep.rule('order', "comparison and permutation of dimensions", 4)
    rep.rule('create', "each dimension of an array has one name", 5)
    rep.rule('access', "parts and transposes of an array keep its dimensions", 8)
    rep.rule('mesh', "meshed arrays have the dimensions of both", 1)
    dimensions(P, rep)
    order(P, rep)
    create(P, rep)
    access(P, rep)
    mesh(P, rep)


LIST = lambda x: f'either(list({x}), [star({x})])'
MADE = lambda x: (f'either(dimensions_factory([many({x})]), dimensions_factory(many({x})), '
                  f'dimensions_factory(*[many({x})]), Dimensions((many({x}),)))')
NONE = 'either(dimensions_factory(), dimensions_factory([]), dimensions_factory(()))'
OWN = 'either(self, self._names)'


def dimensions(P, rep):
    t = lambda *a, **k: table(P, rep, 'dimensions', *a, **k)
    names = 'self._names'
    x = f'each({OWN})'
    t(D + 'replace', 'old new', [
        Case('return ' + MADE('new'), {f'{x} == old': True}),
        Case('return ' + MADE(x), {f'{x} == old': False})])
    own = f'either({LIST(names)}, {LIST("self")})'
    own = f'either(list({names}), [star({names})], list(self), [star(self)])'
    end = [f'dimensions_factory(star({names}), name)',
           f'dimensions_factory([star({names}), name])',
           'dimensions_factory(star(self), name)']
    t(D + 'insert', 'name index', [
        Case(f'return either({", ".join(end)})', {'index is None': True}),
        Case('return either(dimensions_factory(_), dimensions_factory(*_))',
             {'index is None': False})], defaults={'index': None})
    those = 'self._get_operand(other)'
    both = {
        '__and__': f'each({own} + {those})', '__rand__': f'each({those} + {own})'}
    common = (f'either(set({names}) & set({those}), set(self) & set({those}), '
              f'set({those}) & set({names}), set({those}) & set(self))')
    for op, e in both.items():
        t(D + op, 'other', [
            Case('return NotImplemented', {'except': True}),
            Case('return ' + MADE(e), {f'{e} in {common}': True, 'except': False}, name='both'),
            Case('return ' + MADE('_'), {f'{e} in {common}': False, 'except': False}, name='one',
                 choice=True)], maybe=('one',), words=['set', 'dimensions_factory'],
          wrong=[f'{e} in (_ | _)', f'{e} in (_ ^ _)', f'{e} in (_ - _)'])
    t(D + '__sub__', 'other', [
        Case('return NotImplemented', {'except': True}),
        Case('return ' + MADE(x), {f'{x} in {those}': False, 'except': False}, name='others'),
        Case('return ' + NONE, {f'{x} in {those}': True, 'except': False}, name='common',
             choice=True)], maybe=('common',), words=['set', 'dimensions_factory'])
    y = 'each(other)'
    t(D + '__rsub__', 'other', [
        Case('return NotImplemented', {'isa(other, Dimensions)': False}),
        Case('return ' + MADE(y), {f'{y} in {OWN}': False, 'isa(other, Dimensions)': True},
             name='others'),
        Case('return ' + NONE, {f'{y} in {OWN}': True, 'isa(other, Dimensions)': True},
             name='common', choice=True)],
      maybe=('common',), words=['set', 'dimensions_factory'])
    for op, ab in (('__or__', f'merge({own}, {those})'), ('__ror__', f'merge({those}, {own})')):
        t(D + op, 'other', [
            Case('return NotImplemented', {'except': True}, choice=True),
            Case('raise ValueError', {'except': True}, choice=True),
            Case(f'return either(dimensions_factory({ab}), dimensions_factory(*{ab}))',
                 {'except': False})], words=['merge', 'unique', 'NotImplemented'])
    one, two = f'(self - {those})', f'({those} - self)'
    for op, ab in (('__xor__', f'{one} | {two}'), ('__rxor__', f'{two} | {one}')):
        t(D + op, 'other', [
            Case('return NotImplemented', {'except': True}),
            Case(f'return {ab}', {'except': False})], words=['or_', 'sub', 'and_', 'xor'])
    strs = f'all([many(isa(each(either(arg, list(arg), [star(arg)])), str))])'
    t(D + '_get_operand', 'arg', [
        Case(f'return either(list(arg._names), [star(arg._names)], list(arg), [star(arg)])',
             {'isa(arg, Dimensions)': True}),
        Case('return [arg]', {'isa(arg, Dimensions)': False, 'isa(arg, str)': True},
             name='name'),
        Case('raise DimensionTypeError', {'isa(arg, Dimensions)': False,
                                          'isa(arg, str)': False, 'except': True},
             name='not iterable'),
        Case('return either(list(arg), [star(arg)])', {
            'isa(arg, Dimensions)': False, 'isa(arg, str)': False, strs: True,
            'except': False}, name='names'),
        Case('raise DimensionTypeError', {
            'isa(arg, Dimensions)': False, 'isa(arg, str)': False, strs: False,
            'except': False}, name='not names')])
    t(D + 'copy', '', [Case(f'return either(dimensions_factory(star({OWN})), '
                            f'dimensions_factory({OWN}), Dimensions({OWN}))')])
    t(D + '__len__', '', [Case('return len(self._names)')])
    t(D + '__getitem__', 'i', [Case('return self._names[i]')])
    t(D + '__hash__', '', [Case('return hash(self._names)')])


def order(P, rep):
    t = lambda *a, **k: table(P, rep, 'order', *a, **k)
    names = 'self._names'
    kind, text, one = 'isa(other, Dimensions)', 'isa(other, str)', 'len(self) == 1'
    members = (f'either({names} == tuple(other), tuple(other) == {names}, '
               f'{names} == (star(other),))')
    t(D + '__eq__', 'other', [
        Case(f'return {names} == other._names', {kind: True}),
        Case(f'return {names}[0] == other', {kind: False, text: True, one: True},
             name='name', sure=[one]),
        Case('return False', {kind: False, text: False, 'except': True}, name='no names',
             choice=True),
        Case('return False', {kind: False, text: True, one: False, 'except': True},
             name='no names', choice=True),
        Case(f'return {members}', {kind: False, text: False, 'except': False},
             name='names'),
        Case(f'return either({members}, False)', {kind: False, text: True, one: False,
                                                  'except': False}, name='other text',
             choice=True)], maybe=('no names', 'other text'), words=['set', 'sorted', 'list'])
    a = f'either(set({names}), set(self), {{star({names})}})'
    t(D + '_compare', 'other operator', [
        Case(f'return operator({a}, either(set(other._names), set(other)))', {kind: True}),
        Case(f'return operator({a}, set(other))', {kind: False})],
      words=['tuple', 'list', 'frozenset'])
    for n, op in (('__lt__', 'lt'), ('__le__', 'le'), ('__gt__', 'gt'), ('__ge__', 'ge')):
        t(D + n, 'other', [Case(f'return self._compare(other, {op})')],
          inline=lambda g: False, words=['lt', 'le', 'gt', 'ge', 'eq', '_compare'])
    t(D + 'permute', '*args **kwargs', [
        Case('raise TypeError', {'args': True, "'order' in kwargs": True}),
        Case('return self._permute(args[0])', {'args': True, "'order' in kwargs": False,
                                               'len(args) == 1': True}, name='sequence'),
        Case('return self._permute(args)', {'args': True, "'order' in kwargs": False,
                                            'len(args) == 1': False}, name='indices'),
        Case("return either(self._permute(kwargs['order']), self._permute(order))",
             {'args': False, "'order' in kwargs": True}, name='order'),
        Case('raise TypeError', {'args': False, "'order' in kwargs": False})],
      words=['_permute'])
    got = f'[many({OWN}[each(axes)])]'
    t(D + '_permute', 'axes', [
        Case('raise ValueError', {'except': True}),
        Case(f'return either(dimensions_factory({got}), dimensions_factory(*{got}))',
             {'except': False}, does=[f'self.mismatch({got})'])],
      words=['mismatch', 'reversed', 'range', 'len'])
    x, y = f'set({OWN})', 'set(other)'
    x = f'either({x}, {{star({OWN})}})'
    less, more, same = f'{x} < {y}', f'{y} < {x}', f'{x} == {y}'
    t(D + 'mismatch', 'other', [
        Case('raise ValueError', {same: False, less: True}, name='fewer'),
        Case('raise ValueError', {same: False, less: False, more: True}, name='more'),
        Case('raise ValueError', {same: False, less: False, more: False}, name='different'),
        Case('return None', {same: True, less: False, more: False})],
      impossible=[{same: True, less: True}, {same: True, more: True},
                  {less: True, more: True}])


def create(P, rep):
    t = lambda *a, **k: table(P, rep, 'create', *a, **k)
    one, num = 'len(args) == 1', 'isa(args[0], Real)'
    text = 'either(f"x{each(range(args[0]))}", "x{}".format(each(range(args[0]))), ' \
           '"x" + str(each(range(args[0]))))'
    made = 'return Dimensions(_compute_names(unique(unwrap(args, tuple))))'
    t(N + 'dimensions_factory', '*args', [
        Case(f'return Dimensions(either(tuple([many({text})]), (many({text}),)))',
             {one: True, num: True}),
        Case(made, {one: True, num: False}, name='one'),
        Case(made, {one: False}, name='many')],
      words=['_compute_names', 'unique', 'unwrap', 'tuple', 'range', 'set', 'sorted'])
    t(N + '_compute_names', 'args', [
        Case('return args._names', {'isa(args, Dimensions)': True}),
        Case('return either(tuple(args), (star(args),))', {
            'isa(args, Dimensions)': False,
            'either(all([many(isa(each(args), str))]), allisinstance(str, star(args)))': True}),
        Case('raise TypeError', {
            'isa(args, Dimensions)': False,
            'either(all([many(isa(each(args), str))]), allisinstance(str, star(args)))': False})],
      words=['set', 'sorted', 'any'])
    old = 'isa(args[0], Array)'
    new = '_parse_data_args(...)'
    arr, dims = 'either(_X[0], _X)', '_X[1]'
    p = '_parse_data_args(star(args), **kwargs)'
    same = f'either(len({p}[1]) == {p}[0].ndim, {p}[0].ndim == len({p}[1]))'
    rows = [Case('raise TypeError', {one: True, old: True, 'kwargs': True}),
            Case('return (args[0].array, args[0].dimensions)',
                 {one: True, old: True, 'kwargs': False}, name='copy')]
    for name, c in (('one', {one: True, old: False}), ('more', {one: False})):
        rows += [Case('raise ValueError', {**c, same: False}, name='number of dimensions, ' + name),
                 Case(f'return either(({p}[0], {p}[1]), {p})', {**c, same: True},
                      name='new, ' + name)]
    t(N + 'array_args', '*args **kwargs', rows, words=['_parse_data_args', 'ndim', 'len'])
    a = '_init_array(args[0])'
    more = 'len(args) > 1'
    none = 'dimensions is None'
    t(N + '_parse_data_args', '*args dimensions', [
        Case('raise TypeError', {more: True, 'dimensions': True}),
        Case(f'return ({a}, either(dimensions_factory(args[1:]), '
             'dimensions_factory(*args[1:])))', {more: True, 'dimensions': False}, name='names'),
        Case(f'return ({a}, dimensions_factory({a}.ndim))', {more: False, none: True},
             name='default'),
        Case(f'return ({a}, either(dimensions_factory(dimensions), '
             'dimensions_factory(*dimensions)))', {more: False, none: False}, name='given')],
      words=['_init_array', 'shape', 'size', 'ndim'], defaults={'dimensions': None})
    d = '_get_arraylike(arg)'
    t(N + '_init_array', 'arg', [
        Case(f'return {d}', {f'all(_)': True}),
        Case(f'return either(array({d}), asarray({d}))', {'all(_)': False})],
      words=['_get_arraylike', 'hasattr'])
    t(N + '_get_arraylike', 'arg', [
        Case('return arg.data', {'isa(arg, Object)': True}),
        Case('return either(array(arg), asarray(arg))', {
            'isa(arg, Object)': False, 'isa(arg, list, tuple, set)': True}),
        Case('return arg', {'isa(arg, Object)': False, 'isa(arg, list, tuple, set)': False})])
    t(A + '__init__', 'data dimensions', [
        Case('return None', stores={
            '_shape': 'data.shape', '_size': 'data.size', '_ndim': 'data.ndim',
            '_dimensions': 'dimensions', '_array': 'data'}, when={'isa(data, ndarray)': True},
            does=['_.__init__(data)']),
        Case('return None', stores={
            '_shape': 'data.shape', '_size': 'data.size', '_ndim': 'data.ndim',
            '_dimensions': 'dimensions', '_array': 'None'}, when={
                'isa(data, ndarray)': False}, does=['_.__init__(data)'])],
      inline=lambda g: False)


def access(P, rep):
    t = lambda *a, **k: table(P, rep, 'access', *a, **k)
    for n in ('shape', 'size', 'ndim', 'dimensions'):
        t(A + n, '', [Case(f'return self._{n}')])
    t(A + 'shapemap', '', [
        Case('return {many(each(either(self.dimensions, self._dimensions))): '
             'each(either(self.shape, self._shape))}')], words=['zip', 'dict'])
    t(A + '__len__', '', [Case('return len(either(self._object, self.data))')])
    t(A + '__iter__', '', [Case('return iter(either(self._object, self.data))')])
    t(A + '__contains__', 'x', [
        Case('return either(True, x in self._object)', {'x in self._object': True}),
        Case('return x in self.array', {'x in self._object': False})], words=['contains'])
    keep = 'dimensions=self.dimensions'
    spawn = 'self.spawn(%s, %s)'
    s = lambda d, n: f'either(self.spawn({d}, dimensions={n}), type(self).spawn({d}, dimensions={n}))'
    t(A + '__getitem__', 'args', [
        Case('return ' + s('self._getitem(either([args], (args,)))', 'self.dimensions'),
             {'isa(args, SupportsIndex)': True}),
        Case('return ' + s('self._getitem(args)', 'self.dimensions'),
             {'isa(args, SupportsIndex)': False}, name='others')],
      words=['_getitem', 'spawn'], inline=lambda g: False)
    at = 'resolve(self.shape, unwrap(args))'
    part = f'self._load_array({at})'
    full = f'array({part}, ndmin=self.ndim)'
    arr, boo = f'isa({at}, ndarray)', f'{at}.dtype == bool'
    same = f'{part}.ndim == self.ndim'
    shape = f'[many(self._get_axis_size(position({at}), each({at})))]'
    size = f'many(self._get_axis_size(position({at}), each({at})))'
    rest = f'either(self.shape[len({shape}):], self.shape[len({at}):])'
    shape = (f'either([{size}, star({rest})], ({size}, star({rest})), {shape} + list({rest}), '
             f'(star({shape}), star({rest})), tuple({shape}) + {rest}, '
             # a loop without turns
             '[star(self.shape[0:])], [star(self.shape[len([]):])])')
    rows = [Case(f'return {full}', {arr: True, boo: True}, name='mask')]
    for name, c in (('indices', {arr: False}), ('index array', {arr: True, boo: False})):
        rows += [Case(f'return {full}', {**c, same: True}, name=f'{name}, all axes'),
                 Case(f'return {full}', {**c, same: False, 'except': True},
                      name=f'{name}, no sizes', choice=True),
                 Case(f'return {full}.reshape({shape})', {**c, same: False, 'except': False},
                      name=f'{name}, reshaped')]
    t(A + '_getitem', 'args', rows, words=['_get_axis_size', 'reshape', 'squeeze', 'suppress'],
      maybe=('indices, no sizes', 'index array, no sizes'))
    t(A + '_get_axis_size', 'i v', [
        Case('return 1', {'isa(v, int)': True}),
        Case('return len(either(range(*v.indices(self.shape[i])), range(self.shape[i])[v]))',
             {'isa(v, int)': False, 'isa(v, slice)': True}, name='slice'),
        Case('return self.shape[i]', {'isa(v, int)': False, 'isa(v, slice)': False},
             name='axis')], words=['start', 'stop', 'step'],
      bad=['(_ - _) // _', '_ - _', 'int((_ - _) / _)', 'max(0, (_ - _) // _)',
           'abs((_ - _) // _)', 'abs(_ - _) // _'])
    strs = 'either(allisinstance(str, star(args)), all([many(isa(each(args), str))]))'
    inner = 'either(allisinstance(str, star(args[0])), all([many(isa(each(args[0]), str))]))'
    it = 'isiterable(args[0])'
    plain = 'return ' + s('self.array.transpose(star(args))',
                          'self.dimensions.permute(star(args))')
    one = 'len(args) == 1'
    t(A + 'transpose', '*args', [
        Case('return self', {'args': False}),
        Case('return self._transpose(args)', {'args': True, strs: True}, name='names'),
        Case('return self._transpose(args[0])', {'args': True, strs: False, one: True,
                                                 it: True, inner: True}, name='sequence of names'),
        Case(plain, {'args': True, strs: False, one: True, it: True, inner: False},
             name='sequence of indices'),
        Case(plain, {'args': True, strs: False, one: True, it: False}, name='index'),
        Case(plain, {'args': True, strs: False, one: False}, name='indices')],
      words=['permute', 'transpose', '_transpose', 'spawn'])
    axes = '[many(self.dimensions.index(each(args)))]'
    t(A + '_transpose', 'args', [
        Case('return ' + s(f'self.array.transpose({axes})',
                           'either(dimensions_factory(args), dimensions_factory(star(args)), '
                           'dimensions_factory(*args), '
                           'self.dimensions.permute(' + axes + '))'),
             does=['self.dimensions.mismatch(args)'])],
      words=['index', 'transpose', 'permute', 'mismatch'])
    none = 'isnull(index)'
    have = 'self._array is None'
    sub = 'self._array[either(index_exp[index], index)]'
    t(A + 'array', '', [
        Case('return self._load_array()', {have: True}),
        Case('return self._array', {have: False})], words=['_load_array', '_read_array'],
      inline=lambda g: False)
    t(A + '_load_array', 'index', [
        Case('return self._array', {none: True, have: False}),
        Case('return self._read_array()', {none: True, have: True}, stores={
            '_array': 'self._read_array()'}),
        Case(f'return {sub}', {none: False, have: False}, name='part', stores={'_array': ''}),
        Case('return self._read_array(index)', {none: False, have: True}, name='read part',
             stores={'_array': ''})],
      words=['_read_array', 'index_exp'], defaults={'index': None})
    idx = 'either(index_exp[index], index)'
    obj = 'self._object'
    get = lambda x: f'either(asarray({x}), array({x}))'
    t(A + '_read_array', 'index', [
        Case(f'return {get(obj)}', {none: True}),
        Case(f'return {get(obj + "[" + idx + "]")}', {none: False, 'except': False}, name='part'),
        Case(f'return {get(obj)}[{idx}]', {none: False, 'except': True}, name='whole first')],
      words=['index_exp'], defaults={'index': None})
    near = 'either(isclose(self, value), contains(value))'
    t(A + 'contains', 'value', [Case('return isclose(self, value)')])
    t(A + 'remesh', 'other invert', [
        Case('return remesh(other, self)', {'invert': True}),
        Case('return remesh(self, other)', {'invert': False})], inline=lambda g: False,
      defaults={'invert': False})
    t(A + '__array__', '*args **kwargs', [
        Case('return either(asarray(self.array, star(args), **kwargs), '
             'array(self.array, star(args), **kwargs))')])
    d, o = 'either(self.array, array(self))', 'either(other.array, array(other))'
    d, o = 'self.array', 'other.array'
    names = 'self.dimensions == other.dimensions'
    kind, values = 'isa(other, Array)', f'either(array_equal({d}, {o}), array_equal({o}, {d}))'
    t(A + '__eq__', 'other', [
        Case('return False', {kind: False}, name='other types'),
        Case(f'return either(False, {values})', {kind: True, values: False}, name='other values',
             sure=[kind]),
        Case('return either(True, ' + names + ')', {kind: True, values: True, names: True},
             name='same', sure=[kind]),
        Case('return either(False, ' + names + ')', {kind: True, values: True, names: False},
             name='other dimensions', sure=[kind])],
      words=['array_equal', 'allclose', 'all', 'any', 'shape', 'size', 'dimensions', 'data', 'xor', 'sub',
             'set', 'sorted', 'not', 'len'],
      maybe=('same', 'other dimensions'))
    same = 'self == other'
    t(A + '__ne__', 'other', [
        Case('return either(False, not self == other, self != other)', {same: True}, name='same'),
        Case('return either(True, not self == other)', {same: False}, name='other')],
      maybe=('same', 'other'), words=['not'])
    x, y = ('either(array(%s), asarray(%s), %s.array)' % (v, v, v) for v in 'ab')
    t(N + 'array_equal', 'a b', [Case(f'return array_equal({x}, {y})')])
    made = 'array_args(star(args), **kwargs)'
    t(N + 'array_factory', '*args **kwargs', [
        Case(f'return either(Array(star({made})), Array({made}[0], {made}[1]))')],
      words=['array_args'], inline=lambda g: False)
    t(A + '_get_arg_data', 'arg', [
        Case('return arg.array', {'isa(arg, Array)': True}),
        Case('return _._get_arg_data(arg)', {'isa(arg, Array)': False})],
      inline=lambda g: False)


def mesh(P, rep):
    t = lambda *a, **k: table(P, rep, 'mesh', *a, **k)
    dims = '(a.dimensions | b.dimensions)'
    x = f'each({dims})'
    A_, B_ = f'a.shapemap.get({x}, 1)', f'b.shapemap.get({x}, 1)'
    both = {'isa(a, Array)': True, 'isa(b, Array)': True}
    ndim = f'len({dims})'
    shape = f'either(max({A_}, {B_}), max({B_}, {A_}))'
    grid = f'ix_(many(range({shape})))'
    def index(v):
        d = f'either(each({v}.shapemap), each({v}.dimensions))'
        n = f'either({v}.shapemap[{d}], each({v}.shape)) - 1'
        at = f'{grid}[{dims}.index({d})]'
        e = f'either(minimum({at}, {n}), minimum({n}, {at}))'
        return f'either(tuple([many({e})]), (many({e}),))'
    one = lambda v: f'array({v}, ndmin={ndim})'
    part = lambda v: f'{v}._load_array({index(v)})'
    rows = [Case('raise TypeError', {'isa(a, Array)': False}),
            Case('raise TypeError', {'isa(a, Array)': True, 'isa(b, Array)': False})]
    more, fewer = f'{A_} > 1', f'{B_} > 1'
    same = f'{A_} == {B_}'
    rows.append(Case('raise ValueError', {**both, more: True, fewer: True, same: False},
                     sure=[more, fewer, same]))
    bad = [more, fewer, same]
    for i, conds in enumerate(({more: True, fewer: True, same: True}, {more: False},
                               {more: True, fewer: False}, {fewer: False})):
        for p in (True, False):
            for q in (True, False):
                u = one('a') if p else part('a')
                v = one('b') if q else part('b')
                rows.append(Case(f'return ({u}, {v})', {
                    **both, **conds, 'a.size == 1': p, 'b.size == 1': q},
                    name=f'mesh {i} {p} {q}'))
    t(N + 'remesh', 'a b', rows, maybe=[f'mesh {i} {p} {q}' for i in range(4)
                                        for p in (True, False) for q in (True, False)],
      words=['max', 'min', 'ix_', 'minimum', 'maximum', 'where'])
