"""A20: collections of axes keep names, axes and their order together."""

import ast

from ..absint import K
from ..spec import table, Case
from .r18 import COPY

LEVEL = 'other'
EXPLANATION = (
    "Abstract interpretation of the classes of axes and of their collections. Each "
    "method is compared with a decision table that states, on every path, the names and "
    "axes of the result in order, the comparisons it rests on, and what is refused."
)
ASSUMPTIONS = [
    "dictionaries keep the order of insertion, numpy compares and searches arrays as "
    "documented",
]
A = 'eprempy.physical._axes:'
X = A + 'Axes.'
B = 'eprempy.physical._axis:'
F = 'eprempy.physical._axis_factories:'


def run(P, rep):
    rep.rule('lookup', "axes are found by name, and by position in the order of names", 6)
    rep.rule('compare', "collections are equal or ordered by their names and axes", 6)
    rep.rule('combine', "combined collections fill, or merge, axes of the same name", 3)
    rep.rule('derive', "a derived collection changes only what was asked", 5)
    rep.rule('create', "each dimension is paired with its own axis", 8)
    rep.rule('index', "the index of a value in an axis is its position", 8)
    rep.rule('axis', "an axis behaves as the collection of its values", 8)
    lookup(P, rep)
    compare(P, rep)
    combine(P, rep)
    derive(P, rep)
    create(P, rep)
    index(P, rep)
    axis(P, rep)


def lookup(P, rep):
    t = lambda *a, **k: table(P, rep, 'lookup', *a, **k)
    t(X + '__getitem__', 'arg', [
        Case('return self._mapping[arg]', {'isa(arg, str)': True, 'except': False}),
        Case('return either(self._mapping[self.names[arg]], '
             'list(self._mapping.values())[arg], list(self.values())[arg])',
             {'isa(arg, str)': False, 'except': False}, name='position'),
        Case('raise KeyError', {'isa(arg, str)': False, 'except': True}, name='missing')])
    t(X + '__len__', '', [Case('return either(len(self._mapping), len(self.names))')])
    t(X + '__iter__', '', [Case('return either(iter(self._mapping), iter(self.names), '
                                'iter(self._mapping.keys()))')])
    t(X + 'names', '', [
        Case('return either(tuple(self._mapping), tuple(self._mapping.keys()), '
             'tuple(*self._mapping), tuple(self), (many(each(self._mapping)),), '
             '(many(each(self)),), (star(self._mapping),), (star(self),))', {'self._names is None': True},
             stores={'_names': '_'}, choice=True),
        Case('return self._names', {'self._names is None': False})])
    dims = 'Dimensions(either(self.names, tuple(self), tuple(self._mapping)))'
    other = 'either(dimensions_factory(self.names), Dimensions(*self.names))'
    t(X + 'dimensions', '', [
        Case(f'return either({dims}, {other})', {'self._dimensions is None': True}),
        Case('return self._dimensions', {'self._dimensions is None': False})])
    t(X + '__init__', 'mapping', [
        Case('return None', stores={'_mapping': 'either(mapping, {**mapping}, dict(mapping))',
                                    '_dimensions': 'None', '_names': 'None'})])


def compare(P, rep):
    t = lambda *a, **k: table(P, rep, 'compare', *a, **k)
    mine = 'either(self[each(self)], self[each(other)], self._mapping[each(self)])'
    both = ('either(array_equal(self[each(_)], other[each(_)]), '
            'array_equal(other[each(_)], self[each(_)]), self[each(_)] == other[each(_)])')
    names = 'either(self.names == other.names, tuple(self) == tuple(other), ' \
            'list(self) == list(other), self.dimensions == other.dimensions)'
    isa = 'isa(other, Axes)'
    t(X + '__eq__', 'other', [
        Case('return NotImplemented', {isa: False}),
        Case('return False', {isa: True, names: False}, name='names differ'),
        Case('return False', {isa: True, names: True, both: False}, name='axes differ',
             sure=[both]),
        Case('return True', {isa: True, names: True, both: True}, name='equal')],
      words=['items', 'keys', 'array_equal'], zero=None)
    k = 'each(either(self.keys() & other.keys(), set(self) & set(other)))'
    same = f'self[{k}] == other[{k}]'
    for name, op in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')):
        t(X + f'__{name}__', 'other', [
            Case('return NotImplemented', {isa: False}),
            Case('raise ValueError', {isa: True, same: False}, sure=[same],
                 name='different axes'),
            Case(f'return either(self.keys() {op} other.keys(), '
                 f'set(self) {op} set(other))', {isa: True, same: True},
                 name='names')], words=['keys'])


def combine(P, rep):
    t = lambda *a, **k: table(P, rep, 'combine', *a, **k)
    isa = 'isa(other, Axes)'
    keys = 'either(self.keys() == other.keys(), set(self) == set(other))'
    k = 'each(self)'
    a, b = f'self[{k}]', f'other[{k}]'
    eq, ba, ab = f'{a} == {b}', f'{b} in {a}', f'{a} in {b}'
    one = {x: f'len({x}) == 1' for x in (a, b)}
    new = lambda x: f'return either(Axes({{many({k}): {x}}}), _)' if 0 else \
        f'return Axes({{many({k}): {x}}})'
    t(X + '__add__', 'other', [
        Case('return NotImplemented', {isa: False}),
        Case('raise ValueError', {isa: True, keys: False}, name='names differ'),
        Case(new(a), {isa: True, keys: True, eq: True}, name='equal'),
        Case(new(a), {isa: True, keys: True, eq: False, one[b]: True, ba: True},
             name='fill other'),
        Case(new(b), {isa: True, keys: True, eq: False, one[a]: True, ab: True,
                      one[b]: False}, name='fill self'),
        Case(new(b), {isa: True, keys: True, eq: False, one[a]: True, ab: True,
                      one[b]: True, ba: False}, name='fill self'),
        Case('raise ValueError', {isa: True, keys: True, eq: False, one[b]: False,
                                  one[a]: False}, name='inconsistent',
             sure=[eq, one[a], one[b]]),
        Case('raise ValueError', {isa: True, keys: True, eq: False, one[b]: True,
                                  ba: False, one[a]: False}, name='inconsistent',
             sure=[eq, one[a], ba]),
        Case('raise ValueError', {isa: True, keys: True, eq: False, one[b]: False,
                                  one[a]: True, ab: False}, name='inconsistent',
             sure=[eq, one[b], ab]),
        Case('raise ValueError', {isa: True, keys: True, eq: False, one[b]: True,
                                  ba: False, one[a]: True, ab: False},
             name='inconsistent', sure=[eq, ab, ba])],
      words=['keys'], zero=None)
    m = 'isa(other, typing.Mapping)'
    t(X + '__or__', 'other', [
        Case('return self._merge(other)', {m: True}),
        Case('return NotImplemented', {m: False})])
    k = ('each(merge(either([star(self)], [many(each(self))], self, self.names), '
         'either([star(other)], [many(each(other))], other)))')
    ours, theirs = f'return Axes({{many({k}): self[{k}]}})', \
        f'return Axes({{many({k}): other[{k}]}})'
    in_, mine = {f'{k} in other': True, 'except': False}, f'{k} in self'
    single = f'len(other[{k}]) == 1'
    longer = f'len(self[{k}]) > 1'
    t(X + '_merge', 'other', [
        Case(ours, {f'{k} in other': False, 'except': False}, name='own'),
        Case(theirs, {**in_, mine: False}, name='new'),
        Case(theirs, {**in_, mine: True, single: False}, name='several values'),
        Case(ours, {**in_, mine: True, single: True, longer: True}, name='one value'),
        Case(theirs, {**in_, mine: True, single: True, longer: False}, name='one value each'),
        Case('raise ValueError', {'except': True}, name='inconsistent')],
      words=['list', 'tuple', 'len'], maybe=('one value each',))


def derive(P, rep):
    t = lambda *a, **k: table(P, rep, 'derive', *a, models=COPY, **k)
    k = 'each(either(self.dimensions, self, self.names, self._mapping, self.keys()))'
    own = f'either(self[{k}], self._mapping[{k}])'
    t(X + 'copy', '', [
        Case(f'return either(Axes({{many({k}): {own}}}), Axes({{**self}}), '
             'Axes({**self._mapping}), Axes(self._mapping.copy()), Axes(dict(self)))')])
    at = f'{k} == args[0]'
    two = 'either(len(args) == 2, len(*args) == 2)'
    arg = lambda i: f'args[{i}]'
    has = 'args[0] in self'
    none = 'args[1] is None'
    many = 'either(len(pair) > 1, len(pair) != 1)'
    pair = 'pair'
    item = 'either(pair.popitem(), each(pair.items()))'
    full = {has: True}
    kept = f'return Axes({{many({k}): {own}}})'
    name = 'either(pair.popitem()[0], each(pair), each(pair.items())[0], next(iter(pair)))'
    value = ('either(pair.popitem()[1], pair[_], each(pair.items())[1], '
             'next(iter(pair.values())))')
    put = f'return Axes({{many({name}): {value}}})'
    pos = {two: True, has: True, none: False}
    bare = [{two: False, has: True}, {two: True, has: True, none: True}]
    t(X + 'replace', '*args **pair', [
        Case('raise KeyError', {has: False}),
        Case('raise TypeError', {**pos, pair: True}, name='axis and pair'),
        Case(f'return Axes({{many({k}): args[1]}})', {**pos, pair: False, at: True},
             name='axis', sure=[at]),
        Case(kept, {**pos, pair: False, at: False}, name='other axes'),
        *[c for i, b in enumerate(bare) for c in (
            Case('raise ValueError', {**b, pair: True, many: True}, name='pairs'),
            Case(put, {**b, pair: True, many: False, at: True}, name='new name',
                 sure=[at]),
            Case(kept, {**b, pair: True, many: False, at: False}, name='other names'),
            Case('raise ValueError', {**b, pair: False}, name='missing'))]],
      words=['popitem', 'strargs', 'items'], zero=None)
    item = 'either(self[each(self)], self._mapping[each(self)])'
    at = 'each(either(self, self.dimensions, self.names, self._mapping)) == dimension'
    isin = 'dimension in self'
    rest = f'return Axes({{many({k}): {own}}})'
    t(X + 'without', 'dimension strict', [
        Case('raise KeyError', {'strict': True, isin: False}),
        Case(rest, {'strict': True, isin: True, at: False}, name='strict'),
        Case('return Axes({})', {'strict': True, isin: True, at: True}, choice=True),
        Case(rest, {'strict': False, at: False}),
        Case('return Axes({})', {'strict': False, at: True}, choice=True)],
      words=['items', 'keys'], maybe=(2, 4))
    fn = P.funcs.get(X + 'without')
    if fn:
        d = fn.node.args.defaults
        rep.ob('derive', 'Axes.without, by default', len(d) == 1 and isinstance(
            d[0], ast.Constant) and not d[0].value, 'is strict', where=f"{fn.path}:{fn.node.lineno}"
            if hasattr(fn, 'path') else '')
    d = 'each(dimensions)'
    t(X + 'extract', '*dimensions', [
        Case('raise TypeError', {'dimensions': False}),
        Case(f'return Axes({{many({d}): either(self[{d}], self._mapping[{d}])}})',
             {'dimensions': True})])
    order = 'self._permute({})'
    t(X + 'permute', '*args **kwargs', [
        Case('raise TypeError', {'args': True, "'order' in kwargs": True}),
        Case('return ' + order.format('args[0]'), {
            'args': True, "'order' in kwargs": False, 'len(args) == 1': True}),
        Case('return ' + order.format('either(args, *args)'), {
            'args': True, "'order' in kwargs": False, 'len(args) == 1': False}),
        Case('return ' + order.format("kwargs['order']"), {
            'args': False, "'order' in kwargs": True}),
        Case('raise TypeError', {'args': False, "'order' in kwargs": False})],
      words=['_permute'])
    d = 'each(self._permute_dimensions(args))'
    mapping = f'{{many({d}): either(self[{d}], self._mapping[{d}])}}'
    t(X + '_permute', 'args', [
        Case(f'return either(axes_factory({mapping}), Axes({mapping}))')])
    allints = 'either(allisinstance(typing.SupportsIndex, *args), ' \
              'all([many(isa(each(args), typing.SupportsIndex))]))'
    allstrs = 'either(allisinstance(str, *args), ' \
              'all([many(isa(each(args), str))]))'
    t(X + '_permute_dimensions', 'args', [
        Case('return self.dimensions.permute(args)', {allints: True}),
        Case('return either(dimensions_factory(args), dimensions(args), '
             'numeric.dimensions(args), Dimensions(args))',
             {allints: False, allstrs: True}, does=['self.dimensions.mismatch(args)'],
             name='names'),
        Case('raise TypeError', {allints: False, allstrs: False})],
      words=['allisinstance', 'SupportsIndex'])


def create(P, rep):
    t = lambda *a, **k: table(P, rep, 'create', *a, **k)
    get = lambda n: (f"either(kwargs.pop('{n}', None), kwargs.get('{n}'), "
                     f"kwargs['{n}'], kwargs.pop('{n}'))")
    mapping, axes, dims, shape = map(get, ('mapping', 'axes', 'dimensions', 'shape'))
    pairs = f'either({{**kwargs, **_}}, {{**kwargs}}, kwargs.copy(), dict(kwargs), kwargs)'
    k = f'each({pairs})'
    has = f'either(len({pairs}) > 0, {pairs})'
    base = {'args': False, pairs: False}
    conv = lambda x: f'convert_to_axis({x})'
    points = lambda x: (f'either(Points(range({x})), Points.spawn(range({x})), '
                        f'points_factory(range({x})), Points(numpy.arange({x})))')
    d = f'each({dims})'
    n = f'each({shape})'
    t(A + '_map_axes', '*args **kwargs', [
        Case(f'return {{many({k}): {conv(f"{pairs}[{k}]")}}}',
             {'args': False, pairs: True}, name='pairs'),
        Case(f'return {{many(_): {conv(f"each({axes})")}}}',
             {**base, f'{axes} is None': False, f'{dims} is None': True}, name='axes'),
        Case('raise ValueError', {**base, f'{axes} is None': False,
                                  f'{dims} is None': False,
                                  f'len({axes}) == len({dims})': False},
             name='axes, other number of names'),
        Case(f'return {{many({d}): {conv(f"each({axes})")}}}',
             {**base, f'{axes} is None': False, f'{dims} is None': False,
              f'len({axes}) == len({dims})': True}, name='axes, names'),
        Case(f'return {{many(_): {points(n)}}}',
             {**base, f'{axes} is None': True, f'{shape} is None': False,
              f'{dims} is None': True}, name='shape'),
        Case('raise ValueError',
             {**base, f'{axes} is None': True, f'{shape} is None': False,
              f'{dims} is None': False, f'len({shape}) == len({dims})': False},
             name='shape, other number of names'),
        Case(f'return {{many({d}): {points(n)}}}',
             {**base, f'{axes} is None': True, f'{shape} is None': False,
              f'{dims} is None': False, f'len({shape}) == len({dims})': True},
             name='shape, names'),
        Case('raise TypeError',
             {**base, f'{axes} is None': True, f'{shape} is None': True,
              f'{dims} is None': False}, name='names'),
        Case('raise ValueError',
             {**base, f'{axes} is None': True, f'{shape} is None': True,
              f'{dims} is None': True}, name='nothing'),
        Case(f'return {{many(each(args[0])): {conv("args[0][each(args[0])]")}}}',
             {'args': True, 'len(args) == 1': True, 'isa(args[0], typing.Mapping)': True},
             name='mapping'),
        Case('raise TypeError',
             {'args': True, 'len(args) == 1': True, 'isa(args[0], typing.Mapping)': False},
             name='not a mapping'),
        Case(f'return {{many(_): {points("each(args)")}}}',
             {'args': True, 'len(args) == 1': False, 'kwargs': False,
              'allisinstance(numbers.Integral, star(args))': True}, name='lengths'),
        Case('raise TypeError', {'args': True, 'len(args) == 1': False}, name='else',
             choice=True)],
      words=['items', 'enumerate', 'zip', 'pop', 'allisinstance', 'update', 'copy'],
      ignore=[mapping])
    t(A + 'axes_factory', '*args **kwargs', [
        Case('return Axes(_map_axes(*args, **kwargs))')])
    t(A + 'convert_to_axis', 'arg', [
        Case('return _convert_to_axis(arg)', {'except': False}),
        Case('raise ValueError', {'except': True})])
    every = lambda typ, x: (f'either(all([many(isa(each({x}), {typ}))]), '
                            f'allisinstance({typ}, *{x}))')
    text, ints = every('str', 'arg'), every('numbers.Integral', 'arg')
    m = 'measure(arg)'
    one = f"{m}.unit == '1'"
    new = lambda c, x: f'return either({c}({x}), {c}.spawn({x}), {c.lower()}_factory({x}))'
    t(A + '_convert_to_axis', 'arg', [
        Case('return arg', {'isa(arg, Axis)': True}),
        Case(new('Symbols', 'arg'), {'isa(arg, Axis)': False, text: True}),
        Case(new('Points', 'arg'), {'isa(arg, Axis)': False, text: False, ints: True}),
        Case(new('Points', m), {'isa(arg, Axis)': False, text: False, ints: False,
                                one: True, every('numbers.Integral', m): True},
             name='unitless integers'),
        Case(new('Coordinates', m), {'isa(arg, Axis)': False, text: False, ints: False,
                                     one: True, every('numbers.Integral', m): False},
             name='unitless'),
        Case(new('Coordinates', m), {'isa(arg, Axis)': False, text: False, ints: False,
                                     one: False}, name='measured')],
      words=['unit'])
    arr = ('either(array(array(x), dtype=int, ndmin=1), array(x, dtype=int, ndmin=1), '
           'array(f(...), dtype=int, ndmin=1))')
    neg = 'either(any([many(each(_) < 0)]), (_ < 0).any(), any(_ < 0))'
    t(F + 'points_args', 'x', [
        Case('return x.data', {'isa(x, Points)': True}),
        Case('raise TypeError', {'isa(x, Points)': False, 'except': True}, name='no array'),
        Case('raise TypeError', {'isa(x, Points)': False, 'except': False, neg: True},
             name='negative', sure=[neg]),
        Case(f'return {arr}', {'isa(x, Points)': False, 'except': False, neg: False},
             name='points', sure=[neg])], words=['array', 'any'])
    isseq, strs = 'isa(x, typing.Sequence)', every('str', 'x')
    new = {'isa(x, Symbols)': False, 'isa(x, str)': False}
    t(F + 'symbols_args', 'x', [
        Case('return x.data', {'isa(x, Symbols)': True}),
        Case('return either([x], (x,), list(x))', {'isa(x, Symbols)': False, 'isa(x, str)': True}),
        Case('raise TypeError', {**new, isseq: False}, name='not a sequence'),
        Case('raise TypeError', {**new, isseq: True, strs: False}, name='not strings'),
        Case('return either(x, list(x))', {**new, isseq: True, strs: True}, name='symbols')])
    t(F + 'coordinates_args', 'x', [
        Case('return x.data', {'isa(x, Coordinates)': True}),
        Case('return sequence(x)', {'isa(x, Coordinates)': False, 'except': False}),
        Case('raise TypeError', {'isa(x, Coordinates)': False, 'except': True})],
      words=['sequence'])


def index(P, rep):
    t = lambda *a, **k: table(P, rep, 'index', *a, **k)
    norm = 'self.normalize(*targets)'
    ints = (f'either(all([many(isa(each({norm}), numbers.Integral))]), '
            f'allisinstance(numbers.Integral, *{norm}))')
    out = f'either(self._out_of_bounds({norm}), self._out_of_bounds({norm}) is not None)'
    ok = {ints: True, f'self._out_of_bounds({norm})': False}
    t(B + 'Axis.index', '*targets', [
        Case('raise TypeError', {ints: False}, name='not integers'),
        Case('raise ValueError', {ints: True, f'self._out_of_bounds({norm})': True},
             name='out of bounds'),
        Case(f'return either(value(int({norm}[0])), value({norm}[0]))',
             {**ok, f'len({norm}) == 1': True, 'except': False}, name='one'),
        Case(f'return sequence({norm})', {**ok, f'len({norm}) == 1': True, 'except': True},
             name='one, not a number'),
        Case(f'return sequence({norm})', {**ok, f'len({norm}) == 1': False},
             name='more')], words=['normalize', '_out_of_bounds'], inline={'value': False,
                                                                       'sequence': False}
      if 0 else None)
    one = 'len(targets) == 1'
    x = 'targets[0]'
    seq = f'isa({x}, list, tuple, ndarray)'
    t(B + 'Axis.normalize', '*targets', [
        Case('return either(range(len(self)), range(self.length))', {'targets': False}),
        Case(f'return either(slice2range({x}, len(self)), slice2range({x}, stop=len(self)), '
             f'range(len(self))[{x}], range(*{x}.indices(len(self))))',
             {'targets': True, one: True, f'isa({x}, slice)': True}, name='slice'),
        Case(f'return {x}', {'targets': True, one: True, f'isa({x}, slice)': False,
                             seq: True}, name='array'),
        Case(f'return [star({x})]', {'targets': True, one: True, f'isa({x}, slice)': False,
                                   seq: False, f'isiterable({x})': True}, name='iterable'),
        Case(f'return either([star(targets)], [{x}], targets)', {
            'targets': True, one: True, f'isa({x}, slice)': False,
            seq: False, f'isiterable({x})': False}, name='one'),
        Case('return either([star(targets)], targets)', {'targets': True, one: False},
             name='more')], words=['slice2range'])
    i = 'each(indices)'
    low, high = f'{i} < -len(self)', f'either({i} > len(self)-1, {i} >= len(self))'
    t(B + 'Axis._out_of_bounds', 'indices', [
        Case(f'return {i}', {low: True}, name='low', sure=[low]),
        Case(f'return {i}', {low: False, high: True}, name='high', sure=[high]),
        Case('return None', {low: False, high: False})])
    k = f'each({norm})'
    pos = (f'either(where(self.data == {k})[0][0], flatnonzero(self.data == {k})[0], '
           f'argmax(self.data == {k}))')
    t(B + 'Points.index', '*targets', [
        Case('return self.indices', {'targets': False}),
        Case('raise AxisValueError', {'targets': True, f'{k} in self.data': False},
             name='missing', sure=[f'{k} in self.data']),
        Case(f'return value({pos})', {'targets': True, f'{k} in self.data': True,
                                      f'len([many({pos})]) == 1': True}, name='one',
             sure=[f'{k} in self.data']),
        Case(f'return sequence([many({pos})])', {
            'targets': True, f'{k} in self.data': True,
            f'len([many({pos})]) == 1': False}, name='more')],
      words=['where', 'normalize'])
    strs = ('either(all([many(isa(each(targets), str))]), '
            'allisinstance(str, *targets))')
    at = 'self.data.index(either(str(each(targets)), each(targets)))'
    t(B + 'Symbols.index', '*targets', [
        Case('return self.indices', {'targets': False}),
        Case('raise AxisTypeError', {'targets': True, strs: False}, name='not strings'),
        Case(f'return either(value({at}), sequence([]))', {'targets': True, strs: True,
                                     f'len([many({at})]) == 1': True}, name='one'),
        Case(f'return sequence([many({at})])', {'targets': True, strs: True,
                                                f'len([many({at})]) == 1': False},
             name='more')], words=['index'])
    m = 'self._measure(targets)'
    plain = f"{m}.unit == '1'"
    seq = lambda u: f'array(sequence(array({m}), {u}).withunit(self.unit))'
    cases = []
    for text, cond, u in (('with unit', False, f'{m}.unit'), ('no unit', True, 'self.unit')):
        pos = f'self._compute_index(each({seq(u)}), closest)'
        for n, one in (('one', True), ('more', False)):
            got = f'either(value({pos}), sequence([]))' if one else f'sequence([many({pos})])'
            cases.append(Case(f'return {got}', {
                'targets': True, m: True, plain: cond, f'len([many({pos})]) == 1': one},
                name=f'{text}, {n}'))
    t(B + 'Coordinates.index', '*targets closest', [
        Case('return self.indices', {'targets': False}),
        Case('raise AxisTypeError', {'targets': True, m: False}, name='not measurable'),
        *cases], words=['withunit', 'sequence', 'array', 'unit', '_compute_index'])
    rows, data = [], "hasattr(a, 'data')"
    for has, d in ((True, 'a.data'), (False, 'either(asarray(a), array(a), a.array)')):
        arr, exact, one = f'isiterable({d})', f'b in {d}', f'isclose(b, {d}, atol=0.0)'
        near = f'either(any([{one}]), any({one}), {one}.any())'
        eq = f'either(a == b, {d} == b)'
        n = 'data' if has else 'array'
        maybe = not has
        rows += [
            Case(f'return either(True, {eq})', {data: has, arr: False, eq: True},
                 name=f'equal {n}', choice=maybe),
            Case(f'return {one}', {data: has, arr: False, eq: False}, name=f'one {n}',
                 choice=maybe),
            Case('return True', {data: has, arr: True, exact: True}, name=f'exact {n}',
                 choice=maybe),
            Case(f'return {near}', {data: has, arr: True, exact: False}, name=f'close {n}',
                 choice=maybe)]
    t('eprempy.numeric._data:isclose', 'a b', rows,
      maybe=[r.name for r in rows if r.choice], words=['isclose', 'any', 'min', 'max'])
    close = 'isclose(self.data, target)'
    near = lambda b: f'nearest(self.data, target{b}).index'
    t(B + 'Coordinates._compute_index', 'target closest', [
        Case('return ' + near(''), {close: True}, name='close'),
        Case('raise AxisValueError', {close: False, 'closest is None': True}, name='missing'),
        Case('return ' + near(", 'upper'"), {close: False, 'closest is None': False,
                                            "closest == 'lower'": True},
             name='lower'),
        Case('return ' + near(", 'lower'"), {close: False, 'closest is None': False,
                                            "closest == 'lower'": False,
                                            "closest == 'upper'": True},
             name='upper'),
        Case('raise ValueError', {close: False, 'closest is None': False,
                                  "closest == 'upper'": False, "closest == 'lower'": False},
             name='unknown')],
      words=['nearest', 'isclose', 'index'])


    one = 'len(targets) == 1'
    x = 'targets[0]'
    kind = f'isa({x}, Measurement)'
    obj = f'isa({x}, measured.Object)'
    can = f'ismeasurable({x})'
    all_ = 'measure(targets)'
    t(B + 'Coordinates._measure', 'targets', [
        Case(f'return either({x}, measure({x}))', {one: True, kind: True}, name='measurement'),
        Case(f'return measure({x})', {one: True, kind: False, obj: True}, name='measured'),
        Case(f'return measure({x})', {one: True, kind: False, obj: False, can: True},
             name='measurable'),
        Case(f'return {all_}', {one: True, kind: False, obj: False, can: False,
                                'except': False}, name='one number'),
        Case('return None', {one: True, kind: False, obj: False, can: False,
                             'except': True}, name='one thing'),
        Case(f'return {all_}', {one: False, 'except': False}, name='numbers'),
        Case('return None', {one: False, 'except': True}, name='things')],
      words=['measure', 'ismeasurable'])


def axis(P, rep):
    t = lambda *a, **k: table(P, rep, 'axis', *a, **k)
    size = 'either(len(self), len(self.data), self.length)'
    one, x = 'len(targets) == 1', 'targets[0]'
    part = f'isa({x}, slice)'
    seq = f'isa({x}, list, tuple, ndarray)'
    some = f'isiterable({x})'
    t(B + 'Axis.normalize', '*targets', [
        Case(f'return range({size})', {'targets': False}),
        Case(f'return either(range({size})[{x}], range(*{x}.indices({size})))',
             {'targets': True, one: True, part: True}, name='slice'),
        Case(f'return {x}', {'targets': True, one: True, part: False, seq: True},
             name='sequence'),
        Case(f'return either(list({x}), [star({x})])', {
            'targets': True, one: True, part: False, seq: False, some: True},
            name='iterable'),
        Case('return either(list(targets), [star(targets)])', {
            'targets': True, one: True, part: False, seq: False, some: False}, name='value'),
        Case('return either(list(targets), [star(targets)])', {'targets': True, one: False},
             name='values')], words=['range', 'slice2range', 'indices', 'len'])
    t(B + 'Axis._out_of_bounds', 'indices', [
        Case('return either(each(indices), *_)', {f'each(indices) < -{size}': True},
             choice=True, name='low'),
        Case('return each(indices)', {f'each(indices) < -{size}': False,
                                      f'either(each(indices) > {size} - 1, '
                                      f'each(indices) >= {size})': True},
             choice=True, name='high'),
        Case('return None', {f'each(indices) < -{size}': False,
                             f'either(each(indices) > {size} - 1, '
                             f'each(indices) >= {size})': False}, choice=True, name='in'),
        Case('return None', {}, choice=True, name='none',
             sure=True)], maybe=('none',))
    t(B + 'Axis.__len__', '', [Case('return len(either(self.data, self._data))')])
    t(B + 'Axis.__iter__', '', [Case('return iter(either(self.data, self._data))')])
    t(B + 'Axis.length', '', [
        Case('return len(either(self.data, self))', {'self._length is None': True}),
        Case('return self._length', {'self._length is None': False})])
    t(B + 'Axis.indices', '', [
        Case('return sequence(range(either(self.length, len(self), len(self.data))))',
             {'self._indices is None': True}),
        Case('return self._indices', {'self._indices is None': False})])
    t(B + 'Points.indices', '', [
        Case('return sequence(self.data)', {'self._indices is None': True}),
        Case('return self._indices', {'self._indices is None': False})])
    same = 'either(array_equal(self.data, other.data), array_equal(other.data, self.data))'
    t(B + 'Axis.__eq__', 'other', [
        Case(f'return {same}', {'isa(other, Axis)': True}),
        Case('return NotImplemented', {'isa(other, Axis)': False})])
    sup = 'either(super().__eq__(other), Axis.__eq__(self, other), self.__eq__(other))'
    units = 'either(self.unit == other.unit, self.data.unit == other.data.unit)'
    t(B + 'Coordinates.__eq__', 'other', [
        Case(f'return either(True, {sup}, {units})', {'isa(other, Coordinates)': True, sup: True,
                                            units: True}, name='coordinates'),
        Case(f'return either(False, {units})', {'isa(other, Coordinates)': True, sup: True,
                                            units: False}, name='coordinates'),
        Case(f'return either(False, {sup})', {'isa(other, Coordinates)': True, sup: False},
             name='coordinates'),
        Case(f'return {sup}', {'isa(other, Coordinates)': False}, name='others')],
      words=['__eq__', 'unit'], inline=lambda g: False)
    t(B + 'Axis.__contains__', 'x', [
        Case('return True', {'isa(x, Axis)': True, 'len(x) == 1': True, 'except': False},
             does=['self.index(either(*x, x))'], name='singular axis'),
        Case('return x in self.data', {'isa(x, Axis)': True, 'len(x) == 1': True,
                                       'except': True}, name='missing axis'),
        Case('return x in self.data', {'isa(x, Axis)': True, 'len(x) == 1': False},
             name='axis'),
        Case('return x in self.data', {'isa(x, Axis)': False}, name='value')],
      words=['index', 'indices', 'suppress', 'Exception'])
    new = 'either(type(self).spawn(self.data[i]), self.spawn(self.data[i]))'
    full = 'either(i in (slice(None), ...), i == slice(None), i is ..., i == ...)'
    t(B + 'Axis.__getitem__', 'i', [
        Case(f'return {new}', {full: True}),
        Case(f'return {new}', {full: False},
             stores={'return._indices': 'sequence(self.normalize(either(unwrap(i), i)))'},
             name='part')], words=['spawn', 'unwrap', 'normalize', 'slice'], maybe=('part',),
      ignore=['isa(i, slice, type(...))', 'isa(i, slice)', 'isa(i, type(...))'])
    t(B + 'Symbols.__getitem__', 'i', [
        Case('return either(self.spawn([many(self.data[each(i)])]), '
             'type(self).spawn([many(self.data[each(i)])]))', {'isiterable(i)': True}),
        Case('return either(super().__getitem__(i), self.__getitem__(i))',
             {'isiterable(i)': False})], words=['spawn', '__getitem__'],
      inline=lambda g: False)
    t(B + 'Coordinates.withunit', 'new', [
        Case('return either(self.spawn(self.data.withunit(new)), '
             'type(self).spawn(self.data.withunit(new)))')], words=['spawn'])
    t(B + 'Coordinates.unit', '', [Case('return self.data.unit')])
    t(B + 'Points.__init__', 'data', [
        Case('return None', does=['self.__init__(array(data, ndmin=1))'])],
      words=['array'], inline=lambda g: False)
