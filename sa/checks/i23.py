"""I23: indices of arrays denote the positions that their arguments do."""

from ..absint import show
from ..ops import Registrations
from ..spec import table, Case
from . import n05

LEVEL = 'other'
EXPLANATION = (
    "Abstract interpretation of the module of indices. Each function and method is compared "
    "with a decision table that states, on every path, the integers of the result, their "
    "order and type, and what is refused."
)
ASSUMPTIONS = [
    "numpy applies operations along an axis, and joins index ranges, as documented",
    "the values of an array to which indices are restricted increase along its axis",
]
I = 'eprempy.numeric._index:'
INT = 'isa(%s, Integral, integer)'


def run(P, rep):
    rep.rule('create', "indices are made from integers, and from nothing else", 5)
    rep.rule('values', "parts, shifts and conversions of indices", 5)
    rep.rule('operations', "operations on indices apply to their integers in order", 8)
    rep.rule('dispatch', "an operator of indices calls the function of that operation", 30)
    rep.rule('resolve', "arguments of a subscript denote one index per axis", 4)
    rep.rule('restrict', "bounds are found along the given axis", 1)
    create(P, rep)
    values(P, rep)
    operations(P, rep)
    dispatch(P, rep)
    resolve(P, rep)
    restrict(P, rep)


def create(P, rep):
    t = lambda *a, **k: table(P, rep, 'create', *a, inline=lambda g: False, **k)
    p = 'value_args(x)'
    num, arr, one = f'isa({p}, SupportsInt)', f'isa({p}, ndarray)', f'{p}.size == 1'
    t(I + 'value', 'x', [
        Case(f'return Value(either(int({p}), int({p}[0])))', {num: True, arr: True, one: True},
             name='array'),
        Case(f'return Value(int({p}))', {num: True, arr: True, one: False}, name='other array',
             choice=True),
        Case(f'return Value(int({p}))', {num: True, arr: False}, name='number'),
        Case('raise TypeError', {num: False}, name='no number')],
      maybe=('array', 'other array'), words=['value_args', 'sequence_args'])
    p = 'sequence_args(x)'
    num = f'all([many(isa(each({p}), SupportsInt))])'
    t(I + 'sequence', 'x', [
        Case(f'return Sequence(either(array({p}, dtype=int), asarray({p}, dtype=int)))',
             {num: True}),
        Case('raise TypeError', {num: False}, name='no numbers')],
      words=['value_args', 'sequence_args', 'any', 'sorted', 'set', 'unique', 'float'])
    v, s = '_value_args(x)', '_sequence_args(x)'
    t(I + 'value_args', 'x', [
        Case(f'return {v}', {f'{v} is None': False}, name='value'),
        Case(f'return {s}[0]', {f'{v} is None': True, f'{s} is None': False,
                                f'len({s}) == 1': True}, name='one'),
        Case('raise TypeError', {f'{v} is None': True, f'{s} is None': True}, name='none'),
        Case('raise TypeError', {f'{v} is None': True, f'{s} is None': False,
                                 f'len({s}) == 1': False}, name='many')],
      words=['_value_args', '_sequence_args', 'len'])
    t(I + 'sequence_args', 'x', [
        Case(f'return {s}', {f'{s} is None': False}, name='sequence'),
        Case(f'return either([{v}], ({v},))', {f'{s} is None': True, f'{v} is None': False},
             name='one'),
        Case('raise TypeError', {f'{s} is None': True, f'{v} is None': True}, name='none')],
      words=['_value_args', '_sequence_args', 'len'])
    arr, dtype, one = 'isa(x, ndarray)', 'issubdtype(x.dtype, integer)', 'x.size == 1'
    num, text, obj, less = INT % 'x', 'isa(x, bytes, str)', 'isa(x, Type)', 'x.isunitless'
    first = 'either(int(x), int(x[0]), int(x.item()), x.item())'
    kinds = {'array': {arr: True, dtype: False}, 'other': {arr: False}}
    rows = [Case(f'return {first}', {arr: True, dtype: True, one: True}, name='array'),
            Case('raise TypeError', {arr: True, dtype: True, one: False}, name='other array')]
    end = []
    for k, c in kinds.items():
        rows += [
            Case('return either(x, int(x))', {**c, num: True}, name=f'number, {k}',
                 choice=k == 'array'),
            Case('return None', {**c, num: False, text: True, 'except': True},
                 name=f'no digits, {k}', choice=k == 'array'),
            Case('return int(x)', {**c, num: False, text: True, 'except': False},
                 name=f'digits, {k}', choice=k == 'array'),
            Case('return x.data', {**c, num: False, text: False, obj: True, less: True},
                 name=f'unitless, {k}', choice=k == 'array'),
            Case('raise ValueError', {**c, num: False, text: False, obj: True, less: False},
                 name=f'unit, {k}', choice=k == 'array'),
            Case('return None', {**c, num: False, text: False, obj: False}, name=f'none, {k}')]
        end += [r.name for r in rows[-6:]] if k == 'array' else []
    t(I + '_value_args', 'x', rows, maybe=end, words=['size', 'ndim', 'round', 'float'])
    rows = [Case('return x', {'isa(x, range)': True}, name='range')]
    lst = 'isa(x, list, tuple)'
    strs, ints = 'all([many(isa(each(x), str))])', 'all([many(%s)])' % (INT % 'each(x)')
    base = {'isa(x, range)': False}
    numbers = 'either([many(int(each(x)))], (many(int(each(x))),))'
    rows += [
        Case(f'return {numbers}', {**base, lst: True, strs: True, 'except': False},
             name='texts', sure=[lst]),
        Case('return either(x, list(x), tuple(x))', {**base, lst: True, strs: False, ints: True},
             name='numbers', sure=[lst]),
        Case('return None', {**base, lst: True, strs: False, ints: False}, name='others',
             choice=True, sure=[lst]),
        Case('return None', {**base, lst: True, strs: True, 'except': True}, name='no digits',
             choice=True, sure=[lst])]
    base = {**base, lst: False}
    sq = 'x.squeeze()'
    line = f'{sq}.ndim == 1'
    kinds = {'array': {**base, arr: True, dtype: True},
             'other array': {**base, arr: True, dtype: False}, 'other': {**base, arr: False}}
    c = kinds['array']
    rows += [
        Case(f'return either(array({first}, ndmin=1), array([{first}]))', {**c, one: True},
             name='one'),
        Case(f'return {sq}', {**c, one: False, line: True}, name='line'),
        Case('raise TypeError', {**c, one: False, line: False}, name='no line')]
    seq = 'isa(x, Sequence)'
    maybe = ['others', 'no digits']
    for k in ('other array', 'other'):
        c = kinds[k]
        ch = k == 'other array'
        rows += [
            Case('return either([x], (x,))', {**c, num: True}, name=f'number, {k}', choice=ch),
            Case('return x.data', {**c, num: False, seq: True}, name=f'sequence, {k}',
                 choice=ch),
            Case('return _sequence_args(x.data)', {**c, num: False, seq: False, obj: True,
                                                   less: True},
                 name=f'unitless, {k}', choice=ch),
            Case('raise ValueError', {**c, num: False, seq: False, obj: True, less: False},
                 name=f'unit, {k}', choice=ch),
            Case('return None', {**c, num: False, seq: False, obj: False}, name=f'none, {k}',
                 choice=ch)]
        maybe += [r.name for r in rows[-5:]] if ch else []
    t(I + '_sequence_args', 'x', rows, maybe=maybe, impossible=[
        {lst: True, strs: True, ints: True}, {lst: True, arr: True}, {lst: True, num: True}, {lst: True, seq: True},
        {lst: True, obj: True}],
      words=['size', 'ndim', 'round', 'float', 'sorted', '_sequence_args', '_value_args',
             'flatten', 'ravel'])


def values(P, rep):
    t = lambda *a, **k: table(P, rep, 'values', *a, **k)
    V, S = I + 'Value.', I + 'Sequence.'
    t(V + '__index__', '', [Case('return either(self.data, int(self.data))')],
      words=['round'])
    d = 'either(int(self.data) + int(x), self.data + int(x), self.data + x, int(self) + int(x))'
    low, high = f'{d} < floor', f'{d} > ceil'
    nof, noc = 'floor is None', 'ceil is None'
    rows = []
    for n, c in (('no floor', {nof: True}), ('above floor', {nof: False, low: False})):
        rows += [Case(f'return Value({d})', {**c, noc: True}, name=n),
                 Case(f'return Value({d})', {**c, noc: False, high: False},
                      name=f'{n}, below ceiling'),
                 Case('return Value(ceil)', {**c, noc: False, high: True},
                      name=f'{n}, above ceiling')]
    rows.append(Case('return Value(floor)', {nof: False, low: True}, name='below floor',
                     choice=False))
    t(V + 'shift', 'x floor ceil', rows, defaults={'floor': None, 'ceil': None},
      words=['max', 'min', 'abs'], bad=['Value(_ - _)'])
    t(S + '__len__', '', [Case('return len(self.data)')])
    p = 'self.data[i]'
    t(S + '__getitem__', 'i', [
        Case(f'return either(Value.spawn({p}), Value({p}), Value(int({p})))', {'except': True},
             name='one'),
        Case(f'return either(self.spawn({p}), type(self).spawn({p}), Sequence({p}), '
             f'Sequence.spawn({p}))', {'except': False}, name='some')],
      words=['spawn', 'len'])
    e = 'either(array(self.data) + int(x), self.data + int(x), array(self.data) + x, '\
        'self.data + x, asarray(self.data) + int(x))'
    rows = []
    for nf in (True, False):
        for nc in (True, False):
            sets = [f'setitem({e}, {e} < floor, floor)'] * (not nf) + \
                [f'setitem({e}, {e} > ceil, ceil)'] * (not nc)
            nots = [f'setitem({e}, _, floor)'] * nf + [f'setitem({e}, _, ceil)'] * nc
            rows.append(Case(f'return Sequence({e})', {nof: nf, noc: nc}, does=sets, never=nots,
                             name=('' if nf else 'floor ') + ('' if nc else 'ceiling') or 'free'))
    t(S + 'shift', 'x floor ceil', rows, defaults={'floor': None, 'ceil': None},
      words=['max', 'min', 'abs', 'clip'])


def operations(P, rep):
    t = lambda *a, **k: table(P, rep, 'operations', *a, inline=lambda g: False, **k)
    seq, val = 'isa(%s, Sequence)', 'isa(%s, Value)'
    each = 'either(each(a), each(a.data))'
    ERR = 'either(OperandTypeError, TypeError)'
    call = lambda x: f'f({x}, **kwargs)'
    new = lambda v, x: f'either({v}.spawn({x}), type({v}).spawn({x}))'
    t(I + 'unary', 'f a **kwargs', [
        Case('return ' + new('a', f'[many({call(each)})]'), {seq % 'a': True}, name='sequence'),
        Case('return ' + new('a', call('a.data')), {seq % 'a': False, val % 'a': True},
             name='value'),
        Case('raise OperandTypeError', {seq % 'a': False, val % 'a': False})],
      words=['spawn'])
    r = 'binary(f, a, b)'
    one = {val % 'a': True, val % 'b': True}
    made = f'return either(array({r}, dtype=bool), asarray({r}, dtype=bool))'
    t(I + 'comparative', 'f a b', [
        Case(f'return bool({r})', one),
        Case(made, {val % 'a': False}, name='not a'),
        Case(made, {val % 'a': True, val % 'b': False}, name='not b')],
      words=['binary', 'bool', 'any', 'all'])
    r = 'binary(f, a, b, **kwargs)'
    sa, sb, va, vb = seq % 'a', seq % 'b', val % 'a', val % 'b'
    ia, ib = 'isintegral(a)', 'isintegral(b)'
    na, nb = 'isa(a, Integral)', 'isa(b, Integral)'
    pair = lambda x, y: f'f({x}, {y}, **kwargs)'
    items = lambda v: f'either(each({v}.data), each({v}))'
    many = lambda x, y: f'[many({pair(x, y)})]'
    t(I + 'binary', 'f a b **kwargs', [
        Case('raise ValueError', {sa: True, sb: True, 'len(a) == len(b)': False},
             name='different lengths'),
        Case('return ' + many(items('a'), items('b')), {
            sa: True, sb: True, 'len(a) == len(b)': True}, name='sequences'),
        Case('return ' + many(items('a'), 'b.data'), {sa: True, sb: False, vb: True},
             name='sequence, value'),
        Case('return ' + many(items('a'), 'b'), {sa: True, sb: False, vb: False, ib: True},
             name='sequence, number'),
        Case('raise ' + ERR, {sa: True, sb: False, vb: False, ib: False},
             name='sequence, other'),
        Case('return ' + many('a.data', items('b')), {sa: False, sb: True, va: True},
             name='value, sequence'),
        Case('return ' + many('a', items('b')), {sa: False, sb: True, va: False, ia: True},
             name='number, sequence'),
        Case('raise ' + ERR, {sa: False, sb: True, va: False, ia: False},
             name='other, sequence'),
        Case('return ' + pair('a.data', 'b.data'), {sa: False, sb: False, va: True, vb: True},
             name='values'),
        Case('return ' + pair('a.data', 'b'), {sa: False, sb: False, va: True, vb: False,
                                               ib: True}, name='value, number'),
        Case('raise ' + ERR, {sa: False, sb: False, va: True, vb: False, ib: False},
             name='value, other'),
        Case('return ' + pair('a', 'b.data'), {sa: False, sb: False, va: False, ia: True,
                                               vb: True}, name='number, value'),
        Case('raise ' + ERR, {sa: False, sb: False, va: False, ia: False},
             name='other, other'),
        Case('raise ' + ERR, {sa: False, sb: False, va: False, ia: True, vb: False},
             name='number, other')])
    made = lambda *w: 'either(' + ', '.join(f'_new_or_result({x}.spawn, {r})' for x in w) + ')'
    t(I + '_new_or_result', 'factory x', [
        Case('return factory(x)', {'except': False}), Case('return x', {'except': True})])
    for n in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        t(I + n, 'a b', [Case(f'return comparative({n}, a, b)')],
          words=['arithmetic', 'comparative', *'eq ne lt le gt ge add sub mul'.split()])
    for n in ('add', 'sub', 'mul', 'floordiv', 'mod'):
        t(I + n, 'a b', [Case(f'return arithmetic({n}, a, b)')],
          words=['arithmetic', 'comparative', *'add sub mul floordiv mod pow truediv'.split()])
    for n in ('abs', 'pos', 'neg'):
        t(I + n, 'a', [Case(f'return unary({n}, a)')], words=['unary', 'abs', 'pos', 'neg'])
    low = 'either(any(b < 0), (b < 0).any())'
    t(I + 'pow', 'a b mod', [
        Case('raise ValueError', {low: True}, name='negative power'),
        Case('return arithmetic(pow, a, b, mod=mod)', {low: False}, name='power')],
      words=['arithmetic', 'pow', 'mul', 'all', 'any'], defaults={'mod': None})
    ka, kb = 'isa(a, Value, Sequence)', 'isa(b, Value, Sequence)'
    every = 'all([isa(a, Value), isa(b, Value)])'
    kinds = {ka: True, kb: True}
    rows = [Case('return ' + made('Value', 'type(a)', 'a'), {**kinds, every: True},
                 name='values'),
            Case('return ' + made('Sequence'), {**kinds, every: False}, name='collections'),
            Case('return ' + made('a', 'type(a)'), {ka: True, kb: False, nb: True},
                 name='object, number'),
            Case('return ' + made('b', 'type(b)'), {ka: False, kb: True, na: True},
                 name='number, object'),
            Case('raise ' + ERR, {ka: True, kb: False, nb: False}, name='object, other'),
            Case('raise ' + ERR, {ka: False, na: True, kb: False}, name='number, other'),
            Case('raise ' + ERR, {ka: False, na: False}, name='other')]
    t(I + 'arithmetic', 'f a b **kwargs', rows, words=['_new_or_result', 'binary', 'spawn'],
      wrong=['any([isa(a, Value), isa(b, Value)])'],
      impossible=[{every: True, 'isa(a, Sequence)': True}])


BASE = ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'abs', 'pos', 'neg', 'add', 'sub', 'mul',
        'floordiv', 'mod', 'pow')
REFUSED = {'eq': ('k', 'bool', False), 'ne': ('k', 'bool', True)}


def dispatch(P, rep):
    """Operators of indices, and the functions that implement them."""
    classes = [(n, I + n) for n in ('Value', 'Sequence')]
    n05.dispatch(P, rep, n05.names(P), classes,
                 ('truediv', 'round', 'floor', 'ceil', 'trunc', 'int', 'float', 'complex'))
    reg, found = Registrations(P, I[:-1]), {}
    for cls, op, v, _ in reg.entries:
        found[cls, n05.denoted(op, n05.NAMES)] = v
    for label, q in classes:
        for op in BASE:
            what, where = f'{label}: {op}', P.classes[q].where
            v = found.get((q, op))
            if v is None:
                rep.ob('dispatch', what, None if (q, None) in found else False,
                       "no function implements the operation", where)
                continue
            refusal = None
            while v[0] == 'call' and v[1][0] == 'call' and \
                    v[1][1] == ('func', 'eprempy.exceptions:convert') and len(v[2]) == 1:
                refusal, v = v[1][2], v[2][0]
            name = v[1].split(':')[-1] if v[0] in ('func', 'rawfunc') else None
            other = name in BASE and name != op
            rep.ob('dispatch', what, True if name == op else False if other else None,
                   f"the operation is implemented by {show(v)}", where)
            if op in BASE[:6] and name == op:
                want = REFUSED.get(op, ('ext', 'builtins.NotImplemented'))
                ok = refusal is not None and len(refusal) == 2 and \
                    refusal[0][0] == 'class' and refusal[0][1].endswith(':OperandTypeError')
                rep.ob('dispatch', what + ' (other objects)',
                       None if not ok else refusal[1] == want,
                       f"gives {show(refusal[1]) if ok else 'an error'} for objects "
                       "that are not indices", where)


def resolve(P, rep):
    t = lambda *a, **k: table(P, rep, 'resolve', *a, inline=lambda g: False, **k)
    n = 'normalize(shape, args)'
    has = f'either(_has_ellipsis({n}), any([many(each({n}) is ...)]))'
    t(I + 'resolve', 'shape args', [
        Case(f'return expand(len(shape), {n})', {has: True}),
        Case(f'return {n}', {has: False})],
      words=['normalize', 'expand', 'len', '_has_ellipsis', 'expand_ellipsis'])
    some = 'any([many(each(args) is Ellipsis)])'
    t(I + '_has_ellipsis', 'args', [
        Case('return False', {'except': True}, name='no collection'),
        Case(f'return either(True, {some})', {'except': False, some: True}, name='some'),
        Case(f'return either(False, {some})', {'except': False, some: False}, name='none')],
      words=['all', 'isinstance', 'in', 'eq', 'is'], maybe=('some', 'none'))
    types = '_'
    std = f'hastype(args, {types}, tuple, strict=True)'
    arr, kind = 'isa(args, ndarray)', 'args.dtype in _'
    t(I + '_normalized', 'args', [
        Case(f'return either(True, {std})', {std: True}, name='standard'),
        Case(f'return either({kind}, True)', {std: False, arr: True, kind: True},
             name='array'),
        Case(f'return either({kind}, False)', {std: False, arr: True, kind: False},
             name='other array'),
        Case(f'return either(False, {arr})', {std: False, arr: False}, name='other')],
      maybe=('array', 'other array'), words=['hastype', 'any', 'all'],
      wrong=['hastype(args, _, tuple, strict=False)', 'hastype(args, _, tuple)'])
    done = '_normalized(args)'
    rows = [Case('return args', {done: True}, name='normal')]
    for name, lst, a in (('one', False, 'args'), ('many', True, 'star(args)')):
        e = f'expand_ellipsis(len(shape), {a})'
        x = f'each({e})'
        sl, num = f'isa({x}, slice)', f'isintegral({x})'
        c = {done: False, 'isa(args, list, tuple)': lst}
        rows += [
            Case(f'return ix_(many(range(shape[position({e})])[{x}]))', {**c, sl: True},
                 name=f'slice, {name}', sure=[sl]),
            Case(f'return ix_(many(either(({x},), [{x}])))', {**c, sl: False, num: True},
                 name=f'number, {name}', sure=[sl, num]),
            Case(f'return ix_(many({x}))', {**c, sl: False, num: False},
                 name=f'collection, {name}', sure=[sl, num]),
            Case('return ix_()', c, name=f'nothing, {name}', choice=True)]
    wrong = [f'isa(each(expand_ellipsis(len(shape), {a})), int)'
             for a in ('args', 'star(args)')]
    t(I + 'normalize', 'shape args', rows, wrong=wrong, words=['expand_ellipsis', 'slice', 'range', 'len'],
      maybe=('nothing, one', 'nothing, many'))
    full = 'indices == slice(None)'
    dots = 'either(isa(indices, type(...)), indices is Ellipsis)'
    lst, sl = 'isa(indices, list, tuple)', 'isa(indices, slice)'
    c, d = {lst: False, sl: True}, {lst: False, sl: False}
    rows = [Case('return expand_ellipsis(ndim, star(indices))', {lst: True}, name='many'),
            Case('return expand_ellipsis(ndim, Ellipsis)', {**c, full: True}, name='full'),
            Case('return expand_ellipsis(ndim, either(indices, Ellipsis))', {**d, dots: True},
                 name='ellipsis')]
    for n, c in (('slice', {**c, full: False}), ('other', {**d, dots: False})):
        rows += [
            Case('return expand_ellipsis(ndim, indices, Ellipsis)', {**c, 'ndim > 1': True},
                 name=f'{n} of many'),
            Case('return either((indices,), expand_ellipsis(ndim, indices))', {
                **c, 'ndim > 1': False}, name=f'{n} of one')]
    t(I + 'expand', 'ndim indices', rows, words=['expand_ellipsis', 'slice'],
      impossible=[{sl: True, dots: True}])
    nargs = 'len(args)'
    norm = '[either(many(either(each(args), list(each(args)), each(args).tolist())), [star(each(args))], many([star(each(args))]))]'
    norm = f'either({norm}, [])'
    more = f'{nargs} > ndim'
    count = f'either({norm}.count(Ellipsis), args.count(Ellipsis))'
    many, none = f'{count} > 1', f'{count} == 0'
    pos = f'either({norm}.index(Ellipsis), args.index(Ellipsis))'
    tail = 'isa(args[-1], type(...))'
    tail = 'either(isa(args[-1], type(...)), args[-1] is Ellipsis)'
    out = (f'(star(args[:{pos}]), star([slice(None)] * (ndim - {nargs} + 1)), '
           f'star(either(args[{pos} + 1:], args[{pos} + 1:{nargs} + 1], args[{pos} + 1:{nargs}])))')
    rows = [Case('raise IndexError', {more: True, tail: False}, name='too many')]
    for name, c in (('no more', {more: False}), ('more', {more: True, tail: True})):
        rows += [
            Case('return args', {**c, none: True}, name=f'no ellipsis, {name}',
                 choice=name == 'more'),
            Case('raise IndexError', {**c, none: False, many: True}, name=f'ellipses, {name}'),
            Case(f'return {out}', {**c, none: False, many: False}, name=f'ellipsis, {name}')]
    t(I + 'expand_ellipsis', 'ndim *args', rows, maybe=('no ellipsis, more',),
      impossible=[{none: True, many: True}, {none: True, tail: True},
                  {'[].count(Ellipsis) == 0': False}],
      ignore=['isa(each(args), ndarray)'],
      wrong=[f'{count} >= 1', f'{count} > 2', f'{count} == 1', f'{count} == 2',
             f'{nargs} >= ndim', f'{nargs} > ndim + 1', f'{nargs} > ndim - 1',
             'isa(args[0], type(...))', 'args[0] is Ellipsis'],
      words=['count', 'index', 'slice', 'len', 'ndarray'])


def restrict(P, rep):
    t = lambda *a, **k: table(P, rep, 'restrict', *a, inline=lambda g: False, **k)
    none = 'axis is None'
    call = 'return apply_along_axis(_find_1d_indices, %s, either(asfarray(array), array, ' \
        'asarray(array, dtype=float), array(array, dtype=float)), either(float(target), target))'
    t(I + '_get_index_bounds', 'array target axis', [
        Case(call % '-1', {none: True}, name='no axis'),
        Case(call % 'either(int(axis), axis)', {none: False}, name='axis')],
      defaults={'axis': None}, words=['apply_along_axis', 'apply_over_axes', 'asfarray'])
