"""C21: the containers and the functions on collections keep their contracts."""

from ..absint import K
from ..spec import table, Case

LEVEL = 'other'
EXPLANATION = (
    "Abstract interpretation of the module of containers. Each function and method is "
    "compared with a decision table that states, on every path, which members of its "
    "arguments the result has and in which order, what is stored, and what is refused."
)
ASSUMPTIONS = [
    "dictionaries and lists keep the order of insertion, numpy and itertools do what they "
    "document",
]
C = 'eprempy.container:'


def run(P, rep):
    rep.rule('collections', "functions on collections keep members and their order", 9)
    rep.rule('wrapper', "a wrapped object behaves as a tuple", 5)
    rep.rule('graph', "each connection has its weight and each reverse the reciprocal", 6)
    rep.rule('table', "a table finds the entries that match, and only those", 6)
    rep.rule('bijection', "the inverse of a one-to-one mapping", 5)
    rep.rule('registry', "objects are registered under their own key", 6)
    collections(P, rep)
    wrapper(P, rep)
    graph(P, rep)
    tables(P, rep)
    bijection(P, rep)
    registry(P, rep)
    nearest(P, rep)


def collections(P, rep):
    t = lambda *a, **k: table(P, rep, 'collections', *a, **k)
    cases = []
    for name, strict, one, src in (
            ('strict', True, None, 'args'), ('one', False, True, 'args[0]'),
            ('many', False, False, 'args')):
        base = {'strict': strict}
        if one is not None:
            base['len(args) == 1'] = one
        x = f'each({src})'
        cases += [
            Case('return []', base, name=name + ', none', choice=True),
            Case(f'return [many({x})]', {**base, f'{x} in []': False}, name=name + ', new', choice=True),
            Case('return []', {**base, f'{x} in []': True}, name=name + ', seen', choice=True)]
    cases.append(Case('return either([], [many(each(args))])', {'strict': True},
                      name='strict'))
    t(C + 'unique', '*args strict', cases, wrong=['len(args) == _'], defaults={'strict': False}, words=['set', 'dict', 'fromkeys', 'sorted'])
    X = ('sym', 'obj')
    L, T = (lambda *a: ('list', a)), (lambda *a: ('tuple', a))
    kind = 'isa(obj, list, tuple)'
    within = [Case('return obj', {kind: False}, name='value'),
              Case('return obj', {kind: True, 'len(obj) == 1': False}, name='not one',
                   choice=True),
              Case('return obj[0]', {kind: True, 'len(obj) == 1': True}, name='one',
                   choice=True)]
    w = ['list', 'tuple', 'wrap', 'isa', 'len']
    for name, term, rows in (
            ('x', X, within), ('[x]', L(X), within), ('[[x]]', L(L(X)), within),
            ('([(x,)],)', T(L(T(X))), within), ('[]', L(), [Case('return []')]),
            ('()', T(), [Case('return ()')]), ('[[]]', L(L()), [Case('return []')]),
            ('[()]', L(T()), [Case('return ()')]),
            ('[x, x]', L(X, X), [Case('return [obj, obj]')]),
            ('([x, x],)', T(L(X, X)), [Case('return [obj, obj]')]),
            ('[(x, x)]', L(T(X, X)), [Case('return (obj, obj)')])):
        t(C + 'unwrap', 'obj newtype', rows, literal={'obj': term, 'newtype': K(None)},
          name=f'unwrap({name})', words=w)
    t(C + 'unwrap', 'obj newtype', [
        Case('return newtype(wrap([obj, obj]))', {'newtype is None': False}, choice=True),
        Case('return [obj, obj]', {'newtype is None': True})],
      literal={'obj': L(X, X)}, words=w, defaults={'newtype': None})
    t(C + 'wrap', 'arg', [
        Case('return []', {'arg is None': True}),
        Case('return [arg]', {'arg is None': False, 'isa(arg, str)': True}, name='string'),
        Case('return [arg]', {'arg is None': False, 'isa(arg, str)': False, 'except': True},
             name='scalar'),
        Case('return either([star(arg)], list(arg))', {
            'arg is None': False, 'isa(arg, str)': False, 'except': False},
            does=['iter(arg)'], name='members', choice=True),
        Case('return either([star(arg)], list(arg))', {
            'arg is None': False, 'isa(arg, str)': False, 'isiterable(arg)': True},
            name='members', choice=True)],
      maybe=('members',))
    for name, strs in (('isseparable', True), ('isiterable', False)):
        t(C + name, 'x', [
            Case('return False', {'except': True}),
            *([Case('return either(not isa(x, str, bytes), not isa(x, str), '
                    'not isa(x, bytes))',
                    {'except': False, 'isa(x, str)': False, 'isa(x, bytes)': False},
                    does=['iter(x)'])] if strs else
              [Case('return True', {'except': False}, does=['iter(x)'])])],
          words=['iter', 'len'])
    one = 'isa(each(obj), types)'
    t(C + 'hastype', 'obj types *wrappers strict', [
        Case('return True', {'isa(obj, types)': True}),
        Case('return False', {'isa(obj, types)': False}, name='no wrapper', choice=True),
        Case('return False', {'isa(obj, types)': False, 'isa(obj, each(wrappers))': False},
             name='not wrapped', choice=True),
        Case(f'return all([many({one})])', {'isa(obj, types)': False,
                                      'isa(obj, each(wrappers))': True, 'strict': True},
             name='strict', choice=True),
        Case(f'return any([many({one})])', {'isa(obj, types)': False,
                                      'isa(obj, each(wrappers))': True, 'strict': False},
             name='any', choice=True)], words=['all', 'any', 'isa'], defaults={'strict': False})
    t(C + 'find_first', 'kind *args', [
        Case('return each(args)', {'isa(each(args), kind)': True}, choice=True),
        Case('return None', {'isa(each(args), kind)': False}, name='none', choice=True),
        Case('return None', {}, name='empty', choice=True)], maybe=('empty',))
    t(C + 'length', 'this', [
        Case('return len(this)', {'except': False}),
        Case('return 0', {'except': True})])
    ok = {'isiterable(x)': True, 'isseparable(x)': True}
    t(C + 'size', 'x', [
        Case('raise TypeError', {'isiterable(x)': False}),
        Case('raise TypeError', {'isiterable(x)': True, 'isseparable(x)': False},
             name='string'),
        Case('return 0', ok, name='empty', choice=True),
        Case('return either(0 + size(each(x)), size(each(x)))',
             {**ok, 'isiterable(each(x))': True}, name='nested', choice=True),
        Case('return either(1, 0 + 1)', {**ok, 'isiterable(each(x))': False}, name='member',
             choice=True)],
      words=['len', 'size'])
    pair = lambda p: f'iter([many({p})])'
    pairs = lambda p: f'either({pair(p)}, [many({p})])'
    t(C + 'distribute', 'a b', [
        Case('raise TypeError', {'isseparable(a)': False, 'isseparable(b)': False}),
        Case('return either(iter(product(a, b)), product(a, b))',
             {'isseparable(a)': True, 'isseparable(b)': True}, name='both'),
        Case('return ' + pairs('(a, each(b))'),
             {'isseparable(a)': False, 'isseparable(b)': True}, name='second'),
        Case('return ' + pairs('(each(a), b)'),
             {'isseparable(a)': True, 'isseparable(b)': False}, name='first')],
      words=['product', 'zip', 'iter'])
    t(C + 'isshapelike', 'x', [
        Case('return False', {'x': False}),
        Case('return either(False, isiterable(x))', {'x': True, 'isiterable(x)': False}),
        Case('return all([many(isa(each(x), Integral))])', {'x': True, 'isiterable(x)': True},
             name='members')], words=['any', 'all', 'isa'])
    start, stop, step = 's.start', 's.stop', 's.step'
    cases = []
    for a in (True, False):
        for b in (True, False):
            for c in (True, False):
                A = start if a else '0'
                B = 'stop' if b else stop
                S = step if c else '1'
                cases.append(Case(
                    f'return either(range({A}, {B}, {S})' +
                    (f', range({start}, {B}, {S})' if not a else '') + ')',
                    {start: a, f'{stop} is None': b, step: c, **(
                        {'stop is None': False} if b else {})}, name=f'{A}:{B}:{S}'))
    t(C + 'slice2range', 's stop', [
        Case('raise TypeError', {'stop is None': True, f'{stop} is None': True}),
        *cases], words=['range', 'indices', 'len'], defaults={'stop': None})


def wrapper(P, rep):
    t = lambda *a, **k: table(P, rep, 'wrapper', *a, **k)
    W = C + 'Wrapper.'
    t(W + '__init__', 'this', [
        Case('return None', stores={'_arg': 'this', '_wrapped':
                                    'either(tuple(wrap(this)), (star(wrap(this)),))'})])
    t(W + '__iter__', '', [Case('return iter(self._wrapped)')])
    t(W + '__len__', '', [Case('return len(self._wrapped)')])
    t(W + '__contains__', 'x', [Case('return x in self._wrapped')])
    t(W + '__eq__', 'other', [
        Case('return either(sorted(self) == sorted(other), sorted(other) == sorted(self), '
             'sorted(self._wrapped) == sorted(other._wrapped))',
             {'isa(other, Wrapper)': True}),
        Case('return NotImplemented', {'isa(other, Wrapper)': False})], words=['set', 'sorted'])
    t(W + '__str__', '', [Case('return either(str(self._arg), f"{self._arg}")')])


def graph(P, rep):
    t = lambda *a, **k: table(P, rep, 'graph', *a, **k)
    G = C + 'Graph.'
    it = 'each(base)'
    t(G + '__init__', 'base', [
        Case('return None', {'base': False}, never=['self.add_connection(_)'], name='empty'),
        Case('return None', {'base': True}, name='mapping', choice=True, sure=['base'],
             never=['self.add_connection(...)']),
        Case('return None', {'base': True}, sure=['base'], does=[
            f'self.add_connection({it}[0], {it}[1], base[{it}])'], name='mapping',
            choice=True)], words=['add_connection'])
    t(G + '__contains__', 'x', [Case('return x in self.connections')])
    t(G + '__len__', '', [Case('return len(self.connections)')])
    t(G + '__iter__', '', [Case('return iter(self.connections)')])
    t(G + 'nodes', '', [Case('return either({many(each(each(self.connections)))}, '
                             'set([many(each(each(self.connections)))]))')],
      words=['set'])
    x = 'each(self.connections)'
    starts = f'either({x}[0] == node, node == {x}[0])'
    t(G + 'get_adjacencies', 'node', [
        Case('return {}', {'node in self.nodes': False}, name='no node', choice=True),
        Case(f'return {{many({x}[1]): self.connections[{x}]}}',
             {'node in self.nodes': True, starts: True}, name='links', choice=True),
        Case('return {}', {'node in self.nodes': True, starts: False}, name='no link',
             choice=True)], maybe=('no node', 'no link', 'links'), words=['nodes'])
    for names in (('start', 'end'),):
        t(G + 'get_weight', 'start end', [
            Case('return self.connections[(start, end)]',
                 {'(start, end) in self.connections': True}),
            Case('raise KeyError', {'(start, end) in self.connections': False})])
    ab, ba = '(start, end)', '(end, start)'
    item = 'setitem(self.connections, %s, %s)'
    inverse = 'either(1 / weight, 1.0 / weight, weight ** -1)'
    rows = []
    for w in (True, False):
        for f in (True, False):
            for r in (True, False):
                edges = ((f, ab, 'weight'), (r, ba, inverse if w else 'weight'))
                rows.append(Case('return None', {
                    'weight': w, f'{ab} in self.connections': f,
                    f'{ba} in self.connections': r},
                    does=[item % (e, v) for known, e, v in edges if not known],
                    never=[item % (e, '_') for known, e, _ in edges if known],
                    name=f'weight {w}, known {f} {r}'))
    t(G + 'add_connection', 'start end weight', rows, words=['setitem'],
      wrong=['self.connections[_]', 'self.connections.get(_)', 'self.connections.get(...)'],
      defaults={'weight': None})


def tables(P, rep):
    t = lambda *a, **k: table(P, rep, 'table', *a, **k)
    T = C + 'Table.'
    t(T + '__len__', '', [Case('return len(self._entries)')])
    t(T + '__iter__', '', [Case('return iter(self._entries)')])
    names = lambda i: f'[many([many(each({E}))])]{i}'
    E = 'each(self._entries)'
    t(T + 'keys', '', [
        Case(f'return either(set([many(each({E}))]), {{many(each({E}))}}, '
             f'set({names("[0]")})).intersection(*either({names("[1:]")}, {names("")}))',
             {'self._keys is None': True}, stores={'_keys': '_'}, choice=True),
        Case('return self._keys', {'self._keys is None': False})],
      words=['union', 'intersection', 'set', 'any', 'all'])
    t(T + '__getitem__', 'key', [
        Case(f'return either(tuple([many({E}[key])]), (many({E}[key]),))',
             {'key in self.keys': True}),
        Case('raise TableKeyError', {'key in self.keys': False})])
    got = f'{E}.get(key, default)'
    t(T + 'get', 'key default', [
        Case('return self[key]', {'except': False}),
        Case(f'return either(tuple([many({got})]), (many({got}),))', {'except': True})],
      defaults={'default': None})
    has = f'value in {E}.values()'
    found = f'[many({E})]'
    more = f'len({found}) > 1'
    t(T + 'find', 'value unique', [
        Case('raise MissingValueError', {found: False}, choice=True),
        Case('raise MissingValueError', {has: False}, choice=True),
        Case(f'return {found}', {has: True, found: True, 'unique': False}, name='all',
             sure=[has]),
        Case('raise AmbiguousValueError', {has: True, found: True, 'unique': True,
                                           more: True}, sure=[has]),
        Case(f'return {E}', {has: True, found: True, 'unique': True, more: False},
             name='one', sure=[has])], maybe=(0, 1), defaults={'unique': False})
    R = 'each(request.items())'
    match = f'either({E}[{R}[0]] == {R}[1], {R}[1] == {E}[{R}[0]])'
    left = f'[many({E})]'
    one, more = f'len({left}) == 1', f'len({left}) > 1'
    key = f'{R}[0] in self.keys'
    whole = 'either([star(self._entries)], list(self._entries))'
    last = 'either(position(request.items()) + 1, position(request) + 1) == len(request)'
    soft = {key: True, match: True, 'strict': False}
    t(T + '__call__', 'strict **request', [
        Case('raise TableKeyError', {key: False}, sure=[key]),
        Case(f'return {E}', {**soft, one: True}, name='one entry', sure=[key]),
        Case('raise AmbiguousRequestError', {**soft, one: False, more: True, last: True},
             name='many entries', sure=[key, last]),
        Case('raise TableLookupError', {**soft, one: False, more: True, last: False},
             name='more to check', sure=[key, last]),
        Case('raise TableLookupError', {**soft, one: False, more: False},
             name='no entries', sure=[key, more]),
        Case(f'return {E}', {key: True, match: True, 'strict': True, one: True},
             name='strict, one entry', sure=[key]),
        Case('raise TableLookupError', {key: True, match: True, 'strict': True, one: False},
             name='strict, not one entry', sure=[key]),
        Case(f'return {whole}[0]', {'strict': True, f'len({whole}) == 1': True},
             name='no criteria, one entry', sure=[f'len({whole}) == 1']),
        Case('raise TableLookupError', {'strict': True, f'len({whole}) == 1': False},
             name='no criteria, not one entry', sure=[f'len({whole}) == 1']),
        Case('raise TableLookupError', {'strict': False}, name='no criteria', choice=True)],
      words=['len', 'count', 'idx'], defaults={'strict': False})


def bijection(P, rep):
    t = lambda *a, **k: table(P, rep, 'bijection', *a, **k)
    B = C + 'Bijection.'
    keys = 'len([many(each(mapping))])'
    values = 'len(set([many(mapping[each(mapping)])]))'
    values = f'either({values}, len({{many(mapping[each(mapping)])}}))'
    t(B + '__init__', 'mapping', [
        Case('raise InjectiveTypeError', {f'{keys} > {values}': True}),
        Case('raise NonInvertibleError', {f'{keys} > {values}': False,
                                          f'{keys} == {values}': False}, choice=True),
        Case('return None', {f'{keys} > {values}': False, f'{keys} == {values}': True},
             stores={'_mapping': 'either(dict(mapping), {**mapping}, '
                                 '{many(each(mapping)): mapping[each(mapping)]})'})],
      words=['set', 'len', 'keys', 'values'])
    t(B + '__getitem__', 'key', [Case('return self._mapping[key]')])
    t(B + '__len__', '', [Case('return len(self._mapping)')])
    t(B + '__iter__', '', [Case('return iter(self._mapping)')])
    t(B + 'invert', '', [
        Case('return type(self)({many(either(self[each(self)], '
             'self._mapping[each(self._mapping)])): '
             'either(each(self), each(self._mapping))})')])
    t(B + 'find', 'value *args', [
        Case('return self.invert()[value]', {'args': False}),
        Case('return self.invert().get(value, args[0])', {'args': True, 'args[1:]': False}),
        Case('raise TypeError', {'args': True, 'args[1:]': True})], words=['invert', 'get'])


def registry(P, rep):
    t = lambda *a, **k: table(P, rep, 'registry', *a, **k)
    R = C + 'ObjectRegistry.'
    b = 'base[each(base)]'
    t(R + '__init__', 'base object_key', [
        Case('return None', {'base': False}, stores={
            '_items': '{}', '_object_key': 'object_key', '_init': '{}'}),
        Case('return None', {'base': True, f'isa({b}, Mapping)': True}, stores={
            '_items': f'{{many(each(base)): either(dict({b}), {{**{b}}})}}',
            '_object_key': 'object_key',
            '_init': f'{{many(each(base)): either(dict({b}), {{**{b}}})}}'}, name='metadata'),
        Case('return None', {'base': True, f'isa({b}, Mapping)': False}, stores={
            '_items': f'{{many(each(base)): {{object_key: {b}}}}}',
            '_object_key': 'object_key',
            '_init': f'{{many(each(base)): {{object_key: {b}}}}}'}, name='objects')])
    t(R + '__len__', '', [Case('return len(self._items)')])
    t(R + '__iter__', '', [Case('return iter(self._items)')])
    t(R + '__contains__', 'key', [Case('return key in self._items')])
    t(R + '__getitem__', 'key', [Case('return self._items[key]')])
    key = 'self._get_mapping_key(obj, name, overwrite)'
    t(R + 'register', 'obj name overwrite **metadata', [
        Case('return _', {'obj is None': True}, name='decorator'),
        Case('return obj', {'obj is None': False}, does=[
            f'setitem(self._items, {key}, {{self._object_key: obj, **metadata}})'])],
      words=['setitem', 'wraps', '_get_mapping_key', 'fn'], defaults={
          'obj': None, 'name': None, 'overwrite': False})
    new = 'user in self._items'
    ok = 'isa(user, Hashable)'
    rows = []
    for a in (True, False):
        for o in (True, False):
            for u in (True, False):
                for h in (True, False):
                    free = not a or o
                    rows.append(Case(
                        'return user' if u and h and free
                        else 'return self._get_default_key(obj)',
                        {new: a, 'overwrite': o, 'user': u, ok: h},
                        name=f'known {a}, overwrite {o}, named {u}, hashable {h}'))
    t(R + '_get_mapping_key', 'obj user overwrite', rows, maybe=range(len(rows)),
      words=['_get_default_key'])
    plain = 'self._default_key_count'
    fresh = (f'either(f"{{obj.__qualname__}}_{{{plain}}}", '
             f'"{{}}_{{}}".format(obj.__qualname__, {plain}), '
             f'"%s_%s" % (obj.__qualname__, {plain}))')
    t(R + '_get_default_key', 'obj', [
        Case('return obj.__qualname__', {"hasattr(obj, '__qualname__')": True,
                                         'obj.__qualname__ in self._items': False},
             sure=['obj.__qualname__ in self._items']),
        Case(f'return {fresh}', {
            "hasattr(obj, '__qualname__')": True, 'obj.__qualname__ in self._items': True,
            f'{fresh} in self._items': False}, name='new',
            sure=['obj.__qualname__ in self._items'],
            stores={'_default_key_count': f'{plain} + 1'}),
        Case('return _', {"hasattr(obj, '__qualname__')": True,
                          'obj.__qualname__ in self._items': True,
                          f'{fresh} in self._items': True},
             name='more', choice=True),
        Case('return _', {"hasattr(obj, '__qualname__')": False}, name='other',
             choice=True)], words=['hasattr'], maybe=('more', 'other'))
    t(R + 'reset', '', [
        Case('return None', stores={'_items': 'either({**self._init}, dict(self._init), '
                                              'self._init.copy())'})])
    t(R + 'copy', '', [
        Case('return either(ObjectRegistry, type(self))(either(self._items.copy(), '
             '{**self._items}, dict(self._items), self._items), self._object_key)')])


def nearest(P, rep):
    arr = 'either(asarray(values), array(values))'
    far = f'either(abs({arr} - target), abs(target - {arr}))'
    lower = f"bound == 'lower'"
    upper = f"bound == 'upper'"
    dims = f'{arr}.ndim > 1'
    rows = []
    for name, conds, allowed, other in (
            ('lower', {lower: True}, f'{arr} >= target', f'{arr}.size - 1'),
            ('upper', {lower: False, upper: True}, f'{arr} <= target', '0'),
            ('free', {lower: False, upper: False}, None, None)):
        some = f'({allowed}).any()'
        at = f'where({allowed}, {far}, inf).argmin()'
        for case, cond, i in ((('some', {some: True}, at), ('none', {some: False}, other))
                              if allowed else (('any', {}, f'{far}.argmin()'),)):
            for d in (True, False):
                j = f'unravel_index({i}, {arr}.shape)' if d else i
                rows.append(Case(
                    f'return Nearest(index={j}, value={arr}[{j}])',
                    {**conds, **cond, dims: d}, name=f'{name}, {case}, {d}'))
    table(P, rep, 'collections', C + 'nearest', 'values target bound', rows,
          words=['where', 'any', 'argmin', 'argmax', 'inf', 'size', 'shape', 'ndim'])
    x = 'either([star(these)], list(these))'
    y = 'either([star(those)], list(those))'
    a, b = 'each(these)', 'each(those)'
    shared = 'either(set(these) & set(those), {star(these)} & {star(those)})'
    inx, iny = f'{b} in {x}', f'{a} in {y}'
    same = f'[many({a})] == [many({b})]'
    ia, ib = f'{x}.index({a})', f'{y}.index({a})'
    first = f'either({x}[0:{ia}] + {y}[0:{ib}], {x}[:{ia}] + {y}[:{ib}])'
    rest = f'{x}[{ia} + 1:] + {y}[{ib} + 1:]'
    whole = f'either({x}[0:] + {y}[0:], {x} + {y})'
    ok = {shared: True, iny: True, inx: True, same: True}
    t = lambda *a, **k: table(P, rep, 'collections', *a, **k)
    t(C + 'merge', 'these those', [
        Case('return [star(these), many(each(those))]', {shared: False}),
        Case('raise MergeError', {**ok, same: False}),
        Case('raise MergeError', {iny: False}, name='nothing shared', choice=True),
        Case('raise MergeError', {inx: False}, name='nothing shared', choice=True),
        Case(f'return [many(star({first})), many({a}), star({rest})]',
             {inx: False, f'[many({a})] == []': True}, name='nothing shared', choice=True,
             sure=[f'[many({a})] == []']),
        Case(f'return [star({whole})]', {iny: False}, name='nothing shared', choice=True),
        Case(f'return [star({whole})]', {inx: False}, name='nothing shared', choice=True),
        Case(f'return [many(star({first})), many({a}), star({rest})]', ok, name='merged',
             choice=True),
        Case(f'return [star({whole})]', ok, name='no iterations', choice=True)],
      words=['index', 'set', 'dict', 'sorted'], maybe=('nothing shared', 'no iterations'))
