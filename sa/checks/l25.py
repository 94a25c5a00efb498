"""L25: aliased mappings find one value through any of its names."""

from ..absint import Interp, Config, State, show
from ..loops import split
from ..spec import table, Case
from .n05 import method, SELF, OTHER

LEVEL = 'other'
EXPLANATION = (
    "Abstract interpretation of eprempy.aliased. Functions and methods are compared with "
    "decision tables, path by path: which key stands for which aliases, when keys that "
    "share an alias are merged, what is looked up, replaced, deleted and copied. Loops that "
    "change a mapping while going through it are split into one pass from any state."
)
ASSUMPTIONS = [
    "collections.abc and the containers of Python behave as documented",
    "aliases are hashable; the aliases of different keys are disjoint where they are declared",
]
A = 'eprempy.aliased:'
G = A + 'Group'
S = A + 'Groups'
M = A + 'Mapping'
U = A + 'MutableMapping'
N = A + 'NameMap'


def run(P, rep):
    rep.rule('group', "a group is the set of its aliases", 8)
    rep.rule('groups', "groups are looked up, merged, added and removed", 8)
    rep.rule('build', "keys are made from explicit and implicit aliases", 8)
    rep.rule('views', "views list every alias, or every group, with its value", 5)
    rep.rule('lookup', "any alias finds the value", 8)
    rep.rule('whole', "mappings are compared, merged, copied and squeezed", 8)
    rep.rule('mutable', "changes apply to all aliases of a key", 8)
    rep.rule('names', "aliases lead to canonical names", 8)
    group(P, rep)
    groups(P, rep)
    build(P, rep)
    views(P, rep)
    lookup(P, rep)
    whole(P, rep)
    mutable(P, rep)
    names(P, rep)


def tables(P, rep, rule):
    def t(qual, params, cases, **k):
        k.setdefault('inline', extracted)
        table(P, rep, rule, qual, params, cases, **k)
    return t


KNOWN = {
    '_build_dict', '_flat_keys', '_resolve', '_look_up_key', '_merge', '_build_mapping',
    '_build_from_key', '_build_from_aliases', '_get_names', '_get_aliases', '_remove',
    '_refresh', '_from_iterable', '_implement', '_search', '_display_items',
}


def extracted(g):
    """Whether a function is a helper that this check does not know."""
    return g.module.name == 'eprempy.aliased' and g.name[:1] == '_' \
        and g.name[:2] != '__' and g.name not in KNOWN


def group(P, rep):
    t = tables(P, rep, 'group')
    t(G + '.__init__', '*a', [
        Case('raise TypeError', {'a': False}),
        Case('return _', {'a': True}, stores={'_aliases': either(
            'type(self)._from_iterable(a)', 'self._from_iterable(a)')}),
    ], words=('unwrap', 'set', 'wrap', 'frozenset'))
    t(G + '._from_iterable', 'it', [
        Case("return unwrap(it, set)"),
    ], words=('frozenset', 'list', 'tuple', 'wrap'))
    t(G + '.supports', 'key', [
        Case('return True', {'except': False}, does=['either(cls(key), Group(key), '
                                                     'type(self)(key))']),
        Case('return False', {'except': True}),
    ])
    t(G + '.__iter__', '', [Case('return iter(self._aliases)')], words=('sorted', 'list'))
    t(G + '.__len__', '', [Case('return len(self._aliases)')])
    t(G + '.__contains__', 'key', [Case('return key in self._aliases')], words=('str',))
    t(G + '.__bool__', '', [Case('return bool(self._aliases)')], words=('len',))
    t(G + '.__hash__', '', [
        Case('return either(hash(frozenset(self._aliases)), self._hash(), '
             'hash(len(self._aliases)), hash(tuple(sorted(self._aliases, ...))))'),
    ], words=('tuple', 'id', 'str', 'repr', 'list'))
    reflected(P, rep)


def either(*p):
    return f"either({', '.join(p)})"


OPERATIONS = {
    '__eq__': ('__eq__',), 'isdisjoint': ('isdisjoint',),
    '__and__': ('__and__', '__rand__'), '__rand__': ('__and__', '__rand__'),
    '__or__': ('__or__', '__ror__'), '__ror__': ('__or__', '__ror__'),
    '__xor__': ('__xor__', '__rxor__'), '__rxor__': ('__xor__', '__rxor__'),
    '__sub__': ('__sub__',), '__rsub__': ('__rsub__',),
}
TESTS = ('__eq__', 'isdisjoint')
TWIN = {'__sub__': '__rsub__', '__rsub__': '__sub__'}


def wrapped(t):
    """Whether a term is a group made of the other operand."""
    return t[0] == 'call' and (t[1] == ('class', G) or t[1] == ('typeof', SELF)) \
        and t[2] == (OTHER,) and not t[3]


def reflected(P, rep):
    """Operations of groups take what is not a group for one."""
    for name, allowed in OPERATIONS.items():
        label = f"Group.{name}"
        it = Interp(P, Config(inline=lambda g: g.cls == G and g.name[:1] == '_'
                              and g.name[:2] != '__', trace=False,
                              classattrs=lambda o, n: o == G))
        st = State()
        st.types[SELF] = G
        got = method(it, P, G, name, st)
        if got is None:
            rep.ob('group', label, False,
                   'is inherited, and takes a string for several aliases')
            continue
        f, where, own = got
        if f is None:
            rep.ob('group', label, None, 'definition not understood', where)
            continue
        it.sinks.append([])
        try:
            res = it.call(f, [SELF, OTHER], {}, st, None,
                          it._frame(P.classes[G].module, None, G))
        except Exception as err:
            rep.ob('group', label, None, str(err), where)
            continue
        it.sinks.pop()
        for v, s in res:
            v = it.snap(v, s)
            iterable = [x for a, x in s.facts.items() if a[0] == 'isa'
                        and any(str(c[-1]).endswith('Iterable') for c in a[2])]
            if any(x is (name in TESTS) for x in iterable):
                continue
            made = False
            if v[0] == 'call' and v[1] in (('typeof', SELF), ('class', G)) \
                    and len(v[2]) == 1 and not v[3]:
                v, made = v[2][0], True
            ok, why = None, f"gives {show(v)[:100]}"
            if v[0] == 'call' and v[1][0] == 'ext' and len(v[2]) == 2 and not v[3] \
                    and '.Set.' in v[1][1]:
                op = v[1][1].rpartition('.')[2]
                a, b = v[2]
                if a == OTHER or b == OTHER:
                    ok, why = False, 'does not make a group of the other operand'
                elif a == SELF and wrapped(b):
                    ok = op in allowed
                elif wrapped(a) and b == SELF:
                    ok = op == TWIN.get(name) or op in allowed and name not in TWIN
                if ok and not made and name not in TESTS:
                    ok, why = False, 'gives a set that is not a group'
            rep.ob('group', label, ok, why, where)


def groups(P, rep):
    t = tables(P, rep, 'groups')
    t(S + '.__init__', '*keys', [
        Case('return _', {'Group(each(keys)) in []': False},
             stores={'_groups': '[many(Group(each(keys)))]'}, choice=True, sure=True),
        Case('return _', {'Group(each(keys)) in []': True}, stores={'_groups': '[]'},
             choice=True, sure=True),
        Case('return _', {}, stores={'_groups': '[]'}, choice=True),
    ], maybe=(1, 2), words=('append',))
    t(S + '._from_iterable', 'it', [
        Case('return either(Groups(many(each(it))), Groups(*it))')])
    t(S + '.flat', '', [Case('return [many(each(each(self._groups)))]')])
    t(S + '.__len__', '', [Case('return len(self._groups)')], words=('flat',))
    t(S + '.__iter__', '', [Case('return iter(self._groups)')], words=('flat',))
    t(S + '.__contains__', '__x', [Case('return self.get(__x) is not None')],
      words=('flat', 'in', 'eq'))
    t(S + '.update', '*others', [
        Case('return None', {'others': True}, stores={'_groups': 'self._merge(*others)'}),
        Case('return None', {'others': False}, stores={'_groups': ''}),
    ], maybe=(1,), words=('_groups',))
    t(S + '.merge', '*others', [Case('return type(self)(*self._merge(*others))')],
      words=('_groups',))
    mine = 'each(self._groups.copy()).isdisjoint(Group({0}))'
    every, one = 'each(each(others))', 'each(others)'
    rows = []
    for x, b in ((every, True), (one, False)):
        isgroups = {'isa(each(others), Groups)': b}
        rows += [
            Case('return self._groups.copy()', {
                **isgroups, mine.format(x): False},
                 does=[f'_.append(Group({x}))'], never=['_.remove(_)'], choice=True,
                 sure=True),
            Case('return self._groups.copy()', {
                **isgroups, mine.format(x): False},
                 does=['_.remove(each(self._groups.copy()))',
                       f'_.append(each(self._groups.copy()) | Group({x}))'], choice=True,
                 sure=True),
        ]
    t(S + '._merge', '*others', [
        *rows,
        Case('return self._groups.copy()', {}, choice=True, never=['_.append(_)', '_.remove(_)']),
        Case('return self._groups.copy()', {'isa(each(others), Groups)': True},
             choice=True, never=['_.append(_)', '_.remove(_)']),
    ], maybe=(4, 5), words=('append', 'remove', 'list', 'get', '_search'))
    t(S + '.add', '__x', [
        Case('raise ValueError', {'each(Group(__x)) in self.flat': True}, choice=True,
             sure=True),
        Case('return None', {'each(Group(__x)) in self.flat': False},
             does=['self._groups.append(Group(__x))'], choice=True, sure=True),
        Case('return None', {}, does=['self._groups.append(Group(__x))'], choice=True),
    ], maybe=(2,), words=('get', 'isdisjoint'), wrong=['each(__x) in self.flat'])
    t(S + '.discard', '__x', [
        Case('return None', {'self.get(__x)': True},
             does=['self._groups.remove(self.get(__x))']),
        Case('return None', {'self.get(__x)': False}, never=['_.remove(_)', '_.append(_)']),
    ], words=('remove', 'pop'))
    found = {'__x in each(self._groups)': True}
    equal = {'Group(__x) == each(self._groups)': True}
    t(S + '.get', '__x default', [
        Case('return each(self._groups)', found, choice=True, sure=True),
        Case('return each(self._groups)', {'__x in each(self._groups)': False, **equal},
             choice=True, sure=True),
        Case('return each(self._groups)', {'isa(__x, typing.Hashable)': False, **equal},
             choice=True, sure=True),
        Case('return default', {}, choice=True),
    ], words=('str', 'repr', 'in', 'eq', 'Group'),
      wrong=['str(__x) in _', '__x == each(self._groups)'])
    t(S + '.__getitem__', '__x', [
        Case('return self.get(__x)', {'self.get(__x) is None': False}),
        Case('raise KeyError', {'self.get(__x) is None': True}),
    ], words=('str', 'repr', 'in', 'eq', 'Group'))
    t(S + '.without', '*keys', [
        Case('return type(self)(many(each(self._groups)))',
             {'all([many(each(keys) not in each(self._groups))])': True,
              'each(self._groups) in keys': False}, choice=True, sure=True),
        Case('return type(self)()', {'all([many(each(keys) not in each(self._groups))])': False}, choice=True, sure=True),
        Case('return type(self)()', {'each(self._groups) in keys': True}, choice=True,
             sure=True),
        Case('return type(self)()', {}, choice=True),
    ], maybe=(1, 2, 3), words=('any', 'all', 'in'), wrong=['any(_)'])


def build(P, rep):
    t = tables(P, rep, 'build')
    t(A + 'keysfrom', 'mapping aliases', [
        Case('return mapping.keys(True)', {'isa(mapping, aliased.Mapping)': True}),
        Case('return [many(Group(each(mapping)))]', {
            'isa(mapping, aliased.Mapping)': False, 'aliases is None': True}),
        Case('return [many(Group(each(mapping)) | aliases.get(each(mapping), ()))]', {
            'isa(mapping, aliased.Mapping)': False, 'aliases is None': False,
            'isa(aliases, Groups)': True}),
        Case('return [many(Group(each(mapping)) | Group(mapping[each(mapping)].get('
             'aliases, ())))]', {
                 'isa(mapping, aliased.Mapping)': False, 'aliases is None': False,
                 'isa(aliases, Groups)': False,
                 'isa(mapping[each(mapping)], typing.Mapping)': True}),
        Case('return [many(Group(each(mapping)))]', {
                 'isa(mapping, aliased.Mapping)': False, 'aliases is None': False,
                 'isa(aliases, Groups)': False,
                 'isa(mapping[each(mapping)], typing.Mapping)': False}),
    ], words=('values', 'items'), defaults={'aliases': None})
    implicit = "any([many('aliases' in mapping[each(mapping)])])"
    item = 'isa(mapping[each(mapping)], typing.Mapping)'
    plain = {'mapping': True, 'aliases': False}
    ok = 'all([many(Group.supports(each(mapping)))])'
    t(A + '_build_mapping', 'mapping aliases', [
        Case('return {}', {'mapping': False}),
        Case('return _build_from_key(mapping, aliases)', {'mapping': True, 'aliases': True}),
        Case("return _build_from_key(mapping, 'aliases')", {
            **plain, item: True, implicit: True}, sure=[item]),
        Case('return _build_from_aliases(mapping)', {
            **plain, item: True, implicit: False, ok: True}),
        Case('return _build_from_aliases(mapping)', {
            **plain, item: False, ok: True, 'any(_)': False}),
        Case('return either(mapping.copy(), None)', {**plain, ok: False}, choice=True),
    ], maybe=(5,), impossible=[{item: False, 'any(_)': True}], words=('dict', 'copy'),
      defaults={'mapping': None, 'aliases': None})
    loop = split(P, A + '_build_from_aliases', 0)
    if loop is None or len(loop[3]) != 1:
        rep.ob('build', '_build_from_aliases', None, 'has no loop over keys and values')
    else:
        head, step, tail, names = loop
        shared = 'any([many(each(Group(key)) in each(out))])'
        t(head, 'mapping', [Case('return (mapping.items(), {})')],
          name='_build_from_aliases, start')
        t(step, 'key value out mapping', [
            Case("return ('next', out)", {shared: True,
                                          'each(out) == each(out) | Group(key)': True},
                 does=['setitem(out, each(out) | Group(key), value)'], choice=True,
                 sure=True),
            Case("return ('next', out)", {shared: True,
                                          'each(out) == each(out) | Group(key)': False},
                 does=['setitem(out, each(out) | Group(key), value)'], choice=True,
                 sure=True),
            Case("return ('next', out)", {}, does=['setitem(out, Group(key), value)'],
                 choice=True, never=['setitem(_, _ | _, _)']),
        ], maybe=(2,), words=('setitem', 'key', 'Group'), name='_build_from_aliases, key',
          wrong=['any([many(key in each(out))])', 'key in each(out)'])
        t(tail, 'out mapping', [Case('return out')], name='_build_from_aliases, end')
        deleted(P, rep, step)
    t(A + '_build_from_key', 'mapping aliases', [
        Case('return {many(each(keysfrom(mapping, aliases))): mapping[each(mapping)]}',
             {'aliases': False}, choice=True),
        Case('return {many(each(keysfrom(mapping, aliases))): mapping[each(mapping)]}',
             {'isa(aliases, str)': False}, choice=True),
        Case('return {many(each(keysfrom(mapping, aliases))): mapping[each(mapping)]}',
             {'aliases': True, 'isa(aliases, str)': True,
              'isa(mapping[each(mapping)], typing.Mapping)': False}),
        Case('return {many(each(keysfrom(mapping, aliases))): '
             '{many(each(mapping[each(mapping)])): '
             'mapping[each(mapping)][each(mapping[each(mapping)])]}}',
             {'aliases': True, 'isa(aliases, str)': True,
              'isa(mapping[each(mapping)], typing.Mapping)': True,
              'each(mapping[each(mapping)]) == aliases': False}, sure=['isa(aliases, str)']),
        Case('return {many(each(keysfrom(mapping, aliases))): {}}',
             {'aliases': True, 'isa(aliases, str)': True,
              'isa(mapping[each(mapping)], typing.Mapping)': True,
              'each(mapping[each(mapping)]) == aliases': True}, sure=True),
    ], maybe=(0, 4), words=('values', 'items', 'zip', 'dict'))
    t(M + '._build_dict', 'mapping aliases', [
        Case('return {**mapping.items(True)}', {'isa(mapping, aliased.Mapping)': True}),
        Case('return _build_mapping(mapping, Groups('
             '*aliases.keys(True)))', {
                 'isa(mapping, aliased.Mapping)': False, 'isa(aliases, aliased.Mapping)': True}),
        Case('return _build_mapping(mapping, Groups(many([each(aliases), '
             'aliases[each(aliases)]])))', {
                 'isa(mapping, aliased.Mapping)': False, 'isa(aliases, aliased.Mapping)': False,
                 'isa(aliases, typing.Mapping)': True,
                 'isa(aliases[each(aliases)], str)': True}),
        Case('return _build_mapping(mapping, Groups(many([each(aliases), '
             '*aliases[each(aliases)]])))', {
                 'isa(mapping, aliased.Mapping)': False, 'isa(aliases, aliased.Mapping)': False,
                 'isa(aliases, typing.Mapping)': True,
                 'isa(aliases[each(aliases)], str)': False}),
        Case('return _build_mapping(mapping, aliases)', {
                 'isa(mapping, aliased.Mapping)': False, 'isa(aliases, aliased.Mapping)': False,
                 'isa(aliases, typing.Mapping)': False}),
    ], words=('dict', 'flat', 'values', 'items', 'keys'))
    t(M + '.__init__', 'mapping aliases', [
        Case('return _', {}, stores={
            'as_dict': 'self._build_dict(mapping, aliases)',
            '_flat_dict': '{many(each(each(self._build_dict(mapping, aliases)))): '
                          'each(self._build_dict(mapping, aliases))}'}),
    ], defaults={'mapping': None, 'aliases': None})
    t(M + '.fromkeys', '__iterable key value', [
        Case('return MutableMapping({many(each(__iterable)): value})', {
            'isa(__iterable, Groups)': True}),
        Case('return MutableMapping({many(each(__iterable)): value})', {
            'isa(__iterable, Groups)': False,
            'isa(__iterable, typing.Mapping)': False}),
        Case('return MutableMapping({many(each(keysfrom(__iterable, key))): value})', {
            'isa(__iterable, Groups)': False,
            'isa(__iterable, typing.Mapping)': True}),
    ], maybe=(0,), defaults={'key': 'aliases', 'value': None}, cls=U)


def deleted(P, rep, step):
    """Keys that a merged key replaces are deleted."""
    fn = P.funcs[step]
    it = Interp(P, Config(inline=extracted))
    for o in it.run(fn, selfclass=None):
        same = [v for a, v in o.st.facts.items() if a[:2] == ('op', 'eq')
                and 'or_' in show(a)]
        if not same:
            continue
        gone = [e for e in o.st.trace if e.kind == 'delitem']
        rep.ob('build', '_build_from_aliases, replaced keys',
               bool(gone) is not same[0],
               'deletes the key' if gone else 'keeps the key', fn.where)


def views(P, rep):
    t = tables(P, rep, 'views')
    V = A + 'MappingView'
    t(V + '.__init__', 'mapping aliased', [
        Case('return _', {'aliased': True}, stores={
            '_keys': 'mapping.as_dict.keys()', '_mapping': 'mapping'}),
        Case('return _', {'aliased': False}, stores={
            '_keys': 'mapping._flat_keys()', '_mapping': 'mapping'}),
    ], defaults={'aliased': False}, words=('as_dict', 'keys'))
    t(V + '.__len__', '', [Case('return len(self._keys)')], words=('_mapping',))
    t(A + 'KeysView.__iter__', '', [
        Case('return either([many(each(self._keys))], iter(self._keys))')],
      words=('_mapping',))
    t(A + 'ValuesView.__iter__', '', [
        Case('return [many(self._mapping[each(self._keys)])]', {}, choice=True),
        Case('return []', {}, choice=True)], maybe=(1,), words=('_mapping',))
    t(A + 'ItemsView.__iter__', '', [
        Case('return [many((each(self._keys), self._mapping[each(self._keys)]))]', {},
             choice=True),
        Case('return []', {}, choice=True)], maybe=(1,), words=('_mapping',))
    for name, view in (('keys', 'KeysView'), ('values', 'ValuesView'), ('items', 'ItemsView')):
        t(f"{M}.{name}", 'aliased', [Case(f"return either({view}(self, aliased), "
                                              f"{view}(self, aliased=aliased))")],
          defaults={'aliased': False}, words=('KeysView', 'ValuesView', 'ItemsView'))
        t(f"{N}.{name}", 'aliased', [
            Case(f"return self._mapping.{name}(aliased)")],
          defaults={'aliased': False}, words=('keys', 'values', 'items'))


def lookup(P, rep):
    t = tables(P, rep, 'lookup')
    t(M + '._flat_keys', '', [
        Case('return either(KeysView([many(each(each(self.as_dict)))]), '
             '[many(each(each(self.as_dict)))], self._flat_dict.keys())'),
    ], words=('KeysView', 'as_dict'))
    t(M + '.flat', '', [
        Case('return {many(each(self._flat_keys())): self[each(self._flat_keys())]}')],
      words=('as_dict', 'keys'))
    t(M + '.__contains__', '__o', [Case('return self._resolve(__o) is not None')],
      words=('as_dict', 'in', '_flat_dict', 'is', 'get', 'flat'))
    t(M + '.__iter__', '', [
        Case('return either([many(each(self._flat_keys()))], iter(self._flat_keys()))')],
      words=('as_dict',))
    t(M + '.__len__', '', [Case('return len(self._flat_keys())')], words=('as_dict',))
    t(M + '.__getitem__', 'key', [
        Case('return self.as_dict[self._resolve(key)]', {'self._resolve(key)': True}),
        Case('raise KeyError', {'self._resolve(key)': False}),
    ])
    t(M + '._resolve', 'key', [
        Case('return self._look_up_key(key)', {'isa(key, Group)': True}),
        Case('return self._flat_dict.get(key)', {'isa(key, Group)': False}),
    ], words=('str', 'as_dict'))
    t(M + '._look_up_key', 'target', [
        Case('return each(self.as_dict)', {'each(self.as_dict) == target': True},
             choice=True, sure=True),
        Case('return target', {'target in self.as_dict': True}, choice=True),
        Case('return None', {}, choice=True),
        Case('return None', {'except': True}, choice=True),
    ], maybe=(0, 1, 2, 3), words=('in', 'eq', 'isdisjoint'),
      wrong=['each(self.as_dict) is target', '_ in target', '_ in each(self.as_dict)'])
    t(M + '.alias', 'key include', [
        Case('return self._resolve(key)', {'include': True}),
        Case('return either(self._resolve(key) - [key], self._resolve(key) - key, '
             'self._resolve(key) - {key}, self._resolve(key) - (key,))', {'include': False}),
    ], defaults={'include': False}, words=('as_dict',))


def whole(P, rep):
    t = tables(P, rep, 'whole')
    known, mapping = 'isa(other, aliased.Mapping)', 'isa(other, typing.Mapping)'
    t(M + '.__eq__', 'other', [
        Case('return NotImplemented', {mapping: False}),
        Case('return self.items() == other.items()', {mapping: True, known: True}),
        Case('return either({**self.items()} == {**other.items()}, '
             '{**self.items()} == {**other}, self.flat == {**other}, '
             'self.flat == {**other.items()}, self.flat == other, '
             'dict(self) == dict(other))', {mapping: True, known: False}),
    ], words=('keys', 'values', 'flat', 'as_dict', 'dict', 'items'))
    t(M + '.__or__', 'other', [
        Case('return type(self)(dict((*self.items(True), *other.items(True))))',
             {known: True}),
        Case('return type(self)(dict((*self.items(True), many((each(other), '
             'other[each(other)])))))',
             {known: False, mapping: True}),
        Case('return NotImplemented', {known: False, mapping: False}),
    ], words=('dict', 'items', 'as_dict', 'flat'))
    t(M + '.copy', '', [Case('return type(self)(self)')],
      words=('as_dict', 'flat', 'Mapping', 'dict', 'items', 'copy'))
    inner = 'self.as_dict[each(self.as_dict)]'
    values = f'(many({inner}),)'
    isa = f'isa({inner}, typing.Mapping)'
    single = f'all([many(len({inner}) == 1)])'
    same = f'each(each({values}[1:])) == each({inner})'
    squeezed = {'as_dict': f'{{many(each(self.as_dict)): {inner}[each({inner})]}}'}
    every = {values: True, isa: True, single: True}
    t(M + '.squeeze', 'strict', [
        Case('return self', {values: False}, stores={'as_dict': ''}),
        Case('return self', {values: True, isa: False}, stores={'as_dict': ''}),
        Case('return self', {values: True, isa: True, single: False}, stores={'as_dict': ''}),
        Case('return self', {**every, 'strict': False}, stores=squeezed),
        Case('return self', {**every, 'strict': True, same: True}, stores=squeezed,
             choice=True, sure=True),
        Case('return self', {**every, 'strict': True}, stores=squeezed, choice=True),
        Case('raise TypeError', {**every, 'strict': True, same: False}, choice=True, sure=True),
    ], maybe=(5,), words=('len', 'all', 'any'), defaults={'strict': False},
      impossible=[{isa: False, f'all([many({isa})])': True}], ignore=[f'all([many({isa})])'])


def mutable(P, rep):
    t = tables(P, rep, 'mutable')
    t(U + '.__init__', 'mapping aliases', [
        Case('return _', {}, does=['_.__init__(mapping, aliases)'], stores={'_groups': '{}'}),
    ], defaults={'mapping': None, 'aliases': None})
    t(U + '.__getitem__', 'key', [
        Case('return either((many(_S.__getitem__(each(self._groups[key]))),), '
             '(many(self[each(self._groups[key])]),))', {'key in self._groups': True}),
        Case('return self.__getitem__(key)', {'key in self._groups': False}),
    ])
    refreshed = '{many(each(each(self.as_dict))): each(self.as_dict)}'
    t(U + '.__setitem__', 'key value', [
        Case('return None', {'self._resolve(key)': True}, does=[
            'setitem(self.as_dict, self._resolve(key), value)', 'self._refresh()']),
        Case('return None', {'self._resolve(key)': False}, does=[
            'setitem(self.as_dict, Group(key), value)', 'self._refresh()']),
    ], words=('setitem', 'Group', 'as_dict'))
    t(U + '.__delitem__', 'key', [
        Case('raise KeyError', {'self._resolve(key)': False}),
        Case('return None', {'self._resolve(key)': True}, does=['self._refresh()']),
    ])
    removed(P, rep)
    t(U + '._refresh', '', [Case('return None', {}, stores={'_flat_dict': refreshed})])
    free = 'each(aliases) in self._flat_keys()'
    t(U + '.alias', 'key *aliases include', [
        Case('return self.alias(key, include=include)', {'aliases': False}),
        Case('raise KeyError', {'aliases': True, 'each(aliases) == key': False, free: True},
             never=['setitem(_, _, _)'], choice=True, sure=True),
        Case('return None', {'aliases': True, 'each(aliases) == key': False, free: False},
             does=['setitem(self.as_dict, self._resolve(key) | each(aliases), self[key])'],
             choice=True, sure=True),
        Case('return None', {'aliases': True, free: True}, choice=True,
             never=['setitem(_, _, _)']),
        Case('return None', {'aliases': True, 'each(aliases) == key': True}, choice=True,
             never=['setitem(_, _, _)']),
    ], maybe=(3, 4), ignore=['1 < len(self.alias(key))', 'len(self.alias(key)) > 1'],
      words=('setitem', 'as_dict'), defaults={'include': False})
    t(U + '.group', 'name *keys', [
        Case('raise ValueError', {'name in self': True}, never=['setitem(_, _, _)']),
        Case('raise KeyError', {'name in self': False, 'keys': False,
                                'name in self._groups': False}),
        Case('return self._groups[name]', {'name in self': False, 'keys': False,
                                           'name in self._groups': True}),
        Case('return None', {'name in self': False, 'keys': True},
             does=['setitem(self._groups, name, keys)']),
    ], words=('setitem', 'as_dict'))
    grouped = '{many(each(self._groups)): self[each(self._groups)]}'
    t(U + '.freeze', 'groups', [
        Case('return Mapping(self)', {'groups': False}),
        Case(f'return either(Mapping(self) | {grouped}, '
             f'Mapping({{**self.as_dict, **{grouped}}}), '
             f'Mapping(self.as_dict | {grouped}))', {'groups': True}),
    ], defaults={'groups': False},
      words=('dict', 'items', 'as_dict', 'copy', 'flat'))
    t(U + '.copy', '', [
        Case('return _C', {}, does=['_.copy()'], stores={
            'return._groups': 'either(self._groups.copy(), {**self._groups}, '
                              'dict(self._groups))'}),
    ], words=('_groups',))


def removed(P, rep):
    """Deleting an item, and replacing a key, remove the key that was resolved."""
    for name, arg in (('__delitem__', True), ('alias', False)):
        fn = P.funcs.get(f"{U}.{name}")
        if fn is None:
            rep.ob('mutable', f"MutableMapping.{name}", None, 'is not defined')
            continue
        it = Interp(P, Config(inline=extracted))
        for o in it.run(fn, selfclass=U):
            sets = [e for e in o.st.trace if e.kind == 'setitem']
            if o.kind != 'return' or not (arg or sets):
                continue
            gone = [e for e in o.st.trace if e.kind == 'delitem']
            ok = None
            what = 'deletes nothing'
            if len(gone) == 1:
                where, key = gone[0].data[:2]
                what = f"deletes {show(key)[:60]} of {show(where)[:40]}"
                resolved = ('call', ('attr', SELF, '_resolve'), (('sym', 'key'),), ())
                if where == ('attr', SELF, 'as_dict'):
                    ok = True if key == resolved else None
                elif where == SELF and key == ('sym', 'key') and not arg:
                    ok = True
            elif not gone:
                ok = False
            rep.ob('mutable', f"MutableMapping.{name}, deletion", ok, what, fn.where)


def names(P, rep):
    t = tables(P, rep, 'names')
    mapping = 'isa(defs, typing.Mapping)'
    made = 'self._build_mapping(tuple(self._get_names(defs, refs)), {0}, key)'
    kept = "{{'refs': tuple(self._get_names(defs, refs)), 'defs': {0}, 'key': key}}"
    t(N + '.__init__', 'defs refs key', [
        Case('return _', {mapping: True}, stores={
            '_mapping': made.format('defs'), '_init': kept.format('defs')}),
        Case('return _', {mapping: False}, stores={
            '_mapping': made.format('tuple(defs)'), '_init': kept.format('tuple(defs)')}),
    ], defaults={'refs': None, 'key': 'aliases'}, words=('list', 'tuple'))
    refm = 'isa(refs, typing.Mapping)'
    t(N + '._get_names', 'defs refs', [
        Case('return either(refs.keys(), list(refs), tuple(refs), refs)', {refm: True}),
        Case('return refs', {refm: False, 'isa(refs, typing.Iterable)': True}),
        Case('return either(defs.keys(), list(defs), tuple(defs), defs)', {
            refm: False, 'isa(refs, typing.Iterable)': False, mapping: True}),
        Case('raise TypeError', {
            refm: False, 'isa(refs, typing.Iterable)': False, mapping: False}),
    ], maybe=(0,), words=('keys', 'values', 'list', 'tuple'))
    update = 'each(self._get_aliases(names, aliases, key))'
    t(N + '._build_mapping', 'names aliases key', [
        Case('return Mapping(MutableMapping({many(each(names)): each(names)}))', {},
             does=[f'_.alias({update}, *self._get_aliases(names, aliases, key)[{update}])'],
             choice=True, sure=True),
        Case('return Mapping(MutableMapping({many(each(names)): each(names)}))', {},
             never=['_.alias(...)'], choice=True, sure=True),
    ], maybe=(1,), words=('alias',))
    each = 'each(these)'
    inner = f'isa(these[{each}], typing.Mapping)'
    iterable = 'isa(these, typing.Iterable)'
    every = 'all([many(isa(each(these), typing.Iterable))])'
    t(N + '._get_aliases', 'names these key', [
        Case('raise TypeError', {'isa(these, typing.Mapping)': True,
                                 'any(_)': True}, choice=True),
        Case(f'return {{many({each}): self._remove({each}, these[{each}].get(key, ()))}}', {
            'isa(these, typing.Mapping)': True, f'{each} in names': True, inner: True},
             choice=True, sure=True),
        Case(f'return {{many({each}): self._remove({each}, these[{each}])}}', {
            'isa(these, typing.Mapping)': True, f'{each} in names': True, inner: False},
             choice=True, sure=True),
        Case('return {}', {'isa(these, typing.Mapping)': True, f'{each} in names': False},
             choice=True),
        Case('return {many(each(names)): tuple(each(these))}', {
            'isa(these, typing.Mapping)': False, every: True,
            'each(names) in each(these)': True}, choice=True),
        Case('return {}', {'isa(these, typing.Mapping)': False, 'all(_)': False},
             choice=True),
        Case('return {}', {'isa(these, typing.Mapping)': False, iterable: False},
             choice=True),
    ], maybe=(0, 3, 5, 6), ignore=['any(_)', 'isa(each(these), str)', iterable],
      words=('values', 'items', 'keys', 'in', 'eq'))
    t(N + '._remove', 'name aliases', [
        Case('return (aliases,)', {'isa(aliases, str)': True,
                                       'aliases == name': False}),
        Case('return ()', {'isa(aliases, str)': True, 'aliases == name': True}),
        Case('return (many(each(aliases)),)', {'isa(aliases, str)': False,
                                             'each(aliases) == name': False}),
    ], words=('in', 'eq'), maybe=(1,))
    t(N + '.__getitem__', 'key', [
        Case('return self._mapping[key]', {'key in self._mapping': True}),
        Case('raise KeyError', {'key in self._mapping': False}),
    ])
    t(N + '.__len__', '', [
        Case('return either(len(self._mapping.keys()), len(self._mapping))')],
      words=('as_dict',))
    t(N + '.__iter__', '', [
        Case('return either(iter(self._mapping.keys()), iter(self._mapping))')],
      words=('as_dict',))
    t(N + '.copy', '', [Case('return type(self)(**self._init)')])
