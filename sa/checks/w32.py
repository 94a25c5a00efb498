"""W32: units compare, and belong to metric systems, as their definitions say."""

from ..spec import table, Case

LEVEL = 'other'
EXPLANATION = (
    "Abstract interpretation of the comparison of units and of the functions that find the "
    "dimension of a unit and the systems to which it belongs (eprempy.metric). Functions are "
    "compared with decision tables, path by path: which conditions decide each answer, and "
    "which values it is made of."
)
ASSUMPTIONS = [
    "symbolic expressions are equal if they hold equal terms (S24)",
    "the tables of units and quantities are right (M01, M04)",
]
U = 'eprempy.metric._units:'
D = 'eprempy.metric._defined:'
DIM = 'eprempy.metric._dimensions:'
S = 'eprempy.metric._systems:'
KNOWN = {'_equivalent_quantities', '_decompose_unit', '_decompose_term', '_apply_operator',
         '_dimensions_in', '_as_symbol', '_get_property', '_parse', '_expand', '_reduce',
         '_resolve_system', '_get_dimensions', '_decompose', '_init_from', '_get_unit',
         '_format_targets', '_unit_from_unit', '_unit_from_dimension',
         '_unit_from_quantity'}


def extracted(g):
    """Whether a function is a helper that this check does not know."""
    return g.module.name.startswith('eprempy.metric') and g.name[:1] == '_' \
        and g.name[:2] != '__' and g.name not in KNOWN


def tables(P, rep, rule):
    def t(qual, params, cases, **k):
        k.setdefault('inline', extracted)
        table(P, rep, rule, qual, params, cases, **k)
    return t


BOTH = ("{'mks', 'cgs'}", "{'cgs', 'mks'}")


def either(*p):
    return f"either({', '.join(p)})"


def run(P, rep):
    rep.rule('compare', "units are equal, equivalent or consistent", 12)
    rep.rule('dimension', "the dimension of a unit is that of its terms", 6)
    rep.rule('system', "units belong to the systems that define their base unit", 8)
    rep.rule('lookup', "quantities, units and dimensions are found by what names them", 6)
    compare(P, rep)
    dimension(P, rep)
    system(P, rep)
    rep.rule('reduce', "reductions keep their units and scale once", 5)
    lookup(P, rep)
    reduce(P, rep)


def compare(P, rep):
    t = tables(P, rep, 'compare')
    words = ('unit_factory', 'dimensionless', 'decomposed', 'dimensions', 'difference',
             'equality', '_equivalent_quantities', 'Unit', 'lshift', 'rshift', 'set', 'str')
    t(U + 'Unit.__eq__', 'other', [
        Case('return True', {'other is self': True}),
        Case('return _.__eq__(other)', {'other is self': False}),
        Case('return _.__eq__(other)', choice=True, name='always'),
    ], words=words, maybe=('always',))
    that = 'unit_factory(other)'
    eq = 'self == other'
    unity = either(*(f'all([many(str(each({d})) in {u})])' for d in (
        'self.difference(other, symmetric=True)', 'self.difference(other, True)')
        for u in ("{'#', '1'}", "{'1', '#'}")))
    free = f'self.dimensionless == {that}.dimensionless'
    terms = f'set(self.decomposed) == set({that}.decomposed)'
    base = f'equality(self.decomposed, {that}.decomposed)'
    no = {eq: False, unity: False}
    other = {**no, free: True, terms: False, base: False}
    t(U + 'Unit.__and__', 'other', [
        Case('return True', {eq: True}, name='equal'),
        Case('return True', {eq: False, unity: True}, name='but unity'),
        Case('return False', {**no, free: False}, name='only one has a dimension'),
        Case('return True', {**no, free: True, terms: True}, name='same terms'),
        Case('return True', {**no, free: True, terms: False, base: True}, name='same bases'),
        Case(either(f'return self << {that} == 1.0')[7:-1], {**other, 'except': False},
             name='ratio'),
        Case('return False', {**other, 'except': True}, name='no ratio'),
    ], words=words, maybe=('same terms',))
    both = 'self & other'
    none = {eq: False, both: False}
    given = f'{that}.dimensions'
    same = '_equivalent_quantities(self, unit_factory(other))'
    rows = []
    for s in ('mks', 'cgs'):
        d = f"self.dimensions['{s}']"
        rows.append((d, either(f'any([many({given}[each({given})] == {d})])',
                               f'{d} in {given}.values()')))
    (m, anym), (c, anyc) = rows
    differ = {anym: False, anyc: False}
    t(U + 'Unit.__or__', 'other', [
        Case('return True', {eq: True}, name='equal'),
        Case('return True', {eq: False, both: True}, name='equivalent'),
        Case('return True', {**none, m: True, anym: True}, name='mks', sure=True),
        Case('return True', {**none, c: True, anyc: True}, name='cgs', sure=True),
        Case('return True', {**none, **differ, same: True}, name='quantity'),
        Case('return True', {**none, **differ, same: False, 'except': False},
             name='factor'),
        Case('return False', {**none, **differ, same: False, 'except': True},
             name='no factor'),
    ], words=words)
    q0, q1 = 'get_quantity(u0)', 'get_quantity(u1)'
    t(U + '_equivalent_quantities', 'u0 u1', [
        Case(f'return {q0} == {q1}', {'except': False}),
        Case('return False', {'except': True}),
    ], words=('get_quantity',))
    a, b = 'unitlike(a)', 'unitlike(b)'
    isu = {x: f'isa({x}, Unit)' for x in 'ab'}
    isn = {x: f'isa({x}, numbers.Real)' for x in 'ab'}
    t(U + '_apply_operator', 'f a b', [
        Case('return unit_factory(f(_decompose_unit(a), _decompose_unit(b)))',
             {a: True, b: True}, sure=True),
        Case('return unit_factory(f(a.decomposed, b))', {
            b: False, isu['a']: True, isn['b']: True}, sure=[isu['a'], isn['b']]),
        Case('return unit_factory(f(a, b.decomposed))', {
            a: False, isn['a']: True, isu['b']: True}, sure=[isn['a'], isu['b']]),
        Case('return NotImplemented', {}, choice=True, name='neither'),
    ], words=('unit_factory', 'f', '_decompose_unit', 'decomposed', 'unitlike'),
       maybe=('neither',),
       impossible=[{isu['a']: True, isn['a']: True}, {isu['b']: True, isn['b']: True},
                   {a: False, isu['a']: True}, {b: False, isu['b']: True},
                   {a: True, isn['a']: True}, {b: True, isn['b']: True}])
    isunit = 'isa(this, Unit, str)'
    t(U + 'unitlike', 'this', [
        Case('return True', {isunit: True}),
        Case('return type(this) is Expression', {isunit: False}),
    ], words=('Expression',))
    m = 'arg.decomposed'
    part = 'NamedUnit(term.base).decomposed'
    t(U + '_decompose_term', 'term', [
        Case('return [term]', {'except': True}, name='unknown'),
        Case('return [term]', {f'{part} is None': True, 'except': False}),
        Case(f'return [many(each({part}) ** term.exponent)]', {
            f'{part} is None': False, 'except': False}),
    ], words=('NamedUnit', 'decomposed', 'term'))


def dimension(P, rep):
    t = tables(P, rep, 'dimension')
    words = ('NamedUnit', 'dimensions', 'expression_factory', 'Dimension', 'systems',
             'dimension_factory', 'unit_factory')
    for q, params, sys_, unit, make in (
            (U + 'Unit._dimensions_in', 'system', 'system', 'self',
             ('Dimension', 'dimension_factory')),
            (S + 'System.get_dimension', 'this', 'self.name', 'unit_factory(this)',
             ('Dimension', 'dimension_factory'))):
        term = f'each({unit})'
        named = f'NamedUnit({term}.base)'
        ok = f"{named}.systems['allowed']"
        many = f'1 < len({ok})'
        mine = f'{sys_} in {{many(_)}}'

        def made(d):
            x = f"expression_factory('1') * (expression_factory({d}) ** {term}.exponent)"
            return either(*(f'{m}({x})' for m in make))
        t(q, params, [
            Case(f"return {made(f'{named}.dimensions[{sys_}]')}", {
                many: True, mine: True}, sure=True),
            Case(f"return {made(f'{named}.dimensions[{ok}[0]]')}", {
                many: False, mine: True}, sure=True),
            Case('raise ValueError', {f'{sys_} in _': False}, name='not here', sure=True),
            Case('return ' + either(*(f"{m}(expression_factory('1'))" for m in make)),
                 choice=True, name='no terms'),
        ], words=words, maybe=('no terms', 'not here'))
    no = 'self._dimensionless is None'
    d = 'self.dimensions'
    one = f"all([many({d}[each({d})] == '1')])"
    t(U + 'Unit.dimensionless', '', [
        Case(f'return {one}', {no: True}, stores={'self._dimensionless': one}),
        Case('return self._dimensionless', {no: False}),
    ], words=('dimensions',))
    t(D + 'get_quantity', 'unit', [
        Case("return expression_factory([many(term_factory(NamedUnit(each(unit).base)"
             ".quantity.replace(' ', '_')) ** each(unit).exponent)])"),
    ], words=('expression_factory', 'term_factory', 'NamedUnit', 'quantity', 'replace'))
    new = 'Dimension(common)'
    t(DIM + 'dimension_factory', 'arg', [
        Case('return Dimension(expression_factory(arg))')],
      words=('Dimension', 'expression_factory'))

    def base(x):
        return either(*(f'dict.fromkeys({b}, {x})' for b in BOTH))
    have, some = 'common', 'systems[each(systems)]'
    t(DIM + 'Dimensions._init_from', 'common **systems', [
        Case(f"return {base(new)}", {have: True, 'any(_)': True}, name='common'),
        Case(f"return {base(None)}", {have: False, 'any(_)': True}, name='own'),
        Case('raise TypeError', {'any(_)': False}, name='empty', sure=True),
    ], words=('Dimension', 'fromkeys', 'dict'), maybe=('empty',))


def system(P, rep):
    t = tables(P, rep, 'system')
    words = ('symbol', 'name', 'CANONICAL', 'quantity', 'is_fundamental_in', 'is_defined_in',
             'base', 'lower', 'systems', 'dimensions', 'copy')
    known = "CANONICAL['units'][system][self.quantity]"
    sym, name = f'self.symbol == {known}', f'self.name == {known}'
    t(D + 'NamedUnit.is_fundamental_in', 'system', [
        Case('return True', {sym: True}),
        Case('return True', {name: True}, name='by name'),
        Case('return False', {sym: False, name: False}),
    ], words=words)
    top = 'self.is_fundamental_in(system)'
    base = f'type(self)({known}).base == self.base'
    t(D + 'NamedUnit.is_defined_in', 'system', [
        Case('return True', {top: True}),
        Case('return True', {top: False, base: True, 'except': False}, name='same base'),
        Case('return False', {top: False, base: False, 'except': False}),
        Case('return False', {top: False, 'except': True}, name='unknown'),
    ], words=words)
    m, c = "self.is_defined_in('mks')", "self.is_defined_in('cgs')"
    t(D + 'NamedUnit.is_allowed_in', 'system', [
        Case('return ' + either(*(f'system in {b}' for b in BOTH)), {m: True, c: True}),
        Case("return system in {'mks'}", {m: True, c: False}),
        Case("return system in {'cgs'}", {m: False, c: True}),
        Case('return ' + either(*(f'system in {b}' for b in BOTH)), {m: False, c: False}, name='free'),
    ], words=words)
    given = 'isa(system, str)'
    valid = either(*(f'system.lower() in {b}' for b in BOTH))
    m, c = "self.is_fundamental_in('mks')", "self.is_fundamental_in('cgs')"
    dm, dc = "self.dimensions['mks']", "self.dimensions['cgs']"
    same, nm, nc = f'{dm} == {dc}', f'{dm} is None', f'{dc} is None'
    rows = [Case('return system.lower()', {given: True, valid: True})]
    for n, unknown in (('a', {given: False}), ('b', {given: True, valid: False})):
        rows += [
            Case("return 'mks'", {**unknown, m: True, c: False}, name='mks' + n),
            Case("return 'cgs'", {**unknown, m: False, c: True}, name='cgs' + n)]
        for k, open_ in (('both', {m: True, c: True}), ('none', {m: False, c: False})):
            x = {**unknown, **open_}
            rows += [
                Case("return 'mks'", {**x, same: True}, name=f'same {k}{n}'),
                Case("return 'cgs'", {**x, same: False, nm: True}, name=f'only cgs {k}{n}'),
                Case("return 'mks'", {**x, same: False, nm: False, nc: True},
                     name=f'only mks {k}{n}'),
                Case('raise SystemAmbiguityError', {**x, same: False, nm: False, nc: False},
                     name=f'ambiguous {k}{n}')]
    t(D + 'NamedUnit._resolve_system', 'system', rows, words=words,
      maybe=tuple(c.name for c in rows if c.name))
    every = either(*(f'systems == {b}' for b in BOTH))
    all_ = either('DIMENSIONS[self.quantity].copy()', '{**DIMENSIONS[self.quantity]}',
                  'dict(DIMENSIONS[self.quantity])')
    t(D + 'NamedUnit._get_dimensions', 'systems', [
        Case(f'return {all_}', {'systems': False}, name='free'),
        Case(f'return {all_}', {'systems': True, every: True}),
        Case('return ' + either(*(f'dict.fromkeys({b})' for b in BOTH)), {
            'systems': True, every: False, 'len(systems) == 1': True}),
        Case('raise SystemAmbiguityError', {
            'systems': True, every: False, 'len(systems) == 1': False}),
    ], words=words + ('fromkeys', 'DIMENSIONS'))


def lookup(P, rep):
    t = tables(P, rep, 'lookup')
    words = ('unit_factory', '_get_unit', 'normalize', 'units', 'dimensions', 'methods',
             'quantity_factory', 'Quantity', 'System', 'NamedUnit', 'lower', 'get')
    t(D + 'identify', 'string', [
        Case("return (Prefix(**_['prefix']), BaseUnit(**_['base']))", {'except': False}),
        Case('raise UnitParsingError', {'except': True}),
    ], words=words + ('Prefix', 'BaseUnit'))
    arg = 'targets[each(targets)]'
    got = f'methods[each(targets)]({arg})'
    one = f"str({arg}) == '1'"
    t(S + 'System._get_unit', 'methods targets', [
        Case("return unit_factory(self['identity'].unit)", {arg: True, one: True},
             sure=True),
        Case(f'return {got}', {arg: True, one: False, got: True}, sure=True),
        Case('raise SearchError', {got: False}, name='not found', sure=True),
        Case('raise SearchError', choice=True, name='otherwise'),
    ], words=words, maybe=('not found', 'otherwise'))
    t(S + 'System._unit_from_unit', 'target', [
        Case('return unit_factory(target).normalize(self.name)')], words=words)
    d = 'self.dimensions'
    is_ = f'{d}[each({d})] == target'
    t(S + 'System._unit_from_dimension', 'target', [
        Case(f'return unit_factory(self.units[each({d})])', {is_: True}, sure=True),
        Case('return None', {is_: False}, sure=True, name='none'),
    ], words=words, zero='None', maybe=('none',))
    t(S + 'System._unit_from_quantity', 'quantity', [
        Case('return unit_factory(self[quantity].unit)')], words=words)
    t(S + 'System.__getitem__', 'key', [
        Case('return quantity_factory(key)[self.name]', {'except': False}),
        Case('raise KeyError', {'except': True}),
    ], words=words)
    u = 'self.units[system.lower()]'
    t(S + 'Quantity.__getitem__', 'system', [
        Case(f'return Properties(system, {u})', {'except': False}),
        Case('raise QuantityError', {'except': True}),
    ], words=words + ('Properties',))
    isq, one = 'isa(arg, Quantity)', 'str(arg).lower()'
    for f, cls, table_ in (('quantity_factory', 'Quantity', '_quantities'),
                           ('system_factory', 'System', '_systems')):
        have = f'{table_}.get({one})'
        t(S + f, 'arg', [
            Case('return arg', {f'isa(arg, {cls})': True}),
            Case(f'return {have}', {f'isa(arg, {cls})': False, have: True}),
            Case(f'return {cls}({one})', {f'isa(arg, {cls})': False, have: False}),
        ], words=words + (table_, cls))
    yes, other = 'isa(other, System)', 'isa(other, str)'
    t(S + 'System.__eq__', 'other', [
        Case('return self.name == other.name.lower()', {yes: True}),
        Case('return self.name == other.lower()', {yes: False, other: True}),
        Case('return NotImplemented', {yes: False, other: False}),
    ], words=words)
    same = 'self[{0}].dimension == other[{0}].dimension'
    isq = 'isa(other, Quantity)'
    m, c = (same.format(repr(x)) for x in ('mks', 'cgs'))
    t(S + 'Quantity.__or__', 'other', [
        Case('return NotImplemented', {isq: False}),
        Case('return True', {isq: True, m: True, c: True}),
        Case('return False', {isq: True, m: False}, name='not in mks'),
        Case('return False', {isq: True, m: True, c: False}, name='not in cgs'),
    ], words=words + ('dimension',))
    t(S + 'Quantity.__eq__', 'other', [
        Case('return other.lower() == self.name', {'isa(other, str)': True}),
        Case('return other is self', {'isa(other, str)': False}),
    ], words=words)


def reduce(P, rep):
    t = tables(P, rep, 'reduce')
    words = ('units', 'scale', 'system', '_expression', 'terms', 'list', 'type')
    num = 'isa(other, numbers.Real)'
    r = D + 'Reduction.'

    def new(terms, scale):
        terms = [terms] + [f'{f}({x})' for x in [terms] for f in ('list',)]
        return either(*(f'type(self)({x}, {y}, {z})' for x in terms
                        for y in (scale, f'scale={scale}')
                        for z in ('self.system', 'system=self.system')
                        if '=' in z or '=' not in y))
    for op, x in (('mul', '*'), ('truediv', '/')):
        t(r + f'__{op}__', 'other', [
            Case('return NotImplemented', {num: False}),
            Case(f"return {new('self.units', f'self.scale {x} other')}", {num: True}),
        ], words=words)
    t(r + '__pow__', 'other', [
        Case('return NotImplemented', {num: False}),
        Case(f"return {new('[many(each(self.units) ** other)]', 'self.scale ** other')}",
             {num: True}),
    ], words=words)
    no, each = 'self._units is None', 'each(self._expression.terms)'
    t(r + 'units', '', [
        Case(f'return [many({each})]', {no: True, f"{each}.base == '1'": False}),
        Case('return self._units', {no: False}),
    ], words=words)
    t(r + '__init__', 'terms scale system', [
        Case('return None', stores={
            'self._expression': 'scale * expression_factory(terms)', 'self.scale': 'scale',
            'self.system': 'system'}),
    ], words=words + ('expression_factory',))
