"""Q26: measuring keeps every value and the unit that goes with it."""

from ..spec import table, Case

LEVEL = 'other'
EXPLANATION = (
    "Abstract interpretation of eprempy.quantity and of the parts of eprempy.measured that "
    "hold values. Functions are compared with decision tables, path by path: which forms of "
    "input are read as numbers and a unit, in which order the forms are tried, which values "
    "and unit come out, and which input is refused."
)
ASSUMPTIONS = [
    "containers, strings, numbers and numpy arrays behave as documented",
    "container.unwrap, container.distribute and container.isseparable do as property C21 says",
]
F = 'eprempy.quantity._functions:'
Q = 'eprempy.quantity:'
E = 'eprempy.quantity._measurement:'
M = 'eprempy.measured.'


def run(P, rep):
    rep.rule('parse', "numbers and a unit come out of each form of input", 25)
    rep.rule('measurable', "measurable input is told from other input", 8)
    rep.rule('measure', "a measurement has the values and the unit of its argument", 8)
    rep.rule('create', "measured objects are made of the data and unit given", 20)
    rep.rule('access', "measured objects give their values one by one or as one number", 10)
    parse(P, rep)
    measurable(P, rep)
    measure(P, rep)
    create(P, rep)
    access(P, rep)


KNOWN = {'_wrap_measurable', '_recursive_parse', '_measure_explicit', '_measure_implicit',
         '_cast_to', '_default_converter'}


def extracted(g):
    """Whether a function is a helper that this check does not know."""
    return g.module.name.startswith(('eprempy.quantity', 'eprempy.measured')) \
        and g.name[:1] == '_' and g.name[:2] != '__' and g.name not in KNOWN


def tables(P, rep, rule):
    def t(qual, params, cases, **k):
        k.setdefault('inline', extracted)
        table(P, rep, rule, qual, params, cases, **k)
    return t


def either(*p):
    return f"either({', '.join(p)})"


U = 'unwrap(x)'


def wrongly(x):
    """Conditions about other members of a collection than those that count."""
    return [f'{f}([many(isa(each({y}), numbers.Real))])' for f, y in (
        ('any', x), ('any', f'{x}[:-1]'), ('all', f'{x}[:1]'), ('all', f'{x}[1:]'),
        ('all', f'{x}[:]'), ('all', f'{x}[-1:]'), ('all', f'{x}[1]'), ('all', f'{x}[-1]'))]


def parse(P, rep):
    t = tables(P, rep, 'parse')
    none = {f'{U} is None': True}
    some = {f'{U} is None': False, f'isnull({U})': False}
    real = f'isa({U}, numbers.Real)'
    text = f'isa({U}, str)'
    thing = {**some, real: False, text: False}
    mapping = f'isa({U}, typing.Mapping)'
    nested = f'all([many(isa(each({U}), list, tuple))])'
    flat = {**thing, mapping: False, nested: False}
    count = f'[many(type(each({U})))].count({{}})'
    units, strings = count.format('metric.Unit'), count.format('str')
    many = {**flat, f'{units} > 1': False, f'{strings} + {units} > 1': True}
    few = {**flat, f'{units} > 1': False, f'{strings} + {units} > 1': False}
    last, first = f'{U}[-1]', f'{U}[0]'
    floats = f'[many(float(each({U})))]'
    lead = f'[many(float(each({U}[:-1]))), {last}]'
    numbers = f'all([many(isa(each({U}), numbers.Real))])'
    heads = f'all([many(isa(each({U}[:-1]), numbers.Real))])'
    one = f'{strings} == 1'
    isunit = f'isa({last}, str, metric.Unit)'
    values = f'isa({first}, list, tuple, range, numpy.ndarray)'
    pair = f'len({U}) == 2'
    wrap = '_wrap_measurable({}, {}, distribute)'
    ends = []
    for unit in (isunit, f'isa({last}, str)'):
        rest = {**few, numbers: False, unit: True}
        ends += [
            Case('return ' + wrap.format(f'{U}[:-1]', f'str({last})'), {
                **rest, heads: True}, choice=True, sure=[unit, heads]),
            Case('return ' + wrap.format(first, f'str({last})'), {
                **rest, heads: False, pair: True, values: True}, choice=True,
                sure=[unit, pair, values]),
            Case('raise ParsingTypeError', {**rest, heads: False, pair: False}, choice=True,
                 sure=[unit, heads, pair]),
            Case('raise ParsingTypeError', {**rest, heads: False, values: False},
                 choice=True, sure=[unit, heads, values]),
        ]
    t(F + 'parse', 'x distribute', [
        Case('raise ParsingTypeError', none),
        Case('raise ParsingValueError', {f'{U} is None': False, f'isnull({U})': True}),
        Case(f"return (({U}, '1'),)", {**some, real: True, 'distribute': True}),
        Case(f"return ({U}, '1')", {**some, real: True, 'distribute': False}),
        Case('raise ParsingTypeError', {**some, real: False, text: True, 'except': True}),
        Case(f"return ((float({U}), '1'),)", {
            **some, real: False, text: True, 'distribute': True, 'except': False}),
        Case(f"return (float({U}), '1')", {
            **some, real: False, text: True, 'distribute': False, 'except': False}),
        Case('raise ParsingTypeError', {**thing, 'except': True}, choice=True),
        Case('raise ParsingTypeError', {**thing, mapping: True}),
        Case(f'return _recursive_parse({U}, distribute)', {
            **thing, mapping: False, nested: True, 'except': False}),
        Case('raise ParsingValueError', {**flat, f'{units} > 1': True}, choice=True),
        # collections with several strings or units
        Case(f'return parse({floats}, distribute)', many, choice=True),
        Case(f'return parse({lead}, distribute)', {**many, 'except': True}, choice=True),
        Case('raise ParsingValueError', {**many, 'except': True}, choice=True),
        # one numeric string among numbers
        Case(f'return parse({floats}, distribute)', {
            **few, one: True, f'isa({last}, str)': False}, choice=True,
            sure=[one, f'isa({last}, str)']),
        Case(f'return parse({floats}, distribute)', {
            **few, one: True, f'isa({last}, str)': True, f"{last} == '1'": False},
            choice=True, sure=[one, f'isa({last}, str)', f"{last} == '1'"]),
        # numbers alone, or with a unit
        Case('return ' + wrap.format(U, "'1'"), {**few, numbers: True}, choice=True,
             sure=[numbers]),
        *ends,
        Case('raise ParsingTypeError', {**few, numbers: False, isunit: False},
             choice=True, sure=[isunit]),
        Case('return None', {}, choice=True, name='nothing'),
    ], defaults={'distribute': False}, maybe=(7, 10, 14, 15, 'nothing'),
       words=('float', 'count', 'all', 'any', '_recursive_parse', '_wrap_measurable', 'str'),
       wrong=[f'{x} {c}' for x in (units, f'{strings} + {units}')
              for c in ('> 0', '> 2', '>= 1', '>= 3')] + [
                  f'{strings} == 0', f'{strings} == 2', f"{first} == '1'",
                  f"{U}[1] == '1'", f'isa({U}[1], str)', f'isa({first}, str)',
                  f'len({U}) == 1', f'len({U}) == 3', f'len({U}) >= 2', f'len({U}) > 2',
                  f'each({U})', f'each({U}[:-1])', *wrongly(U)],
       ignore=(f'all([many(not isa(each({U}), str, metric.Unit))])', f"{last} in ['1', _]"),
       bad=[f'parse({floats})', f'parse({lead})'])
    t(F + '_wrap_measurable', 'values unit distribute', [
        Case('return either(tuple(container.distribute(values, unit)), (*container.distribute(values, unit),), (many(each(container.distribute(values, unit))),))', {'distribute': True}),
        Case('return (*values, unit)', {'distribute': False}),
    ], words=('distribute',))
    part = 'parse(each(unwrapped), False)'
    differ = f'any([many({part}[-1] != {part}[-1])])'
    t(F + '_recursive_parse', 'unwrapped distribute', [
        Case('return (many(each(parse(each(unwrapped), True))),)', {'distribute': True}),
        Case('raise ParsingValueError', {'distribute': False, differ: True}),
        Case(f'return (many(each({part}[:-1])), {part}[-1])', {
            'distribute': False, differ: False}),
    ], words=('parse', 'any', 'set', 'str', 'all'),
       wrong=['all([many(_ != _)])', 'any([many(_ == _)])'])


def measurable(P, rep):
    t = tables(P, rep, 'measurable')
    real = f'isa({U}, numbers.Real)'
    sep = f'isseparable({U})'
    none = either('isnull(x)', f'isnull({U})')
    mapping = f'isa({U}, typing.Mapping)'
    numbers = f'all([many(isa(each({U}), numbers.Real))])'
    unit = either(f'unitlike({U}[-1])', f'metric.unitlike({U}[-1])')
    heads = f'all([many(isa(each({U}[:-1]), numbers.Real))])'
    inner = f'all([many(isa(each({U}[0]), numbers.Real))])'
    pair, it = f'len({U}) == 2', either(f'isiterable({U}[0])', f'isseparable({U}[0])')
    has = f'base.ismeasurable({U})'
    some = {none: False}
    other = {**some, has: False, real: False}
    many = {**other, sep: True, mapping: False}
    rest = [f'all([many(ismeasurable(each({U})))])',
            f'all([many(isa(each({U}), list, tuple))])']
    tails = []
    for end in ({unit: False}, {unit: True, pair: False, heads: False},
                {unit: True, pair: True, it: True, inner: False},
                {unit: True, pair: True, it: False, heads: False}):
        tail = {**many, numbers: False, **end}
        tails += [Case('return True', {**tail, rest[0]: True}, sure=[rest[0]]),
                  Case('return False', {**tail, rest[0]: False}, sure=[rest[0]]),
                  Case('return False', {**tail, rest[1]: False}, sure=[rest[1]])]
    t(F + 'ismeasurable', 'x', [
        Case('return False', {none: True}),
        Case('return True', {**some, has: True}),
        Case('return True', {**some, has: False, real: True}),
        Case('return False', {**other, sep: False}, choice=True),
        Case('return False', {**other, sep: True, mapping: True}, choice=True),
        Case('return True', {**many, numbers: True}),
        Case('return True', {**many, numbers: False, unit: True, pair: False, heads: True}),
        Case('return True', {**many, numbers: False, unit: True, pair: True, it: True,
                             inner: True}),
        Case('return True', {**many, numbers: False, unit: True, pair: True, it: False,
                             heads: True}),
        *tails,
        Case('return None', {}, choice=True, name='nothing'),
    ], impossible=[{f'isa(each({U}), list, tuple)': False, rest[1]: True}],
       ignore=(f'isa(each({U}), list, tuple)',), maybe=('nothing',),
       wrong=[f'unitlike({U}[0])', f'unitlike({U}[1])', f'len({U}) == 1', f'len({U}) == 3',
              f'len({U}) > 2', f'len({U}) >= 2', *wrongly(U)],
       words=('all', 'any', 'isseparable', 'unitlike'))
    index = either('isa(x, numeric.index.Value, numeric.index.Sequence)',
                   'isa(x, Value, Sequence)')
    t(F + 'isindexlike', 'x', [
        Case('return True', {index: True}),
        Case('return True', {index: False}, choice=True),
        Case('return False', {index: False, 'except': True}, choice=True),
    ], maybe=(1,), words=('value', 'sequence'))
    t(F + 'hasdata', 'a', [Case('return getdata(a) is not None')],
      words=('getdata', 'bool', 'is', 'not'), wrong=['getdata(a)'])
    plain = 'isa(a, numbers.Number, numpy.number, numpy.ndarray)'
    object_ = 'isa(a, measured.Object)'
    got = 'parse(a, False)'
    t(F + 'getdata', 'a', [
        Case('return a.data', {object_: True}),
        Case('return a', {object_: False, plain: True}),
        Case('return None', {object_: False, plain: False, 'except': True}),
        Case(f'return numpy.array({got}[:-1])', {
            object_: False, plain: False, f'len({got}[:-1]) > 1': True,
            'except': False}),
        Case(f'return {either(f"{got}[:-1][0]", f"{got}[0]")}', {
            object_: False, plain: False, f'len({got}[:-1]) > 1': False,
            'except': False}),
    ], words=('array', 'parse', 'asarray'),
       wrong=[f'{got}[:-1][0]', f'{got}[0]', f'{got}[:-1][_] is None'])


def measure(P, rep):
    t = tables(P, rep, 'measure')
    this = 'args[0]'
    done = f'isa({this}, Measurement)'
    can = f'isa({this}, base.Measurable)'
    held = f'isa({this}, measured.Object)'
    t(Q + 'measure', '*args **kwargs', [
        Case('raise MeasuringTypeError', {'args': False}),
        Case(f'return {this}', {'args': True, done: True}),
        Case(f'return _measure_explicit({this}, **kwargs)', {
            'args': True, done: False, can: True}),
        Case(f'return measurement({this}.data, unit={this}.unit)', {
            'args': True, done: False, can: False, held: True}),
        Case('return _measure_implicit(args)', {
            'args': True, done: False, can: False, held: False}),
    ], words=('measurement', 'parse', '_measure_implicit', '_measure_explicit'))
    made = 'x.__measure__(**kwargs)'
    t(Q + '_measure_explicit', 'x **kwargs', [
        Case('raise MeasuringTypeError', {
            f'isa({made}, quantity.Measurement, base.Measurement)': False}),
        Case(f'return {made}', {
            f'isa({made}, quantity.Measurement, base.Measurement)': True}),
    ], words=('__measure__',))
    got = 'parse(x, False)'
    t(Q + '_measure_implicit', 'x', [
        Case('raise MeasuringTypeError', {'except': True}),
        Case(f'return measurement({got}[:-1], unit={got}[-1])', {'except': False}),
    ], words=('parse', 'measurement'))
    held = 'isa(x, measured.Object)'
    sep, dtype = 'isseparable(x)', 'hasdtype(x, (numpy.integer, numpy.floating))'
    real = either('isreal(x)', 'base.isreal(x)')
    new = either('measured.sequence(x)', 'sequence(x)')
    t(E + 'measurement_args', 'x unit', [
        Case(f'return ({new}.data, {new}.unit)', {held: True}),
        Case('return (numpy.array(x), unit)', {held: False, sep: True, dtype: True}),
        Case('raise TypeError', {held: False, sep: True, dtype: False}),
        Case('raise TypeError', {held: False, sep: False, real: False}),
        Case('return (numpy.array([x]), unit)', {held: False, sep: False, real: True}),
    ], words=('array', 'asarray'))


def create(P, rep):
    """Values, sequences and measurements keep their data, unit and converter."""
    t = tables(P, rep, 'create')
    t(M[:-1] + ':value', 'x unit', [
        Case('return either(value_factory(x, unit), value_factory(x, unit=unit))')],
      words=('value_factory', 'sequence_factory', '_factories'), defaults={'unit': None})
    t(M[:-1] + ':sequence', 'x unit', [
        Case('return either(sequence_factory(x, unit), sequence_factory(x, unit=unit))')],
      words=('value_factory', 'sequence_factory', '_factories'), defaults={'unit': None})
    t(Q + 'measurement', '*args **kwargs', [
        Case('return measurement_factory(*args, **kwargs)')], words=('measurement_factory',))
    C = M + '_context:'
    t(C + 'Context.__init__', 'unit converter', [
        Case('return _', stores={'_unit': 'unit', '_converter': 'converter'})],
      words=('unit', 'converter'))
    t(C + 'Context.unit', '', [Case('return self._unit')])
    t(C + 'Context.converter', '', [Case('return self._converter')])
    t(C + 'Context.apply', 'c x', [
        Case('return either(self.converter(c, x), self._converter(c, x))')],
      words=('converter', '_converter'))
    like = 'unitlike(new)'
    both = either('self.unit | new', 'self._unit | new')
    t(C + 'Context.convert', 'x new', [
        Case('raise TypeError', {like: False}),
        Case('return self.apply(metric.conversion(self.unit, new), x)', {
            like: True, 'except': False}),
        Case('raise ValueError', {like: True, 'except': True, both: False}),
        Case('raise _', {like: True, 'except': True, both: True}),
    ], words=('conversion', 'apply', 'unit'))
    two, one = 'len(args) == 2', 'len(args) == 1'
    unit, converter = "kwargs.get('unit')", "kwargs.get('converter')"

    def made(first, given, second, has):
        a = f"unit_factory({first})" if given else "unit_factory('1')"
        return f"return ({a}, {second if has else '_default_converter'})"

    rows = []
    for g in (True, False):
        for h in (True, False):
            rows += [
                Case(made('args[0]', g, 'args[1]', h), {
                    two: True, 'kwargs': False, 'args[0]': g, 'args[1]': h},
                    sure=['args[0]', 'args[1]']),
                Case(made(unit, g, converter, h), {
                    'kwargs': True, 'args': False, unit: g, converter: h},
                    sure=['kwargs', 'args', unit, converter]),
                Case(made('args[0]', g, converter, h), {
                    one: True, 'args[0]': g, converter: h}, sure=[one, 'args[0]', converter]),
            ]
    t(C + 'context_args', '*args **kwargs', [
        *rows,
        Case('raise TypeError', {two: True, 'kwargs': True}, choice=True),
        Case('raise TypeError', {one: False, two: False, 'kwargs': False}, choice=True),
        Case('raise TypeError', {one: False, two: False, 'args': True}, choice=True),
        Case('return None', {}, choice=True, name='nothing'),
    ], maybe=(12, 13, 14, 'nothing'), words=('unit', 'get', '_default_converter', 'unit_factory'),
       impossible=[{two: True, one: True}],
       wrong=['len(args) == 0', 'len(args) == 3'])
    t(C + 'context_factory', '*args **kwargs', [
        Case('raise TypeError', {'except': True}),
        Case('return Context(context_args(*args, **kwargs)[0], '
             'context_args(*args, **kwargs)[1])', {'except': False}),
    ], words=('context_args', 'Context'))
    K = M + '_factories:'
    value, held = 'isa(x, Value)', 'isa(x, measured.Object)'
    t(K + 'sequence_args', 'x unit', [
        Case('return sequence_args([x.data], x.unit)', {value: True}),
        Case('return (x.data, x.unit)', {value: False, held: True}),
        Case('return (numpy.array([x]), unit)', {
            value: False, held: False, 'isa(x, numbers.Real)': True}),
        Case('return (either(numpy.asarray(x), numpy.array(x)).flatten(), unit)', {
            value: False, held: False, 'isa(x, numbers.Real)': False,
            either('numpy.asarray(x).ndim > 0', 'numpy.array(x).ndim > 0'): True}),
        Case('raise TypeError', {
            value: False, held: False, 'isa(x, numbers.Real)': False,
            either('numpy.asarray(x).ndim > 0', 'numpy.array(x).ndim > 0'): False}),
    ], words=('asarray', 'array', 'ndim', 'flatten', 'ravel', 'data', 'unit'),
       wrong=['_.ndim > 1', '_.ndim >= 0'])
    real = 'isa(x, int, float, numbers.Real)'
    some = 'isa(x, Sequence, numpy.ndarray)'
    seq, arr = 'isa(x, Sequence)', 'isa(x, numpy.ndarray)'
    plain, text = 'isa(x, typing.Sequence)', 'isa(x, str)'
    size = 'x.size == 1'
    t(K + 'value_args', 'x unit', [
        Case('return (x.data, x.unit)', {value: True}),
        Case('return (x, unit)', {value: False, real: True}),
        Case('return (x.data[0], x.unit)', {
            value: False, real: False, some: True, size: True, seq: True}, sure=[some, size]),
        Case('return either(value_args(numpy.ravel(x)[0], unit), '
             'value_args(x.ravel()[0], unit))', {
                 value: False, real: False, some: True, size: True, seq: False, arr: True},
             sure=[some, size]),
        Case('return value_args(numpy.array(x), unit)', {
            value: False, real: False, plain: True, text: False}, choice=True, sure=[plain]),
        Case('raise TypeError', {value: False, real: False, plain: False}, choice=True,
             sure=[plain]),
        Case('raise TypeError', {value: False, real: False, text: True}, choice=True,
             sure=[text]),
        Case('return None', {}, choice=True, name='nothing'),
    ], maybe=(4, 6, 'nothing'), words=('array', 'asarray', 'ravel', 'data', 'unit'),
       wrong=['x.size == 0', 'x.size == 2'])


def access(P, rep):
    t = tables(P, rep, 'access')
    for name, kind in (('__int__', 'int'), ('__float__', 'float'), ('__complex__', 'complex')):
        t(E + 'Measurement.' + name, '', [Case(f'return self._cast_to({kind})')],
          words=('int', 'float', 'complex'))
    t(E + 'Measurement._cast_to', '_type', [
        Case('return _type(self.data[0])', {'self.size == 1': True}),
        Case('raise TypeError', {'self.size == 1': False}),
    ], words=('data', 'size', 'len'), wrong=['len(self) == 1', 'len(self.data) == 1'])
    V = M + '_value:Value'
    t(V + '.__int__', '', [Case('return int(self.data)')], words=('float',))
    t(V + '.__float__', '', [Case('return float(self.data)')], words=('int',))
    t(V + '.__complex__', '', [
        Case(f"return {either('complex(self.data)', 'complex(float(self))')}")],
      words=('int',))
    S = M + '_sequence:Sequence'
    t(S + '.__len__', '', [Case('return len(self.data)')], words=('size',))
    t(S + '.__getitem__', 'i', [
        Case('return Value.spawn(self.data[i], unit=self.unit)', {'except': False}),
        Case('return either(self.spawn(self.data[i], unit=self.unit), '
             'type(self).spawn(self.data[i], unit=self.unit))', {'except': True}),
    ], words=('spawn', 'data', 'unit'))
    t(S + '.size', '', [
        Case('return container.size(self.data)', {}, choice=True),
        Case('return self._size', {'self._size is None': False}, choice=True),
    ], maybe=(0, 1), words=('len', 'ndim'))
    O = M + '_types:Object'
    t(O + '.isunitless', '', [Case("return self.unit == '1'")], words=('unit', 'eq', 'str'))
    t(O + '.unit', '', [Case('return self._unit')])
    other = 'isa(other, measured.Object)'
    t(O + '.__eq__', 'other', [
        Case('return False', {other: False}),
        Case('return self.unit == other.unit', {
            other: True, 'isequal(self.data, other.data)': True}),
        Case('return either(False, isequal(self.data, other.data))', {
            other: True, 'isequal(self.data, other.data)': False}),
    ], words=('data', 'unit', 'eq', 'isequal'))
