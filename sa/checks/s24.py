"""S24: symbolic expressions denote products of powers."""

from ..absint import Interp, Config
from ..loops import arranged, split
from ..regex import compare, FLAGS
from ..spec import table, Case

LEVEL = 'other'
EXPLANATION = (
    "Abstract interpretation of the symbolic package. Functions and methods are compared "
    "with decision tables, path by path; loops are split into their start, one pass from "
    "any state, and what follows; patterns are compared with reference patterns by "
    "following both automata over every string."
)
ASSUMPTIONS = [
    "re, fractions and sorted behave as documented",
    "tokens of operators and separators are the default ones",
]
O = 'eprempy.symbolic._operand:'
F = O + 'OperandFactory'
T = O + 'Term'
A = 'eprempy.symbolic._parser:Parser'
X = 'eprempy.symbolic._expression:'
E = X + 'Expression'
M = 'eprempy.symbolic._part:Match'
R = 'eprempy.symbolic._operator:'

NUMBER = r"[-+]?(?=\d|\.\d)\d*(?:(?:/\d+)|(?:\.\d*)?(?:[eE][-+]?\d+)?)"
BASE = r"[a-zA-ZμΩ#_]+\d*"
PATTERNS = {
    'constant': fr"(?P<coefficient>{NUMBER})(?P<exponent>\^{NUMBER})?",
    'variable': fr"(?P<coefficient>{NUMBER})?(?P<base>{BASE})(?P<exponent>\^{NUMBER})?",
    'exponent': fr"\^{NUMBER}",
    'opening': r"\(", 'closing': r"\)", 'raising': r"\^",
}
OPERATORS = {
    'multiply': r"(?<!/)(\s*\*\s*)(?!/)",
    'divide': r"(?<!\*)(\s*/\s*)(?!\*)",
    'sqrt': r"\s*sqrt\s*",
}


def run(P, rep):
    rep.rule('patterns', "patterns match numbers, names, powers and operators", 5)
    rep.rule('operand', "operands keep coefficients, bases and exponents", 5)
    rep.rule('create', "operands are made from coefficient, base and exponent", 5)
    rep.rule('match', "operands are found at the start of text", 5)
    rep.rule('term', "terms are evaluated, converted, compared and written", 5)
    rep.rule('parse', "text is resolved into terms", 5)
    rep.rule('reduce', "powers of one base are combined", 3)
    rep.rule('algebra', "expressions multiply, divide and are raised to powers", 5)
    patterns(P, rep)
    operand(P, rep)
    create(P, rep)
    match(P, rep)
    term(P, rep)
    parse(P, rep)
    reduce(P, rep)
    algebra(P, rep)


def tables(P, rep, rule):
    return lambda *a, **k: table(P, rep, rule, *a, **{'inline': lambda g: False, **k})


def literals(P, cls, params):
    """Patterns that an instance of a class compiles: name -> (text, flags)."""
    fn = P.funcs.get(cls + '.__init__')
    if fn is None:
        return None
    it = Interp(P, Config(inline=lambda g: False))
    a = fn.node.args
    own = [x.arg for x in (*a.posonlyargs, *a.args)][1:]
    if len(own) != len(params):
        return None
    out = {}
    for o in it.run(fn, selfclass=cls, args=dict(zip(own, params))):
        if o.kind != 'return':
            continue
        for (_, name), v in o.st.attrs.items():
            v = it.snap(v, o.st)
            if v[0] != 'dict':
                continue
            for k, x in v[1]:
                if k[0] == 'k' and x[0] == 'call' and x[1] == ('ext', 're.compile'):
                    args, flags = list(x[2]), dict(x[3])
                    f = args[1] if len(args) > 1 else flags.get('flags')
                    bits = (0 if f is None else FLAGS.get(f[1].rpartition('.')[2])
                            if f[0] == 'ext' else None)
                    text = args[0][2] if args and args[0][0] == 'k' else None
                    out[k[2]] = (text, bits)
    return out


def patterns(P, rep):
    texts = lambda *v: [('k', 'str', x) for x in v]
    for cls, params, wanted in ((F, texts('(', ')', '^'), PATTERNS),
                                (R + 'OperatorFactory', texts('*', '/'), OPERATORS)):
        got = literals(P, cls, params)
        where = P.classes[cls].where if cls in P.classes else ''
        for name, ref in wanted.items():
            text, flags = (got or {}).get(name, (None, None))
            if text is None or flags is None:
                rep.ob('patterns', name, None, 'is not a constant', where)
                continue
            ok, why, n = compare(text, flags, ref)
            rep.ob('patterns', name, ok, why or f"{n} states", where)
    expr = P.lookup(T, '_base_re') if T in P.classes else None
    ok, why = None, 'is not a constant'
    if expr and expr[1][0] == 'assign':
        it = Interp(P, Config(inline=lambda g: False, classattrs=lambda c, n: n == '_base_re'))
        v = constant(P, it, T, '_base_re')
        if v and v[0] == 'call' and v[1] == ('ext', 're.compile') and v[2][0][0] == 'k':
            flags = [FLAGS.get(x[1].rpartition('.')[2]) for x in v[2][1:] if x[0] == 'ext']
            ok, why, n = compare(v[2][0][2], sum(x or 0 for x in flags),
                                 f"({NUMBER}|{BASE})")
            why = why or f"{n} states"
    rep.ob('patterns', 'Term._base_re', ok, why)


def constant(P, it, cls, name):
    from ..absint import Frame, State
    try:
        return it.class_const(cls, name, State())
    except Exception:
        return None


def operand(P, rep):
    t = tables(P, rep, 'operand')
    none = lambda n: {f'{n} is None': True}
    some = lambda n: {f'{n} is None': False}
    cases = []
    for c in (0, 1):
        for b in (0, 1):
            for e in (0, 1):
                cases.append(Case('return None', {
                    'coefficient is None': not c, 'base': bool(b),
                    'exponent is None': not e},
                    stores={'coefficient': 'either(coefficient, Fraction(coefficient))'
                            if c else 'Fraction(1)',
                            'base': 'base' if b else '"1"',
                            'exponent': 'either(exponent, Fraction(exponent))'
                            if e else 'Fraction(1)'},
                    name=f"{c}{b}{e}"))
    t(O + 'Operand.__init__', 'coefficient base exponent', cases,
      defaults={'coefficient': None, 'base': None,
                'exponent': None})
    make = 'type(self)(%s, self.base, %s)'
    t(O + 'Operand.__pow__', 'power', [
        Case('return ' + make % ('self.coefficient ** power', 'self.exponent * power'))],
      words=['pow', 'mul', 'truediv', 'add'])
    t(O + 'Operand.__mul__', 'other', [
        Case('return ' + make % ('self.coefficient * other', 'self.exponent'))],
      words=['pow', 'mul', 'truediv', 'add'])
    got = P.lookup(O + 'Operand', '__rmul__') if O + 'Operand' in P.classes else None
    import ast
    rep.ob('operand', 'Operand.__rmul__', None if not got or got[1][0] != 'assign'
           or not isinstance(got[1][1], ast.Name) else got[1][1].id == '__mul__',
           'is another method')
    same = lambda n: (f'either(float(other.{n}) == float(self.{n}), '
                      f'other.{n} == self.{n})')
    forms = ['float(other.{0}) == float(self.{0})', 'other.{0} == self.{0}']
    t(O + 'Operand.__eq__', 'other', [
        Case('return NotImplemented', {'isa(other, Operand)': False}, name='other'),
        Case('return False', {'isa(other, Operand)': True, 'other.base == self.base': False},
             name='base'),
        Case(f"return either(all([{same('exponent')}, {same('coefficient')}]), "
             f"all([{same('coefficient')}, {same('exponent')}]))",
             {'isa(other, Operand)': True, 'other.base == self.base': True}, name='same',
             choice=True),
        *[Case('return True', {'isa(other, Operand)': True, 'other.base == self.base': True,
                               a.format('exponent'): True, a.format('coefficient'): True},
               name='same', choice=True, sure=True) for a in forms],
        *[Case('return False', {'isa(other, Operand)': True, 'other.base == self.base': True,
                                a.format(n): False}, name='same', choice=True,
              sure=True)
          for a in forms for n in ('exponent', 'coefficient')]],
      words=['float', 'all', 'any', 'int', 'round'], maybe=['same'])
    c, e = 'self.coefficient == 1', 'self.exponent == 1'
    t(O + 'Operand.format', '', [
        Case('return self.base', {c: True, e: True}, name='plain'),
        Case('return f"{self.coefficient}({self.base})^{self.exponent}"', {c: False, e: False},
             name='both'),
        Case('return f"{self.coefficient}({self.base})"', {c: False, e: True},
             name='coefficient'),
        Case('return f"({self.base})^{self.exponent}"', {c: True, e: False},
             name='exponent')])
    t(O + 'Operand.attrs', '', [
        Case('return (self.coefficient, self.base, self.exponent)')], words=['tuple'])


def create(P, rep):
    t = tables(P, rep, 'create')
    n = 'len(args)'
    t(F + '.normalize', '*args', [
        Case('raise OperandTypeError', {'except': True}, name='no arguments'),
        Case('return self._length_1(args)', {'except': False, n + ' == 1': True}, name='1'),
        Case('return self._length_2(args)', {'except': False, n + ' == 1': False, n + ' == 2': True},
             name='2'),
        Case('return self._length_3(args)', {'except': False, n + ' == 1': False, n + ' == 2': False,
                                             n + ' == 3': True}, name='3'),
        Case('raise OperandValueError', {'except': False, n + ' == 1': False, n + ' == 2': False,
                                         n + ' == 3': False}, name='many')],
      maybe=('no arguments',))
    a = lambda i: f'args[{i}]'
    kind = lambda name, x: (f"either(type(self).isvalid('{name}', {x}), "
                            f"self.isvalid('{name}', {x}))")
    t(F + '._length_1', 'args', [
        Case('return self.standardize(True, base=args[0])', {kind('base', a(0)): True},
             name='base'),
        Case('return self.standardize(True, coefficient=args[0])',
             {kind('base', a(0)): False, kind('coefficient', a(0)): True},
             name='coefficient'),
        Case('raise OperandTypeError', {kind('base', a(0)): False,
                                        kind('coefficient', a(0)): False}, name='other')],
      words=['standardize', 'isvalid'])
    t(F + '._length_3', 'args', [
        Case('return self.standardize(True, base=args[1], coefficient=args[0], '
             'exponent=args[2])')], words=['standardize'])
    combos = 'combinations(self._argtypes, 2)'
    given = f'{{each(each({combos})): each(args)}}'
    valid = (f'all([many(either(type(self).isvalid(each(each({combos})), each(args)), '
             f'self.isvalid(each(each({combos})), each(args))))])')
    t(F + '._length_2', 'args', [
        Case('return self.standardize(**_, fill=True)', {valid: True}, name='found', sure=True),
        Case('raise OperandTypeError', {valid: False}, name='bad', sure=True),
        Case('raise OperandTypeError', {}, name='none', choice=True)],
      maybe=('none',), words=['combinations', 'permutations', 'isvalid', 'standardize'],
      missing=None)
    kinds = P.lookup(F, '_argtypes') if F in P.classes else None
    import ast
    if kinds and kinds[1][0] == 'assign' and isinstance(kinds[1][1], ast.Dict):
        d = kinds[1][1]
        text = [(k.value if isinstance(k, ast.Constant) else None, ast.unparse(v))
                for k, v in zip(d.keys, d.values)]
        known = {'numbers.Real': 'r', 'str': 's', '(numbers.Real, str)': 'rs',
                 '(str, numbers.Real)': 'rs', 'Real': 'r', '(Real, str)': 'rs'}
        got = [(k, known.get(v)) for k, v in text]
        want = [('coefficient', 'r'), ('base', 's'), ('exponent', 'rs')]
        rep.ob('create', '_argtypes', None if any(v is None for _, v in got)
               else got == want, f"{text}")
    t(F + '.isvalid', 'name this', [
        Case('return isa(this, _)')],
      words=['isinstance', 'issubclass', 'type'])
    new = 'self.normalize(args).values()'
    new = 'self.normalize(*args).values()'
    c0, b0, e0 = (f'{new}[{i}]' for i in range(3))
    end = (f"any([self.patterns['raising'].match({b0}[0]), "
           f"self.patterns['raising'].match({b0}[-1])])")
    found = f"self.search({b0}, mode='fullmatch')"
    c1, b1, e1 = (f'{found}.result.attrs[{i}]' for i in range(3))
    c, e = f'{c0} * {c1} ** {e0}', f'either({e1} * {e0}, {e0} * {e1})'
    inner = f'self.create({b1})'
    ok = {end: False, found: True, f'isa({found}.result, Operand)': True}
    simple, group = f'isa({found}.result, Term)', f'isa({inner}, Term)'
    t(F + '.create', '*args strict', [
        Case('raise OperandValueError', {end: True}, name='raising'),
        Case(f'return either(Operand({c0}, {b0}, {e0}), Operand(coefficient={c0}, base={b0}, '
             f'exponent={e0}))',
             {end: False, found: False, 'strict': False}, name='general'),
        Case('return None', {end: False, found: False, 'strict': True}, name='strict'),
        Case('raise TypeError', {end: False, found: True,
                                 f'isa({found}.result, Operand)': False}, name='type'),
        Case(f'return term_factory(coefficient={c}, base={b1}, exponent={e})',
             {**ok, simple: True}, name='term'),
        Case(f'return term_factory(coefficient={c} * {inner}.coefficient ** ({e}), '
             f'base={inner}.base, exponent={e} * {inner}.exponent)',
             {**ok, simple: False, group: True}, name='inner term'),
        Case(f'return either(Operand({c}, {b1}, {e}), Operand(coefficient={c}, base={b1}, '
             f'exponent={e}))', {**ok, simple: False, group: False}, name='group')],
      words=['pow', 'mul', 'add', 'truediv', 'term_factory', 'Operand', 'normalize',
             'search', 'create'], wrong=['any(_)'], defaults={'strict': False})
    preset = lambda k: (f"either({1 if k != 'base' else repr('1')}, "
                        f"self.fill_defaults(**_)['{k}'])")
    keys = ('coefficient', 'base', 'exponent')
    has = lambda k: f"either(given.get('{k}') in (None, ''), given['{k}'] in (None, ''))"
    cases = []
    import itertools
    for bits in itertools.product((0, 1), repeat=3):
        value = ', '.join(f"'{k}': self._standard_{k}(given['{k}'])" if v else
                          f"'{k}': self._standard_{k}({preset(k)})"
                          for k, v in zip(keys, bits))
        cases.append(Case(f'return {{{value}}}', {
            'fill': True, **{has(k): not v for k, v in zip(keys, bits)}},
            name='full ' + ''.join(map(str, bits))))
    cases.append(Case('return _', {'fill': False}, name='given', choice=True))
    t(F + '.standardize', 'fill **given', cases, words=['standard_coefficient'])
    table_ = "{'coefficient': 1, 'base': '1', 'exponent': 1}"
    inside, null = f'each(given) in {table_}', 'given[each(given)]'
    t(F + '.fill_defaults', '**given', [
        Case('return given', {inside: True, null: False}, name='null',
             does=[f'given.update({{many(each(given)): {table_}[each(given)]}})']),
        Case('return given', {inside: True, null: True}, name='given'),
        Case('return given', {inside: False}, name='other')],
      maybe=('given', 'other'), words=['update', 'items', 'keys'])
    t(F + '._standard_coefficient', 'v', [Case('return Fraction(v)')],
      words=['float', 'int', 'Fraction', 'abs'])
    t(F + '._standard_base', 'v', [Case('return str(v)')])
    t(F + '._standard_exponent', 'v', [
        Case("return either(Fraction(self.patterns['raising'].sub('', v)), "
             "Fraction(self.patterns['raising'].sub('', v, _)))",
             {'isa(v, str)': True}, name='text'),
        Case('return Fraction(v)', {'isa(v, str)': False}, name='number')],
      words=['float', 'int', 'Fraction', 'abs'])


def match(P, rep):
    t = tables(P, rep, 'match')
    t(F + '.parse', 'string', [
        Case('return self.search(string.strip())', {'self.search(string.strip())': True},
             name='found'),
        Case('return None', {'self.search(string.strip())': False}, name='none')],
      words=['search', 'strip', 'lstrip', 'rstrip'])
    got = 'apply((self._match_simplex, self._match_complex), string, **kwargs)'
    t(F + '.search', 'string **kwargs', [
        Case('return ' + got, {got: True}, name='found'),
        Case('return None', {got: False}, name='none')],
      words=['apply', '_match_simplex', '_match_complex'])
    part = lambda k: (f"either(self._get_match_method('{k}', mode)(string[start:]), "
                      f"getattr(self.patterns['{k}'], mode)(string[start:]))")
    v, c = part('variable'), part('constant')
    one = lambda f: f'either({f}([{v}, {c}]), {f}([{c}, {v}]))'
    build = lambda k: (f"either(self._get_build_method('{k}')({part(k)}), "
                       f"self._build_{k}({part(k)}))")
    same = f'{v}[0] == {c}[0]'
    t(F + '._match_simplex', 'string mode start', [
        Case('return None', {one('any'): False}, name='none'),
        Case('return ' + build('constant'), {one('any'): True, one('all'): True, same: True},
             name='both, same'),
        Case('return ' + build('variable'), {one('any'): True, one('all'): True, same: False},
             name='both'),
        Case('return ' + build('variable'), {one('any'): True, one('all'): False, v: True},
             name='variable'),
        Case('return ' + build('constant'), {one('any'): True, one('all'): False, v: False,
                                             c: True}, name='constant'),
        Case('return None', {one('any'): True, one('all'): False, v: False, c: False},
             name='impossible', choice=True)],
      maybe=('impossible',),
      defaults={'mode': 'match', 'start': 0})
    t(F + '._get_match_method', 'pattern mode', [
        Case('return getattr(self.patterns[pattern], mode)')])
    t(F + '._get_build_method', 'pattern', [
        Case('return getattr(self, f"_build_{pattern}")')])
    std = 'self.standardize(**match.groupdict(), fill=True)'
    both = lambda x: f'either(Match(result={x}, context=match), Match({x}, match))'
    t(F + '._build_variable', 'match', [Case('return ' + both(f'term_factory(**{std})'))],
      words=['term_factory', 'standardize', 'groupdict'])
    t(F + '._build_constant', 'match', [
        Case('return ' + both(f"term_factory(coefficient={std}['coefficient'] ** "
                              f"{std}['exponent'])"))],
      words=['term_factory', 'standardize', 'groupdict', 'pow', 'mul', 'float', 'int'])
    complex_(P, rep)
    if not arranged(P, rep, F + '.find_bounds', 3, lambda r, loop: bounds(P, r, loop)):
        rep.ob('match', 'find_bounds', None, 'has no such loop')


def bounds(P, rep, loop):
    t = tables(P, rep, 'match')
    head, step, tail, _ = loop
    t(head, 'string', [Case('return (either(enumerate(string), '
                             '[many((position(string), each(string)))]), False, 0, _)')],
      name='find_bounds, start', words=['enumerate', 'list', 'reversed'])
    o, c = "self.patterns['opening'].match(c)", "self.patterns['closing'].match(c)"
    rows = []
    for name, facts, n in (('open', {o: True}, 'count + 1'),
                           ('close', {o: False, c: True}, 'count - 1'),
                           ('other', {o: False, c: False}, 'count')):
        for began in (True, False):
            now = began or name == 'open'
            first = 'i0' if began or name != 'open' else 'i'
            k = 'initialized' if began or name != 'open' else 'True'
            facts2 = {**facts}
            if not (name == 'open' and not began and False):
                facts2['initialized'] = began
            if now:
                rows.append(Case(f'return ({first}, i + 1)', {**facts2, f'{n} == 0': True},
                                 name=f'{name}, {began}, end'))
                rows.append(Case(f"return ('next', either({k}, True), {n}, {first})",
                                 {**facts2, f'{n} == 0': False},
                                 name=f'{name}, {began}, on'))
            else:
                rows.append(Case(f"return ('next', either({k}, False), {n}, {first})",
                                 facts2, name=f'{name}, {began}'))
    t(step, 'i c initialized count i0 string', rows, name='find_bounds, pass',
      words=['add', 'sub', 'match'], maybe=('other, True, end',))
    t(tail, 'initialized count i0 string', [Case('return None')], name='find_bounds, end')


def complex_(P, rep):
    t = tables(P, rep, 'match')
    text = 'string[start:]'
    b = f'self.find_bounds({text})'
    i, j = f'{b}[0]', f'{b}[1]'
    lead = (f"either(self._match_simplex({text}[:{i}], 'fullmatch'), "
            f"self._match_simplex({text}[:{i}], mode='fullmatch'))")
    exp = f"self.patterns['exponent'].match({text}[{j}:])"
    inner = f'{text}[{i} + 1:{j} - 1]'
    rows = [Case('return None', {b: False}, name='no bounds'),
            Case('return None', {b: True, lead: False, "mode == 'match'": True, f'{i} == 0':
                                 False}, name='later')]
    for l in (True, False):
        zero = '0' if l else i
        facts = {b: True, lead: l}
        if l:
            kinds = [{"mode == 'match'": True}, {"mode == 'match'": False}]
        else:
            kinds = [{"mode == 'match'": True, f'{i} == 0': True}, {"mode == 'match'": False}]
        for kind in kinds:
            for e in (True, False):
                end = f'{j} + {exp}.end()' if e else j
                given = f'base={inner}'
                if l:
                    given += f', coefficient={lead}.result.coefficient'
                if e:
                    given += f', exponent=either({exp}[0], {exp}.group(), {exp}.group(0))'
                std = f'self.standardize(True, {given})'
                done = (f"return either(Match(Operand(**{std}), {{'end': {end}, 'start': start,"
                        f" 'string': string}}), Match(result=Operand(**{std}), "
                        f"context={{'end': {end}, 'start': start, 'string': string}}))")
                full = "mode == 'fullmatch'"
                whole = f'({zero}, {end}) == (0, len({text}))'
                now = {**facts, **kind, exp: e}
                name = f"{l}{list(kind.values())}{e}"
                rows += [Case(done, {**now, full: False}, name=name + 'match'),
                         Case('return None', {**now, full: True, whole: False},
                              name=name + 'part'),
                         Case(done, {**now, full: True, whole: True}, name=name + 'full')]
    t(F + '._match_complex', 'string mode start', rows,
      words=['find_bounds', '_match_simplex', 'match', 'standardize', 'add', 'sub'],
      maybe=[r.name for r in rows if r.name.startswith(('True[True]', 'False[True'))
             and r.name.endswith(('part', 'full'))],
      defaults={'mode': 'match', 'start': 0})


def term(P, rep):
    t = tables(P, rep, 'term')
    unit = "self.base == '1'"
    real = 'isa(value, Real)'
    t(T + '.__call__', 'value', [
        Case('raise TypeError', {real: False}, name='no number'),
        Case('return type(self)(coefficient=self.coefficient * value ** self.exponent)',
             {real: True, unit: False}, name='variable'),
        Case('raise TypeError', {real: True, unit: True}, name='constant')],
      words=['pow', 'mul', 'add', 'truediv'])
    for m, k in (('__int__', 'int'), ('__float__', 'float')):
        t(f'{T}.{m}', '', [Case(f'return self._cast_to({k})')],
          words=['int', 'float', '_cast_to'])
    t(T + '._cast_to', 'type_', [
        Case('return type_(self.coefficient)', {unit: True}, name='constant'),
        Case('raise TypeError', {unit: False}, name='variable')])
    num, text = 'isa(other, Real)', 'isa(other, str)'
    make = 'OperandFactory().create(other)'
    t(T + '.__eq__', 'other', [
        Case('return either(float(self) == float(other), self.coefficient == other)',
             {num: True, unit: True}, name='number'),
        Case("return either(False, self.base == '1')", {num: True, unit: False},
             name='variable'),
        Case(f'return self.__eq__({make})', {num: False, text: True}, name='text'),
        Case('return self.__eq__(other)', {num: False, text: False}, name='other')],
      words=['float', 'int', 'create', 'OperandFactory'])
    t(T + '.__hash__', '', [Case('return either(hash(self.attrs), hash((self.coefficient, '
                                 'self.base, self.exponent)))')], words=['hash', 'id'])
    t(T + '.base_is_valid', 'base', [
        Case('return bool(cls._base_re.fullmatch(str(base)))')],
      words=['match', 'fullmatch', 'search'])
    t(O + '_validate_term_base', 'base', [
        Case('raise ValueError', {'Term.base_is_valid(base)': False}, name='bad'),
        Case('return None', {'Term.base_is_valid(base)': True}, name='good')])
    n, k, s = 'len(args)', 'kwargs', 'args'
    check = lambda x: f'_validate_term_base({x})'
    t(O + 'term_factory', '*args **kwargs', [
        Case('return Term()', {k: False, s: False}, name='none'),
        Case('return Term(base=args[0])', {k: False, s: True, n + ' == 1': True},
             does=[check('args[0]')], name='base'),
        Case('return Term(*args)', {k: False, s: True, n + ' == 1': False, n + ' == 3': True},
             does=[check('args[1]')], name='three'),
        Case('raise TypeError', {k: False, s: True, n + ' == 1': False, n + ' == 3': False},
             name='other'),
        Case('return Term(**kwargs)', {k: True, s: False, "'base' in kwargs": True},
             does=[check("kwargs['base']")], name='names'),
        Case('return Term(**kwargs)', {k: True, s: False, "'base' in kwargs": False},
             name='names, no base'),
        Case('raise TypeError', {k: True, s: True}, name='mixed')],
      words=['Term', 'len'])
    t(O + 'asterms', 'these', [
        Case('return [many(OperandFactory().create(each(these)))]')],
      words=['create', 'parse', 'OperandFactory'])
    written(P, rep)


def written(P, rep):
    t = tables(P, rep, 'term')
    unit, one = "self.base == '1'", 'self.coefficient == 1'
    group = 'self._ambiguous_coefficient()'
    whole = 'either(float(self.coefficient) == int(self.coefficient), ' \
            'self.coefficient.denominator == 1)'
    rows = [Case("return ''", {unit: False, one: True}, name='no coefficient')]
    for name, facts in (('constant', {unit: True}), ('variable', {unit: False, one: False})):
        rows += [
            Case('return f"({self.coefficient})"', {**facts, group: True},
                 name=name + ', grouped'),
            Case('return either(str(int(self.coefficient)), str(self.coefficient))',
                 {**facts, group: False, whole: True}, name=name + ', integer'),
            Case('return either(str(self.coefficient), f"{self.coefficient}")',
                 {**facts, group: False, whole: False}, name=name)]
    t(T + '._format_coefficient', '', rows, words=['int', 'float', 'str', 'abs', 'round'])
    frac = 'isa(self.coefficient, Fraction)'
    t(T + '._ambiguous_coefficient', '', [
        Case('return _', {frac: False}, name='no fraction', choice=True),
        Case("return either(False, self.base != '1')", {frac: True, unit: True},
             name='constant', choice=True),
        Case('return self.coefficient.denominator != 1', {frac: True, unit: False},
             name='variable', choice=True)], maybe=('no fraction', 'constant', 'variable'),
      words=['ne', 'eq', 'numerator'])
    none, tex = 'self.exponent == 1', "'tex' in style.lower()"
    t(T + '._format_exponent', 'style', [
        Case("return ''", {unit: True}, name='constant'),
        Case("return ''", {unit: False, none: True}, name='one'),
        Case('return f"^{self.exponent}"', {unit: False, none: False, 'style': False},
             name='plain'),
        Case('return f"^{{{self.exponent}}}"', {unit: False, none: False, 'style': True,
                                                tex: True}, name='tex'),
        Case('raise ValueError', {unit: False, none: False, 'style': True, tex: False},
             name='unknown')], words=['format', 'str', 'int', 'float'])
    c = 'self._format_coefficient()'
    e = 'either(self._format_exponent(style), self._format_exponent(either(style, "")))'
    e0 = "either(self._format_exponent(''), self._format_exponent(style))"
    tex = "'tex' in style.lower()"
    t(T + '.format', 'style', [
        Case(f'return either({c}, f"{{{c}}}")', {unit: True}, name='constant'),
        Case(f'return f"{{{c}}}{{self.base}}{{{e0}}}"', {unit: False, 'style': False},
             name='plain'),
        Case(f'return f"{{{c}}}{{self.base}}{{{e}}}"', {unit: False, 'style': True, tex:
                                                        False}, name='other'),
        Case('return _', {unit: False, 'style': True, tex: True}, name='tex', choice=True)],
      words=['_format_coefficient', '_format_exponent'])


def parse(P, rep):
    t = tables(P, rep, 'parse')
    t(A + '.parse', 'string', [
        Case('return either(self._resolve_operations(Operand(base=string)), '
             'self._resolve_operations(Operand(None, string)), '
             'self._resolve_operations(Operand(1, string)))')],
      words=['_resolve_operations', 'Operand', 'strip'])
    t(A + '._resolve_operations', 'current', [
        Case('return [many(each(self._update_terms(each(self._parse_operand(current))))), '
             'either(term_factory(coefficient=current.coefficient), '
             'term_factory(current.coefficient, "1", 1))]')],
      words=['_update_terms', '_parse_operand', 'term_factory'])
    t(A + '._update_terms', 'operand', [
        Case('return either([operand], (operand,))', {'isa(operand, Term)': True},
             name='term'),
        Case('return self._resolve_operations(operand)', {'isa(operand, Term)': False},
             name='group')])
    got = 'self.operators.parse(current.string)'
    err = f'self._operator_error({got}.result, previous.operator)'
    t(A + '._get_operator', 'initial current previous', [
        Case(f'raise {err}(initial)', {got: True, err: True}, name='error'),
        Case('return current', {got: True, err: False},
             stores={'return.operator': got + '.result', 'return.string': got + '.remainder'},
             name='found'),
        Case('return current', {got: False},
             stores={'return.operator': '', 'return.string': ''}, name='none')],
      words=['parse', '_operator_error'])
    got = 'self.operands.parse(current.string)'
    t(A + '._get_operand', 'initial current', [
        Case('return current', {got: True},
             stores={'return.operand': f'{got}.result ** initial.exponent',
                     'return.string': got + '.remainder'}, name='found'),
        Case('return current', {got: False},
             stores={'return.operand': '', 'return.string': ''}, name='none')],
      words=['parse', 'pow', 'mul'])
    o, p = 'current.operand', 'current.operator'
    t(A + '._compute_operand', 'current', [
        Case(f'return self._evaluate({p}, {o})', {o: True, p: True}, name='both'),
        Case(f'return {o}', {o: True, p: False}, name='operand'),
        Case('raise ParsingValueError', {o: False, p: True}, name='operator'),
        Case('raise ParsingValueError', {o: False, p: False}, name='nothing')],
      words=['_evaluate'])
    ig, pd = "self._operator_order == 'ignore'", "previous == 'divide'"
    cd, cm = "current == 'divide'", "current == 'multiply'"
    t(A + '._operator_error', 'current previous', [
        Case('return None', {ig: True}, name='ignored'),
        Case('return RatioError', {ig: False, pd: True, cd: True}, name='ratio'),
        Case('return ProductError', {ig: False, pd: True, cd: False, cm: True},
             name='product'),
        Case('return None', {ig: False, pd: True, cd: False, cm: False}, name='other'),
        Case('return None', {ig: False, pd: False}, name='no division')])
    mul = "operator in {'multiply', 'identity'}"
    div, root = "operator == 'divide'", "operator == 'sqrt'"
    t(A + '._evaluate', 'operator operand', [
        Case('return operand', {mul: True}, name='multiply'),
        Case('return operand ** -1', {mul: False, div: True}, name='divide'),
        Case('return operand ** either(0.5, Fraction(1, 2))', {mul: False, div: False,
                                                              root: True}, name='root'),
        Case('raise ValueError', {mul: False, div: False, root: False}, name='unknown')],
      words=['pow', 'mul'])
    m = 'each(self.patterns)'
    found = f'self.patterns[{m}].match(string)'
    t(R + 'OperatorFactory.parse', 'string', [
        Case(f'return either(Match(Operator({m}), {found}), Match(result=Operator({m}), '
             f'context={found}))', {found: True}, name='found', sure=True),
        Case('return None', {found: False}, name='not this', sure=True),
        Case('return None', {}, name='none', choice=True)],
      maybe=('not this', 'none'), words=['match', 'search', 'fullmatch', 'Operator'])
    t(R + 'Operator.__eq__', 'other', [
        Case('return other.operation == self.operation', {'isa(other, Operator)': True},
             name='operator'),
        Case('return other == self.operation', {'isa(other, Operator)': False,
                                                'isa(other, str)': True}, name='text'),
        Case('return NotImplemented', {'isa(other, Operator)': False,
                                       'isa(other, str)': False}, name='other')])
    t(R + 'Operator.__hash__', '', [Case('return hash(self.operation)')], words=['hash', 'id'])
    t(A + '.__init__', 'multiply divide opening closing raising operator_order', [
        Case('return None', stores={
            'operands': 'either(OperandFactory(opening, closing, raising), OperandFactory('
                        'opening=opening, closing=closing, raising=raising))',
            'operators': 'either(OperatorFactory(multiply, divide), '
                         'OperatorFactory(multiply=multiply, divide=divide))',
            '_operator_order': 'operator_order'})],
      defaults={n: v for n, v in (
          ('multiply', '*'), ('divide', '/'), ('opening', '('), ('closing', ')'),
          ('raising', '^'), ('operator_order', 'ignore'))},
      words=['OperandFactory', 'OperatorFactory'])
    for cls, names in ((F, {'opening': '(', 'closing': ')', 'raising': '^'}),
                       (R + 'OperatorFactory', {'multiply': '*', 'divide': '/'})):
        fn = P.funcs.get(cls + '.__init__')
        from ..spec import default
        for n, v in names.items():
            d = default(fn.node.args, n) if fn else None
            rep.ob('parse', f"{cls.rpartition(':')[2]}({n}=)", None if d is None
                   else d == (v,), f"is {d} by default")
    if not arranged(P, rep, A + '._parse_operand', 3, lambda r, loop: steps(P, r, loop)):
        rep.ob('parse', '_parse_operand', None, 'has no such loop')
    t = tables(P, rep, 'match')
    ctx = lambda k: f"return self._context['{k}']"
    for k in ('start', 'end', 'string'):
        t(f'{M}.{k}', '', [Case(ctx(k))])
    t(M + '.remainder', '', [Case('return self.string[self.end:]')], words=['strip'])
    t(M + '._set_from_match', 'match', [
        Case("return {'start': match.start(), 'end': match.end(), 'string': match.string}")],
      words=['start', 'end', 'string', 'span', 'pos', 'endpos'])
    t(M + '.__init__', 'result context', [
        Case('return None', stores={'result': 'result',
                                    '_context': 'self._set_context(context)'})])
    t(M + '._set_from_mapping', 'mapping', [
        Case("return {'start': mapping.get('start'), 'end': mapping.get('end'), "
             "'string': mapping.get('string')}")], words=['get'])
    part, text = 'isa(result, Part)', 'isa(context, Match, Mapping)'
    t(M + '.__new__', 'result context', [
        Case('raise TypeError', {part: False}, name='no part'),
        Case('raise TypeError', {part: True, text: False}, name='no context'),
        Case('return _.__new__(_)', {part: True, text: True}, name='both')])
    t(M + '._set_context', 'user', [
        Case('return self._set_from_match(user)', {'isa(user, Match)': True}, name='match'),
        Case('return self._set_from_mapping(user)', {'isa(user, Match)': False,
                                                     'isa(user, Mapping)': True},
             name='mapping'),
        Case('return None', {'isa(user, Match)': False, 'isa(user, Mapping)': False},
             name='other')], maybe=('other',))


def steps(P, rep, loop):
    t = tables(P, rep, 'parse')
    head, step, tail, _ = loop
    start = 'Iteration(initial.base)'
    t(head, 'initial', [
        Case(f'return ([], {start}, either({start}.copy(), {start}))')],
      name='_parse_operand, start', words=['Iteration', 'copy'])
    op = ('self._get_operand(initial, self._get_operator(initial, current, previous))')
    new = f'self._compute_operand({op})'
    after = f"('next', operands, Iteration(either({op}.copy().string, {op}.string)), " \
            f"either({op}.copy(), {op}))"
    t(step, 'operands current previous initial', [
        Case("return ('end', operands, current, previous)", {'current.string': False},
             name='end'),
        Case('return ' + after, {'current.string': True, new: True},
             does=[f'operands.append({new})'], name='operand'),
        Case('return ' + after, {'current.string': True, new: False}, name='nothing')],
      name='_parse_operand, pass', maybe=('nothing',),
      words=['_get_operand', '_get_operator', '_compute_operand', 'Iteration', 'copy',
             'append', 'insert'])
    t(tail, 'operands current previous initial', [Case('return operands')],
      name='_parse_operand, end')


def reduce(P, rep):
    t = tables(P, rep, 'reduce')
    loop = split(P, X + 'reduce')
    if loop is None or len(loop[3]) != 1:
        rep.ob('reduce', 'reduce', None, 'has no such loop')
        return
    head, step, tail, _ = loop
    t(head, 'groups', [
        Case('return (either([many(each(each(groups)))], chain.from_iterable(groups), '
             'chain(*groups)), {})')], name='reduce, start',
      words=['set', 'sorted', 'reversed', 'chain', 'from_iterable'])
    old = 't.base in reduced'
    entry = 'reduced[t.base]'
    t(step, 't reduced groups', [
        Case("return ('next', reduced)", {old: True},
             does=[f"setitem({entry}, 'coefficient', {entry}['coefficient'] * t.coefficient)",
                   f"setitem({entry}, 'exponent', {entry}['exponent'] + t.exponent)"],
             name='again'),
        Case("return ('next', reduced)", {old: False},
             does=["setitem(reduced, t.base, {'coefficient': t.coefficient, 'exponent': "
                   "t.exponent})"], name='first')],
      name='reduce, pass', words=['mul', 'add', 'sub', 'pow', 'truediv', 'setitem'])
    v = 'each(reduced.values())'
    v = "either(each(reduced.values()), each(reduced.items())[1], reduced[each(reduced)])"
    k = 'either(each(reduced.items())[0], each(reduced))'
    power = f"{v}['exponent']"
    terms = f'[many(either(term_factory(base={k}, exponent={power})))]'
    unit, zero = f"{k} == '1'", f'{power} == 0'
    fracs = f"[many(either(Fraction({v}['coefficient']), {v}['coefficient']))]"
    c = f'either(reduce(_A * _B, {fracs}), prod({fracs}))'
    const = f'[either(term_factory(coefficient={c}), term_factory({c}, "1", 1))]'
    rows = []
    for name, facts, items in (('powers', {unit: False, zero: False}, terms),
                               ('constant', {unit: True}, '[]'),
                               ('zero', {unit: False, zero: True}, '[]')):
        out = (f"sorted(sorted({items}, key=attrgetter('base')), key=attrgetter('exponent'), "
               f"reverse=True)")
        out = f"either({out}, [*{out}])"
        ch = name == 'powers'
        rows += [Case('return ' + const, {**facts, out: False}, name=name + ', no variables',
                      choice=ch),
                 Case('return ' + out, {**facts, out: True, f'{c} == 1': True},
                      name=name + ', unity', choice=ch),
                 Case(f'return either({const} + {out}, [{const}[0], star({out})])',
                      {**facts, out: True, f'{c} == 1': False}, name=name + ', general',
                      choice=ch)]
    t(tail, 'reduced groups', rows, name='reduce, end',
      maybe=[r.name for r in rows if r.name.partition(',')[0] != 'powers'],
      wrong=[f'{k} == _', f'{power} == _', f'{v}[_] == _'],
      words=['sorted', 'reduce', 'attrgetter', 'term_factory', 'Fraction', 'mul', 'add',
             'reversed', 'sum', 'prod'])


def algebra(P, rep):
    t = tables(P, rep, 'algebra')
    ex = 'isa(this, Expression)'
    t(X + 'expression_factory', 'this **options', [
        Case('return this', {ex: True, 'options': False}, name='expression'),
        Case('raise ValueError', {ex: True, 'options': True}, name='options'),
        Case("return Expression(_init_terms(either(standard(this, joiner='*'), "
             "standard(this)), Parser(**options)))", {ex: False}, name='other')],
      words=['standard', '_init_terms', 'Parser', 'Expression'])
    null, text = 'isnull(this)', 'isa(this, str)'
    part = 'f"({each(this)})"'
    t(X + 'standard', 'this missing joiner', [
        Case('return missing', {null: True}, name='null'),
        Case('return this', {null: False, text: True}, name='text'),
        Case(f'return joiner.join([many({part})])', {null: False, text: False,
                                                     'except': False}, name='many'),
        Case('return str(this)', {null: False, text: False, 'except': True}, name='one')],
      defaults={'missing': None, 'joiner': '*'},
      words=['join', 'str', 'isnull'])
    t(X + '_init_terms', 'string parser', [
        Case('return []', {'string is None': True}, name='nothing'),
        Case('return reduce(parser.parse(string))', {'string is None': False}, name='text')],
      words=['reduce', 'parse'])
    made = lambda x: {'isa(other, Expression)': x}
    other = {True: 'other', False: 'expression_factory(other)'}
    key = "key=attrgetter('base', 'exponent', 'coefficient')"
    rows = []
    for k, o in other.items():
        n = f'len({o}) == len(self)'
        rows += [Case('return False', {**made(k), n: False}, name=f'{k}, number'),
                 Case(f'return either(sorted(self, {key}) == sorted({o}, {key}), '
                      f'set(self) == set({o}), set(self.terms) == set({o}.terms))',
                      {**made(k), n: True}, name=f'{k}')]
    t(E + '.__eq__', 'other', rows, maybe=('True, number', 'False, number'),
      words=['sorted', 'set', 'len', 'attrgetter', 'all', 'any', 'zip', 'frozenset'])
    for m, out in (('__mul__', 'reduce(self, %s)'),
                   ('__truediv__', 'reduce(self, [many(each(%s) ** -1)])')):
        rows = []
        for k, o in other.items():
            rows += [Case('return NotImplemented', {**made(k), o: False}, name=f'{k}, empty'),
                     Case('return expression_factory(%s)' % (out % o), {**made(k), o: True},
                          name=f'{k}')]
        t(f'{E}.{m}', 'other', rows, words=['pow', 'mul', 'reduce', 'Expression'])
    t(E + '.__rmul__', 'other', [
        Case('return either(expression_factory(other).__mul__(self), '
             'expression_factory(other) * self)')], words=['mul', '__mul__', '__truediv__'])
    t(E + '.__rtruediv__', 'other', [
        Case('return either(expression_factory(other).__truediv__(self), '
             'expression_factory(other) / self)')],
      words=['mul', 'truediv', '__mul__', '__truediv__'])
    num = 'either(exp, float(exp))'
    t(E + '.__pow__', 'exp', [
        Case(f'return expression_factory(reduce([many(each(self) ** {num})]))')],
      words=['pow', 'mul', 'reduce', 'float', 'int'])
    t(E + '.__hash__', '', [
        Case('return either(hash(tuple(self.terms)), hash(tuple(self)), '
             'hash(frozenset(self.terms)), hash(frozenset(self)))')], words=['hash', 'id'])
    t(E + '.terms', '', [Case('return self._terms')])
    t(E + '.__iter__', '', [Case('return iter(self.terms)')], words=['reversed'])
    t(E + '.__len__', '', [Case('return len(self.terms)')])
    t(E + '.isempty', '', [Case('return not self.terms')])
    t(E + '.__bool__', '', [Case('return not self.isempty')])
    t(E + '.format', 'style separator', [
        Case('return separator.join([many(either(each(self).format(style=style), '
             'each(self).format(style)))])')],
      defaults={'style': None, 'separator': ' '}, words=['join', 'format'])
    loop = split(P, E + '.apply')
    if loop and len(loop[3]) == 1:
        head, step, tail, _ = loop
        t(step, 'base exponent result update', [
            Case("return ('next', result * base ** exponent)")], name='apply, pass',
          words=['pow', 'mul'])
        t(tail, 'result update', [Case('return result')], name='apply, end')
    num, part = 'isa(index, SupportsIndex)', 'isa(index, slice)'
    t(E + '.__getitem__', 'index', [
        Case('return either(self.terms[int(index)], self.terms[index])', {num: True},
             name='index'),
        Case('return self.terms[index]', {num: False, part: True}, name='slice'),
        Case('raise IndexError', {num: False, part: False}, name='other')],
      words=['int', 'len'])
    rows = []
    for k, o in other.items():
        a, b = 'set(self.terms)', f'set({o}.terms)'
        rows += [
            Case(f'return [{a} - {b}, {b} - {a}]', {**made(k), 'split': True},
                 name=f'{k}, split'),
            Case(f'return either({a} ^ {b}, {a} | {b})' if False else
                 f'return {a} ^ {b}', {**made(k), 'split': False, 'symmetric': True},
                 name=f'{k}, symmetric'),
            Case(f'return {a} - {b}', {**made(k), 'split': False, 'symmetric': False},
                 name=f'{k}')]
    t(E + '.difference', 'other symmetric split', rows, words=['set', 'sub', 'xor', 'or'],
      defaults={'symmetric': False, 'split': False})
    for m, op in (('equality', '=='), ('product', '*'), ('ratio', '/')):
        x, y = 'expression(a)', 'expression(b)'
        x, y = (f'either(expression({v}), expression_factory({v}))' for v in 'ab')
        t(f'eprempy.symbolic:{m}', 'a b', [Case(f'return {x} {op} {y}')],
          words=['mul', 'truediv', 'eq', 'expression', 'expression_factory'])
    t('eprempy.symbolic:power', 'a n', [
        Case('return either(expression(a), expression_factory(a)) ** n')],
      words=['pow', 'mul', 'expression', 'expression_factory'])
