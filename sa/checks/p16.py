"""P16: parameter values come from the config file, else from EPREM's defaults."""

from ..absint import State, K
from ..spec import table, Case

LEVEL = 'other'
EXPLANATION = (
    "Abstract interpretation of the interface to parameters, of the reader of config "
    "files, of the resolution of default values and of the readers of EPREM's sources. "
    "Each function is compared with a decision table: on every path, the value term "
    "returned must be the one of the rows that the conditions of the path allow, and "
    "every row must be reached."
)
ASSUMPTIONS = [
    "the methods of str and open files do what Python documents",
    "symbolic expressions are parsed as written",
]
R = 'eprempy.parameter._runtime:'
C = 'eprempy.parameter._config:'
S = 'eprempy.parameter._src:'
LINE = "each(filepath.open('r').__enter__())"
STRIPPED = f"either({LINE}, {LINE}.rstrip('\\n'), {LINE}.rstrip(), {LINE}.strip())"
CLEAN = f"strip_inline_comments({STRIPPED}, either(comments, tuple(), ()))"


def run(P, rep):
    rep.rule('file', "a config file gives exactly the pairs of its lines", 8)
    rep.rule('source', "each parameter has the configured or the default value", 3)
    rep.rule('lookup', "a parameter is looked up by any name, with its unit", 4)
    rep.rule('defaults', "default values are resolved", 8)
    rep.rule('types', "values are converted to the type of the parameter", 8)
    rep.rule('sources', "definitions come from the given sources or the database", 8)
    rep.rule('variable', "the parts of a variable keep its unit", 5)
    files(P, rep)
    interface(P, rep)
    defaults(P, rep)
    types(P, rep)
    sources(P, rep)
    variables(P, rep)


def files(P, rep):
    t = lambda *a, **k: table(P, rep, 'file', *a, **k)
    split = f"either({CLEAN}.split('=', 1)[0], {CLEAN}.partition('=')[0], {CLEAN}.split('=')[0])"
    rest = f"either({CLEAN}.split('=', 1)[1], {CLEAN}.partition('=')[2])"
    skip = {
        f"{STRIPPED} == ''": "a blank line", f"{STRIPPED} == '\\n'": "an empty line",
        f"either({STRIPPED}[0], {STRIPPED}[:1]) in _": "a comment line",
    }
    blank = [f"{STRIPPED} == ''", f"{STRIPPED} == '\\n'",
             f"either({STRIPPED}[0], {STRIPPED}[:1]) in _", CLEAN,
             f"{CLEAN} == ''", STRIPPED]
    parse(P, rep, blank, split, rest)
    t(C + 'ConfigFile.__getitem__', 'key', [
        Case('return self.parsed[key]', {'key in self.parsed': True}),
        Case('raise either(ConfigKeyError, KeyError)', {'key in self.parsed': False})])
    t(C + 'ConfigFile.__iter__', '', [
        Case('return either(iter(self.parsed), each(self.parsed), self.parsed)')],
      words=['iter', 'keys'])
    t(C + 'ConfigFile.__len__', '', [Case('return len(self.parsed)')])
    given = "either(set(self._comments), self._comments, list(self._comments))"
    hashes = "either({'#'}, ['#'], ('#',), set('#'))"
    st = State()
    st.attrs[(('sym', 'self'), '_parsed')] = K(None)
    t(C + 'ConfigFile.parsed', '', [
        Case(f'return _parse_config(self.source, {given})', {'self._comments': True}),
        Case(f'return _parse_config(self.source, {hashes})', {'self._comments': False}),
    ], state=st, words=['_filepath', 'fullpath'])
    t(C + 'ConfigFile.parsed', '', [Case('return self._parsed')],
      facts={('op', 'is', ('attr', ('sym', 'self'), '_parsed'), K(None)): False,
             ('attr', ('sym', 'self'), '_parsed'): True},
      name='ConfigFile.parsed again', words=['_parse_config', 'source', '_comments'])
    t(C + 'ConfigFile.source', '', [Case('return self._filepath')], words=['_comments'])
    t(C + 'configfile_factory', 'filepath comments', [
        Case('return ConfigFile(fullpath(filepath, True), either(comments, '
             'list(comments), [*comments]))', {'comments': True}),
        Case("return ConfigFile(fullpath(filepath, True), ['#'])", {'comments': False})])
    o = "either(other, ConfigFile(...), configfile_factory(...), configfile(...))"
    diff(P, rep)
    d = "self.diff(other, **kwargs)"
    every = (f"either(set({d}.full[0]) | set({d}.full[1]), "
             f"{d}.full[0].keys() | {d}.full[1].keys(), {{*{d}.full[0], *{d}.full[1]}})")
    t(C + 'ConfigFile.compare', 'other **kwargs', [
        Case(f"return {{many(each(either(sorted({every}), {every}))): "
             f"({d}.full[0].get(_), {d}.full[1].get(_))}}")],
      words=['sorted', 'set', 'union', 'kwargs'])


def parse(P, rep, blank, key, value):
    """Lines are skipped only if blank or comments, and stored as written."""
    from ..absint import Interp, Config, show
    from ..spec import Pattern, facts_of, known
    fn = P.funcs.get(C + '_parse_config')
    if fn is None:
        rep.ob('file', '_parse_config', None, 'not found')
        return
    own = [a.arg for a in fn.node.args.args]
    names = {'filepath', 'comments'}
    args = {a: ('sym', n) for a, n in zip(own, ('filepath', 'comments'))}
    pats = [Pattern(x, names) for x in blank]
    pk = Pattern(f"either({key}.strip(), {key})", names)
    pv = Pattern(f"either({value}.strip(), {value})", names)
    strip = Pattern(f"{key}.strip()", names), Pattern(f"{value}.strip()", names)
    line = Pattern(f"has({LINE})", names)
    words = set(pk.vocabulary() | pv.vocabulary()) | {'eq', 'in', 'is', 'lt'}
    it = Interp(P, Config(inline=lambda g: g.module is fn.module and g.name[:1] == '_',
                          breaks=True))
    stored = False
    for o in it.run(fn, args=args):
        rep.count('paths')
        if o.kind == 'raise':
            rep.ob('file', 'lines of a file', None, 'raises', fn.where)
            continue
        t = it.snap(o.value, o.st)
        facts = facts_of(o.st)
        if any(a[:2] == ('exc', 'broke') for a in o.st.facts):
            rep.ob('file', 'lines of a file', False,
                   'the rest of the file is not read', fn.where)
            continue
        if any(a[:2] == ('op', 'in') and a[2][0] == 'sub' and a[2][2] == K(0)
               and facts.get(a[2][1]) is not True
               and facts.get(('op', 'eq', a[2][1], K(''))) is not False
               and facts.get(('op', 'eq', K(''), a[2][1])) is not False for a in facts):
            rep.ob('file', 'blank lines', False, 'looks at the first of no characters',
                   fn.where)
        if ('sym', 'comments') in facts and facts['sym', 'comments'] and any(
                Pattern('has(strip_inline_comments(_, ()))', names).matches(x)
                for x in (t, *facts)):
            rep.ob('file', 'comment marks', False, 'ignores the given marks', fn.where)
        reasons = [(a, v) for a, v in facts.items() if line.matches(a)]
        wrong = [a for a, v in reasons if not any(p.matches(a) for p in pats) and any(
            p.matches(a, {'<loose>': True}) for p in pats)]
        strange = [a for a, v in reasons if a not in wrong and not any(
            p.matches(a) for p in pats)]
        if t[0] != 'dict':
            rep.ob('file', 'lines of a file', False if t == K(None) else None,
                   f"returns {show(t)[:80]}", fn.where)
            continue
        if not t[1]:
            # nothing stored: no line, or a reason to skip it
            ok, why = True, ''
            if reasons:
                skips = []
                for a, v in reasons:
                    truth = a[0] != 'op'
                    skips.append(v is (not truth))
                if not any(s for s, (a, v) in zip(skips, reasons) if a not in wrong):
                    ok, why = (None if strange else False), 'a line is dropped'
                elif strange:
                    ok = None
            rep.ob('file', 'skipped lines', ok, why, fn.where)
            continue
        stored = True
        for k, v in t[1]:
            k = k[1] if k[0] == 'many' else k
            for what, x, p, s in (('name', k, pk, strip[0]), ('value', v, pv, strip[1])):
                ok = True if s.matches(x) else False if p.matches(x) or known(
                    x, words) else None
                rep.ob('file', f"{what} in a line", ok, show(x)[-120:], fn.where)
        split = Pattern(f"{CLEAN}.split(...)", names)
        guarded = any(Pattern(CLEAN, names).matches(a) and v for a, v in reasons) or any(
            Pattern(f"{CLEAN} == ''", names).matches(a) and v is False
            for a, v in reasons) or any(
            a[0] == 'op' and a[1] == 'in' and a[2] == K('=') and v for a, v in reasons)
        rep.ob('file', 'blank lines and comments', guarded or (None if strange else False),
               'a line with only spaces or an indented comment is split', fn.where)
    if not stored:
        rep.ob('file', 'lines of a file', None, 'never stored', fn.where)
    table(P, rep, 'file', 'eprempy.paths:strip_inline_comments', 'string comments', [
        Case("return string.split(';')[0].split('#')[0].strip()")],
          words=['partition', 'rstrip', 'lstrip'],
          literal={'comments': ('tuple', (K(';'), K('#')))})


def diff(P, rep):
    names = 'other'
    isfile = 'isa(other, ConfigFile)'
    ispath = 'either(isa(other, str, Path), isa(other, str, Path, PathLike), isa(other, str, PathLike))'
    new = 'either(configfile_factory(other, **kwargs), configfile(other, **kwargs))'

    def of(x):
        full = lambda y: (f"either({{many(each({y})): {y}[_]}}, dict({y}), "
                          f"dict({y}.items()), {{**{y}}})")
        return (f"return ConfigDiff(keys={{0: set(self) - set({x}), "
                f"1: set({x}) - set(self)}}, full={{0: {full('self')}, 1: {full(x)}}})")
    table(P, rep, 'file', C + 'ConfigFile.diff', names + ' **kwargs', [
        Case(of('other'), {isfile: True}),
        Case(of(new), {isfile: False, ispath: True}),
        Case('raise TypeError', {isfile: False, ispath: False})],
          words=['ConfigFile', 'keys', 'difference', 'symmetric_difference', 'items',
                 'xor'])


def interface(P, rep):
    it = '_init_interface(args, kwargs)'
    cfg, src, opts = f'{it}[0]', f'{it}[1]', f'{it}[2]'
    d = f'Defaults({src})'
    file = f'either(configfile_factory({cfg}, **{opts}), configfile({cfg}, **{opts}))'
    unit = lambda k: f"either(UNITS.get({k}), UNITS.get({k}, None))"
    local = f"'minimum_energy': {{'unit': {unit(repr('minimum_energy'))}, 'value': 0.0}}"
    base = f"many(each({d})): {{'unit': {unit(f'each({d})')}, 'value': {d}[each({d})]}}"
    p = f'each(either({d}.reference, {d}.reference.items(), {d}, {d}.reference.keys()))'
    user = (f"many({p}): {{'unit': {unit(p)}, 'value': _convert({file}[{p}], "
            f"{d}.reference[{p}]['type'])}}")
    table(P, rep, 'source', R + 'interface_factory', '*args **kwargs', [
        Case(f"return Interface({{{local}, {base}}}, {d}, None)", {cfg: False}),
        Case(f"return Interface({{{local}, {base}, {user}}}, {d}, {file}.source)",
             {cfg: True, f"{p} in {file}": True}, name='configured'),
        Case(f"return Interface({{{local}, {base}}}, {d}, {file}.source)",
             {cfg: True, f"{p} in {file}": False}, name='not configured'),
        ], words=['items', 'keys', 'get', 'reference', '_convert', 'UNITS', 'in',
                  'source'], ignore=[f"{cfg} is None"], maybe=(2,),
          wrong=[f"{file}[{p}]", f"{file}.get({p})", f"{file}.get({p}, _)"])
    table(P, rep, 'source', R + '_init_interface', 'args kwargs', [
        Case("return (*args, kwargs)", {'len(args) == 2': True}),
        Case("return (args[0], kwargs.pop('srcdir', None), kwargs)",
             {'len(args) == 2': False, 'len(args) == 1': True}),
        Case("return (kwargs.pop('config', None), kwargs.pop('srcdir', None), kwargs)",
             {'len(args) == 2': False, 'len(args) == 1': False, 'len(args) == 0': True}),
        Case("raise TypeError", {'len(args) == 2': False, 'len(args) == 1': False,
                                 'len(args) == 0': False})])
    table(P, rep, 'source', 'eprempy.parameter:interface', '*args **kwargs', [
        Case('return interface_factory(*args, **kwargs)')])
    this = 'self.__getitem__(key)'
    deg = "self.__getitem__('useDegrees')['value']"
    rad, none = f"{this}['unit'] == 'rad'", f"{this}['unit'] is None"
    table(P, rep, 'lookup', R + 'Interface.__getitem__', 'key', [
        Case('raise KeyError', {'except': True}),
        Case(f"return {this}['value']", {'except': False, rad: False, none: True}),
        Case(f"return variable_factory({this}['value'], {this}['unit'])",
             {'except': False, rad: False, none: False}),
        Case(f"return variable_factory({this}['value'], {this}['unit'])",
             {'except': False, rad: True, deg: False}, name='radians'),
        Case(f"return variable_factory({this}['value'], 'deg')",
             {'except': False, rad: True, deg: True}),
        ], ignore=[f"{deg} is None"], wrong=["self._defaults[_]", "self._defaults.get(_)",
                                             "self.reference[_]['defaultVal']"], impossible=[{rad: True, none: True}])
    table(P, rep, 'lookup', R + 'Interface.__init__', 'base defaults cfgpath', [
        Case('return None', does=['either(self.__init__(base, ALIASES), self.__init__(base, aliases=ALIASES))'])],
          stores={'_defaults': 'defaults', '_config': 'cfgpath'})
    for prop, want in (('source', 'self.reference.origin'),
                       ('basetypes', 'self._defaults.basetypes'),
                       ('reference', 'self._defaults.reference'),
                       ('config', 'self._config')):
        table(P, rep, 'lookup', R + 'Interface.' + prop, '', [Case(f'return {want}')],
              words=['reference', 'basetypes', 'origin', '_defaults', '_config'])


def defaults(P, rep):
    t = lambda n, *a, **k: table(P, rep, 'defaults', C + 'Defaults.' + n, *a, **k)
    t('__init__', 'srcdir', [Case('return None')], stores={
        '_basetypes': 'BaseTypesH(srcdir)', '_reference': 'ConfigurationC(srcdir)',
        '_mapping': "{many(each(either(self.reference, ConfigurationC(srcdir), "
                    "self._reference))): _convert(_[_]['defaultVal'], _[_]['type'])}"},
      words=['reference', '_reference', '_basetypes', 'items', 'minVal', 'maxVal'])
    t('__iter__', '', [Case(
        'return either(iter(self.reference), each(self.reference), self.reference)')])
    t('__len__', '', [Case('return len(self.reference)')])
    t('__getitem__', 'name', [
        Case('return self._evaluate(name)', {'name in self.reference': True}),
        Case('raise KeyError', {'name in self.reference': False})],
      words=['_mapping', '_resolve'])
    cast = 'either(cast(current, False), cast(current, strict=False))'
    special = 'current in self._special_cases'
    got = 'self._get_argument(current)'
    typed = (f"{got}['type']")
    real = 'either(isa(current, Real), isa(current, Number))'
    none, lost = f'{cast} is None', f'{got} is None'
    isdef = f"isa({got}['definition'], {got}['type'])"
    no = {real: False, none: True}
    t('_evaluate', 'current', [
        Case('return current', {real: True}),
        Case(f'return {cast}', {real: False, none: False}),
        Case('return self._special_cases[current]', {**no, special: True}),
        Case(f"return {got}['definition']", {
            **no, special: False, lost: False, isdef: True}),
        Case(f"return self._evaluate({got}['definition'])", {
            **no, special: False, lost: False, isdef: False}),
        Case('return self._resolve(current)', {
            **no, special: False, lost: True, 'isa(current, str)': True}),
        Case('raise TypeError', {
            **no, special: False, lost: True, 'isa(current, str)': False})])
    bare = "definition.replace('config.', '')"
    inner = "definition.strip('[]')"
    member = "self._struct_member.match(definition)"
    inside = f"self._struct_member.match({inner})"
    total = "self._compute_sum(definition)"
    term = "each(either(expression_factory(_), expression(_)))"
    term = term.replace('(_)', f'({bare})')
    product = (f"either({term}.coefficient * self._evaluate({term}.base) ** "
               f"{term}.exponent, {term}(self._evaluate({term}.base)))")
    factor = "both(any(_), has('*' in definition), has('/' in definition))"
    t('_resolve', 'definition', [
        Case(f'return self._evaluate({bare})', {member: True}),
        Case(f"return [self._evaluate({inner}.replace('config.', ''))]",
             {member: False, inside: True}),
        Case(f'return {total}', {member: False, inside: False, f'{total} is None': False}),
        Case(f"return either(functools.reduce(_, [many({product})]), "
             f"math.prod([many({product})]), has({product}))",
             {member: False, inside: False, f'{total} is None': True, factor: True}),
        Case('raise TypeError', {
            member: False, inside: False, f'{total} is None': True, factor: False})],
      ignore=[f'{factor} is None'],
      words=['fn', '_evaluate', '_compute_sum', 'base', 'coefficient', 'exponent', 'reduce',
             'add', 'truediv', 'list'])
    e = lambda op, i: f"self._evaluate(each(arg.split('{op}')).strip())"
    two = lambda op: f"either([many({e(op, 1)})][1], {e(op, 1)})"
    t('_compute_sum', 'arg', [
        Case(f"return either({e('+', 0)} + 1.0 * [many({e('+', 1)})][1], "
             f"{e('+', 0)} + [many({e('+', 1)})][1])", {"'+' in arg": True}),
        Case(f"return either({e('-', 0)} + -1.0 * [many({e('-', 1)})][1], "
             f"{e('-', 0)} - [many({e('-', 1)})][1])",
             {"'+' in arg": False, "'-' in arg": True}),
        Case('return None', {"'+' in arg": False, "'-' in arg": False})],
      words=['sub', 'mul', 'neg'])
    t('_get_argument', 'name', [
        Case("return {'definition': self._mapping[name], "
             "'type': self.reference[name]['type']}", {'name in self._mapping': True}),
        Case("return {'definition': self.basetypes[name], "
             "'type': type(self.basetypes[name])}",
             {'name in self._mapping': False, 'name in self.basetypes': True}),
        Case('return None',
             {'name in self._mapping': False, 'name in self.basetypes': False})])


def types(P, rep):
    t = lambda n, *a, **k: table(P, rep, 'types', C + n, *a, **k)
    isreal, num = 'isa(arg, realtype)', 'either(realtype in {int, float}, realtype in (int, float))'
    t('_convert', 'arg realtype', [
        Case('return arg', {isreal: True}),
        Case('return soft_convert(arg, realtype)', {isreal: False, num: True}),
        Case('return soft_convert(arg, stringlist)', {
            isreal: False, num: False, 'either(realtype == list, realtype is list)': True}),
        Case('return arg', {isreal: False, num: False,
                            'either(realtype == list, realtype is list)': False})],
      words=['str', 'complex', 'bool'])
    t('soft_convert', 'string convert acceptable', [
        Case('return convert(string)', {'except': False}),
        Case('return string', {'except': True})], ignore=['acceptable', 'acceptable is None'])
    start, end = "string.startswith('[')", "string.endswith(']')"
    t('stringlist', 'string', [
        Case('raise _', {start: False}),
        Case('raise _', {start: True, end: False}),
        Case('return []', {start: True, end: True, "either(string.strip('[]'), string[1:-1])": False}),
        Case("return [many(cast(either(each(_.split(',')).strip(...), "
             "each(_.split(',')))))]",
             {start: True, end: True, "either(string.strip('[]'), string[1:-1])": True})],
      ignore=[f'{start} is None', f'{end} is None'])
    number = 'either(isa(arg, Number), isa(arg, Real))'
    t('cast', 'arg strict', [
        Case('return arg', {number: True}),
        Case('return int(arg)', {number: False, 'except': False}),
        Case('return either(float(arg), complex(arg))', {number: False, 'except': True},
             choice=True),
        Case('raise TypeError', {number: False, 'except': True, 'strict': True},
             choice=True),
        Case('return None', {number: False, 'except': True, 'strict': False},
             choice=True)], ignore=['strict is None'])


def sources(P, rep):
    t = lambda n, *a, **k: table(P, rep, 'sources', S + n, *a, **k)
    path = 'self.build_path(filename, srcdir)'
    file = f'either(TextFile({path}), paths.TextFile({path}))'
    loaded = f'self.load_from_source({file})'
    db = 'self.load_from_package(db_key)'
    for exists in (True, False):
        x = f'self.standardize({loaded if exists else db})'
    t('SourceFile.__init__', 'db_key filename srcdir', [
        Case('return None', {path: True, f'{path}.exists()': True}, name='given',
             stores={'_origin': path, '_definitions': f'self.standardize({loaded})'}),
        Case('return None', {path: True, f'{path}.exists()': False}, name='missing',
             stores={'_origin': 'self._db_path', '_definitions': f'self.standardize({db})'}),
        Case('return None', {path: False}, name='not given',
             stores={'_origin': 'self._db_path', '_definitions': f'self.standardize({db})'})],
      ignore=[f'{path} is None', f'{path}.exists() is None'])
    full = 'fullpath(source, True)'
    t('SourceFile.build_path', 'filename source', [
        Case('return None', {'except': True}),
        Case(f'return {full} / filename', {'except': False, f'{full}.is_dir()': True}),
        Case(f'return {full}', {'except': False, f'{full}.is_dir()': False})],
      ignore=[f'{full}.is_dir() is None'])
    t('SourceFile.load_from_package', 'key', [
        Case("return json.load(either(self._db_path.open('r').__enter__(), "
             "open(self._db_path, 'r').__enter__()))[key]")])
    for n, want in (('__iter__', 'either(iter(self.definitions), each(self.definitions), self.definitions)'),
                    ('__len__', 'len(self.definitions)'), ('origin', 'self._origin'),
                    ('definitions', 'self._definitions')):
        t('SourceFile.' + n, '', [Case(f'return {want}')])
    t('BaseTypesH.__init__', 'srcdir', [
        Case('return None', does=["self.__init__('BASETYPES_H', 'baseTypes.h', srcdir)"])])
    t('ConfigurationC.__init__', 'srcdir', [
        Case('return None', does=[
            "self.__init__('CONFIGURATION_C', 'configuration.c', srcdir)"])])
    t('BaseTypesH.__getitem__', 'key', [
        Case('return self._cache[key]', {'key in self._cache': True}),
        Case('return self._compute(key)', {
            'key in self._cache': False, 'key in self.definitions': True}),
        Case('raise KeyError', {
            'key in self._cache': False, 'key in self.definitions': False})])
    d, rt = 'self.definitions[key]', 'self.types.get(key)'
    some = f"both(any(_), has('*' in {d}), has('/' in {d}), has('sqrt' in {d}))"
    t('BaseTypesH._compute', 'key', [
        Case(f'return {d}', {'isa(_, _)': True}),
        Case(f'return self._evaluate(expression_factory({d}))',
             {'isa(_, _)': False, some: True}),
        Case(f'return {rt}({d})', {'isa(_, _)': False, some: False, rt: True}),
        Case('raise TypeError', {'isa(_, _)': False, some: False, rt: False})],
      ignore=[f'{some} is None', f'{rt} is None'])
    term = 'each(expression)'
    t('BaseTypesH._evaluate', 'expression', [
        Case(f'return either(1.0 * float({term}(self._compute({term}.base))), '
             f'float({term}(self._compute({term}.base))))',
             {f'{term}.base in self.definitions': True}),
        Case(f'return either(1.0 * float({term}), float({term}))', {
            f'{term}.base in self.definitions': False, f"{term}.base == '1'": True}),
        Case('return 1.0', {
            f'{term}.base in self.definitions': False, f"{term}.base == '1'": False})],
      zero='1.0', words=['add', 'sub', 'truediv', 'pow'])
    t('ConfigurationC.__getitem__', 'key', [
        Case('return self.definitions[key]', {'key in self.definitions': True}),
        Case('raise KeyError', {'key in self.definitions': False})])
    t('ConfigurationC.standardize', 'loaded', [
        Case("return self._replace(loaded, 'mode', 'type', self._types)")])
    parsers(P, rep, t)


def parsers(P, rep, t):
    """Readers of C sources, other than their regular expressions."""
    t('BaseTypesH.load_from_source', 'file', [Case(
        'return file.extract(BaseTypeDef().match, BaseTypeDef().parse)')])
    for n in ('BaseTypeDef', 'FunctionCall', 'VariableDefinition'):
        m = 'self.pattern.match(either(line.strip(), line))'
        t(n + '.match', 'line', [
            Case(f'return {m}.groupdict()', {m: True}),
            Case('return None', {m: False})], ignore=[f'{m} is None'])
    t('BaseTypeDef.parse', 'found', [Case("return (found['name'], found['value'])")])
    t('FunctionCall._normalize', 'mode args', [Case(
        "return {'mode': mode, many(each(self._keys[mode])): each(args).strip(' \\\"')}")],
      words=['update', '_keys'])
    name = "found['key'].strip(' \"')"
    norm = "self._normalize(found['mode'], found['args'].split(','))"
    t('FunctionCall.parse', 'found', [Case(
        f"return ({name}, either({norm}, {{many(each({norm})): {norm}[_]}}, _))")],
      words=['_normalize'])
    t('VariableDefinition.parse', 'found', [Case(
        "return (found['name'], {'size': int(found['size']), "
        "'value': f\"[{','.join(wrap(found['value']))}]\"})")], words=['join'])
    c = 'ConfigurationC.'
    for n, pat in (('_get_assignments', 'FunctionCall'),
                   ('_get_array_defaults', 'VariableDefinition')):
        t(c + n, 'file', [Case(
            f'return file.extract({pat}().match, {pat}().parse)')])
    k = 'each(mapping)'
    rest = f"many(each({{many(each(mapping[{k}])): _}}))"
    t(c + '_replace', 'mapping old new conversion', [Case(
        f"return {{many({k}): {{new: conversion[mapping[{k}][old]], "
        f"many(either(each(mapping[{k}]), each(mapping[{k}].items())[0])): "
        f"either(mapping[{k}][_], each(mapping[{k}].items())[1])}}}}",
        {f"either(each(mapping[{k}]), each(mapping[{k}].items())[0]) == old": False},
        name='replaced'),
        Case(f"return {{many({k}): {{new: conversion[mapping[{k}][old]]}}}}",
        {f"either(each(mapping[{k}]), each(mapping[{k}].items())[0]) == old": True},
        name='only')], maybe=(0, 1))
    a, f = 'self._get_assignments(file)', 'self._get_array_defaults(file)'
    one = f'{a}[each({a})]'
    value = f"{f}[{one}['defaultVal']]['value']"
    sub = (f"{{'mode': {one}['mode'], 'defaultVal': {value}, "
           f"'maxVal': {one}['maxVal'], 'minVal': {one}['minVal']}}")
    isarray = f"{one}['defaultVal'] in {f}"
    t(c + 'load_from_source', 'file', [
        Case(f"return {{many(each({a})): either({sub}, {{many(each({a})): {sub}}}"
             f"[each({a})])}}", {isarray: True}, choice=True, name='array'),
        Case(f"return {{many(each({a})): {one}}}", choice=True, name='other'),
    ], words=['get'], ignore=[f"each({a}) in _"])


def fresh(*names):
    st = State()
    for n in names:
        st.attrs[(('sym', 'self'), n)] = K(None)
    return st


def variables(P, rep):
    t = lambda n, *a, **k: table(P, rep, 'variable', R + n, *a, **k)
    i = 'either(unwrap(*args), unwrap(args))'
    isidx, neg = f'isa({i}, _)', f'{i} < 0'
    cases = []
    for data, conds in ((f'self.data[{i} + len(self)]', {isidx: True, neg: True}),
                        (f'self.data[{i}]', {isidx: True, neg: False}),
                        (f'self.data[{i}]', {isidx: False})):
        empty = f'length({data}) == 0'
        cases += [Case(f'return scalar({data}, self.unit)', {**conds, empty: True}),
                  Case(f'return variable_factory({data}, self.unit)',
                       {**conds, empty: False})]
    t('Variable.__getitem__', '*args', cases, words=['unit', 'data'])
    f = 'f(self.data[0], **kwargs)'
    t('Variable._as_scalar', 'f **kwargs', [
        Case(f'return scalar({f}, self.unit)', {'except': False}),
        Case('raise TypeError', {'except': True})])
    t('Variable._as_builtin', 'kind', [
        Case('return kind(self.data[0])', {'except': False}),
        Case('raise TypeError', {'except': True})])
    for n, k in (('int', 'int'), ('float', 'float')):
        t(f'Variable.__{n}__', '', [Case(
            f'return either(self._as_builtin({k}), {k}(self.data[0]))')],
          words=['int', 'float', 'complex', '_as_builtin'])
    for n, k in (('floor', 'floor'), ('ceil', 'ceil'), ('trunc', 'trunc')):
        t(f'Variable.__{n}__', '', [Case(f'return self._as_scalar({k})')],
          words=['floor', 'ceil', 'trunc', 'round', 'operators'])
    t('Variable.__round__', 'ndigits', [Case(
        'return self._as_scalar(round, ndigits=ndigits)')], words=['operators'])
    a = 'variable_args(x, unit)'
    t('variable_factory', 'x unit', [Case(
        f'return Variable({a}[0], either(context, context_factory)({a}[1], arraylike))')])
    v, w = 'vector(x)', 'vector(numpy.array(x, ndmin=1), unit)'
    obj = 'isa(x, Object)'
    t('variable_args', 'x unit', [
        Case(f'return ({v}.data, {v}.unit)', {obj: True}),
        Case(f'return ({w}.data, {w}.unit)', {obj: False, 'except': False}),
        Case('raise _', {obj: False, 'except': True})])
