"""F28: general-purpose helpers do what they document for all input."""

import ast

from ..absint import Interp, Config, State, show, subterms
from ..model import Func
from ..spec import table, Case

LEVEL = 'other'
EXPLANATION = (
    "Abstract interpretation of eprempy.etc and eprempy.exceptions. Functions are compared "
    "with decision tables, path by path: what is given back under which conditions, and "
    "which input is refused."
)
ASSUMPTIONS = [
    "strings, mappings, types and exceptions behave as documented by Python",
]
E = 'eprempy.etc:'
X = 'eprempy.exceptions:'
KNOWN = {'_create', '_sentinel_init', '_autostr_numpy', '_autostr_default', '_defines_str'}


def extracted(g):
    return g.module.name in ('eprempy.etc', 'eprempy.exceptions') \
        and g.name[:1] == '_' and g.name[:2] != '__' and g.name not in KNOWN


def tables(P, rep, rule):
    def t(qual, params, cases, **k):
        k.setdefault('inline', extracted)
        table(P, rep, rule, qual, params, cases, **k)
    return t


def either(*p):
    return f"either({', '.join(p)})"


def run(P, rep):
    rep.rule('text', "text is made of all parts, in order", 8)
    rep.rule('tests', "predicates tell what they document", 8)
    rep.rule('choice', "results are chosen as documented", 6)
    rep.rule('sentinel', "sentinels stand for their values, once for each", 6)
    rep.rule('errors', "exceptions are replaced as registered, others are left alone", 6)
    text(P, rep)
    tests(P, rep)
    choice(P, rep)
    sentinels(P, rep)
    errors(P, rep)


def shown(x, q):
    return f"repr({x})" if q else f"str({x})"


def text(P, rep):
    t = tables(P, rep, 'text')
    rows = []
    quoted = 'isa(each(pos), str)'
    kwq = 'isa(kwd[each(kwd)], str)'
    def p(q):
        return f"', '.join(either([many({shown('each(pos)', q)})], many({shown('each(pos)', q)})))"
    def k(q):
        item = 'f"{each(kwd)}={%s}"' % shown('kwd[each(kwd)]', q)
        return f"', '.join(either([many({item})], many({item})))"
    for a in (True, False):
        rows.append(Case(f"return {p(a)}", {quoted: a, 'kwd': False}, name=f'positional {a}'))
        rows.append(Case(f"return {k(a)}", {kwq: a, 'kwd': True, 'pos': False},
                         name=f'keyword {a}'))
        for b in (True, False):
            rows.append(Case('return f"{%s}, {%s}"' % (p(a), k(b)),
                             {quoted: a, kwq: b, 'kwd': True, 'pos': True},
                             name=f'both {a} {b}'))
    t(E + 'strargs', 'pos kwd', rows, maybe=range(len(rows)))
    one = 'len([*x]) == 1'
    two = 'len([*x]) == 2'
    rows = []
    for q in (True, False):
        s = lambda i: shown(f"[*x][{i}]", q)
        item = shown('each([*x][:-1])', q)
        rows += [
            Case(f"return {s(0)}", {one: True, two: False, '[*x]': True, 'quoted': q}, name=f"one {q}"),
            Case('return f"{%s} {c} {%s}"' % (s(0), s(1)), {one: False, two: True, '[*x]': True, 'quoted': q},
                 name=f"two {q}"),
            Case('return f"{%s}, {c} {%s}"' % (
                f"', '.join(either([many({item})], many({item})))", s(-1)),
                {one: False, two: False, '[*x]': True, 'quoted': q}, name=f"more {q}"),
        ]
    rows.append(Case("return ''", {'[*x]': False, one: False, two: False}, name='none'))
    t(E + 'join', 'x c quoted', rows)

    helptext(t)
    generated(P, rep)
    strings(P, rep)


def helptext(t):
    """Summaries, phrases and full descriptions of docstrings."""
    doc = {True: ['obj'], False: ['str(obj.__doc__)', 'obj.__doc__']}
    rows = []
    for given, texts in doc.items():
        for swap in (True, False):
            x = texts
            if swap:
                x = x + [f"{y}.replace(each(replacements), replacements[each(replacements)])"
                         for y in x]
            x = either(*x)
            lines = either(f"{x}.lstrip('\\n').split('\\n')",
                           f"{x}.lstrip('\\n').splitlines()")
            first = either(f"{lines}[0]", f"{x}.lstrip('\\n').partition('\\n')[0]")
            when = {'isa(obj, str)': given, 'replacements': swap, 'except': False}
            body = either(*(
                f"'\\n'.join(textwrap.wrap(' '.join({m}), width=70)).lstrip(' ')"
                for m in ("[many(_)]", "many(_)")))
            if not given:
                when['obj.__doc__'] = True
            n = f"{'text' if given else 'object'}{' with replacements' if swap else ''}"
            rows += [
                Case('return f"{%s}\\n\\n{%s}"' % (first, body), {"mode == 'full'": True, **when},
                     name=f"full {n}"),
                Case(f"return {either(f'{first}[:1]', f'{first}[0]')}.lower() + "
                     f"{first}[1:].rstrip('.')",
                     {"mode == 'full'": False, "mode == 'phrase'": True, **when},
                     name=f"phrase {n}"),
                Case(f"return {first}",
                     {"mode == 'full'": False, "mode == 'phrase'": False, **when},
                     name=f"summary {n}"),
            ]
    none = {'isa(obj, str)': False, 'obj.__doc__': False, 'except': False}
    rows += [Case("return ''", {"mode == 'full'": False, 'replacements': False, **none},
                  name='nothing'),
             Case('return _', {"mode == 'full'": False, 'replacements': True, **none},
                  name='nothing with replacements', choice=True),
             Case('return _', {"mode == 'full'": True, **none}, name='nothing in full',
                  choice=True)]
    rows.append(Case('raise TypeError', {'except': True}, name='refused'))
    t(E + 'doc2help', 'obj mode replacements', rows, maybe=('refused',),
      defaults={'mode': 'summary', 'replacements': None})


def generated(P, rep):
    """Generated methods do not replace those of the class."""
    for f in ('_autostr_numpy', '_autostr_default'):
        fn = P.funcs.get(E + f)
        if fn is None:
            continue
        own = [x.arg for x in fn.node.args.args]
        obj = ('sym', own[0])
        it = Interp(P, Config(inline=extracted))
        some = set()
        for o in it.run(fn):
            if o.kind != 'return':
                continue
            rep.count('paths')
            t = it.snap(o.value, o.st)
            rep.ob('text', f"{f}: gives the class", True if t == obj else
                   False if t[0] == 'k' else None, show(t)[:60], fn.where)
            for e in o.st.trace:
                if e.kind != 'setattr' or e.data[0] != obj:
                    continue
                name = e.data[1]
                some.add(name)
                have = [v for k, v in o.st.facts.items() if k[0] == 'op' and k[1] == 'in'
                        and k[2] == ('k', 'str', name)]
                rep.ob('text', f"{f}: {name} of the class is kept", True if have == [False] else False if have == [True] else None,
                       f"replaces {name} of the class", fn.where)
        rep.ob('text', f"{f}: generates methods", True if '__repr__' in some else None,
               '', fn.where)


def strings(P, rep):
    """Generated strings show the object's own string or its array."""
    def t(body, params, cases, inline, name):
        q = driver(P, E[:-1], f"def _use_({params.replace(' ', ', ')}):\n    return {body}\n")
        use = P.funcs[q]
        table(P, rep, 'text', q, params, cases, name=name,
              inline=lambda g: g is use or g.name in inline or extracted(g),
              impossible=[{'cls is None': True}])
        del P.funcs[q]
    name = 'self.__class__.__name__'
    own = '_defines_str(self.__class__)'
    defined = "'__repr__' in cls.__dict__"
    t('_autostr_default(cls).__repr__(self)', 'cls self', [
        Case('return f"{%s}({self})"' % name, {defined: False, own: True}, name='string'),
        Case(f'return {name}', {defined: False, own: False}, name='no string'),
        Case('return cls.__repr__(self)', {defined: True}, name='own'),
    ], ['_autostr_default'], 'repr by default')
    own = "'__str__' in self.__class__.__dict__"
    t('str2repr(cls).__repr__(self)', 'cls self', [
        Case('return f"{%s}({self})"' % name, {own: True}, name='string'),
        Case(f'return {name}', {own: False}, name='no string'),
    ], ['str2repr'], 'repr of str')
    opts = "edgeitems=%s, floatmode='maxprec_equal', precision=%s, separator=', ', threshold=%s"
    for m, given, o in (('str', '', opts % (2, 3, 4)),
                        ('str', ', precision=p, threshold=n', opts % (2, 'p', 'n')),
                        ('repr', ', edgeitems=p, prefix=n', opts % ('p', 3, 4))):
        have = f"'__{m}__' in cls.__dict__"
        text = f"numpy.array2string(numpy.array(self), {o})"
        if m == 'repr':
            text = 'f"{n}{numpy.array2string(numpy.array(self), prefix=n, suffix=\')\', %s)})"' % o
        t(f"_autostr_numpy(cls{given}).__{m}__(self)", 'cls self p n', [
            Case(f"return {text}", {have: False}, name='array'),
            Case(f"return cls.__{m}__(self)", {have: True}, name='own'),
        ], ['_autostr_numpy'], f"numpy-style {m}")
    array, default = "style == 'numpy'", "style == 'default'"
    for body in ('autostr(style=style, a=n)(cls)', 'autostr(cls, style=style, a=n)'):
        t(body, 'cls style n', [
            Case('return _autostr_numpy(cls, a=n)', {array: True}, name='numpy'),
            Case('return _autostr_default(cls)', {array: False, default: True},
                 name='default'),
            Case('return _', {array: False, default: False}, name='other', choice=True),
        ], ['autostr'], body)
    has = "'__str__' in this.__dict__"
    got = "hasattr(this, '__str__')"
    tables(P, rep, 'text')(E + '_defines_str', 'this', [
        Case(f"return {either(has, 'True')}", {has: True}, name='defined'),
        Case(f"return {either(got, 'False')}", {has: False, got: False}, name='none'),
        Case('return this.__str__ != object.__str__', {has: False, got: True},
             name='inherited'),
    ])


def tests(P, rep):
    t = tables(P, rep, 'tests')
    num = 'isa(this, numbers.Number)'
    size = 'this.size is None'
    sized = "getattr(this, 'size', None)"
    t(E + 'isnull', 'this', [
        Case('return False', {num: True}, name='number'),
        Case('return this.size == 0', {num: False, size: False}, name='array'),
        Case('return not bool(this)', {num: False, size: True, 'except': False},
             name='truth'),
        Case(f"return {either('all([many(isnull(each(this)))])', 'all(many(isnull(each(this))))')}",
             {num: False, size: True, 'except': True}, name='members'),
    ])
    isin = 'isa(each(targets), types)'
    t(E + 'allisinstance', 'types targets', [
        Case('raise TypeError', {'targets': False}, name='nothing'),
        Case(f"return {either(f'all([many({isin})])', f'all(many({isin}))')}",
             {'targets': True}, name='all'),
    ])
    t(E + 'isproperty', 'this', [
        Case('return isa(this, property)', {'isdatadescriptor(this)': True}, name='property'),
        Case('return isdatadescriptor(this)', {'isdatadescriptor(this)': False},
             name='no descriptor'),
    ], maybe=(1,))
    t(X + 'isexception', 'x', [
        Case('return issubclass(x, Exception)', {'except': False}, name='class'),
        Case('return False', {'except': True}, name='no class'),
    ])


def choice(P, rep):
    t = tables(P, rep, 'choice')
    call = 'each(methods)(*args, **kwargs)'
    t(E + 'apply', 'methods args kwargs', [
        Case(f"return {call}", {call: True}, name='first', choice=True),
        Case('return None', {}, name='none', choice=True),
    ], wrong=[f"{call} is None"])
    both = 'type(a) == type(b)'
    ab, ba = 'issubclass(type(a), type(b))', 'issubclass(type(b), type(a))'
    base = 'base is None'
    oka = either('issubclass(type(a), base)', 'isa(a, base)')
    okb = either('issubclass(type(b), base)', 'isa(b, base)')
    rows = []
    for given, pre in ((False, {base: True}), (True, {base: False, oka: True, okb: True})):
        n = 'with' if given else 'without'
        rows += [
            Case(f"return {either('type(a)', 'type(b)')}", {both: True, **pre},
                 name=f"same {n} base"),
            Case('return type(a)', {both: False, ab: True, **pre}, name=f"first {n} base"),
            Case('return type(b)', {both: False, ab: False, ba: True, **pre},
                 name=f"second {n} base"),
            Case('return base' if given else 'raise ValueError',
                 {both: False, ab: False, ba: False, **pre}, name=f"neither {n} base"),
        ]
    rows += [Case('raise TypeError', {base: False, oka: False}, name='first not of base'),
             Case('raise TypeError', {base: False, okb: False}, name='second not of base')]
    t(E + 'widest', 'a b base', rows, impossible=[
        {f'issubclass(type({x}), base)': True, f'isa({x}, base)': False}
        for x in 'ab'])
    t(E + 'classproperty.__init__', 'method', [
        Case('return None', {}, stores={'fget': 'classmethod(method)'}, name='made')])
    kind = either('type(obj)', 'objtype')
    t(E + 'classproperty.__get__', 'obj objtype', [
        Case('return self.fget.__get__(type(obj), type(obj))()', {'objtype is None': True},
             name='of an object'),
        Case(f"return self.fget.__get__({either('objtype', 'None')}, objtype)()",
             {'objtype is None': False}, name='of a class')])
    t(E + 'classproperty.getter', 'method', [
        Case('return self', {}, stores={'fget': 'classmethod(method)'}, name='getter')])


def sentinels(P, rep):
    t = tables(P, rep, 'sentinel')
    t(E + 'sentinel', 'name value', [
        Case('raise SentinelValueError', {'isa(value, _SentinelType)': True}, name='sentinel'),
        Case('return _._create(name, value)', {'isa(value, _SentinelType)': False},
             name='value')])
    created(P, rep)
    N = E + 'NothingType.'
    for m, p, r in (('__getitem__', 'i', 'None'), ('__call__', 'args kwargs', 'None'),
                    ('__len__', '', '0'), ('__contains__', 'key', 'False'),
                    ('__bool__', '', 'False')):
        t(N + m, p, [Case(f"return {r}", {}, name='nothing')])
    t(N + '__next__', '', [Case('raise StopIteration', {}, name='nothing')])
    S = E + '_SentinelType.'
    t(S + '__eq__', 'other', [
        Case('return self is other', {'isa(other, _SentinelType)': True}, name='sentinel'),
        Case(f"return {either('self._value == other', 'other == self._value')}",
             {'isa(other, _SentinelType)': False}, name='value')])
    empty = either('self._value in (None, False)', 'self._value in (False, None)')
    t(S + '__bool__', '', [
        Case('return False', {empty: True}, name='false'),
        Case('return True', {empty: False}, name='true')])
    t(S + '__hash__', '', [Case('return hash(self._value)', {}, name='hash')])
    t(S + '__repr__', '', [Case('return self._name', {}, name='name')])


def driver(P, module, source):
    """A function, in a module, that uses other functions of it."""
    m = P.modules[module]
    node = ast.parse(source).body[0]
    q = f"{module}:{node.name}"
    P.funcs[q] = Func(m, q, node)
    return q


def created(P, rep):
    """One sentinel is made for each name and value."""
    cls = E + '_SentinelType'
    f = P.lookup(cls, '_create') if cls in P.classes else None
    if not f or f[1][0] != 'func':
        rep.ob('sentinel', 'one for each', None, 'not found')
        return
    fn = f[1][1]
    name, value = ('sym', 'name'), ('sym', 'value')
    own = [x.arg for x in fn.node.args.args]
    if len(own) != 3:
        rep.ob('sentinel', 'one for each', None, 'not understood', fn.where)
        return
    it = Interp(P, Config(inline=extracted))
    looked = set()
    made = []
    for o in it.run(fn, selfclass=cls, args={own[1]: name, own[2]: value}):
        if o.kind != 'return':
            continue
        rep.count('paths')
        t = it.snap(o.value, o.st)
        key = found(t)
        if key is None:
            sets = [it.snap(e.data, o.st) for e in o.st.trace if e.kind == 'setitem']
            new = [e.data for e in o.st.trace if e.kind == 'setattr']
            made.append((t, sets, [it.snap(e, o.st) for e in new]))
            for k in o.st.facts:
                looked |= {found(x) for x in subterms(k) if found(x)}
                if k[0] == 'op' and k[1] == 'in' and 'sentinels' in show(k[3]):
                    looked.add(k[2])
            continue
        looked.add(key)
        parts = set(subterms(key))
        rep.ob('sentinel', 'one for each name', name in parts or any(
            v and name in set(subterms(k)) and t in set(subterms(k))
            for k, v in o.st.facts.items()),
            f"finds {show(t)[:80]} whatever the name", fn.where)
        same = value in values(key) or any(
            v and k[0] == 'op' and k[1] in ('eq', 'is') and value in k[2:]
            and any(t in set(subterms(x)) for x in k[2:])
            for k, v in o.st.facts.items())
        rep.ob('sentinel', 'one for each value', same,
               f"finds {show(t)[:80]} whatever its value", fn.where)
    for t, sets, attrs in made:
        keys = [x[1] if isinstance(x, tuple) and len(x) > 1 else None for x in sets]
        ok = None
        if looked and keys:
            ok = all(k in looked for k in keys)
        elif looked and not keys:
            ok = False
        rep.ob('sentinel', 'kept for the next time', ok,
               f"kept as {[show(k)[:40] for k in keys if k]}, "
               f"found as {[show(k)[:40] for k in looked]}", fn.where)
        for n, v in (('_name', name), ('_value', value)):
            to = [x[2] for x in attrs if len(x) == 3 and x[1] == n]
            rep.ob('sentinel', f"has its {n[1:]}", None if not to else to[-1] == v,
                   f"{n} is {show(to[-1])[:60] if to else 'not set'}", fn.where)


def found(t):
    """The key under which an existing sentinel is found."""
    if t[0] == 'sub' and 'sentinels' in show(t[1]):
        return t[2]
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in ('get', 'setdefault') \
            and 'sentinels' in show(t[1][1]) and t[2]:
        return t[2][0]
    return None


def values(key):
    """The members of a key."""
    return set(key[1]) if key[0] in ('tuple', 'list') else {key}


def errors(P, rep):
    t = tables(P, rep, 'errors')
    t(X + 'Wrapper.__init__', 'f', [
        Case('return None', {}, stores={'_f': 'f', '_substitutions': '{}'}, name='made')])
    t(X + 'Wrapper.catch', 'exception value', [
        Case('return self', {}, does=['setitem(self._substitutions, exception, value)'],
             name='registered')], defaults={'value': None})
    near = 'self._substitutions[each(type(_).__mro__)]'
    have = 'each(type(_).__mro__) in self._substitutions'
    own = f"{near} is Ellipsis"
    call = 'self._f(*args, **kwargs)'
    rows = [Case(f"return {call}", {'except': False}, name='result')]
    pre = {'except': True, have: True}
    exact = 'type(_) in self._substitutions'
    rows += [
        Case(f"return {near}", {own: False, **pre}, name='registered', choice=True),
        Case('return args[0]', {own: True, 'kwargs': False, 'len(args) == 1': True, **pre},
             name='one argument'),
        Case('return args', {own: True, 'kwargs': False, 'len(args) == 1': False, **pre},
             name='positional arguments'),
        Case('return kwargs', {own: True, 'kwargs': True, 'args': False, **pre},
             name='keyword arguments'),
        Case('return (args, kwargs)', {own: True, 'kwargs': True, 'args': True, **pre},
             name='all arguments'),
        Case('return None', {have: False, 'except': True}, name='not registered'),
        Case('return self._substitutions[type(_)]', {exact: True, 'except': True},
             choice=True, sure=[exact], name='exactly registered'),
    ]
    t(X + 'Wrapper.compute', 'args kwargs', rows, wrong=['_ == Ellipsis'], zero='None',
      maybe=('not registered', 'exactly registered'), bad=[
        'self._substitutions[type(_)]'])
    handlers(P, rep, X + 'Wrapper.compute', ('self._substitutions',))
    q = driver(P, X[:-1], 'def _use_(expected, replacement, message, f, x):\n'
               '    return convert(expected, replacement, message=message)(f)(x)\n')
    use = P.funcs[q]
    isx = 'isexception(replacement)'
    t(q, 'expected replacement message f x', [
        Case('return f(x)', {'except': False}, name='result'),
        Case('return replacement', {'except': True, isx: False}, name='value'),
        Case('raise replacement(message)', {'except': True, isx: True, 'message': True},
             name='exception with message'),
        Case('raise replacement', {'except': True, isx: True, 'message': False},
             name='exception'),
    ], inline=lambda g: g is use or g.name == 'convert' or extracted(g), name='convert',
      wrong=['isa(replacement, type)'])
    handlers(P, rep, X + 'convert', ('expected',))
    del P.funcs[q]


def handlers(P, rep, qual, names):
    """Only the known exceptions are caught."""
    fn = P.funcs.get(qual)
    if fn is None:
        return
    for h in ast.walk(fn.node):
        if not isinstance(h, ast.ExceptHandler):
            continue
        text = ast.unparse(h.type) if h.type else ''
        rep.ob('errors', f"{qual.partition(':')[2]}: exceptions that are caught",
               True if any(n in text for n in names) else
               False if text in ('', 'Exception', 'BaseException') else None,
               f"except {text}", fn.where)
