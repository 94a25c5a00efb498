"""O12: each observable name denotes its implementation, unit and dimensions."""

import re

from .. import fields, physics as ph
from ..absint import Interp, Config, K, show, isk
from ..model import AnalysisError
from .o11 import RESULT, DIMS, AXISLIKE, DERIVED, C as IMPL, self_attr

LEVEL = 'other'
EXPLANATION = (
    "Abstract interpretation of every public property of the collection of "
    "observable quantities: the callback it registers is itself interpreted on a "
    "symbolic set of user arguments, and the call it makes is bound to the "
    "signature of the implementation, so that every index and the assumptions "
    "arrive under their own name; the declared unit is reduced to a physical "
    "dimension and the declared dimensions to a list, and both are compared with "
    "the ones of the defining formula. The classes that carry arguments, "
    "contexts and quantities are read field by field, from constructor to "
    "property."
)
ASSUMPTIONS = [
    "reference dimensions in sa/physics.py; units named after quantities have the "
    "dimension of the quantity (checked by M04)",
    "the implementations compute what O11 checks",
]
M = 'eprempy.observable._interfaces'
O = 'eprempy.observable._objects'
C = M + ':Quantities'
USER = ('sym', 'user')
d = ph.d
LENGTH, SPEED, FIELD = d(L=1), d(L=1, T=-1), ph.MKS_DIM['magnetic field']
DIM = {
    'time': d(T=1), 'energy': ph.MKS_DIM['energy'], 'v': SPEED, 'mu': d(),
    'mass': d(M=1), 'charge': ph.MKS_DIM['charge'],
    'r': LENGTH, 'theta': d(), 'phi': d(), 'rho': d(L=-3),
    'f': ph.MKS_DIM['particle distribution'],
    'x': LENGTH, 'y': LENGTH, 'z': LENGTH, 'bmag': FIELD, 'umag': SPEED,
    'ubmag': ph.dmul(SPEED, FIELD), 'udotb': ph.dmul(SPEED, FIELD), 'angle': d(),
    'upara': SPEED, 'uperp': SPEED, 'divu': d(T=-1),
    'rigidity': ph.dmul(ph.MKS_DIM['momentum'], ph.MKS_DIM['charge'], -1),
    'mfp': LENGTH, 'ar': d(T=-1), 'energy_density': ph.MKS_DIM['energy density'],
    'average_energy': ph.MKS_DIM['energy'], 'flux': ph.MKS_DIM['flux'],
    'fluence': ph.MKS_DIM['fluence'], 'intflux': ph.MKS_DIM['integral flux'],
    **{k: FIELD for k in ('br', 'btheta', 'bphi')},
    **{k: SPEED for k in ('ur', 'utheta', 'uphi')},
}
DECLARED = {**RESULT, 'intflux': ['time', 'shell', 'species', 'minimum energy']}
INDICES = ('time', 'shell', 'species', 'energy', 'mu')


class Unread(Exception):
    pass


def wired(P, name):
    """[(results of the callback, unit term, dimensions term, facts)]"""
    found = P.lookup(C, name)
    if not found or found[1][0] != 'func':
        return None
    fn = found[1][1]

    def context(it, f, args, kwargs, st, node, fr):
        op = args[0] if args else kwargs.get('operator')
        if op is None:
            return None
        rest = dict(zip(('axes', 'grid'), args[1:]))
        rest.update({k: v for k, v in kwargs.items() if k != 'operator'})
        out = []
        for v, s in it.call(op, [USER], {}, st, node, fr):
            out.append((('wired', it.snap(v, s), rest.get('axes'),
                         rest.get('grid')), s))
        return out
    it = Interp(P, Config(
        inline=lambda g: str(g.cls) == C or g.cls is None and g.module.name == M,
        models={O + ':Context': context}))
    out = []
    for o in it.run(fn, selfclass=C):
        if o.kind != 'return':
            continue
        out.append((it.snap(o.value, o.st), o.st.facts))
    return fn, out


def signature(P, cls, method):
    fn = P.lookup(cls, method)[1][1]
    a = fn.node.args
    names = [x.arg for x in a.args]
    if fn.cls and not P.isstatic(fn):
        names = names[1:]
    return names, [x.arg for x in a.kwonlyargs]


def bind(P, cls, method, args, kwargs):
    names, kw = signature(P, cls, method)
    if len(args) > len(names) or set(kwargs) - set(names) - set(kw):
        return None
    out = dict(zip(names, args))
    out.update(kwargs)
    return out


def dimension(t, name):
    """Physical dimension of a unit term."""
    if t[0] == 'attr' and t[2] == 'unit':
        b = t[1]
        if b[0] == 'attr' and b[1] == self_attr('dataset'):
            if b[2] in DIM:
                return DIM[b[2]]
        if b[0] == 'attr' and b[1] == ('sym', 'self') and b[2] in DIM:
            return DIM[b[2]]
        if b[0] == 'sub' and b[1] == self_attr('system') and isk(b[2], str):
            return quantity(b[2][2])
        if b[0] == 'sub' and b[1] == ('sym', 'self') and isk(b[2], str) and \
                b[2][2] in DIM:
            return DIM[b[2][2]]
        # a quantity built in place
        if b[0] == 'call' and b[1] == ('class', O + ':Quantity'):
            return dimension(b[2][1], name)
    if t[0] == 'op' and t[1] in ('mul', 'truediv') and len(t) == 4:
        return ph.dmul(dimension(t[2], name), dimension(t[3], name),
                       1 if t[1] == 'mul' else -1)
    if t[0] == 'op' and t[1] == 'pow' and isk(t[3]):
        return {k: v * t[3][2] for k, v in dimension(t[2], name).items()}
    if isk(t) and t[2] == 1:
        return d()
    raise Unread(show(t)[:80])


def quantity(text):
    """Dimension of a quantity expression."""
    for k in sorted(ph.MKS_DIM, key=len, reverse=True):
        if ' ' in k:
            text = text.replace(k, k.replace(' ', '_'))
    try:
        parsed = ph.parse(text)
    except ph.UnitSyntax:
        raise Unread(text) from None
    out = d()
    for k, n in parsed.items():
        k = k.replace('_', ' ')
        if k not in ph.MKS_DIM:
            raise Unread(k)
        out = ph.dmul(out, ph.MKS_DIM[k], n)
    return out


def axes(t, facts):
    """The list a term of dimensions stands for."""
    if isk(t, str):
        return [t[2]]
    if t[0] in ('tuple', 'list'):
        return [x for y in t[1] for x in axes(y, facts)]
    if t[0] == 'attr' and t[2] == 'dimensions':
        b = t[1]
        if b[0] == 'attr' and b[1] == self_attr('dataset') and \
                b[2] in (*DIMS, 'flux'):
            return list(DIMS.get(b[2]) or RESULT['flux'])
        if b[0] == 'attr' and b[1] == ('sym', 'self') and b[2] in DECLARED:
            return list(DECLARED[b[2]])
        if b[0] == 'call' and b[1] == ('class', O + ':Quantity'):
            return axes(b[2][2], facts)
    if t[0] == 'op' and t[1] in ('or_', 'sub', 'and_') and len(t) == 4:
        a, b = axes(t[2], facts), axes(t[3], facts)
        if t[1] == 'or_':
            return a + [x for x in b if x not in a]
        if t[1] == 'sub':
            return [x for x in a if x not in b]
        return [x for x in a if x in b]
    if t[0] == 'call' and t[1][0] == 'attr':
        a = axes(t[1][1], facts)
        names = [x[2] if isk(x, str) else None for x in t[2]]
        if None in names or t[3]:
            raise Unread(show(t)[:80])
        if t[1][2] == 'replace' and len(names) == 2:
            return [names[1] if x == names[0] else x for x in a]
        if t[1][2] == 'without':
            return [x for x in a if x not in names]
        if t[1][2] == 'insert' and len(names) == 1:
            return [names[0], *a]
    if t[0] == 'call' and t[1][0] in ('func', 'class') and len(t[2]) == 1 and \
            'dimensions' in t[1][1].lower():
        return axes(t[2][0], facts)
    raise Unread(show(t)[:80])


def declared(P, rep, name):
    got = wired(P, name)
    if got is None:
        rep.ob('callback', name, False, 'there is no such property')
        return
    fn, outs = got
    where = fn.where
    if not outs:
        rep.ob('callback', name, False, 'never returns', where)
    plain = False
    for t, facts in outs:
        rep.count('paths')
        if t[0] != 'call' or t[1] != ('class', O + ':Quantity'):
            rep.ob('callback', name, False if t == K(None) else None,
                   f"returns {show(t)[:80]}", where)
            return
        a = bind(P, O + ':Quantity', '__init__', t[2], dict(t[3]))
        if a is None:
            rep.ob('callback', name, False, 'wrong number of arguments', where)
            return
        hasdist = facts.get(self_attr('dataset', 'hasdist'))
        label = name if hasdist is None or name != 'f' else \
            f"{name} ({'distribution' if hasdist else 'flux'} dataset)"
        if name == 'f' and hasdist is not None:
            gone = self_attr('dataset', 'flux' if hasdist else 'f')
            rep.ob('dimensions', f"{label}: exists", repr(gone) not in repr(
                (a.get('unit'), a.get('dimensions'))),
                f"uses {show(gone)}, which this dataset does not have", where)
        u, x, c = a.get('unit'), a.get('dimensions'), a.get('context')
        try:
            got = dimension(u, name) if u else None
            rep.ob('unit', label, got == DIM[name], '' if got == DIM[name] else
                   f"declares a unit of dimension {ph.showdim(got or {})} instead "
                   f"of {ph.showdim(DIM[name])}", where)
        except Unread as err:
            rep.ob('unit', label, None, f"not understood: {err}", where)
        try:
            got = axes(x, facts) if x else []
            rep.ob('dimensions', label, got == DECLARED[name],
                   '' if got == DECLARED[name] else
                   f"declares {got} instead of {DECLARED[name]}", where)
        except Unread as err:
            rep.ob('dimensions', label, None, f"not understood: {err}", where)
        if c is None or c[0] != 'wired':
            rep.ob('callback', label, None, 'context not understood', where)
            return
        for n, want in (('axes', 'axes'), ('grid', 'grid')):
            y = c[2 if n == 'axes' else 3]
            rep.ob('callback', f"{label}: {n}", y == self_attr(want)
                   if y is None or y[0] == 'attr' else None,
                   '' if y == self_attr(want) else
                   f"observes with {show(y) if y else 'no'} {n}", where)
        plain |= callback(P, rep, name, label, c[1], facts, hasdist, where)
    if not plain:
        rep.ob('callback', name, False, 'never calls the implementation', where)


def callback(P, rep, name, label, t, facts, hasdist, where):
    """Judge what one callback returns; whether it is the implementation."""
    given = [k for k in INDICES if any(
        v and x[:2] == ('op', 'in') and x[2] == K(k) and x[3] == USER
        for x, v in facts.items())]
    if name == 'f' and hasdist is False:
        rep.ob('callback', label, t == K(None), 'documented to return None', where)
        return False
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][1] == self_attr('functions'):
        if t[1][2] != name:
            rep.ob('callback', label, False,
                   f"calls the implementation of {t[1][2]}", where)
            return True
        bound = bind(P, IMPL, name, t[2], dict(t[3]))
        if bound is None:
            rep.ob('callback', label, False,
                   "passes arguments the implementation does not take", where)
            return True
        names, kw = signature(P, IMPL, name)
        bad, unknown = [], []
        for n in names + kw:
            x = bound.get(n)
            if n in INDICES:
                # energy quantities reduced over energy have no energy index
                if x is None or x == K(None):
                    bad.append(f"does not pass {n}")
                elif x not in (('attr', USER, n),
                               ('sub', ('attr', USER, 'indices'), K(n))):
                    bad.append(f"passes {show(x)} as {n}") if x[0] in (
                        'attr', 'k') else unknown.append(n)
            elif n == 'assumptions':
                if x is None or x == K(None):
                    bad.append('does not pass the assumptions')
                elif not (x == ('attr', USER, 'assumptions') or
                          "('attr', ('sym', 'user'), 'assumptions')" in repr(x)):
                    bad.append(f"passes {show(x)} as assumptions")
        rep.ob('callback', label, False if bad else None if unknown else True,
               '; '.join(bad), where)
        if name in INDICES and name in given or name == 'v' and 'energy' in given:
            rep.ob('requested values', name, False,
                   'interpolates the axis instead of returning the values', where)
        elif name in ('time', 'energy', 'mu', 'v'):
            k = 'energy' if name == 'v' else name
            known = any(x[:2] == ('op', 'in') and x[2] == K(k) and x[3] == USER
                        for x in facts)
            rep.ob('requested values', name, known,
                   '' if known else "ignores requested values", where)
        return True
    if name in ('time', 'energy', 'mu') and given == [name]:
        values(P, rep, name, label, t, where)
        return False
    if name == 'v' and given == ['energy']:
        speed(P, rep, t, where)
        return False
    if t == K(None):
        rep.ob('callback', label, False, 'returns None', where)
    else:
        rep.ob('callback', label, None, f"not understood: {show(t)[:100]}", where)
    return t == K(None)


def measured(t, k):
    """Whether `t` is the values the user requested, in the dataset's unit."""
    while t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in (
            'numpy.array', 'numpy.asarray') and len(t[2]) == 1:
        t = t[2][0]
    unit = ('attr', self_attr('dataset', k), 'unit')
    if t[0] == 'call' and t[1] == ('attr', ('sub', USER, K(k)), 'withunit'):
        if t[2] == (unit,):
            return True
        return False if t[2] and t[2][0][0] == 'attr' else None
    if t == ('sub', USER, K(k)):
        return False
    return None


def values(P, rep, name, label, t, where):
    k = name
    unit = ('attr', self_attr('dataset', k), 'unit')
    what = 'requested values'
    if t[0] != 'call' or t[1] != ('func', 'eprempy.physical:array') or not t[2]:
        rep.ob(what, name, None, show(t)[:80], where)
        return
    a = dict(zip(('data', 'unit', 'axes'), t[2]))
    a.update(dict(t[3]))
    ok = measured(a['data'], k)
    if ok is False:
        rep.ob(what, name, False, f"returns {show(a['data'])[:100]}", where)
        return
    if a.get('unit') != unit:
        rep.ob(what, name, False if 'unit' not in a or a['unit'][0] == 'attr'
               else None, 'returns values without their unit', where)
        return
    x = a.get('axes')
    if x is not None and x[0] == 'dict' and len(x[1]) == 1:
        if x[1][0][0] != K(k):
            rep.ob(what, name, False, f"axis {show(x[1][0][0])}", where)
            return
    elif x is None:
        rep.ob(what, name, False, 'no axis', where)
        return
    rep.ob(what, name, ok, '', where)


def speed(P, rep, t, where):
    """sqrt(2 E / m) at requested energies."""
    from .. import formula as F
    E, m = F.atom(('E', '')), F.atom(('m', ''))

    def value(t):
        if isk(t) and isinstance(t[2], (int, float)):
            return F.const(F.Fraction(t[2]))
        if t[0] == 'op' and t[1] in ('mul', 'truediv', 'pow', 'add', 'sub'):
            a, b = value(t[2]), value(t[3])
            return {'mul': F.mul, 'truediv': F.div, 'pow': F.symbolic,
                    'add': F.add, 'sub': lambda x, y: F.add(x, y, -1)}[t[1]](a, b)
        if t[0] == 'call' and t[1] == ('ext', 'numpy.sqrt'):
            return F.power(value(t[2][0]), F.Fraction(1, 2))
        if t[0] == 'call' and t[1] == ('func', 'eprempy.physical:array'):
            kw = dict(t[3])
            if 'unit' in kw:
                if measured(t[2][0], 'energy'):
                    return E
            elif 'axes' not in kw:
                return value(t[2][0])
        if t[0] == 'attr' and t[2] in ('asscalar', 'data'):
            return value(t[1])
        if t == ('sub', self_attr('constants'), K('mp')):
            return m
        if t[0] == 'sub' and t[1] == self_attr('constants'):
            return F.atom(('c', repr(t[2])))
        raise Unread(show(t)[:80])
    try:
        v = value(t)
        want = F.power(F.div(F.mul(F.const(2), E), m), F.Fraction(1, 2))
        ok = F.equal(v, want)
        rep.ob('requested values', 'v', ok, '' if ok else f"computes {F.show(v)}",
               where)
    except (Unread, F.Unknown) as err:
        rep.ob('requested values', 'v', None, str(err), where)


# -- symbolic names ----------------------------------------------------------

def expressions(P, rep):
    """q['a * b / c**2'] is the product of the named quantities' powers."""
    found = P.lookup(C, '__getitem__')
    if not found:
        rep.ob('names', '__getitem__', False, 'quantities cannot be looked up')
        return
    fn = found[1][1]
    get = self_attr('_get_observable')
    key = ('sym', parameter(fn))
    for n in (1, 2, 3):
        terms = tuple(('sym', f"term{i}") for i in range(n))

        parsed = []

        def expr(it, f, args, kwargs, st, node, fr, terms=terms, parsed=parsed):
            parsed.append((args, kwargs))
            return [(('tuple', terms), st)]
        it = Interp(P, Config(
            inline=lambda g: str(g.cls) == C and g.name != '_get_observable'
            and not P.isproperty(g),
            models={'eprempy.symbolic._expression:expression_factory': expr,
                    'eprempy.symbolic._expression:Expression': expr}))
        label = f"an expression of {n} term{'s'[:n > 1]}"
        want = {i: 1 for i in range(n)}
        for o in it.run(fn, selfclass=C):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            cached = any(v and k[:2] == ('op', 'in') and k[2] == key and
                         k[3] == self_attr('_cache')
                         for k, v in o.st.facts.items())
            if t == K(None):
                rep.ob('names', label, False, 'returns None', fn.where)
            if 'term0' not in repr(t):
                if not cached:
                    rep.ob('names', label, None, f"is {show(t)[:100]}", fn.where)
                elif t[0] == 'sub' and t[1] == self_attr('_cache'):
                    rep.ob('names', label, t[2] == key,
                           'uses an observable cached under another name', fn.where)
                continue
            unit_exp = {i for i in range(n) for k, v in o.st.facts.items()
                        if k[:2] == ('op', 'eq') and v and k[2:] in (
                            (('attr', terms[i], 'exponent'), K(1)),
                            (K(1), ('attr', terms[i], 'exponent')))}
            try:
                rep.ob('names', label, powers(t, terms, get, unit_exp) == want,
                       f"is {show(t)[:200]}", fn.where)
            except Unread as err:
                rep.ob('names', label, None, str(err), fn.where)
        for args, kwargs in parsed:
            x = args[0] if args else None
            rep.ob('names', 'a name is read as its canonical name',
                   True if x == canonical(key) else
                   False if x is None or isk(x) else None,
                   f"reads {show(x) if x else 'nothing'}", fn.where)
            r = kwargs.get('raising')
            rep.ob('names', 'powers are written as in Python',
                   None if r is None or not isk(r) else r == K('**'),
                   f"raising={show(r) if r else ''}", fn.where)
    found = P.lookup(C, '_get_observable')
    if found:
        single(P, rep, found[1][1])


def powers(t, terms, get, ones):
    """{term: multiple of its exponent}."""
    if t[0] == 'call' and t[1] == get and len(t[2]) == 1:
        for i, x in enumerate(terms):
            if t[2][0] == ('attr', x, 'base'):
                return {i: 1} if i in ones else {('base', i): 1}
    if t[0] == 'op' and t[1] == 'pow':
        a = powers(t[2], terms, get, ones)
        if len(a) == 1:
            (k, n), = a.items()
            i = k[1] if isinstance(k, tuple) else k
            if t[3] == ('attr', terms[i], 'exponent'):
                return {i: n}
            if t[3][0] == 'attr' and t[3][2] == 'exponent':
                return {('wrong exponent', i): 1}
    if t[0] == 'op' and any(x[0] == 'attr' and x[2] == 'exponent' and
                            x[1] in terms for x in t[2:]):
        return {'not a power': 1}
    if t[0] == 'op' and t[1] in ('mul', 'truediv'):
        a = powers(t[2], terms, get, ones)
        b = powers(t[3], terms, get, ones)
        out = dict(a)
        for k, n in b.items():
            out[k] = out.get(k, 0) + (n if t[1] == 'mul' else -n)
        return out
    raise Unread(show(t)[:100])


def parameter(fn):
    a = fn.node.args
    names = [x.arg for x in (*a.posonlyargs, *a.args)]
    return names[1] if len(names) > 1 else ''


def canonical(key):
    namemap = ('attr', ('glob', 'eprempy.reference:OBSERVABLES'), 'names')
    return ('call', ('attr', namemap, 'get'), (key, key), ())


def single(P, rep, fn):
    it = Interp(P, Config(inline=lambda g: str(g.cls) == C and
                          not P.isproperty(g)))
    key = ('sym', parameter(fn))
    canon = canonical(key)
    found = False
    for o in it.run(fn, selfclass=C):
        t = it.snap(o.value, o.st) if o.value else None
        found |= o.kind == 'return'
        known = None
        for k, v in o.st.facts.items():
            if k[:2] == ('op', 'in') and k[2] in (canon, key) and \
                    k[3] == self_attr('defined'):
                known = v
        if o.kind == 'return':
            if t[0] == 'call' and t[1] == ('ext', 'builtins.getattr'):
                rep.ob('names', 'a single name', t[2][:2] == (
                    ('sym', 'self'), canon) and known is True,
                    f"is {show(t)[:120]}", fn.where)
            else:
                rep.ob('names', 'a single name', False if t == K(None) else None,
                       show(t)[:100], fn.where)
    if not found:
        rep.ob('names', 'a single name', False, 'is never found', fn.where)


# -- plain fields --------------------------------------------------------------

def plain(P, rep):
    want = {
        C: {
            'dataset': lambda t: maker(t, 'arrays', ('source', 'system')),
            'axes': lambda t: maker(t, 'axes', ('source', 'system')),
            'grid': lambda t: maker(t, 'grid', ('source', 'system')),
            'functions': functions,
            'coordinates': coordinates,
            'constants': lambda t: constants(t),
            'parameters': lambda t: maker(t, 'interface', ('config',)),
            **{k: k for k in ('source', 'config', 'system')},
        },
        IMPL: {k: k for k in ('dataset', 'axes', 'grid', 'constants',
                              'parameters', 'system')},
        O + ':Context': {k: k for k in ('operator', 'axes', 'grid')},
        O + ':Quantity': {'context': 'context', 'unit': 'unit',
                          'dimensions': 'dimensions',
                          'ndim': lambda t: t == (
                              'call', ('ext', 'builtins.len'),
                              (self_attr('dimensions'),), ())
                          or None if t[0] == 'call' and t[1] != (
                              'ext', 'builtins.len') else t == (
                              'call', ('ext', 'builtins.len'),
                              (self_attr('dimensions'),), ())},
        O + ':Arguments': {
            **{k: (lambda t, k=k: index(t, k)) for k in INDICES},
            'indices': indexmap,
        },
    }
    for cls, props in want.items():
        if cls not in P.classes:
            rep.ob('fields', cls, None, 'no such class')
            continue
        init = fields.initial(P, cls)
        if init is None:
            rep.ob('fields', cls, False, 'has no constructor')
            continue
        where = P.lookup(cls, '__init__')[1][1].where
        for prop, judge in props.items():
            label = f"{cls.rpartition(':')[2]}.{prop}"
            got = fields.values(P, cls, prop, init)
            if got is None:
                rep.ob('fields', label, False, 'is not defined', where)
                continue
            if not got:
                rep.ob('fields', label, False, 'never returns', where)
            for t, facts in got:
                if t is None:
                    continue
                if t == K(None):
                    ok = False
                elif callable(judge):
                    ok = judge(t)
                elif t[0] == 'sym':
                    ok = t[1] == judge
                elif t[0] == 'attr' and t[1] == ('sym', 'self'):
                    # an attribute the constructor does not set
                    ok = False if t[2] not in init and not P.lookup(
                        cls, t[2]) else None
                else:
                    ok = None
                rep.ob('fields', label, ok, f"is {show(t)[:160]}", where)


def maker(t, kind, args):
    """A call of the factory of that kind with these own properties."""
    if t[0] != 'call' or t[1][0] not in ('func', 'class'):
        return None
    name = t[1][1].rpartition(':')[2].lower()
    kinds = ('arrays', 'axes', 'grid', 'interface')
    named = [k for k in kinds if name.startswith(k)]
    if named != [kind]:
        return False if named else None
    given = list(t[2]) + [v for k, v in t[3]]
    ok = given == [self_attr(a) for a in args] or given == [
        ('sym', a) for a in args]
    if ok:
        return True
    return False if all(x[0] in ('attr', 'sym') for x in given) else None


def functions(t):
    if t[0] != 'call' or t[1] != ('class', IMPL):
        return None
    names = ('dataset', 'axes', 'coordinates', 'constants', 'parameters', 'system')
    keys = ('dataset', 'axes', 'grid', 'constants', 'parameters', 'system')
    a = dict(zip(keys, t[2]))
    a.update(dict(t[3]))
    return all(a.get(k) == self_attr(n) or k == 'system' and
               a.get(k) == ('sym', 'system') for k, n in zip(keys, names))


def coordinates(t):
    while t[0] == 'call' and t[2]:
        t = t[2][0]
    if t[0] != 'dict':
        return None
    want = {'time': 'time', 'energy': 'energy', 'mu': 'mu', 'radius': 'r'}
    got = {}
    for k, v in t[1]:
        if not isk(k, str):
            return None
        got[k[2]] = v
    if 'r' in got and 'radius' not in got:
        got['radius'] = got.pop('r')
    return all(got.get(k) == self_attr('dataset', n) for k, n in want.items())


def constants(t):
    if t[0] == 'call' and t[1][0] == 'class' and t[1][1].endswith(':Constants'):
        x = t[2][0] if t[2] else dict(t[3]).get('system')
        while x and x[0] == 'call' and x[1] == ('ext', 'builtins.str'):
            x = x[2][0]
        return x in (self_attr('system'), ('sym', 'system'))
    return None


def index(t, k):
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'get' and \
            t[1][1] == ('sym', 'indices'):
        return t[2][0] == K(k)
    if t[0] == 'sub' and t[1] == ('sym', 'indices'):
        return t[2] == K(k)
    return None


def indexmap(t):
    if t[0] != 'dict':
        return None
    got = {k[2]: v for k, v in t[1] if isk(k, str)}
    if len(got) != len(t[1]):
        return None
    return set(got) == set(INDICES) and all(
        v == self_attr(k) or index(v, k) is True for k, v in got.items())


def run(program, rep):
    P = program
    rep.rule('callback', "observing a quantity calls its own implementation with "
             "the indices and assumptions given", 25)
    rep.rule('unit', "the declared unit has the dimension of the defining formula",
             25)
    rep.rule('dimensions', "the declared dimensions are those of the result", 25)
    rep.rule('requested values', "axis quantities requested at given values are "
             "those values", 0)
    rep.rule('names', "a product of powers of names denotes the product of powers of "
             "the quantities", 0)
    rep.rule('fields', "objects keep what they are created with", 10)
    if C not in P.classes:
        raise AnalysisError('Quantities not found')
    for name in RESULT:
        declared(P, rep, name)
    expressions(P, rep)
    plain(P, rep)
