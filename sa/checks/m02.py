"""M02: conversion factors and unit algebra agree with the sizes of units."""

from ..absint import Interp, Config, State, K, show, subterms, isk
from ..model import AnalysisError
from ..sizes import Sizes, V, mul, power
from ..util import callname, inmodules, mapterm

LEVEL = 'other'
EXPLANATION = (
    "Abstract interpretation of the conversion machinery and the unit algebra. "
    "Every path of every function that contributes to a conversion factor is read "
    "as a product of unit sizes (each function assuming that the ones it calls do "
    "what their own obligations say), and compared with the ratio of sizes it has "
    "to compute; results kept for reuse are compared with the key they are kept "
    "under."
)
ASSUMPTIONS = [
    "the tables of prefixes, units and conversions are right (properties M01, M04)",
    "symbolic expressions multiply, divide and reduce correctly",
    "floating-point rounding is ignored",
]
CV = 'eprempy.metric._conversions'
DF = 'eprempy.metric._defined'
UN = 'eprempy.metric._units'
SYS = 'eprempy.metric._systems'
S = ('sym', 'self')


def sym(x):
    return ('sym', x)


# functions of two units whose result is size(first) / size(second) [* scale]
RATIOS = {
    f'{CV}:{n}' for n in (
        '_convert_as_strings', '_recursive_conversion', '_standard_conversion',
        '_simple_conversion', '_rescale_conversion', '_rescale', '_search',
        '_convert_as_expressions', 'conversion_factory', '_convert')
} | {f'{DF}:ratio'}


def params(f):
    a = f.node.args
    return [x.arg for x in (*a.posonlyargs, *a.args, *a.kwonlyargs)]


def bound(program, t):
    """{parameter: argument} of a call to a function of the package."""
    if t[0] != 'call' or t[1][0] != 'func' or t[1][1] not in program.funcs:
        return None
    f = program.funcs[t[1][1]]
    names = params(f)
    out = {}
    for n, x in zip(names, t[2]):
        if x[0] in ('star', 'many'):
            return None
        out[n] = x
    for k, x in t[3]:
        out[k] = x
    for n, d in zip(reversed(f.node.args.args), reversed(f.node.args.defaults)):
        if n.arg not in out:
            import ast
            if isinstance(d, ast.Constant):
                out[n.arg] = K(d.value)
    return out


def ends(f):
    """The two parameters of f that name units."""
    names = params(f)
    for pair in (('u0', 'u1'), ('this', 'that'), ('source', 'target'),
                 ('old', 'new'), ('start', 'end')):
        if set(pair) <= set(names):
            return pair
    rest = [n for n in names if n not in ('checked', 'scale')]
    return tuple(rest[:2])


def contract(program):
    def size(z, t):
        if t[0] == 'call' and t[1][0] == 'func' and t[1][1] in RATIOS:
            b = bound(program, t)
            if b is None:
                return None
            x, y = ends(program.funcs[t[1][1]])
            if x not in b or y not in b:
                return None
            a, c = z.unit(b[x]), z.unit(b[y])
            if a is None or c is None:
                return None
            m = mul(z.size(a), z.size(c), -1)
            if 'scale' in b:
                s = z.mono(b['scale'])
                return None if s is None else mul(m, s)
            return m
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'get_weight' and \
                len(t[2]) == 2 and not t[3]:
            a, c = z.unit(t[2][0]), z.unit(t[2][1])
            if a is None or c is None:
                return None
            return mul(z.size(a), z.size(c), -1)
        if t[0] == 'sub' and t[1][0] == 'call' and \
                callname(t[1]) == 'get_adjacencies' and t[2] == ('iter', t[1]):
            return mul(z.size(z.unit(t[1][2][0])), z.size(t[2]), -1)
        return None
    return size


def run(program, rep):
    rep.rule('factor', "on every path, a conversion factor is the size of the source "
             "unit over the size of the target unit", 14)
    rep.rule('compound', "compound units are converted term by term: each term is "
             "matched with one of opposite exponent, its factor raised to its "
             "exponent, and no term is left", 6)
    rep.rule('reduce', "a unit reduced to base units equals the scale times those "
             "units", 4)
    rep.rule('graph', "a tabulated conversion is returned for its own pair of units "
             "and its reverse has the inverse weight", 3)
    rep.rule('object', "a conversion reports the units and the factor it was made "
             "with; its inverse swaps the units and inverts the factor", 5)
    rep.rule('kept', "a result kept for reuse is stored and found under the "
             "arguments it was computed from", 4)
    rep.rule('system', "converting to a metric system converts to the system's unit "
             "of the quantity, and refuses when that is ambiguous", 5)
    rep.rule('algebra', "products, quotients and powers of units are those of their "
             "operands", 8)
    ratios(program, rep)
    shifts(program, rep)
    compound(program, rep)
    reductions(program, rep)
    graph(program, rep)
    objects(program, rep)
    kept(program, rep)
    systems(program, rep)
    algebra(program, rep)


def interp(program, keep, trace=False, mods=(CV, DF, UN), **kw):
    inl = inmodules(*mods)
    return Interp(program, Config(
        inline=lambda f: inl(f) and f.qual not in keep and
        f.name not in NOINLINE, trace=trace, **kw))


NOINLINE = {'__init__', '__new__', 'unit_factory', '_decompose_unit',
            '_decompose_term', '_apply_operator', '_as_symbol', '_match_exponents',
            '_resolve_terms', '_reduce_unit', '_convert_by_dimensions',
            '_cancel_terms', 'reduce', '_reduce', 'get_quantity', 'converter_factory',
            '_get_substitutions', '_is_ambiguous', '_reduce_terms', 'normalize'}


def outcomes(program, it, f, **kw):
    try:
        outs = it.run(f, **kw)
    except RecursionError:
        raise AnalysisError(f"{f.qual}: recursion")
    return outs


def func(program, qual):
    return program.funcs.get(qual)


def method(program, cls, name):
    found = program.lookup(cls, name)
    return found[1][1] if found and found[1][0] == 'func' else None


def judge(z, t, want):
    """True, False or None: t computes the monomial want."""
    m = z.mono(t)
    if m is None or want is None:
        return None
    return m == want


def ratios(program, rep):
    size = contract(program)
    for qual in sorted(RATIOS):
        f = func(program, qual)
        if f is None:
            continue
        names = params(f)
        x, y = ends(f)
        it = interp(program, RATIOS)
        args = {n: sym(n) for n in names}
        got = 0
        for o in outcomes(program, it, f, args=args):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            if t == K(None):
                continue
            got += 1
            z = Sizes(size, o.st.facts)
            want = mul(z.size(sym(x)), z.size(sym(y)), -1)
            if 'scale' in names:
                want = mul(want, {('T', sym('scale')): {1: 1}})
            if callname(t) == '_resolve_terms' or \
                    callname(t) == '_convert_by_dimensions':
                ok = quotient(program, t, sym(x), sym(y))
            elif t[0] in ('call', 'new') and (
                    callname(t) == 'Conversion' or t[0] == 'new'):
                a = t[2]
                ok = None
                if len(a) == 3 and not t[3]:
                    ok = a[0] == sym(x) and a[1] == sym(y) and \
                        judge(z, a[2], want)
            elif t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'get' and \
                    t[2] and t[2][0] == ('tuple', (sym(x), sym(y))):
                ok = True               # rule kept
            else:
                ok = judge(z, t, want)
            if ok is False and wrongbase(z, qual, want):
                ok = None
            rep.ob('factor', f"{f.name}", ok, f"a path returns {show(t)}", f.where)
        if not got:
            rep.ob('factor', f.name, False, "never finds a factor", f.where)
        if qual.endswith(':ratio'):
            refused(rep, it, f, x, y)


def wrongbase(z, qual, want):
    return False


def refused(rep, it, f, x, y):
    """Units of different bases are not compared by their prefixes."""
    kinds = [o.kind for o in it.run(f, args={x: sym(x), y: sym(y)})]
    rep.ob('factor', f"{f.name} of different bases", 'raise' in kinds,
           "units with different bases are not refused", f.where)


def quotient(program, t, x, y):
    """t converts the terms of x / y."""
    if t[0] != 'call' or not t[2]:
        return None
    terms = t[2][0]
    ops = [s for s in subterms(terms) if s[0] == 'op' and s[1] == 'truediv']
    if len(set(ops)) != 1:
        return None
    op = ops[0]
    z = Sizes(contract(program))
    a, b = z.unit(op[2]), z.unit(op[3])
    if (a, b) == (x, y):
        pass
    elif (a, b) == (y, x):
        return False
    else:
        return None
    # only dimensionless terms may be left out
    return True


def shifts(program, rep):
    """NamedUnit and Unit shift operators."""
    size = contract(program)
    for mod, cls in ((DF, 'NamedUnit'), (UN, 'Unit')):
        q = f"{mod}:{cls}"
        if q not in program.classes:
            continue
        for name, flip in (('__rshift__', False), ('__lshift__', True),
                           ('__rrshift__', True), ('__rlshift__', False)):
            f = method(program, q, name)
            if f is None:
                continue
            other = params(f)[1]
            it = interp(program, RATIOS)
            got = 0
            for o in outcomes(program, it, f, args={other: sym(other)},
                              selfclass=q):
                if o.kind != 'return':
                    continue
                t = it.snap(o.value, o.st)
                if t == ('ext', 'builtins.NotImplemented'):
                    continue
                got += 1
                z = Sizes(size, o.st.facts)
                a, b = z.size(S), z.size(sym(other))
                want = mul(b, a, -1) if flip else mul(a, b, -1)
                rep.ob('factor', f"{cls}.{name}", judge(z, t, want),
                       f"is {show(t)}", f.where)
            if not got:
                rep.ob('factor', f"{cls}.{name}", False, "is never defined", f.where)


# ----------------------------------------------------------------------

def compound(program, rep):
    size = contract(program)
    f = func(program, f'{CV}:_match_exponents')
    if f:
        target, terms = params(f)[:2]
        T = sym(target)
        it = interp(program, RATIOS)
        for o in outcomes(program, it, f, args={target: T, terms: sym(terms)}):
            t = it.snap(o.value, o.st) if o.kind == 'return' else None
            if t is None or t == K(None):
                continue
            what = f"{f.name}"
            if t[0] != 'tuple' or len(t[1]) != 2:
                rep.ob('compound', what, None, f"returns {show(t)}", f.where)
                continue
            value, term = t[1]
            z = Sizes(size, o.st.facts)
            e = {('attr', T, 'exponent'): 1}
            if term == T:
                # a dimensionless unit without partner
                units = [x for x in subterms(value) if x[0] == 'call' and
                         x[1][0] == 'func' and x[1][1] in RATIOS]
                ok = None
                if units:
                    b = bound(program, units[0])
                    x, y = ends(program.funcs[units[0][1][1]])
                    want = power(mul(z.size(z.unit(b[x])), z.size(z.unit(b[y])), -1),
                                 e)
                    ok = z.unit(b[x]) == ('attr', T, 'base') and \
                        judge(z, value, want)
                elif not units:
                    m = z.mono(value)
                    ok = True if m == {} else None
                dim = any(v and "all(" in show(a) or v and a[0] == 'op' and
                          a[1] == 'eq' and K('1') in a[2:]
                          for a, v in o.st.facts.items())
                rep.ob('compound', f"{what} alone", ok and (dim or None),
                       f"a term without partner is worth {show(value)}", f.where)
                continue
            # before any test of the exponents, nothing relates the two terms
            want = power(mul(z.size(('attr', T, 'base')),
                             z.size(('attr', term, 'base')), -1), e)
            ok = judge(z, value, want)
            rep.ob('compound', what, ok, f"the factor is {show(value)}", f.where)
            opp = {**{('attr', T, 'exponent'): -1}}
            rel = z.eqexp.get(('attr', term, 'exponent')) or {
                s: -n for s, n in (z.eqexp.get(('attr', T, 'exponent'))
                                   or {}).items()}
            ok = None
            if rel:
                ok = rel == opp or z.eqexp.get(('attr', T, 'exponent')) == {
                    ('attr', term, 'exponent'): -1}
            elif not any('exponent' in show(a) for a in o.st.facts):
                ok = False
            rep.ob('compound', f"{what} exponents", ok,
                   "the matched term need not have the opposite exponent", f.where)
    f = func(program, f'{CV}:_resolve_terms')
    if f:
        terms = params(f)[0]
        it = interp(program, RATIOS)
        for o in outcomes(program, it, f, args={terms: sym(terms)}):
            t = it.snap(o.value, o.st) if o.kind == 'return' else None
            if t is None or t == K(None):
                continue
            ms = {x for x in subterms(t) if callname(x) == '_match_exponents'}
            z = Sizes(lambda z, x: {('T', x): {1: 1}} if x[0] == 'sub' and
                      x[1] in ms else None, o.st.facts)
            want = {}
            for m in ms:
                want = mul(want, {('T', ('sub', m, K(0))): {1: 1}})
            ok = judge(z, t, want)
            rep.ob('compound', f.name, ok, f"the factor is {show(t)}", f.where)
            empty = any(not v and (a[0] == 'call' and callname(a) in (
                'copy', 'list') or a[0] == 'list') for a, v in o.st.facts.items()) \
                or any(v and a[0] == 'op' and a[1] in ('eq', 'le') and K(0) in a[2:]
                       for a, v in o.st.facts.items())
            rep.ob('compound', f"{f.name} leaves no term", empty or
                   (False if not any(s[0] == 'call' and callname(s) == 'copy'
                                     for a in o.st.facts for s in subterms(a)
                                     if a[0] != 'exc') else None),
                   "returns a factor while terms are unmatched", f.where)
    f = func(program, f'{CV}:_convert_by_dimensions')
    if f:
        terms = params(f)[0]
        it = interp(program, RATIOS)
        for o in outcomes(program, it, f, args={terms: sym(terms)}):
            t = it.snap(o.value, o.st) if o.kind == 'return' else None
            if t is None or t == K(None):
                continue
            ds = {x for x in subterms(t) if callname(x) == '_decompose_unit'}
            ds |= {x for a in o.st.facts for x in subterms(a)
                   if callname(x) == '_decompose_unit' and o.st.facts.get(x)}
            rs = {x for x in subterms(t) if callname(x) == '_resolve_terms'}

            def atoms(z, x):
                if x in rs or x[0] == 'sub' and x[1] in ds:
                    return {('T', x): {1: 1}}
                return None
            z = Sizes(atoms, o.st.facts)
            want = {}
            for d in ds:
                want = mul(want, {('T', ('sub', d, K(0))): {1: 1}})
            for r in rs:
                want = mul(want, {('T', r): {1: 1}})
            one = any(v and a[0] == 'op' and a[1] == 'eq' and K('1') in a[2:]
                      for a, v in o.st.facts.items())
            ok = judge(z, t, want) if rs or one else False
            rep.ob('compound', f.name, ok, f"the factor is {show(t)}", f.where)
    f = func(program, f'{CV}:_convert_as_expressions')
    if f:
        # terms left out of the quotient
        it = interp(program, RATIOS)
        x, y = ends(f)
        for o in outcomes(program, it, f, args={x: sym(x), y: sym(y)}):
            for a, v in o.st.facts.items():
                if a[0] == 'op' and a[1] in ('in', 'notin') and \
                        a[2][0] == 'attr' and a[2][2] == 'base' and a[3][0] == 'set':
                    ok = set(a[3][1]) <= {K('1'), K('#')}
                    rep.ob('compound', f"{f.name} drops unity only", ok,
                           f"drops terms in {show(a[3])}", f.where)


def reductions(program, rep):
    size = contract(program)
    f = func(program, f'{CV}:_reduce_unit')
    if f:
        b, e = params(f)[:2]
        it = interp(program, RATIOS)
        got = 0
        for o in outcomes(program, it, f, args={b: sym(b), e: sym(e)}):
            t = it.snap(o.value, o.st) if o.kind == 'return' else None
            if t is None or t == K(None):
                continue
            got += 1
            rs = [x for x in subterms(t) if callname(x) == 'reduce']
            ok, why = None, f"returns {show(t)}"
            if t[0] == 'list':
                ok, why = False, "the scale of the reduction is lost"
                if any('scale' in show(x) for x in subterms(t)):
                    ok = False
                    why = "the scale is applied to every term"
            if t[0] == 'tuple' and len(t[1]) == 2 and rs:
                R = rs[0]
                scale, terms = t[1]
                z = Sizes(lambda z, x: {('T', x): {1: 1}} if x[0] == 'attr' and
                          x[2] == 'scale' else None)
                w = power({('T', ('attr', R, 'scale')): {1: 1}}, {sym(e): 1})
                ok = judge(z, scale, w)
                if ok:
                    ok = raised(terms, ('attr', R, 'units'), sym(e))
                z2 = Sizes(size)
                base = R[1][1] if R[1][0] == 'attr' else R
                if z2.unit(base) != sym(b):
                    ok = None if z2.unit(base) is None else False
            rep.ob('reduce', f.name, ok, why, f.where)
    f = func(program, f'{CV}:_decompose_unit')
    if f:
        term = params(f)[0]
        T = sym(term)
        it = interp(program, RATIOS)
        for o in outcomes(program, it, f, args={term: T}):
            t = it.snap(o.value, o.st) if o.kind == 'return' else None
            if t is None or t == K(None):
                continue
            ex = ('attr', T, 'exponent')
            base = ('attr', T, 'base')
            if callname(t) == '_reduce_unit':
                a = bound(program, t)
                r, e = params(program.funcs[t[1][1]])[:2]
                ok = None if a is None else (a.get(r), a.get(e)) == (base, ex)
                rep.ob('reduce', f.name, ok, f"returns {show(t)}", f.where)
                continue
            ok = None
            if t[0] == 'tuple' and len(t[1]) == 2 and t[1][1][0] == 'sub' and \
                    callname(t[1][1][1]) == '_reduce_unit':
                R = t[1][1][1]
                a = bound(program, R)
                r, e = params(program.funcs[R[1][1]])[:2]
                R0 = ('sub', R, K(0))

                def atoms(z, x, R0=R0):
                    if x == R0:
                        return {('T', x): {1: 1}}
                    return size(z, x)
                z = Sizes(atoms, o.st.facts)
                u = z.unit(a[r])
                if u is not None and z.exponent(a[e]) is not None:
                    want = mul(mul(power(z.size(base), {ex: 1}),
                                   power(z.size(u), z.exponent(a[e])), -1),
                               {('T', R0): {1: 1}})
                    ok = judge(z, t[1][0], want)
            rep.ob('reduce', f.name, ok, f"returns {show(t)}", f.where)
    cls = f'{DF}:NamedUnit'
    f = method(program, cls, '_reduce')
    if f:
        system = params(f)[1]
        it = interp(program, RATIOS)
        for o in outcomes(program, it, f, args={system: sym(system)},
                          selfclass=cls):
            t = it.snap(o.value, o.st) if o.kind == 'return' else None
            if t is None or t == K(None):
                continue
            rep.ob('reduce', 'NamedUnit._reduce',
                   reduction(size, t, o.st.facts, system),
                   f"returns {show(t)}", f.where)
    f = method(program, f'{DF}:NamedUnit', '_decompose')
    if f:
        system = params(f)[1]
        it = interp(program, RATIOS)
        for o in outcomes(program, it, f, args={system: sym(system)},
                          selfclass=cls):
            t = it.snap(o.value, o.st) if o.kind == 'return' else None
            if t is None or t == K(None):
                continue
            ok = None
            if t[0] == 'list' and len(t[1]) == 1:
                x = t[1][0]
                if x[0] == 'many':
                    ok = baseterm(x[1], system)
                elif callname(x) in ('term_factory', 'term') and len(x[2]) == 1 \
                        and not x[3]:
                    ok = x[2][0] == ('attr', S, 'symbol') or \
                        x[2][0] == ('attr', S, 'name') or None
            rep.ob('reduce', 'NamedUnit._decompose', ok, f"returns {show(t)}",
                   f.where)


def raised(terms, units, e):
    """True when terms are `units` with their exponents multiplied by e."""
    if terms[0] != 'list' or len(terms[1]) != 1 or terms[1][0][0] != 'many':
        return None
    x, conds = terms[1][0][1], terms[1][0][2] if len(terms[1][0]) > 2 else ()
    this = ('iter', units)
    if x[0] == 'op' and x[1] == 'pow':
        return x[2:] == (this, e)
    if callname(x) not in ('term_factory', 'term'):
        return None
    kw = dict(x[3])
    for n, v in zip(('coefficient', 'base', 'exponent'), x[2]):
        kw.setdefault(n, v)
    if len(x[2]) == 1 and 'base' not in kw:
        kw['base'] = x[2][0]
    if kw.get('coefficient', K(1)) not in (K(1), K(1.0)):
        return False
    ex = kw.get('exponent')
    good = {('op', 'mul', e, ('attr', this, 'exponent')),
            ('op', 'mul', ('attr', this, 'exponent'), e)}
    if kw.get('base') != ('attr', this, 'base'):
        return None
    return ex in good or (False if ex is None or this in set(subterms(ex))
                          or ex == e else None)


def baseterm(x, system):
    """A term of the base unit of a dimension's term, with its exponent."""
    kw = dict(x[3]) if x[0] == 'call' else {}
    if callname(x) not in ('term_factory', 'term'):
        return None
    if x[2] and 'base' not in kw:
        kw['base'] = x[2][0]
    b, e = kw.get('base'), kw.get('exponent')
    if b is None or e is None:
        return False if b is not None else None
    its = [y for y in subterms(b) if y[0] == 'iter']
    if e[0] == 'op' or e[0] != 'attr' or e[2] != 'exponent':
        return False if e[0] == 'op' else None
    if e[1] not in its:
        return None
    return sym(system) in set(subterms(b)) or None


def reduction(size, t, facts, system):
    if callname(t) != 'Reduction' and not (t[0] == 'new' and
                                           t[1].endswith(':Reduction')):
        return None
    args, kw = t[2], dict(t[3])
    terms = args[0] if args else kw.get('terms')
    scale = args[1] if len(args) > 1 else kw.get('scale', K(1.0))
    sy = args[2] if len(args) > 2 else kw.get('system')
    if sy != sym(system):
        return False if sy is None or sy == K(None) else None
    if terms is None or terms[0] != 'list' or len(terms[1]) != 1:
        return None
    x = terms[1][0]
    z = Sizes(size, facts)
    if x[0] == 'many':
        ok = baseterm(x[1], system)
        return ok and (scale == ('attr', S, 'scale') or
                       (False if isk(scale) else None))
    if callname(x) in ('term_factory', 'term') and len(x[2]) == 1 and not x[3]:
        u = z.unit(x[2][0])
        if u is None:
            return None
        return judge(z, scale, mul(z.size(S), z.size(u), -1))
    return None


# ----------------------------------------------------------------------

def graph(program, rep):
    cls = 'eprempy.container:Graph'
    if cls not in program.classes:
        return
    conn = ('attr', S, 'connections')
    f = method(program, cls, 'get_weight')
    if f:
        a, b = params(f)[1:3]
        it = Interp(program, Config(inline=inmodules('eprempy.container'),
                                    trace=False))
        for o in it.run(f, args={a: sym(a), b: sym(b)}, selfclass=cls):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            ok = None
            if t[0] == 'sub' and t[1] == conn:
                ok = t[2] == ('tuple', (sym(a), sym(b)))
            rep.ob('graph', 'Graph.get_weight', ok, f"is {show(t)}", f.where)
    f = method(program, cls, 'get_adjacencies')
    if f:
        n = params(f)[1]
        it = Interp(program, Config(inline=inmodules('eprempy.container'),
                                    trace=False))
        for o in it.run(f, args={n: sym(n)}, selfclass=cls):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            if t == ('dict', ()):
                continue
            ok = None
            it_ = ('iter', conn)
            start, end = ('sub', it_, K(0)), ('sub', it_, K(1))
            if t[0] == 'dict' and len(t[1]) == 1:
                k, v = t[1][0]
                conds = k[2] if k[0] == 'many' and len(k) > 2 else ()
                k = k[1] if k[0] == 'many' else k
                v = v[1] if v[0] == 'many' else v
                ok = None
                if k in (start, end) and v == ('sub', conn, it_):
                    want = ('op', 'eq', *sorted((start, sym(n)), key=repr))
                    eq = [c for c in (*[c[0] if isinstance(c[0], tuple) and
                                        len(c) == 2 else c for c in conds],
                                      *o.st.facts)
                          if c[0] == 'op' and c[1] == 'eq' and sym(n) in c[2:]]
                    if k == end and any(start in c[2:] for c in eq):
                        ok = True
                    elif any(end in c[2:] for c in eq) or k == start or not eq:
                        ok = False
            rep.ob('graph', 'Graph.get_adjacencies', ok, f"is {show(t)}", f.where)
    f = method(program, cls, 'add_connection')
    if f:
        a, b, w = params(f)[1:4]
        it = Interp(program, Config(inline=inmodules('eprempy.container'),
                                    trace=True))
        pairs = {}
        where = {}
        for o in it.run(f, args={a: sym(a), b: sym(b), w: sym(w)}, selfclass=cls):
            for e in o.st.trace:
                if e.kind == 'setitem' and it.snap(e.data[0], o.st) == conn:
                    pairs.setdefault(it.snap(e.data[1], o.st), set()).add(
                        it.snap(e.data[2], o.st))
        fw, rv = ('tuple', (sym(a), sym(b))), ('tuple', (sym(b), sym(a)))
        W = sym(w)
        inv = ({('op', 'truediv', K(1), W), ('op', 'truediv', K(1.0), W),
                ('op', 'pow', W, K(-1))}, {W, K(None)})
        if not pairs:
            rep.ob('graph', 'Graph.add_connection', None, "no stores seen", f.where)
        else:
            got = pairs.get(fw)
            rep.ob('graph', 'Graph.add_connection forward',
                   False if not got else got <= {W, K(None)},
                   f"the weight is {[show(x) for x in got or ()]}", f.where)
            got = pairs.get(rv)
            ok = False if not got else got <= inv[0] | inv[1] and \
                bool(got & inv[0])
            rep.ob('graph', 'Graph.add_connection reverse', ok,
                   f"the weight is {[show(x) for x in got or ()]}", f.where)


def objects(program, rep):
    cls = f'{CV}:Conversion'
    if cls not in program.classes:
        return
    mods = inmodules(CV)
    it = Interp(program, Config(inline=mods, props=mods, instantiate={cls},
                                trace=False))
    A, B, F = sym('u0'), sym('u1'), sym('factor')
    c = program.classes[cls]
    it.sinks.append([])
    fr = it._frame(c.module, None, None)
    for v, s in it.call(('class', cls), [A, B, F], {}, State(), None, fr):
        for name, want in (('u0', A), ('u1', B), ('_factor', F)):
            for w, z in it.getattr(v, name, s.copy(), None, fr):
                t = it.snap(w, z)
                rep.ob('object', f"Conversion.{name}", t == want or
                       (False if t in (A, B, F) else None), f"is {show(t)}", c.where)
        for name, want in (('old', A), ('new', B)):
            pass
        f = method(program, cls, '__float__')
        if f:
            for m, z in it.getattr(v, '__float__', s.copy(), None, fr):
                for w, z2 in it.call(m, [], {}, z, None, fr):
                    t = it.snap(w, z2)
                    rep.ob('object', 'float(conversion)', t == F or (
                        None if not isk(t) and t[0] != 'op' else False),
                        f"is {show(t)}", f.where)
        f = method(program, cls, '__rtruediv__')
        if f:
            it2 = Interp(program, Config(inline=mods, props=mods,
                                         instantiate=set(), trace=False))
            o1 = params(f)[1]
            for o in it2.run(f, args={o1: sym(o1)}, selfclass=cls):
                if o.kind != 'return':
                    continue
                t = it2.snap(o.value, o.st)
                ok = None
                if callname(t) in ('Conversion',) and len(t[2]) == 3:
                    a, b, x = t[2]
                    us = [('attr', S, 'u0'), ('attr', S, '_u0')], \
                         [('attr', S, 'u1'), ('attr', S, '_u1')]
                    fs = [('attr', S, '_factor'), ('attr', S, 'factor'),
                          ('call', ('ext', 'builtins.float'), (S,), ())]
                    ok = a in us[1] and b in us[0] and x in [
                        ('op', 'truediv', k, f) for f in fs
                        for k in (K(1), K(1.0), sym(o1))]
                    if not ok:
                        known = set(us[0]) | set(us[1])
                        good = {a, b} <= known and (
                            x[0] == 'op' or x in fs)
                        ok = False if good else None
                rep.ob('object', '1 / conversion', ok, f"is {show(t)}", f.where)
    it.sinks.pop()
    # the factors of the package's public entry points
    cls = 'eprempy.metric._types:Conversion'


def kept(program, rep):
    for qual, what in ((f'{CV}:conversion_factory', 'conversion'),
                       (f'{CV}:converter_factory', 'converter'),
                       (f'{UN}:unit_factory', 'unit')):
        f = func(program, qual)
        if f is None:
            continue
        it = interp(program, RATIOS - {qual}, trace=True)
        it = Interp(program, Config(inline=lambda g, q=qual: g.qual == q,
                                    trace=True))
        args = {n: sym(n) for n in params(f)}
        for o in outcomes(program, it, f, args=args):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            for e in o.st.trace:
                if e.kind != 'setitem':
                    continue
                cont, key, val = (it.snap(x, o.st) for x in e.data)
                if cont[0] != 'glob':
                    continue
                if what == 'unit':
                    continue
                ok = keptpair(program, what, params(f), key, val)
                rep.ob('kept', f"{f.name} stores {show(key)}", ok,
                       f"stores {show(val)}", f.where)
            if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'get' and \
                    t[1][1][0] == 'glob' and what != 'unit':
                want = ('tuple', tuple(sym(p) for p in params(f)))
                key = t[2][0]
                ok = key == want
                if not ok and not set(params(f)) <= {
                        x[1] for x in subterms(key) if x[0] == 'sym'}:
                    ok = False
                elif not ok:
                    ok = None if key[0] != 'tuple' else False
                rep.ob('kept', f"{f.name} looks up", ok,
                       f"looks up {show(key)}", f.where)
            elif what == 'unit' and t[0] in ('sub', 'call') and \
                    t[1][0] in ('glob', 'attr') and t != ('sym', params(f)[0]):
                unitkept(rep, f, t, o.st.facts)


def unitkept(rep, f, t, facts):
    arg = sym(params(f)[0])
    if t[0] == 'call' and callname(t) == 'get' and t[2]:
        k = t[2][0]
        if isk(k):
            return
        isstr = any(v and a[0] == 'isa' and a[1] == arg and 'str' in repr(a[2])
                    for a, v in facts.items())
        ok = k == arg if isstr else k == ('call', ('ext', 'builtins.str'), (
            ('sub', arg, K(0)),), ())
        if not isstr:
            one = any(v and a[0] == 'op' and a[1] == 'eq' and K(1) in a[2:]
                      for a, v in facts.items())
            ok = (one and ok) or None
            if not one and k == ('call', ('ext', 'builtins.str'), (
                    ('sub', arg, K(0)),), ()):
                ok = False
        rep.ob('kept', f"{f.name} looks up", ok or (None if ok is None else False),
               f"looks up {show(k)}", f.where)
    elif t[0] == 'sub' and t[1][0] == 'glob':
        ok = arg in set(subterms(t[2])) or None
        rep.ob('kept', f"{f.name} existing", ok, f"looks up {show(t[2])}", f.where)


def keptpair(program, what, names, key, val):
    a, b = (sym(n) for n in names[:2])
    if key[0] != 'tuple' or len(key[1]) != 2:
        return None
    if what == 'converter':
        if key[1] != (a, b):
            return False if set(key[1]) <= {a, b} else None
        return True if {a, b} <= set(subterms(val)) else None
    inv = val[0] == 'op' and val[1] == 'truediv' and val[2] in (K(1), K(1.0))
    c = val[3] if inv else val
    if callname(c) not in ('_convert', 'Conversion') or len(c[2]) < 2:
        return None
    pair = tuple(c[2][:2])
    if inv:
        pair = pair[::-1]
    return pair == key[1] if {*pair, *key[1]} <= {a, b} else None


# ----------------------------------------------------------------------

def systems(program, rep):
    f = func(program, f'{CV}:convert')
    if f:
        names = params(f)
        src, dst, qty = (sym(n) for n in names[:3])
        it = Interp(program, Config(inline=lambda g: False, trace=False))
        it = interp(program, RATIOS | {f'{CV}:converter_factory'})
        for o in outcomes(program, it, f, args={n: sym(n) for n in names}):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            insys = [v for a, v in o.st.facts.items()
                     if a[0] == 'op' and a[1] == 'in' and a[2] == dst]
            noqty = [v for a, v in o.st.facts.items()
                     if a[0] == 'op' and a[1] == 'is' and qty in a[2:]]
            noqty += [not v for a, v in o.st.facts.items() if a == qty]
            amb = [v for a, v in o.st.facts.items()
                   if callname(a) == '_is_ambiguous']
            ok = None
            if callname(t) == 'conversion_factory' and t[2][:1] == (src,) and \
                    len(t[2]) == 2:
                if t[2][1] == dst:
                    ok = False if insys and insys[0] else True if insys else None
                elif t[2][1] == K('1'):
                    ok = any(v and a[0] == 'op' and a[1] == 'eq' and
                             {K('1'), src} == set(a[2:])
                             for a, v in o.st.facts.items())
            elif callname(t) == 'conversion_factory' and set(t[2]) == {src, dst}:
                ok = False
            elif callname(t) == 'to' and t[1][0] == 'attr' and t[2] == (dst,) and \
                    callname(t[1][1]) == 'converter_factory':
                c = t[1][1]
                b = bound(program, c) or {}
                q = b.get('quantity')
                u = b.get('unit')
                if u == src and q is not None:
                    if q == qty:
                        ok = not (noqty and noqty[0])
                    elif any(callname(x) == 'get_quantity' for x in subterms(q)) \
                            and src in set(subterms(q)):
                        ok = bool(noqty and noqty[0])
                        if ok and not (amb and not amb[0]):
                            ok = False if not amb else False
                elif u == dst:
                    ok = False
            rep.ob('system', f"convert returns {show(t)}", ok,
                   "wrong unit, quantity or guard", f.where)
    cls = f'{CV}:Converter'
    if cls in program.classes:
        mods = inmodules(CV)
        it = Interp(program, Config(
            inline=lambda g: mods(g) and g.qual not in RATIOS, props=mods,
            instantiate={cls}, trace=False))
        U, Q, X, T = sym('unit'), sym('quantity'), sym('subs'), sym('target')
        c = program.classes[cls]
        it.sinks.append([])
        fr = it._frame(c.module, None, None)
        for v, s in it.call(('class', cls), [U, Q, X], {}, State(), None, fr):
            for m, z in it.getattr(v, 'to', s, None, fr):
                for w, z2 in it.call(m, [T], {}, z, None, fr):
                    t = it.snap(w, z2)
                    if t == K(None):
                        continue
                    rep.ob('system', 'Converter.to', convto(program, t, z2.facts,
                                                            U, X, T),
                           f"is {show(t)}", c.where)
        it.sinks.pop()
    f = func(program, f'{CV}:_get_substitutions')
    if f:
        q = params(f)[0]
        Q = sym(q)
        it = Interp(program, Config(inline=lambda g: False, trace=False))
        for o in it.run(f, args={q: Q}):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            ok = None
            if t[0] == 'sub' and t[1][0] in ('glob', 'call', 'attr'):
                name = show(t[1])
                units = 'UNITS' in name or "'units'" in name
                massy = [v for a, v in o.st.facts.items()
                         if a[0] == 'op' and a[1] == 'in' and
                         K('mass number') in set(subterms(a))]
                if t[2] == K('mass'):
                    ok = bool(massy and massy[0]) or None
                elif t[2] == Q:
                    ok = not (massy and massy[0])
                elif isk(t[2]):
                    ok = False
                if 'DIMENSIONS' in name:
                    ok = False
            rep.ob('system', '_get_substitutions', ok, f"is {show(t)}", f.where)
    f = func(program, f'{UN}:normalize')
    if f:
        u, sy, q = (sym(n) for n in params(f)[:3])
        it = Interp(program, Config(inline=lambda g: g.module.name == UN and
                                    g.name not in NOINLINE, trace=False))
        for o in it.run(f, args={n: sym(n) for n in params(f)}):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            ok = None
            noq = [v for a, v in o.st.facts.items()
                   if a[0] == 'op' and a[1] == 'is' and q in a[2:]]
            if callname(t) == 'unit_factory' and t[2] and t[2][0][0] == 'list' and \
                    len(t[2][0][1]) == 1 and t[2][0][1][0][0] == 'many':
                x = t[2][0][1][0][1]
                b = e = None
                if callname(x) == 'power' and len(x[2]) == 2:
                    b, e = x[2]
                elif x[0] == 'op' and x[1] == 'pow':
                    b, e = x[2:]
                if b is not None:
                    its = {y for y in subterms(b) if y[0] == 'iter'}
                    if e[0] == 'attr' and e[2] == 'exponent' and e[1] in its:
                        src = e[1][1]
                        given = q in set(subterms(src))
                        ok = sy in set(subterms(b)) and (
                            not given if noq and noq[0] else given)
                        if not ok:
                            ok = None if not isk(b) else False
                    elif e[0] == 'op' or isk(e):
                        ok = False
            rep.ob('system', 'normalize', ok, f"is {show(t)}", f.where)
    f = func(program, f'{DF}:get_quantity')
    if f:
        u = params(f)[0]
        it = Interp(program, Config(inline=lambda g: False, trace=False))
        for o in it.run(f, args={u: sym(u)}):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            ok = None
            this = ('iter', sym(u))
            pows = [x for x in subterms(t) if x[0] == 'op' and x[1] == 'pow']
            if len(pows) == 1:
                b, e = pows[0][2:]
                ok = e == ('attr', this, 'exponent') and (
                    ('attr', this, 'base') in set(subterms(b))) or (
                    False if e[0] in ('op', 'k') else None)
            elif not pows and this in set(subterms(t)) and not any(
                    x[0] == 'attr' and x[2] == 'exponent' for x in subterms(t)):
                ok = False
            rep.ob('system', 'get_quantity', ok, f"is {show(t)}", f.where)


def convto(program, t, facts, U, X, T):
    """Converter.to converts its unit (or substitute) to the target's."""
    get = lambda k: ('call', ('attr', X, 'get'), (k,), ())
    src, dst = {U, get(U), ('sub', X, U)}, {T, get(T), ('sub', X, T)}
    sub = {a: v for a, v in facts.items() if a in (get(T), get(U))}

    def right(x, k):
        if x == get(k) or x == ('sub', X, k):
            return sub.get(get(k), True)
        return x == k and not sub.get(get(k), False)
    if callname(t) in ('conversion_factory', '_convert') and len(t[2]) == 2:
        a, b = t[2]
        if a in dst and b in src:
            return False
        return right(a, U) and right(b, T) if a in src and b in dst else None
    if callname(t) == 'Conversion' and len(t[2]) == 2:
        a, b = t[2]
        eq = any(v and f[0] == 'op' and f[1] == 'eq' and set(f[2:]) == {a, b}
                 for f, v in facts.items()) or a == b
        return eq or (False if a in src and b in dst else None)
    return None


# ----------------------------------------------------------------------

def algebra(program, rep):
    cls = f'{UN}:Unit'
    if cls not in program.classes:
        return
    FUN = {'__mul__': ('product', False), '__rmul__': ('product', True),
           '__truediv__': ('ratio', False), '__rtruediv__': ('ratio', True)}
    for name, (op, flip) in FUN.items():
        f = method(program, cls, name)
        if f is None or f.cls != cls:
            continue
        n = params(f)[1]
        O = sym(n)
        it = interp(program, RATIOS | {f'{UN}:_apply_operator'})
        for o in outcomes(program, it, f, args={n: O}, selfclass=cls):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            if t == ('ext', 'builtins.NotImplemented'):
                continue
            real = any(v and a[0] == 'isa' and a[1] == O and 'Real' in repr(a[2])
                       for a, v in o.st.facts.items())
            isone = any(v and a[0] == 'op' and a[1] == 'eq' and
                        set(a[2:]) == {O, K(1)} for a, v in o.st.facts.items())
            same = any(v and (a[0] == 'op' and a[1] in ('is', 'eq') and
                              set(a[2:]) == {O, S} or
                              a[0] == 'call' and callname(a) == '__eq__')
                       for a, v in o.st.facts.items())
            rep.ob('algebra', f"Unit.{name}", algop(t, op, flip, O, real, isone,
                                                     same),
                   f"{'a number' if real else 'an equal unit' if same else 'other'}"
                   f": is {show(t)}", f.where)
    f = method(program, cls, '__pow__')
    if f and f.cls == cls:
        n = params(f)[1]
        it = interp(program, RATIOS)
        for o in outcomes(program, it, f, args={n: sym(n)}, selfclass=cls):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            if t == ('ext', 'builtins.NotImplemented'):
                continue
            ok = None
            this = ('iter', S)
            if callname(t) == 'unit_factory' and t[2] and t[2][0][0] == 'list' \
                    and len(t[2][0][1]) == 1 and t[2][0][1][0][0] == 'many':
                x = t[2][0][1][0][1]
                ok = x == ('op', 'pow', this, sym(n))
                if not ok:
                    ok = False if x[0] == 'op' or x == this else None
            rep.ob('algebra', 'Unit.__pow__', ok, f"is {show(t)}", f.where)
    f = func(program, f'{UN}:_apply_operator')
    if f:
        g, a, b = params(f)[:3]
        it = interp(program, RATIOS)
        for o in outcomes(program, it, f, args={n: sym(n) for n in (g, a, b)}):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            if t == ('ext', 'builtins.NotImplemented'):
                continue
            ok = None
            if callname(t) == 'unit_factory' and t[2] and t[2][0][0] == 'call' and \
                    t[2][0][1] == sym(g) and len(t[2][0][2]) == 2:
                x, y = (decomposed(v) for v in t[2][0][2])
                ok = (x, y) == (sym(a), sym(b))
                if not ok:
                    ok = False if {x, y} <= {sym(a), sym(b)} else None
            rep.ob('algebra', '_apply_operator', ok, f"is {show(t)}", f.where)
    f = func(program, f'{UN}:_decompose_term')
    if f:
        n = params(f)[0]
        T = sym(n)
        it = interp(program, RATIOS)
        for o in outcomes(program, it, f, args={n: T}):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            ok = None
            if t == ('list', (T,)):
                ok = True
            elif t[0] == 'list' and len(t[1]) == 1 and t[1][0][0] == 'many':
                x = t[1][0][1]
                if x[0] == 'op' and x[1] == 'pow':
                    ok = x[2][0] == 'iter' and x[3] == ('attr', T, 'exponent')
                    if not ok:
                        ok = False if x[3][0] in ('op', 'k') else None
                elif x[0] == 'iter':
                    ok = False
            rep.ob('algebra', '_decompose_term', ok, f"is {show(t)}", f.where)
    f = func(program, f'{UN}:_decompose_unit')
    if f:
        n = params(f)[0]
        it = interp(program, RATIOS)
        for o in outcomes(program, it, f, args={n: sym(n)}):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            ds = [x for x in subterms(t) if callname(x) == '_decompose_term']
            ok = None
            if len(set(ds)) == 1 and len(ds[0][2]) == 1:
                ok = ds[0][2][0][0] == 'iter' and \
                    sym(n) in set(subterms(ds[0][2][0])) or None
            rep.ob('algebra', '_decompose_unit', ok, f"is {show(t)}", f.where)
    f = func(program, f'{UN}:_as_symbol')
    if f:
        n = params(f)[0]
        T = sym(n)
        it = interp(program, RATIOS)
        for o in outcomes(program, it, f, args={n: T}):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            ok = None
            if t[0] == 'op' and t[1] == 'pow':
                e = t[3]
                ok = e == ('attr', T, 'exponent') or (
                    False if e[0] in ('op', 'k') else None)
            elif callname(t) in ('term', 'term_factory') and len(t[2]) == 1 and \
                    not t[3]:
                ok = False
            if ok:
                text = show(t[2])
                i, j = text.find("'prefix'"), text.find("'base'")
                if i >= 0 and j >= 0:
                    ok = i < j
            rep.ob('algebra', '_as_symbol', ok, f"is {show(t)}", f.where)
    cls = f'{DF}:NamedUnit'
    f = method(program, cls, 'decomposed')
    if f:
        it = interp(program, RATIOS | {f'{DF}:NamedUnit._decompose',
                                       f'{DF}:NamedUnit.is_fundamental_in'})
        for o in outcomes(program, it, f, selfclass=cls):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            if callname(t) != '_decompose' or not t[2]:
                continue
            s = t[2][-1]
            conds = set()
            for x in subterms(s):
                if x[0] == 'many' and len(x) > 2:
                    conds |= set(subterms(x[2]))
            facts = [a for a, v in o.st.facts.items() if v] + list(conds) + \
                list(subterms(s))
            ok = any(callname(a) == 'is_fundamental_in' for a in facts
                     if isinstance(a, tuple) and a and isinstance(a[0], str)) or None
            if ok is None and not any(callname(a) in (
                    'is_fundamental_in', 'is_defined_in') for a in facts
                    if isinstance(a, tuple) and a and isinstance(a[0], str)):
                ok = None
            rep.ob('algebra', 'NamedUnit.decomposed', ok,
                   f"decomposes in {show(s)}", f.where)


def decomposed(t):
    if callname(t) == '_decompose_unit' and len(t[2]) == 1:
        return t[2][0]
    if t[0] == 'attr' and t[2] == 'decomposed':
        return t[1]
    return t


def algop(t, op, flip, O, real, isone, same):
    if real:
        if op == 'product' or not flip:
            return isone and t == S or (False if not isone else None)
    if callname(t) == '_apply_operator' and len(t[2]) == 3:
        g, a, b = t[2]
        name = g[1].split(':')[-1] if g[0] in ('func', 'rawfunc') else None
        if name not in ('product', 'ratio'):
            return None
        first = K('1') if real else O
        want = (first, S) if flip else (S, O)
        if real and not isone:
            return False
        if name != op:
            return False
        return (a, b) == want or (False if {a, b} <= {S, O, K('1')} else None)
    if same:
        if op == 'ratio':
            return callname(t) == 'unit_factory' and t[2][0] in (K(1), K('1')) or (
                False if t in (S, O) else None)
        if callname(t) == 'unit_factory' and t[2]:
            x = t[2][0]
            if x[0] == 'call' and callname(x) == '__pow__':
                return K(2) in x[2] or False
            if x[0] == 'op' and x[1] == 'pow':
                return x[2:] == (S, K(2)) or False
        return False if t in (S, O) else None
    if t == S or t == O:
        return False
    return None
