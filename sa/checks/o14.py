"""O14: a dataset gives each simulated variable, in the requested system of units."""

from .. import physics as ph
from ..absint import Interp, Config, State, K, show, isk, subterms
from ..fields import initial
from ..model import AnalysisError
from ..spec import table, Case
from ..util import module_value, pyval, mapterm
from .o11 import self_attr
from .o12 import DIM, quantity, Unread

LEVEL = 'other'
EXPLANATION = (
    "Abstract interpretation of every property of the dataset interfaces, of the "
    "file viewer under them and of the observers above them. The term each property "
    "returns is read as: variable of the file, unit it was read in, unit it was "
    "converted to, axes attached. It is compared with the table of variables that "
    "EPREM writes, first on a fresh object and then after every other property has "
    "been used. Tables of names and of chemical elements are read from the source "
    "and compared with reference values."
)
ASSUMPTIONS = [
    "netCDF4 returns the variables, dimensions and attributes that are in the file",
    "conversion between units is checked by M01, M02 and N09",
]
D = 'eprempy.datafile._interfaces'
V = 'eprempy.datafile._viewers'
CORE = 'eprempy.datafile._core'
E = 'eprempy.eprem'
A = 'eprempy.atomic'
ME = ('sym', 'self')

# property -> (variable of the file, kind of unit, squeezed)
ARRAYS = {
    'time': 'time', 'mu': 'mu', 'energy': 'egrid', 'v': 'vgrid', 'mass': 'mass',
    'charge': 'charge', 'r': 'R', 'theta': 'T', 'phi': 'P', 'br': 'Br',
    'btheta': 'Bt', 'bphi': 'Bp', 'ur': 'Vr', 'utheta': 'Vt', 'uphi': 'Vp',
    'rho': 'Rho', 'f': 'Dist', 'flux': 'flux',
}
SQUEEZED = ('energy', 'v')
AXES = {'time': 'time', 'energy': 'egrid', 'mu': 'mu'}
NAMES = set(ARRAYS.values()) | {'shell'}

# rounded standard atomic weights (stable elements), with tolerance for others
WEIGHTS = (
    "H 1.008 He 4.0026 Li 6.94 Be 9.0122 B 10.81 C 12.011 N 14.007 O 15.999 "
    "F 18.998 Ne 20.180 Na 22.990 Mg 24.305 Al 26.982 Si 28.085 P 30.974 S 32.06 "
    "Cl 35.45 Ar 39.948 K 39.098 Ca 40.078 Sc 44.956 Ti 47.867 V 50.942 Cr 51.996 "
    "Mn 54.938 Fe 55.845 Co 58.933 Ni 58.693 Cu 63.546 Zn 65.38 Ga 69.723 "
    "Ge 72.630 As 74.922 Se 78.971 Br 79.904 Kr 83.798 Rb 85.468 Sr 87.62 "
    "Y 88.906 Zr 91.224 Nb 92.906 Mo 95.95 Ru 101.07 Rh 102.91 Pd 106.42 "
    "Ag 107.87 Cd 112.41 In 114.82 Sn 118.71 Sb 121.76 Te 127.60 I 126.90 "
    "Xe 131.29 Cs 132.91 Ba 137.33 La 138.91 Ce 140.12 Pr 140.91 Nd 144.24 "
    "Sm 150.36 Eu 151.96 Gd 157.25 Tb 158.93 Dy 162.50 Ho 164.93 Er 167.26 "
    "Tm 168.93 Yb 173.05 Lu 174.97 Hf 178.49 Ta 180.95 W 183.84 Re 186.21 "
    "Os 190.23 Ir 192.22 Pt 195.08 Au 196.97 Hg 200.59 Tl 204.38 Pb 207.2 "
    "Bi 208.98 Th 232.04 Pa 231.04 U 238.03").split()
WEIGHTS = dict(zip(WEIGHTS[::2], map(float, WEIGHTS[1::2])))
ALL = set(WEIGHTS) | set(
    "Tc Pm Po At Rn Fr Ra Ac Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt "
    "Ds Rg Cn Nh Fl Mc Lv Ts Og".split())


def called(t, *names):
    if t[0] != 'call' or t[1][0] not in ('func', 'class', 'ext', 'attr'):
        return False
    n = t[1][2] if t[1][0] == 'attr' else t[1][1].rpartition(':')[2]
    return n in names or n.rpartition('.')[2] in names


def arg(t, i, *names):
    """A positional or keyword argument of a call."""
    kw = dict(t[3])
    for n in names:
        if n in kw:
            return kw[n]
    return t[2][i] if i is not None and len(t[2]) > i else None


class Read:
    """What a term reads from the file."""

    def __init__(self):
        self.name = self.unit = self.given = self.axes = None
        self.squeezed = False
        self.raw = False
        self.makers = []

    def read(self, t):
        if called(t, 'withunit') and t[1][0] == 'attr' and len(t[2]) == 1:
            self.read(t[1][1])
            self.unit = t[2][0]
            return self
        if called(t, 'squeeze'):
            self.squeezed = True
            return self.read(t[2][0] if t[2] else t[1][1])
        if called(t, 'array', 'tensor', 'vector', 'asarray', 'tensor_factory',
                  'array_factory', 'vector_factory', 'Array', 'Tensor') and \
                t[1][0] == 'ext':
            return self.read(t[2][0])
        if called(t, 'array', 'tensor', 'vector', 'Array', 'Tensor', 'array_factory',
                  'tensor_factory', 'vector_factory') and t[2]:
            self.read(t[2][0])
            self.given = arg(t, 1, 'unit')
            self.axes = arg(t, None, 'axes')
            self.makers.append(t[1][1])
            return self
        if t[0] == 'attr' and t[2] == 'data':
            self.base(t[1])
            return self
        raise Unread(show(t)[:120])

    def base(self, t):
        for u in ('arrays',):
            if t[0] == 'sub' and t[1] == ('attr', self_attr('view'), u) and \
                    isk(t[2], str):
                self.name = t[2][2]
                self.term = t
                return
        raise Unread(show(t)[:120])


def system(t):
    """Whether t is the system in which to represent the dataset."""
    return t == ('call', ('ext', 'builtins.str'), (self_attr('system'),), ()) or \
        t == self_attr('system')


def isunit(t, r):
    """Whether t is the unit of the variable in the file."""
    u = ('attr', r.term, 'unit')
    return t == u or t is not None and called(t, 'standardize') and t[2] == (u,)


def near(P, cls):
    """Inline the methods of a class and the helpers of its module."""
    def inline(g):
        if g.cls:
            return P.issub(cls, str(g.cls))
        return g.module.name == cls.partition(':')[0] and g.name[:1] == '_'
    return inline


def outcomes(P, cls, name, state=None):
    fn = P.lookup(cls, name)[1][1]
    it = Interp(P, Config(inline=near(P, cls)))
    out = []
    for o in it.run(fn, selfclass=cls, state=state):
        if o.kind == 'return':
            out.append((it.snap(o.value, o.st), o.st))
    # a loop over the dimensions may also be skipped, when there are none
    full = [(t, s) for t, s in out if "('dict', ())" not in repr(t)]
    if any("'dimensions'" in repr(t) for t, s in full):
        return full
    return out


def fresh(P, cls):
    """States of a newly created object."""
    fn = P.lookup(cls, '__init__')
    if not fn:
        return [State()]
    it = Interp(P, Config(inline=near(P, cls)))
    out = []
    for o in it.run(fn[1][1], selfclass=cls):
        if o.kind != 'return':
            continue
        # the source and system are whatever they were given
        for k in ('_source', '_system', '_arrays', '_dataview', '_observables'):
            if (ME, k) in o.st.attrs and o.st.attrs[(ME, k)] != K(None):
                o.st.attrs.pop((ME, k))
        # these two are the roots of the terms
        out.append(o.st)
    return out


def variable(r, attr, raw=False):
    """What is wrong with what was read, or ''."""
    want = ARRAYS[attr]
    if r.name != want:
        return f"is the variable {r.name!r} instead of {want!r}"
    if r.given is None:
        return 'loses the unit of the file'
    if not isunit(r.given, r):
        if r.given[0] in ('k',) or r.given[0] == 'attr' and r.given[2] == 'unit':
            return f"is read in {show(r.given)[:60]}"
        raise Unread(show(r.given)[:80])
    if r.unit is None:
        return "is not converted to the system's unit"
    if attr in ('mass', 'charge') and not raw:
        ok = r.unit == ('attr', ('sub', self_attr('system'), K(attr)), 'unit') or \
            system(r.unit)
    else:
        ok = system(r.unit)
    if not ok:
        if r.unit[0] in ('k', 'attr'):
            return f"is converted to {show(r.unit)[:60]}"
        raise Unread(show(r.unit)[:80])
    return ''


def attached(r):
    """The axes are those of the variable, in order."""
    a = r.axes
    if a is None:
        return 'has no axes'
    if called(a, 'axes', 'axes_factory', 'Axes') and len(a[2]) == 1:
        a = a[2][0]
    dims = ('attr', r.term, 'dimensions')
    if a[0] in ('dictof', 'dict') or a[0] == 'many':
        pass
    text = repr(a)
    if repr(('iter', dims)) not in text and repr(dims) not in text:
        if a == ('dict', ()):
            return 'has no axes'
        if "'dimensions'" in text:
            return f"has axes {show(a)[:100]}"
        raise Unread(show(a)[:100])
    if repr(self_attr('axes')) not in text:
        raise Unread(show(a)[:100])
    pairs = a[1] if a[0] == 'dict' else ()
    for k, v in pairs:
        k = k[1] if k[0] in ('many', 'star') else k
        if v[0] == 'sub' and v[1] == self_attr('axes') and v[2] != k and \
                v[2] != ('iter', dims):
            return f"has axis {show(v)[:60]} as {show(k)[:40]}"
    return ''


def reverse(t):
    return 'reversed' in repr(t) or "'sorted'" in repr(t)


def species(t):
    """What is wrong with the symbols of the species, or ''."""
    if not called(t, 'elements'):
        raise Unread(show(t)[:100])
    kw = dict(t[3])
    for k, u in (('mass', ('nuc', 'nucleon')), ('charge', ('e',))):
        if k not in kw:
            if None in kw:
                raise Unread(show(t)[:100])
            return f"does not depend on the {k}"
        r = Read().read(kw[k])
        if r.name != k:
            return f"takes {r.name} for the {k}"
        if not r.given or not isunit(r.given, r):
            return f"reads the {k} without its unit"
        if not r.unit or not isk(r.unit, str):
            return f"does not convert the {k} to {u[0]}" if r.unit is None or \
                system(r.unit) else unread(r.unit)
        if r.unit[2] not in u:
            return f"converts the {k} to {r.unit[2]}"
    return ''


def unread(t):
    raise Unread(show(t)[:100])


MAKERS = {'time': ('coordinates', 'Coordinates'), 'shell': ('points', 'Points'),
          'species': ('symbols', 'Symbols'), 'energy': ('coordinates', 'Coordinates'),
          'mu': ('coordinates', 'Coordinates')}


def judged(cls, attr, t, facts):
    """What is wrong with the value of a property, or ''."""
    if cls == 'Grid':
        if t[0] == 'attr' and t[1] == self_attr('_arrays'):
            return '' if t[2] == attr else f"is {t[2]}"
        raise Unread(show(t)[:100])
    if cls == 'Axes':
        names = MAKERS[attr]
        if not called(t, *names, *(n + '_factory' for n in names)):
            if called(t, 'coordinates', 'points', 'symbols', 'Coordinates', 'Points',
                      'Symbols') or t == K(None):
                return f"is {show(t)[:80]}"
            raise Unread(show(t)[:100])
        t = t[2][0]
    if t == K(None) and attr not in ('f', 'flux'):
        return 'is None'
    if attr == 'species':
        return species(t)
    if attr == 'shell':
        t = t[2][0] if called(t, 'array') and t[1][0] == 'ext' else t
        r = Read().read(t)
        return '' if r.name == 'shell' else f"is the variable {r.name!r}"
    if attr in ('f', 'flux') and t == K(None):
        has, not_ = ('hasdist', 'hasflux') if attr == 'f' else ('hasflux', 'hasdist')
        for k, v in facts.items():
            k = k[1] if k[0] == 'truthy' else k
            if k == self_attr(has) and not v or k == self_attr(not_) and v:
                return ''
        return 'is missing although the dataset may have it'
    if t == K(None):
        return 'is None'
    r = Read().read(t)
    if attr in ('f', 'flux'):
        has, not_ = ('hasdist', 'hasflux') if attr == 'f' else ('hasflux', 'hasdist')
        for k, v in facts.items():
            k = k[1] if k[0] == 'truthy' else k
            if k == self_attr(has) and not v or k == self_attr(not_) and v:
                return 'is read from a dataset that does not have it'
    bad = variable(r, attr)
    if bad:
        return bad
    if attr in SQUEEZED and not r.squeezed and False:
        return 'keeps the dimension of the species'
    if cls == 'Arrays':
        if not any('array' in m.lower() for m in r.makers):
            raise Unread(show(t)[:80])
        if reverse(r.axes):
            return 'has its axes in a different order'
        return attached(r)
    return ''


def datasets(P, rep):
    for cls, props in (('Arrays', (*ARRAYS, 'shell', 'species')), ('Axes', MAKERS),
                       ('Grid', ('r', 'theta', 'phi'))):
        q = f'{D}:{cls}'
        if q not in P.classes:
            rep.ob('variable', cls, False, 'is not defined')
            continue
        have = []
        for a in props:
            f = P.lookup(q, a)
            if not f or f[1][0] != 'func':
                rep.ob('variable', f"{cls}.{a}", False if not f else None,
                       'is not defined')
            else:
                have.append((a, f[1][1]))
        states = fresh(P, q)
        later = {}
        for a, fn in have:
            done = False
            for st in states:
                for t, s in outcomes(P, q, a, st.copy() if hasattr(
                        st, 'copy') else st):
                    done = True
                    rep.count('paths')
                    later.setdefault(a, []).append((t, s))
                    report(rep, cls, a, t, s.facts, fn, f"{cls}.{a}")
            if not done:
                rep.ob('variable', f"{cls}.{a}", False, 'is never available',
                       fn.where)
        # after another property has been used
        for a, fn in have:
            for b, _ in have:
                for t0, s in later.get(b, ()):
                    for t, s2 in outcomes(P, q, a, s.copy() if hasattr(
                            s, 'copy') else s):
                        rep.count('paths')
                        report(rep, cls, a, t, s2.facts, fn,
                               f"{cls}.{a} after {b}")


def report(rep, cls, a, t, facts, fn, label):
    try:
        bad = judged(cls, a, t, facts)
        rep.ob('variable', label, not bad, bad or '', fn.where)
    except (Unread, IndexError, TypeError) as err:
        rep.ob('variable', label, None, str(err)[:160], fn.where)


def flags(P, rep):
    for a, n in (('hasdist', 'Dist'), ('hasflux', 'flux')):
        f = P.lookup(D + ':Arrays', a)
        if not f or f[1][0] != 'func':
            rep.ob('variable', f"Arrays.{a}", None, 'not found')
            continue
        for st in fresh(P, D + ':Arrays'):
            for t, s in outcomes(P, D + ':Arrays', a, st):
                have = ('attr', self_attr('view'), 'arrays')
                ok = t == ('op', 'in', K(n), have)
                if not ok and not (t[0] in ('k', 'not') or t[:2] in (
                        ('op', 'in'), ('op', 'not'), ('op', 'notin'))):
                    ok = None
                if t[0] == 'k' and isinstance(t[2], bool):
                    v = s.facts.get(('op', 'in', K(n), have))
                    ok = None if v is None else v == t[2]
                rep.ob('variable', f"Arrays.{a}", ok, show(t)[:80], f[1][1].where)
    # what the interfaces are made from
    for cls, a, want in (('Arrays', 'view', 'view_factory'),
                         ('Axes', 'view', 'view_factory'),
                         ('Arrays', 'axes', 'axes_factory')):
        f = P.lookup(f'{D}:{cls}', a)
        if not f or f[1][0] != 'func':
            rep.ob('variable', f"{cls}.{a}", None, 'not found')
            continue
        for st in fresh(P, f'{D}:{cls}'):
            for t, s in outcomes(P, f'{D}:{cls}', a, st):
                ok, why = None, show(t)[:100]
                if called(t, want, want.partition('_')[0], 'View', 'Axes'):
                    given = [*t[2], *dict(t[3]).values()]
                    ok = bool(given) and given[0] == self_attr('source') and (
                        a != 'axes' or self_attr('system') in given)
                elif t == K(None):
                    ok = False
                rep.ob('variable', f"{cls}.{a}", ok, why, f[1][1].where)
    for fac, cls in (('axes_factory', 'Axes'), ('arrays_factory', 'Arrays')):
        fn = P.funcs.get(f'{D}:{fac}')
        if fn is None:
            rep.ob('variable', fac, None, 'not found')
            continue
        it = Interp(P, Config(inline=lambda g, fn=fn: g is fn))
        a = [x.arg for x in (*fn.node.args.posonlyargs, *fn.node.args.args,
                             *fn.node.args.kwonlyargs)]
        src = ('sym', a[0])
        sym = ('sym', a[1]) if len(a) > 1 else None
        for o in it.run(fn):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            ok, why = None, show(t)[:120]
            if called(t, cls):
                s, u = arg(t, 0, 'source'), arg(t, 1, 'system')
                if s is not None and u is not None:
                    ok = s == src or called(s, 'fullpath', 'Path') and \
                        s[2][:1] == (src,)
                    if called(u, 'system', 'system_factory') and len(u[2]) == 1:
                        given = next((v for k, v in o.st.facts.items() if k in (
                            sym, ('truthy', sym))), None)
                        x = u[2][0]
                        if isk(x, str):
                            ok = ok and (given is False or given is None and any(
                                sym == y for k in o.st.facts for y in subterms(k))) \
                                and x[2] == 'mks'
                        elif x == sym or x[:2] == ('op', 'or') and sym in x[2:]:
                            ok = ok and True
                        else:
                            ok = ok and None
                    else:
                        ok = ok and (u == sym or None)
            rep.ob('variable', fac, ok, why, fn.where)


def grid(P, rep):
    """The grid is made of the arrays of the same dataset and system."""
    q = D + ':Grid'
    init = initial(P, q)
    got = (init or {}).get('_arrays')
    if not got or len(got) != 1:
        rep.ob('variable', 'Grid', None, 'not understood')
        return
    t = next(iter(got))
    ok = None
    if called(t, 'arrays_factory', 'arrays', 'Arrays'):
        ok = arg(t, 0, 'source') == ('sym', 'source') and \
            arg(t, 1, 'system') == ('sym', 'system')
    rep.ob('variable', 'Grid', ok, show(t)[:80], P.classes[q].where)
    fn = P.funcs.get(D + ':grid_factory')
    if fn is None:
        return
    names = [x.arg for x in (*fn.node.args.posonlyargs, *fn.node.args.args)]
    it = Interp(P, Config(inline=lambda g: g is fn))
    for o in it.run(fn):
        if o.kind != 'return':
            continue
        t = it.snap(o.value, o.st)
        ok = None
        if called(t, 'Grid') and len(names) > 1:
            have = arg(t, 0, 'source'), arg(t, 1, 'system')
            if have == tuple(('sym', n) for n in names[:2]):
                ok = True
            elif all(x is None or x[0] in ('sym', 'k') for x in have):
                ok = False
        rep.ob('variable', 'grid', ok, show(t)[:80], fn.where)


# -- viewers -----------------------------------------------------------------

def viewers(P, rep):
    q = V + ':NetCDFViewer'
    if q not in P.classes:
        rep.ob('viewer', 'NetCDFViewer', False, 'is not defined')
        return
    name = ('sym', 'name')
    var = ('sub', ('attr', ME, '_variables'), name)
    for m in ('get_array', 'get_unit', 'get_axis', 'get_scalar'):
        f = P.lookup(q, m)
        if not f or f[1][0] != 'func':
            rep.ob('viewer', m, False, 'is not defined')
            continue
        fn = f[1][1]
        a = [x.arg for x in (*fn.node.args.posonlyargs, *fn.node.args.args)]
        it = Interp(P, Config(inline=lambda g: near(P, q)(g) or
                              g.module.name == CORE))
        done = False
        for o in it.run(fn, selfclass=q, args={a[1]: name} if len(a) > 1 else {}):
            if o.kind != 'return':
                continue
            done = True
            rep.count('paths')
            t = it.snap(o.value, o.st)
            try:
                bad = member(m, t, var, name, o.st.facts, it, o.st)
                rep.ob('viewer', m, not bad, bad or '', fn.where)
            except (Unread, IndexError) as err:
                rep.ob('viewer', m, None, str(err)[:140], fn.where)
        if not done:
            rep.ob('viewer', m, False, 'never returns', fn.where)
    init = initial(P, q, inline=near(P, q)) or {}
    for a, n in (('_variables', 'variables'), ('_dimensions', 'dimensions')):
        got = init.get(a)
        if not got or len(got) != 1:
            rep.ob('viewer', a, None, 'not understood')
            continue
        t = next(iter(got))
        ok = None
        if t[0] == 'attr' and called(t[1], 'Dataset'):
            ok = t[2] == n and bool(t[1][2]) and t[1][2][0] in (
                self_attr('source'), ('sym', 'source'), self_attr('_source'))
        rep.ob('viewer', f"NetCDFViewer.{a}", ok, show(t)[:80], P.classes[q].where)
    # members keep what they were given
    for cls, props in (('Array', ('data', 'unit', 'dimensions')),
                       ('Scalar', ('value', 'unit')), ('Axis', ('size',))):
        c = f'{CORE}:{cls}'
        if c not in P.classes:
            rep.ob('viewer', cls, None, 'not found')
            continue
        for p in props:
            got = stored(P, c, p)
            if got is None:
                rep.ob('viewer', f"{cls}.{p}", None, 'not understood')
                continue
            for t in got:
                ok = t == ('sym', p)
                if not ok and called(t, 'tuple') and t[2] == (('sym', p),):
                    ok = True
                if not ok and t[0] not in ('sym', 'k'):
                    ok = None
                rep.ob('viewer', f"{cls}.{p}", ok, show(t)[:60],
                       P.classes[c].where)
        for m in ('__getitem__', '__array__', '__float__', '__int__'):
            if cls not in ('Array', 'Scalar') or (m in ('__getitem__', '__array__')) \
                    != (cls == 'Array'):
                continue
            f = P.lookup(c, m)
            if not f or f[1][0] != 'func':
                rep.ob('viewer', f"{cls}.{m}", None, 'not found')
                continue
            it = Interp(P, Config(inline=near(P, c)))
            src = self_attr(props[0])
            raw = ('sub', ('attr', ME, '_attributes'), K(props[0]))
            index = [x.arg for x in (*f[1][1].node.args.posonlyargs,
                                     *f[1][1].node.args.args)][1:]
            for o in it.run(f[1][1], selfclass=c):
                if o.kind != 'return':
                    continue
                t = mapterm(it.snap(o.value, o.st),
                            lambda x: src if x == raw else x)
                ok = None
                if t == K(None):
                    ok = False
                elif m == '__getitem__':
                    ok = True if t[0] == 'sub' and t[1] == src and t[2] == (
                        'sym', index[0]) else False if t == src else None
                elif m == '__array__':
                    ok = True if any(x == src for x in subterms(t)) and called(
                        t, 'array', 'asarray') else None
                elif called(t, 'float', 'int'):
                    ok = called(t, m.strip('_')) and t[2] == (src,)
                rep.ob('viewer', f"{cls}.{m}", ok, show(t)[:80], f[1][1].where)
        fac = P.funcs.get(f'{CORE}:{cls.lower()}_factory')
        if fac is None:
            continue
        it = Interp(P, Config(inline=lambda g, fac=fac: g is fac))
        for o in it.run(fac):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            ok = None
            if called(t, cls):
                ok = True
                for i, p in enumerate(props):
                    x = arg(t, i, p)
                    if x is not None and called(x, 'tuple') and len(x[2]) == 1:
                        x = x[2][0]
                    if x != ('sym', p):
                        ok = False if x is None or x[0] in ('sym', 'k') else None
            rep.ob('viewer', fac.name, ok, show(t)[:80], fac.where)


def stored(P, c, p):
    """What a property of a member returns after construction."""
    init, prop = P.lookup(c, '__init__'), P.lookup(c, p)
    if not init or not prop or prop[1][0] != 'func':
        return None
    out = []
    inl = near(P, c)
    it = Interp(P, Config(inline=inl))
    for o in it.run(init[1][1], selfclass=c):
        if o.kind != 'return':
            continue
        it2 = Interp(P, Config(inline=inl))
        for r in it2.run(prop[1][1], selfclass=c, state=o.st):
            if r.kind == 'return':
                out.append(it2.snap(r.value, r.st))
    return out


def unitof(t, var, facts):
    """'' if t is the unit attribute of the variable."""
    if t in (('attr', var, 'unit'), ('attr', var, 'units')):
        return ''
    if t == K(None):
        for n in ('unit', 'units'):
            for k, v in facts.items():
                if called(k, 'hasattr') and k[2] == (var, K(n)) and v:
                    return 'is lost'
        return ''
    if called(t, 'getattr') and t[2][:1] == (var,):
        if t[2][1] in (K('unit'), K('units')):
            return ''
        raise Unread(show(t)[:80])
    if t[0] in ('k', 'sym') or t[0] == 'attr' and t[1] == var:
        return f"is {show(t)[:60]}"
    raise Unread(show(t)[:80])


def member(m, t, var, name, facts, it, st):
    if t == K(None) and m != 'get_unit':
        return 'returns None'
    if m == 'get_unit':
        bad = unitof(t, var, facts)
        return f"unit {bad}" if bad else ''
    cls = {'get_array': 'Array', 'get_scalar': 'Scalar', 'get_axis': 'Axis'}[m]
    if not called(t, cls):
        raise Unread(show(t)[:100])
    if m == 'get_axis':
        x = arg(t, 0, 'size')
        dim = ('sub', ('attr', ME, '_dimensions'), name)
        if x in (('attr', dim, 'size'),
                 ('call', ('ext', 'builtins.len'), (dim,), ())):
            return ''
        if called(x, 'getattr') and x[2][:2] == (dim, K('size')):
            return ''
        if x[0] == 'k' or x[0] == 'attr' and x[1] == dim:
            return f"size is {show(x)[:60]}"
        raise Unread(show(x)[:80])
    unit = arg(t, 1, 'unit')
    if unit is None:
        return 'has no unit'
    bad = unitof(unit, var, facts)
    if bad:
        return f"unit {bad}"
    if m == 'get_array':
        x, d = arg(t, 0, 'data'), arg(t, 2, 'dimensions')
        if x != var and not (x[0] == 'sub' and x[1] == var):
            if x[0] in ('k', 'attr', 'sym'):
                return f"data is {show(x)[:60]}"
            raise Unread(show(x)[:80])
        if x != var and x[2] not in (
                ('slice', K(None), K(None), K(None)), K(Ellipsis)):
            return f"data is {show(x)[:60]}"
        while called(d, 'tuple', 'list') and len(d[2]) == 1:
            d = d[2][0]
        if d[0] in ('tuple', 'list') and len(d[1]) == 1 and d[1][0][0] == 'many':
            e = d[1][0]
            if ('iter', ('attr', var, 'dimensions')) in e[1:] or \
                    repr(e).count("'dimensions'") == 1 and \
                    all(x[0] in ('many', 'iter', 'attr', 'sub', 'sym')
                        for x in subterms(e)):
                return ''
        if d == ('attr', var, 'dimensions') or called(d, 'getattr') and \
                d[2][:2] == (var, K('dimensions')):
            return ''
        if d[0] in ('k', 'attr') or d == ('tuple', ()) and not facts:
            return f"dimensions are {show(d)[:60]}"
        if called(d, 'reversed', 'sorted', 'set') or d[0] == 'sub':
            return f"dimensions are {show(d)[:60]}"
        raise Unread(show(d)[:80])
    x = arg(t, 0, 'value')
    shape = [v for k, v in facts.items() if "'shape'" in repr(k) and v]
    if shape and not any(isinstance(v, bool) is False for v in shape):
        return 'makes a scalar of an array'
    integer = next((v for k, v in facts.items()
                    if called(k, 'issubdtype') and 'integer' in repr(k[2][1:])), None)
    full = ('slice', K(None), K(None), K(None))
    if called(x, 'int', 'float') and len(x[2]) == 1:
        y = x[2][0]
        if not (y == var or y[0] == 'sub' and y[1] == var and y[2] in (
                full, K(Ellipsis), ('tuple', ()))):
            raise Unread(show(x)[:80])
        if called(x, 'int') and integer is False:
            return 'truncates a real value'
        return ''
    raise Unread(show(x)[:80])


def views(P, rep):
    q = V + ':View'
    if q not in P.classes:
        rep.ob('viewer', 'View', False, 'is not defined')
        return
    tables = {n: tuple(pyval(module_value(P, 'eprempy.datafile._reference', n)))
              for n in ('ARRAYS', 'SCALARS', 'AXES')}
    missing = NAMES - set(tables['ARRAYS'])
    rep.ob('viewer', 'datafile.ARRAYS', not missing,
           f"{', '.join(sorted(missing))} cannot be read")
    missing = set(MAKERS) - set(tables['AXES'])
    rep.ob('viewer', 'datafile.AXES', not missing,
           f"{', '.join(sorted(missing))} cannot be read")
    caches = ('_arrays', '_scalars', '_sizes', '_axes', '_units', '_viewer')
    calls = []

    def mapped(it, f, args, kwargs, st, node, fr):
        x = [it.snap(a, st) for a in args]
        if x and x[0] == ME:
            x = x[1:]
        calls.append(tuple(x))
        return [(('sym', f'mapped{len(calls)}'), st)]
    for p, get, names in (('arrays', 'get_array', 'ARRAYS'),
                          ('scalars', 'get_scalar', 'SCALARS'),
                          ('axes', 'get_axis', 'AXES'), ('units', 'get_unit', None)):
        f = P.lookup(q, p)
        if not f or f[1][0] != 'func':
            rep.ob('viewer', f"View.{p}", False, 'is not defined')
            continue
        st = State()
        for c in caches:
            st.attrs[(ME, c)] = K(None)
        it = Interp(P, Config(
            inline=lambda g: g.cls and str(g.cls) == q and not P.isproperty(g)
            and g.name != '_map', models={('.', '_map'): mapped, q + '._map': mapped}))
        for o in it.run(f[1][1], selfclass=q, state=st):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            ok, why = None, show(t)[:100]
            x = None
            if t[0] == 'sym' and t[1].startswith('mapped'):
                x = calls[int(t[1][6:]) - 1]
            elif called(t, '_map'):
                x = t[2]
            if x and len(x) == 2:
                g, n = x
                why = show(('tuple', x))[:120]
                if g[0] == 'attr' and g[1] == self_attr('viewer'):
                    ok = g[2] == get
                    if ok and n[0] in ('tuple', 'list') and all(
                            isk(y) for y in n[1]):
                        have = {y[2] for y in n[1]}
                        want = set(tables[names]) if names else set(
                            tables['ARRAYS'] + tables['SCALARS'])
                        if want - have:
                            ok, why = False, f"without {sorted(want - have)[0]}"
                    elif ok:
                        ok = None
            elif t == K(None):
                ok = False
            rep.ob('viewer', f"View.{p}", ok, why, f[1][1].where)
    f = P.lookup(q, 'sizes')
    if f and f[1][0] == 'func':
        st = State()
        for c in caches:
            st.attrs[(ME, c)] = K(None)
        it = Interp(P, Config(inline=lambda g: g is f[1][1]))
        for o in it.run(f[1][1], selfclass=q, state=st):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            text = repr(t)
            ok = None
            if t == K(None):
                ok = False
            elif t[0] == 'dict' and len(t[1]) == 1 and t[1][0][1][0] == 'attr':
                ok = t[1][0][1][2] == 'size' and repr(self_attr('axes')) in text
            rep.ob('viewer', 'View.sizes', ok, show(t)[:100], f[1][1].where)
    f = P.lookup(q, '_map')
    if f and f[1][0] == 'func':
        fn = f[1][1]
        a = [x.arg for x in (*fn.node.args.posonlyargs, *fn.node.args.args)]
        it = Interp(P, Config(inline=lambda g: g is fn, binders=False))
        if len(a) == 3:
            for o in it.run(fn, selfclass=q, args={
                    a[1]: ('sym', 'get'), a[2]: ('list', (K('x'), K('y')))}):
                if o.kind != 'return':
                    continue
                t = it.snap(o.value, o.st)
                ok, why = None, show(t)[:120]
                if t[0] == 'dict' and all(isk(k) for k, v in t[1]):
                    ok = True
                    for k, v in t[1]:
                        other = ({'x', 'y'} - {k[2]}).pop()
                        if repr(K(other)) in repr(v):
                            ok = False
                        elif repr(k) not in repr(v) or 'get' not in repr(v):
                            ok = None
                        if o.st.facts.get(('op', 'is', v, K(None))) is True:
                            ok = False
                    keys = {k[2] for k, v in t[1]}
                    for k in {'x', 'y'} - keys:
                        gone = [v for c, v in o.st.facts.items() if
                                c[:2] == ('op', 'is') and repr(K(k)) in repr(c)
                                or c[0] == 'exc']
                        if not gone:
                            ok = None if not o.st.facts else False
                rep.ob('viewer', 'View._map', ok, why, fn.where)
    f = P.lookup(q, 'viewer')
    if f and f[1][0] == 'func':
        st = State()
        for c in caches:
            st.attrs[(ME, c)] = K(None)
        it = Interp(P, Config(inline=lambda g: g is f[1][1]))
        suffix = False
        for o in it.run(f[1][1], selfclass=q, state=st):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            ok, why = None, show(t)[:100]
            if t[0] == 'call' and len(t[2]) == 1:
                ok = t[2][0] == self_attr('source')
                if repr(('attr', self_attr('source'), 'suffix')) in repr(t[1]):
                    suffix = True
                elif "'_hint'" in repr(t[1]) or "'hint'" in repr(t[1]):
                    if not any(k[0] == 'exc' for k in o.st.facts) and \
                            'suffix' not in repr(o.st.facts):
                        ok, why = None, show(t)
                else:
                    ok = None
            elif t == K(None):
                ok = False
            rep.ob('viewer', 'View.viewer', ok, why, f[1][1].where)


# -- metadata -----------------------------------------------------------------

def metadata(P, rep):
    try:
        table = pyval(module_value(P, 'eprempy.reference', '_metadata'))
    except Exception as err:        # noqa: BLE001
        rep.ob('metadata', 'reference._metadata', None, str(err)[:100])
        return
    owner = {}
    for name, entry in table.items():
        q = entry.get('quantity')
        want = DIM.get(name)
        if name == 'phiOffset':
            want = ph.d()
        if name == 'shell':
            want = ph.d()
        if want is not None:
            try:
                got = quantity(q.replace('mass_number', '1')) if isinstance(
                    q, str) else None
            except (Unread, KeyError, ValueError) as err:
                rep.ob('metadata', f"quantity of {name}", None, str(err)[:80])
                got = None
            if got is not None:
                same = {k: v for k, v in got.items() if v} == {
                    k: v for k, v in want.items() if v}
                rep.ob('metadata', f"quantity of {name}", same,
                       f"{q!r} has dimension {ph.showdim(got)} instead of "
                       f"{ph.showdim(want)}")
        for alias in {name, *entry.get('aliases', ())}:
            owner.setdefault(alias, set()).add(name)
    for alias, names in sorted(owner.items()):
        rep.ob('metadata', f"alias {alias}", len(names) == 1,
               f"names {' and '.join(sorted(names))}")
    for attr, name in ARRAYS.items():
        if name in owner:
            rep.ob('metadata', f"variable {name}", owner[name] == {attr},
                   f"is an alias of {', '.join(owner[name])} instead of {attr}")


# -- observers ----------------------------------------------------------------

def observers(P, rep):
    for cls, props in (('Observer', {'times': 'time', 'species': 'species',
                                     'energies': 'energy', 'mus': 'mu'}),
                       ('Stream', {'shells': 'shell', 'times': 'time',
                                   'species': 'species', 'energies': 'energy',
                                   'mus': 'mu'}),
                       ('Point', {'times': 'time', 'species': 'species',
                                  'energies': 'energy', 'mus': 'mu'})):
        q = f'{E}:{cls}'
        if q not in P.classes:
            rep.ob('observer', cls, False, 'is not defined')
            continue
        run_ = {}
        for p, axis in props.items():
            f = P.lookup(q, p)
            if not f or f[1][0] != 'func':
                rep.ob('observer', f"{cls}.{p}", False, 'is not defined')
                continue
            for st in fresh(P, q):
                for t, s in outcomes(P, q, p, st):
                    run_.setdefault(p, []).append(s)
                    axisof(rep, f"{cls}.{p}", t, axis, f[1][1])
        for p, axis in props.items():
            f = P.lookup(q, p)
            for other, states in run_.items():
                for s in states:
                    for t, s2 in outcomes(P, q, p, s.copy() if hasattr(
                            s, 'copy') else s):
                        axisof(rep, f"{cls}.{p} after {other}", t, axis, f[1][1])
    q = E + ':Point'
    for p in ('r', 'theta', 'phi'):
        f = P.lookup(q, p) if q in P.classes else None
        if not f or f[1][0] != 'func':
            rep.ob('observer', f"Point.{p}", None, 'not found')
            continue
        for st in fresh(P, q):
            for t, s in outcomes(P, q, p, st):
                ok, why = None, show(t)[:100]
                if called(t, 'scalar', 'scalar_factory', 'Scalar'):
                    text = repr(t)
                    x, u = arg(t, 0, 'data', 'value'), arg(t, 1, 'unit')
                    names = [y[2][2] for y in subterms(t) if y[0] == 'sub' and
                             y[1] == ME and isk(y[2], str)]
                    ok = set(names) == {p}
                    first = ('sub', ('sub', ME, K(p)), ('tuple', (K(0), K(0))))
                    if ok and called(x, 'float') and x[2] != (first,) and \
                            x[2][0][0] == 'sub' and x[2][0][1] == first[1]:
                        ok, why = False, 'is not the initial position'
                    if ok and u is None:
                        ok, why = False, 'has no unit'
                    elif ok and not (u[0] == 'attr' and u[2] == 'unit'
                                     and repr(K(p)) in repr(u)):
                        ok = None
                    elif ok and not (called(x, 'float') or x[0] in (
                            'sub', 'attr', 'call')):
                        ok = None
                elif t == K(None):
                    ok = False
                rep.ob('observer', f"Point.{p}", ok, why, f[1][1].where)
    q = E + ':Observer'
    f = P.lookup(q, '__getitem__')
    if f and f[1][0] == 'func':
        fn = f[1][1]
        a = [x.arg for x in (*fn.node.args.posonlyargs, *fn.node.args.args)]
        obs = ('attr', ME, '_observables')
        it = Interp(P, Config(inline=lambda g: g is fn))
        for o in it.run(fn, selfclass=q, args={a[1]: ('sym', 'key')}):
            if o.kind == 'raise':
                known = o.st.facts.get(('op', 'in', ('sym', 'key'), obs))
                if known is not None:
                    rep.ob('observer', 'Observer[...]', not known,
                           'refuses an available quantity', fn.where)
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            ok = t == ('sub', obs, ('sym', 'key'))
            if not ok and not (t[0] == 'k' or t[0] == 'sub' and t[1] == obs):
                ok = None
            rep.ob('observer', 'Observer[...]', ok, show(t)[:80], fn.where)


def axisof(rep, label, t, axis, fn):
    ok, why = None, show(t)[:100]
    if t == K(None):
        ok = False
    elif t[0] == 'sub' and t[1] == K(None):
        ok = False
    elif t[0] == 'sub' and called(t[1], 'axes', 'axes_factory', 'Axes'):
        src = (self_attr('source'), ('attr', self_attr('dataview'), 'source'),
               ('attr', ('sym', 'dataview'), 'source'),
               ('attr', ('attr', ME, '_dataview'), 'source'))
        sysm = (self_attr('system'), ('attr', ('attr', ME, '_observables'), 'system'),
                ('attr', ('sym', 'observables'), 'system'))
        s, u = arg(t[1], 0, 'source'), arg(t[1], 1, 'system')
        if isk(t[2]) and t[2] != K(axis):
            ok = False
        elif t[2] == K(axis):
            ok = True if s in src and u in sysm else None
            if u is None or u[0] == 'k':
                ok, why = False, 'ignores the system of the observer'
    elif t[0] == 'attr' and called(t[1], 'axes', 'axes_factory', 'Axes'):
        ok = True if t[2] == axis else False if t[2] in MAKERS else None
    rep.ob('observer', label, ok, why, fn.where)


# -- species ------------------------------------------------------------------

def elements(P, rep):
    try:
        table = pyval(module_value(P, A, '_elements'))
    except Exception as err:        # noqa: BLE001
        rep.ob('species', 'elements', None, str(err)[:100])
        return
    seen = set()
    for e in table:
        s, m = e.get('symbol'), e.get('mass')
        ok, why = True, ''
        if s in seen:
            ok, why = False, 'is listed twice'
        elif s not in ALL:
            ok, why = False, 'is not an element'
        elif s in WEIGHTS and abs(m - WEIGHTS[s]) > 0.2:
            ok, why = False, f"has mass {m} instead of {WEIGHTS[s]}"
        seen.add(s)
        rep.ob('species', f"element {s}", ok, why)
    for s in set(WEIGHTS) - seen:
        rep.ob('species', f"element {s}", False, 'is missing')
    first = {}
    for e in table:
        first.setdefault(round(e['mass']), e['symbol'])
    for s in ('H', 'He', 'C', 'N', 'O', 'Ne', 'Mg', 'Si', 'S', 'Fe'):
        m = round(WEIGHTS[s])
        rep.ob('species', f"ion of mass {m}", first.get(m) == s,
               f"is {first.get(m)} instead of {s}")
    try:
        t = module_value(P, A, '_nucleons')
        ok, why = None, show(t)[-60:]
        if t[0] == 'dict' and len(t[1]) == 1:
            v = t[1][0][1]
            e = v[2][0] if called(v, 'round', 'int', 'floor', 'ceil', 'trunc') and \
                v[2] else v
            if e[0] == 'sub' and e[1][0] == 'iter' and isk(e[2]):
                ok = called(v, 'round') and e[2] == K('mass')
        rep.ob('species', 'masses of the elements', ok, f"number of nucleons is {why}")
    except AnalysisError:
        pass
    fn = P.funcs.get(A + ':elements')
    if fn is None:
        rep.ob('species', 'elements', None, 'not found')
        return
    it = Interp(P, Config(inline=lambda g: g.module.name == A, binders=False))
    both = set()
    for o in it.run(fn, args={'mass': ('sym', 'mass'), 'charge': ('sym', 'charge')}):
        if o.kind != 'return':
            continue
        t = it.snap(o.value, o.st)
        rep.count('paths')
        try:
            bad, sign = symbol(t, o.st.facts)
            both |= {sign}
            rep.ob('species', 'elements', not bad, bad or '', fn.where)
        except (Unread, IndexError) as err:
            both = None
            rep.ob('species', 'elements', None, str(err)[:140], fn.where)
            break
    if both is not None:
        rep.ob('species', 'signs of the charge', both >= {'+', '-'},
               f"only {' '.join(x or 'no sign' for x in both)}", fn.where)
    ions(P, rep)
    q = A + ':Species'
    st = State()
    st.attrs[(ME, '_mass')] = st.attrs[(ME, '_charge')] = K(None)
    sym = ('attr', ME, '_symbol')
    for p, units in (('mass', ('nucleon', 'nuc', 'u', 'amu')), ('charge', ('e', 'e-'))):
        f = P.lookup(q, p)
        if not f or f[1][0] != 'func':
            rep.ob('species', f"Species.{p}", None, 'not found')
            continue
        for t, s in outcomes(P, q, p, st.copy() if hasattr(st, 'copy') else st):
            ok, why = None, show(t)[:100]
            for y in subterms(t):
                if y[0] == 'call' and y[1][0] == 'attr' and y[1][1] == sym and \
                        y[1][2] in ('strip', 'rstrip') and len(y[2]) == 1 and \
                        isk(y[2][0], str) and set(y[2][0][2]) != {'+', '-'}:
                    ok, why = False, f"takes {y[2][0][2]!r} off the symbol"
            if called(t, 'scalar', 'scalar_factory', 'Scalar') and ok is None:
                x, u = arg(t, 0, 'data'), arg(t, 1, 'unit')
                if u is None or isk(u) and u[2] not in units:
                    ok, why = False, f"unit is {show(u) if u else 'missing'}"
                elif p == 'mass' and x[0] == 'sub' and isk(x[2]):
                    ok = x[2] == K('mass') and repr(sym) in repr(x)
                elif p == 'charge' and called(x, 'sum'):
                    ok = True if repr(sym) in repr(x) else None
                    if called(x[2][0], 'abs') or "'abs'" in repr(x):
                        ok = False
            elif t == K(None):
                ok = False
            rep.ob('species', f"Species.{p}", ok, why, f[1][1].where)


def ions(P, rep):
    """The two ways to create a species."""
    fn = P.funcs.get(A + ':species')
    if fn is None or not fn.node.args.vararg or not fn.node.args.kwarg:
        return
    va, kw = fn.node.args.vararg.arg, fn.node.args.kwarg.arg
    sym = ('sym', 'symbol')
    m, c = ('sym', 'mass'), ('sym', 'charge')
    inl = lambda g: g is fn or (     # noqa: E731
        g.module.name == A and not g.cls and g.name[:1] == '_')
    cases = (('symbol', (sym,), ()), ('two symbols', (sym, sym), ()),
             ('mass and charge', (), (('mass', m), ('charge', c))),
             ('an unknown keyword', (), (('mass', m), ('charge', c), ('x', m))),
             ('symbol and mass', (sym,), (('mass', m),)), ('nothing', (), ()))
    for label, pos, kws in cases:
        it = Interp(P, Config(inline=inl))
        got = []
        st = State()
        given = it.alloc('dict', tuple((K(k), v) for k, v in kws), st)
        for o in it.run(fn, args={va: ('tuple', pos), kw: given}, state=st):
            got.append((o.kind, it.snap(o.value, o.st)))
        for kind, t in got:
            rep.count('paths')
            ok, why = None, f"{kind} {show(t)[:80]}"
            if label == 'symbol':
                ok = kind == 'return' and t == (
                    'call', ('class', A + ':Species'), (sym,), ())
            elif label == 'mass and charge':
                ok = False if kind == 'raise' else None
                if kind == 'return' and called(t, 'Species') and len(t[2]) == 1:
                    x = t[2][0]
                    if x[0] == 'sub' and called(x[1], 'elements') and x[2] in (
                            K(0), K(-1)):
                        ok = dict(x[1][3]) == {'mass': m, 'charge': c}
                    elif x[0] in ('sym', 'k'):
                        ok = False
            else:
                ok = True if kind == 'raise' else False if t[0] == 'call' else None
            rep.ob('species', f"species of {label}", ok, why, fn.where)


def symbol(t, facts):
    """What is wrong with the symbols of given masses and charges, or ''."""
    if t[0] not in ('list', 'tuple') or len(t[1]) != 1:
        raise Unread(show(t)[:100])
    x = t[1][0]
    if x[0] == 'many':
        x = x[1]
    text = repr(x)
    mass = "('sym', 'mass')" in text
    charge = "('sym', 'charge')" in text
    if x[0] not in ('fmt', 'fstr', 'join', 'format', 'op', 'call'):
        raise Unread(show(x)[:100])
    sign = None
    for s in '+-':
        if repr(K(s)) in text:
            sign = s
    lessthan = None
    for k, v in facts.items():
        if k[0] == 'op' and k[1] in ('lt', 'le', 'gt', 'ge') and len(k) == 4:
            a, b = k[2:]
            up = {'lt': True, 'le': True, 'gt': False, 'ge': False}[k[1]]
            if isk(a) and a[2] == 0 and 'charge' in repr(b):
                lessthan = up == v
            elif isk(b) and b[2] == 0 and 'charge' in repr(a):
                lessthan = up != v
    if not mass or not charge:
        return ('ignores the ' + ('mass' if not mass else 'charge')), sign
    for k in ('mass', 'charge'):
        uses = [y for y in subterms(x) if y[0] == 'call' and f"('sym', '{k}')" in
                repr(y[2])]
        if not any(called(y, 'round', 'rint', 'around') for y in uses):
            if any(called(y, 'int', 'floor', 'trunc', 'ceil') for y in uses):
                return f"truncates the {k}", sign
            raise Unread(show(x)[:100])
    if sign and lessthan is not None and (sign == '+') != lessthan:
        return 'gives the charge the opposite sign', sign
    if "'abs'" not in text and 'builtins.abs' not in text:
        raise Unread(show(x)[:100])
    return '', sign


def current(P, rep):
    """Views that are shared are of the same file, as it is, read in the same way."""
    from .e18 import PA, local, isinst
    c = P.classes.get(V + ':View')
    meta = [k.value for k in c.node.keywords if k.arg == 'metaclass'] if c else []
    if not meta:
        rep.ob('current', 'View', None if c is None else True, 'made anew',
               c.where if c else None)
        return
    f = P.lookup(PA + ':PathSet', '_generate_key')
    if not f or f[1][0] != 'func':
        rep.ob('current', 'key of a view', None, 'not found')
        return
    fn = f[1][1]
    va, kw = fn.node.args.vararg, fn.node.args.kwarg
    if va is None or kw is None:
        rep.ob('current', 'key of a view', None, 'not understood', fn.where)
        return
    p, x, h = ('sym', 'path'), ('sym', 'other'), ('sym', 'hint')
    for label, pos, kws in (('positional', (p, x), ()), ('hinted', (p,), (('hint', h),)),
                            ('keyword', (), (('path', p), ('hint', h)))):
        it = Interp(P, Config(inline=local(fn)))
        st = State()
        given = it.alloc('dict', tuple((K(k), v) for k, v in kws), st)
        states, plain = [], False
        for o in it.run(fn, selfclass=PA + ':PathSet', state=st, args={
                va.arg: ('tuple', pos), kw.arg: given}):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            yes, no = isinst(o.st.facts, p)
            if any({'str', 'Path'} <= k for k in no) and p not in set(subterms(t)):
                continue        # left to the parent, which refuses it
            rep.count('paths')
            parts = set(subterms(t))
            known = not any(y[0] in ('unk', 'opaque', 'fresh', 'obj') for y in parts)
            for arg, what in ((x, 'the other arguments'), (h, 'the hint')):
                if arg in pos or arg in dict(kws).values():
                    rep.ob('current', f"{label}: views differ with {what}",
                           True if arg in parts or repr(arg) in repr(t) else
                           False if known else None,
                           f"one view for {show(t)[:60]}, whatever {what}", fn.where)
            caught = any(k[0] == 'raised' or 'exc' in str(k[0]) for k in o.st.facts)
            stat = [y for y in parts if called(y, 'stat', 'lstat', 'getmtime')
                    and repr(p) in repr(y)]
            whole = [y for y in stat if called(y, 'getmtime') or not any(
                z[0] == 'attr' and z[1] == y for z in parts)]
            times = [y for y in parts if y[0] == 'attr' and y[1] in stat
                     and y[2] in ('st_mtime', 'st_mtime_ns')]
            if not caught:
                states.append(True if times or whole else False if known else None)
        rep.ob('current', f"{label}: views differ with the state of the file",
               (True if True in states else None if None in states or not states
                else False), 'one view for all versions of a file', fn.where)
    made = 'eprempy.etc:InstanceSet.__call__'
    key = 'self._generate_key(*args, **kwargs)'
    table(P, rep, 'current', made, 'args kwargs', [
        Case(f"return self._instances[{key}]", {f"{key} in self._instances": True},
             name='found'),
        Case("return _.__call__(*args, **kwargs)",
             {f"{key} in self._instances": False}, name='made'),
    ], cls='eprempy.etc:InstanceSet', maybe=('found',), name='shared instances')


def run(program, rep):
    P = program
    rep.rule('variable', "each property of a dataset is the file's variable of that "
             "meaning, read in its unit and converted to the system's", 30)
    rep.rule('viewer', "the viewer gives the data, unit and dimensions of the file", 10)
    rep.rule('current', "a view is shared only while its file is the same", 4)
    rep.rule('metadata', "names and quantities of the variables are consistent", 30)
    rep.rule('observer', "an observer gives the axes of its file", 5)
    rep.rule('species', "ions are named after their mass and charge", 50)
    if D + ':Arrays' not in P.classes:
        raise AnalysisError('dataset interfaces not found')
    datasets(P, rep)
    flags(P, rep)
    grid(P, rep)
    viewers(P, rep)
    views(P, rep)
    current(P, rep)
    metadata(P, rep)
    observers(P, rep)
    elements(P, rep)
