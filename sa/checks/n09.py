"""N09: converting a measured object to another unit rescales its values."""

from ..absint import Interp, Config, State, K, show, subterms, isk
from ..ops import exact
from ..util import inmodules, callname, mapterm

LEVEL = 'other'
EXPLANATION = (
    "Abstract interpretation of the factories, unit converters, constructors and "
    "accessors of measured and physical objects: each factory is followed for "
    "every kind of argument to the class, unit and converter it pairs, and each "
    "converter from the conversion it is given to the data, unit and axes of the "
    "object it returns."
)
ASSUMPTIONS = [
    "float(conversion) is the factor from the old to the new unit (property M02)",
    "converters and factories are not replaced at run time",
]
PKG = 'eprempy.'
CLS = {
    'Value': 'eprempy.measured._value:Value',
    'Sequence': 'eprempy.measured._sequence:Sequence',
    'Measurement': 'eprempy.quantity._measurement:Measurement',
    'Scalar': 'eprempy.physical._scalar:Scalar',
    'Vector': 'eprempy.physical._vector:Vector',
    'Tensor': 'eprempy.physical._tensor:Tensor',
    'Array': 'eprempy.physical._array:Array',
    'Coordinates': 'eprempy.physical._axis:Coordinates',
}
FACTORY = {
    'Value': ('eprempy.measured._factories', 'value_factory'),
    'Sequence': ('eprempy.measured._factories', 'sequence_factory'),
    'Measurement': ('eprempy.quantity._measurement', 'measurement_factory'),
    'Scalar': ('eprempy.physical._object_factories', 'scalar_factory'),
    'Vector': ('eprempy.physical._object_factories', 'vector_factory'),
    'Tensor': ('eprempy.physical._object_factories', 'tensor_factory'),
    'Array': ('eprempy.physical._object_factories', 'array_factory'),
}
MODS = ('eprempy.measured._factories', 'eprempy.measured._context',
        'eprempy.measured._convert', 'eprempy.measured._value',
        'eprempy.measured._sequence', 'eprempy.measured._object',
        'eprempy.measured._types', 'eprempy.quantity._measurement',
        'eprempy.physical._object_factories', 'eprempy.physical._object',
        'eprempy.physical._scalar', 'eprempy.physical._vector',
        'eprempy.physical._tensor', 'eprempy.physical._array',
        'eprempy.numeric._objects', 'eprempy.numeric._data')
X, U, C, CTX = ('sym', 'x'), ('sym', 'unit'), ('sym', 'c'), ('sym', 'context')
ONE = K('1')
MEASURED = ('Value', 'Sequence', 'Measurement', 'Scalar', 'Vector', 'Tensor', 'Array',
            'Coordinates')
KINDS = (*MEASURED, 'float', 'ndarray')
# argument kinds a factory refuses or that python never passes it
REFUSES = {('Value', k) for k in ('Sequence',)} | {
    ('Coordinates', k) for k in KINDS}
PASS = {'numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.ravel',
        'builtins.float'}


def run(program, rep):
    rep.rule('construct', "a factory creates its own class from the data and the "
             "unit of a measured argument, or from plain data and the given unit",
             30)
    rep.rule('converter', "the converter a factory installs multiplies the data "
             "with the conversion factor and sets the new unit, and returns the "
             "object itself only when the units are equal", 14)
    rep.rule('context', "a context converts from its own unit to the requested one "
             "and applies its own converter", 4)
    rep.rule('access', "an object reports the data, unit and axes it was created "
             "with", 18)
    rep.rule('item', "an element or slice of a measured object keeps its unit", 6)
    rep.rule('measure', "measuring an object gives its data and its unit", 2)
    converters = construct(program, rep)
    convert(program, rep, converters)
    context(program, rep)
    access(program, rep)
    items(program, rep)
    measure(program, rep)


def source(t, extra=()):
    """x when a data term consists of x's values, else None; 'raw' fields fail."""
    while True:
        if t == X:
            return X
        if t[0] == 'attr' and t[2] in ('data', 'array', '_data', '_object', 'flat',
                                       *extra):
            t = t[1]
        elif t[0] == 'sub' and isk(t[2], int):
            t = t[1]
        elif t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in PASS and t[2]:
            t = t[2][0]
        elif t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in (
                'ravel', 'flatten', 'item', '__array__', '_get_numpy_array',
                'copy') and not t[3]:
            t = t[1][1]
        elif t[0] == 'call' and callname(t) in (
                'sequence', 'sequence_factory', 'measurement', 'measurement_factory',
                'measure', 'array_data', 'array', 'array_factory') and t[2]:
            t = t[2][0]
        elif t[0] in ('list', 'tuple') and len(t[1]) == 1 and \
                t[1][0][0] not in ('many', 'star'):
            t = t[1][0]
        elif t[0] == 'op' and t[1] == 'mul' and K(1.0) in t[2:]:
            t = t[3] if t[2] == K(1.0) else t[2]
        else:
            return None


def lossy(t):
    """True when unscaled storage of a physical array is read."""
    return any(x[0] == 'attr' and x[2] == '_data_interface' for x in subterms(t))


def unwrapunit(t):
    """metric.unit(u) as u."""
    while t[0] == 'call' and callname(t) in ('unit', 'unit_factory') and t[2]:
        t = t[2][0]
    return t


def construct(program, rep):
    converters = {}
    for name, (mod, fname) in FACTORY.items():
        f = program.need_func(f"{mod}:{fname}") if hasattr(
            program, 'need_func') else program.funcs[f"{mod}:{fname}"]
        for kind in KINDS:
            if name in ('Value', 'Sequence', 'Measurement') and \
                    kind == 'Coordinates' or name == 'Value' and \
                    kind in ('Vector', 'Tensor', 'Scalar', 'Array'):
                continue                # refused, or not a measured object
            k = CLS.get(kind, kind)
            types = {X: k, U: 'str'}

            def decide(it, atom, st, k=k):
                if atom[0] != 'isa':
                    return None
                return exact(program, {X: k, **arrayish(atom[1])})(it, atom, st)
            it = Interp(program, Config(inline=inmodules(*MODS), trace=False,
                                        decide=decide))
            what = f"{name} from {kind}"
            try:
                outs = it.run(f, args={'x': X, 'unit': U, 'axes': ('sym', 'axes')},
                              types={X: k} if k in program.classes else None)
            except RecursionError:
                rep.ob('construct', what, None, 'recursion', f.where)
                continue
            n = 0
            for o in outs:
                if o.kind != 'return':
                    continue
                t = it.snap(o.value, o.st)
                if not feasible(t, o.st.facts):
                    continue
                n += 1
                one_object(program, rep, what, name, kind, t, o.st.facts, f.where,
                           converters)
            if not n and (name, kind) not in REFUSES and kind not in (
                    'Coordinates',) and not (name == 'Value' and kind in MEASURED):
                rep.ob('construct', what, False, "always refused", f.where)
    return converters


def arrayish(t):
    """The kind of a term made by numpy."""
    if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in PASS:
        return {t: 'float' if t[1][1].startswith('builtins') else 'ndarray'}
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in ('ravel', 'flatten'):
        return {t: 'ndarray'}
    if t[0] == 'sub' and isk(t[2], int) and arrayish(t[1]):
        return {t: 'float'}
    return {}


def mapping(c):
    return 'Mapping' in repr(c) or 'Axes' in repr(c)


def feasible(t, facts):
    """False when a path makes one element out of an object of another size."""
    sizes = {}
    for a, v in facts.items():
        if a[0] == 'op' and a[1] == 'eq' and K(1) in a[2:]:
            o = a[3] if a[2] == K(1) else a[2]
            if o[0] == 'attr' and o[2] == 'size' and source(o[1]) == X:
                sizes.setdefault(bool(v), []).append(o)
    if False in sizes and any((callname(x) or '').endswith('_args')
                              for y in (t, *facts) for x in subterms(y)):
        return False                    # parses the same data again
    return len(sizes) < 2


def one_object(program, rep, what, name, kind, t, facts, where, converters):
    if not (t[0] in ('call', 'new')):
        rep.ob('construct', what, None if t != K(None) else False,
               f"returns {show(t)}", where)
        return
    if t[0] == 'call':
        if t[1][0] != 'class':
            rep.ob('construct', what, None, f"returns {show(t)}", where)
            return
        cls, args = t[1][1], t[2]
    else:
        cls, args = t[1], t[2]
    rep.ob('construct', what, cls == CLS[name], f"creates {cls}", where)
    if len(args) < 2:
        rep.ob('construct', what, None, show(t), where)
        return
    data, ctx = args[0], args[1]
    if lossy(data):
        rep.ob('construct', f"{what} data", False,
               f"takes unscaled data {show(data)}", where)
    else:
        s = source(data)
        rep.ob('construct', f"{what} data", True if s == X else None,
               f"data are {show(data)}", where)
    if ctx[0] not in ('call', 'new') or (ctx[1][1] if ctx[0] == 'call' else
                                         ctx[1]).split(':')[-1] != 'Context':
        rep.ob('construct', f"{what} unit", None, show(ctx), where)
        return
    cargs = ctx[2]
    u = unwrapunit(cargs[0])
    conv = cargs[1]
    if callname(conv) in ('Converter',) and conv[2]:
        conv = conv[2][0]
    converters.setdefault(name, set()).add(conv)
    want = ('attr', X, 'unit') if kind in MEASURED else U
    ok = None
    if u[0] == 'attr' and u[2] in ('unit', '_unit') and source(u[1]) == X:
        ok = kind in MEASURED
    elif u == want:
        ok = True
    elif u == U:
        ok = False if kind in MEASURED else True
    elif u == ONE:
        falsy = [a for a, v in facts.items()
                 if (a in (want, U) and not v) or
                 (a[0] == 'op' and a[1] == 'is' and v and K(None) in a[2:] and
                  (want in a[2:] or U in a[2:])) or
                 (not v and a[0] == 'attr' and a[2] == 'unit')]
        wrong = falsy and kind in MEASURED and all(
            a == U or (a[0] == 'op' and U in a[2:]) for a in falsy)
        ok = bool(falsy) and not wrong
    rep.ob('construct', f"{what} unit", ok, f"the unit is {show(u)}", where)
    if name == 'Array' and len(args) > 2:
        ax = args[2]
        if kind == 'Array':
            own = ('attr', X, 'axes') in set(subterms(ax))
            ok = ax == ('attr', X, 'axes') or (None if own else False)
        else:
            ok = ('sym', 'axes') in set(subterms(ax)) or None
            if ok and ax[0] == 'call' and any(k == 'dimensions' for k, _ in ax[3]) \
                    and any(v and a[0] == 'isa' and a[1] == ('sym', 'axes') and
                            mapping(a[2]) for a, v in facts.items()):
                ok = False      # the given axes are replaced by default ones
        rep.ob('construct', f"{what} axes", ok, show(ax), where)


# ----------------------------------------------------------------------

def factor(t):
    """True when t is the conversion factor of c."""
    if t[0] == 'call' and t[1] == ('ext', 'builtins.float') and len(t[2]) == 1:
        return t[2][0] == C
    return t[0] == 'call' and t[1] == ('attr', C, '__float__') and not t[2]


def scaled(t):
    """The unscaled term when t is factor * term; False for another operation."""
    if t[0] == 'op' and t[1] in ('mul', 'truediv', 'add', 'sub', 'pow', 'floordiv'):
        a, b = t[2:]
        if t[1] != 'mul':
            return False if factor(a) or factor(b) or C in (a, b) else None
        if factor(a):
            return b
        if factor(b):
            return a
        for p, q in ((a, b), (b, a)):
            s = scaled(p)
            if s:
                return ('op', 'mul', s, q)
        return None
    if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in PASS and t[2]:
        return scaled(t[2][0])
    if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] == 'numpy.multiply' and \
            len(t[2]) == 2:
        return scaled(('op', 'mul', *t[2]))
    if not any(factor(x) for x in subterms(t)):
        return False
    return None


def convert(program, rep, converters):
    for name in FACTORY:
        convs = converters.get(name) or set()
        where = program.classes[CLS[name]].where
        if len(convs) != 1:
            rep.ob('converter', name, None, f"{len(convs)} converters", where)
            continue
        conv = next(iter(convs))
        # the object to convert, created by the class itself
        cls = CLS[name]
        cfg = Config(inline=lambda f: f.module.name in MODS and f.name != 'spawn',
                     props=lambda f: f.module.name in MODS and f.name not in (
                         'unit', 'axes', 'data'), trace=False)
        it = Interp(program, cfg)
        st = State()
        st.types[X] = cls
        it.sinks.append([])
        fr = it._frame(program.classes[cls].module, None, None)
        try:
            res = it.call(conv, [C, X], {}, st, None, fr)
        except Exception as err:
            rep.ob('converter', name, None, f"{err}", where)
            continue
        it.sinks.pop()
        changed = 0
        f = program.funcs.get(conv[1]) if conv[0] == 'func' else None
        where = f.where if f else where
        for v, s in res:
            t = it.snap(v, s)
            same = [y for a, y in s.facts.items()
                    if a[0] == 'op' and a[1] == 'eq' and set(a[2:]) in (
                        {('attr', C, 'old'), ('attr', C, 'new')},
                        {('attr', X, 'unit'), ('attr', C, 'new')})]
            if t == X:
                rep.ob('converter', f"{name} unchanged", True if True in same else
                       False, "the object itself is returned although the units "
                       "may differ", where)
                continue
            changed += 1
            if t[0] != 'call' or not t[2]:
                rep.ob('converter', name, False if t == K(None) else None,
                       f"returns {show(t)}", where)
                continue
            if True in same:
                rep.ob('converter', name, None, "rescales for equal units", where)
                continue
            data = t[2][0]
            kw = dict(t[3])
            unit = kw.get('unit', t[2][1] if len(t[2]) > 1 else None)
            rep.ob('converter', f"{name} unit", unit == ('attr', C, 'new'),
                   f"the unit of the result is {show(unit or K(None))}", where)
            scale = s.attrs.get((v, '_scale')) or s.attrs.get((t, '_scale'))
            if name == 'Array':
                axes = kw.get('axes', t[2][2] if len(t[2]) > 2 else None)
                rep.ob('converter', "Array axes", axes == ('attr', X, 'axes'),
                       f"axes are {show(axes or K(None))}", where)
            if scale is None and name == 'Array' and lossy(data):
                base = scaled(data)
                ok = base is not None and base is not False and \
                    ('attr', X, '_scale') in set(subterms(data))
                rep.ob('converter', f"{name} data", ok, "the scale of the array "
                       "is lost", where)
                continue
            if scale is not None:
                scale = it.snap(scale, s)
                base = scaled(scale)
                if base is False or base is None:
                    ok = base
                else:
                    raw = lossy(data)
                    rest = base
                    if raw:
                        ok = ('attr', X, '_scale') == rest
                    else:
                        ok = rest == K(1.0) or (False if source(data) == X and
                                                rest == ('attr', X, '_scale')
                                                else None)
                rep.ob('converter', f"{name} data", ok, f"the result is scaled by "
                       f"{show(scale)}", where)
                continue
            base = scaled(data)
            if base is None or base is False:
                rep.ob('converter', f"{name} data", base, f"data {show(data)}",
                       where)
            else:
                rep.ob('converter', f"{name} data", source(base) == X or None,
                       f"data {show(data)}", where)
        if not changed:
            rep.ob('converter', name, False, "never rescales", where)


# ----------------------------------------------------------------------

def context(program, rep):
    q = 'eprempy.measured._context:Context'
    new = ('sym', 'new')
    f = program.lookup(q, 'convert')[1][1]
    mods = inmodules('eprempy.measured._context')
    it = Interp(program, Config(inline=mods, props=lambda g: False, trace=False))
    S = ('sym', 'self')
    n = 0
    for o in it.run(f, selfclass=q):
        if o.kind != 'return':
            continue
        t = it.snap(o.value, o.st)
        n += 1
        if t == ('sym', 'x'):
            eq = any(a[0] == 'op' and a[1] == 'eq' and y and new in a[2:]
                     for a, y in o.st.facts.items())
            rep.ob('context', 'Context.convert', eq, "returns the object itself",
                   f.where)
            continue
        if t[0] != 'call' or t[1] not in (('attr', S, 'converter'),
                                          ('attr', S, '_converter')):
            rep.ob('context', 'Context.convert', False if t == K(None) else None,
                   f"returns {show(t)}", f.where)
            continue
        ok = len(t[2]) == 2 and t[2][1] == ('sym', 'x')
        conv = t[2][0] if t[2] else None
        if conv is not None and conv[0] == 'call' and callname(conv) in (
                'conversion', 'conversion_factory') and len(conv[2]) == 2:
            a, b = conv[2]
            ok = ok and a in (('attr', S, 'unit'), ('attr', S, '_unit'),
                              ('attr', ('sym', 'x'), 'unit')) and b == new
        else:
            ok = None if ok else ok
        rep.ob('context', 'Context.convert', ok, f"applies {show(t)}", f.where)
    if not n:
        rep.ob('context', 'Context.convert', False, "never returns", f.where)
    for o in it.run(program.lookup('eprempy.measured._object:Object', 'withunit')[1][1],
                    selfclass='eprempy.measured._object:Object'):
        t = it.snap(o.value, o.st)
        if o.kind != 'return':
            continue
        ok = None
        if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'convert':
            ok = t[2] == (S, new) and t[1][1] in (('attr', S, '_context'),
                                                  ('attr', S, 'context'))
        elif t in (S, K(None)):
            ok = False
        rep.ob('context', 'Object.withunit', ok, f"returns {show(t)}", f.where)
    # each class in use has this method
    for name, cls in CLS.items():
        if name == 'Coordinates':
            g = program.lookup(cls, 'withunit')[1][1]
            it2 = Interp(program, Config(inline=lambda g: False, trace=False))
            for o in it2.run(g, selfclass=cls):
                t = it2.snap(o.value, o.st)
                if o.kind != 'return':
                    continue
                w = ('call', ('attr', ('attr', S, 'data'), 'withunit'), (new,), ())
                ok = t[0] == 'call' and callname(t) == 'spawn' and t[2] and \
                    t[2][0] == w or None
                if t[0] == 'call' and callname(t) == 'spawn' and t[2] and \
                        new not in set(subterms(t)):
                    ok = False
                if t in (S, K(None)):
                    ok = False
                rep.ob('context', 'Coordinates.withunit', ok, show(t), g.where)
            continue
        found = program.lookup(cls, 'withunit')
        rep.ob('context', f"{name} has withunit", bool(found) and
               found[0] == 'eprempy.measured._object:Object' or None,
               '', program.classes[cls].where)


def access(program, rep):
    """Attributes of an object follow from what it was created with."""
    D, A = ('sym', 'data'), ('sym', 'axes')
    mods = inmodules(*MODS)
    for name, cls in CLS.items():
        if name == 'Coordinates':
            continue
        args = [D, CTX] + ([A] if name == 'Array' else [])
        cfg = Config(inline=mods, props=mods, instantiate={cls}, trace=False)
        it = Interp(program, cfg)
        st = State()
        where = program.classes[cls].where
        it.sinks.append([])
        fr = it._frame(program.classes[cls].module, None, None)
        try:
            res = it.call(('class', cls), args, {}, st, None, fr)
        except Exception as err:
            rep.ob('access', name, None, f"{err}", where)
            continue
        it.sinks.pop()
        want = {
            'data': [D], 'unit': [('attr', CTX, 'unit')], 'context': [CTX],
            'isunitless': None,
        }
        if name == 'Array':
            want['axes'] = [A]
        for v, s in res:
            for attr, vals in want.items():
                it.sinks.append([])
                try:
                    got = [it.snap(w, z) for w, z in
                           it.getattr(v, attr, s.copy(), None, fr)]
                except Exception as err:
                    rep.ob('access', f"{name}.{attr}", None, f"{err}", where)
                    it.sinks.pop()
                    continue
                it.sinks.pop()
                for t in got:
                    if attr == 'isunitless':
                        ok = isunitless(t)
                    elif attr == 'data':
                        ok = data_of(t, D)
                    else:
                        ok = t in vals or (None if t[0] == 'attr' and
                                           t[1][0] == 'new' else
                                           False if simple(t) else None)
                    rep.ob('access', f"{name}.{attr}", ok, f"is {show(t)}", where)
    # a rescaled array reports rescaled data
    cls = CLS['Array']
    cfg = Config(inline=mods, props=mods, instantiate={cls}, trace=False)
    it = Interp(program, cfg)
    st = State()
    it.sinks.append([])
    fr = it._frame(program.classes[cls].module, None, None)
    F = ('sym', 'factor')
    for v, s in it.call(('class', cls), [D, CTX, A], {}, st, None, fr):
        s.attrs[(v, '_scale')] = F
        for w, z in it.getattr(v, 'data', s, None, fr):
            t = it.snap(w, z)
            ok = t in (('op', 'mul', F, D), ('op', 'mul', D, F))
            if not ok:
                ok = False if D in set(subterms(t)) else None
            rep.ob('access', 'Array.data after rescaling', ok, f"is {show(t)}",
                   program.classes[cls].where)
        for name in members(program, cls):
            rescaled(program, rep, it, v, s, name, fr, F, D)
    it.sinks.pop()


SHAPES = ('shape', 'size', 'ndim', 'dimensions', 'shapemap', 'dtype', 'dataset',
          '_data', 'signature')


def members(program, cls):
    """Properties and methods of an array that take no more than one argument."""
    out = []
    for q in program.mro(cls):
        for name, entries in program.classes[q].members.items():
            if name not in out and any(e[0] == 'func' for e in entries) and \
                    name not in ('__init__', '__new__', 'withunit', '_get_factory',
                                 '__init_subclass__', 'data', '__repr__', '__str__',
                                 'display', '__measure__'):
                out.append(name)
    return out


def rescaled(program, rep, it, v, s, name, fr, F, D):
    """What a member of a rescaled array returns."""
    found = program.lookup(CLS['Array'], name)
    if not found or found[1][0] != 'func':
        return
    f = found[1][1]
    if f.module.name not in ('eprempy.physical._array', 'eprempy.physical._object',
                             'eprempy.measured._object', 'eprempy.numeric._objects'):
        return
    if program.isstatic(f) or program.isclassmethod(f) or program.isabstract(f):
        return
    a = f.node.args
    extra = [x.arg for x in (*a.posonlyargs, *a.args)][1:]
    it.sinks.append([])
    try:
        if program.isproperty(f):
            got = it.getattr(v, name, s.copy(), None, fr)
        else:
            got = []
            for m, z in it.getattr(v, name, s.copy(), None, fr):
                got += it.call(m, [('sym', 'arg ' + x) for x in extra] +
                               ([('star', ('sym', 'args'))] if a.vararg else []),
                               {}, z, None, fr)
    except Exception as err:
        rep.note(f"Array.{name} after rescaling not followed: {err}")
        return
    finally:
        it.sinks.pop()
    for w, z in got:
        try:
            t = it.snap(w, z)
        except Exception:
            continue
        t = mapterm(t, lambda x: ('sym', 'rescaled') if x in (
            ('op', 'mul', F, D), ('op', 'mul', D, F)) else x)
        t = mapterm(t, lambda x: ('sym', 'shape') if x[0] == 'attr' and
                    x[2] in SHAPES else x)
        # the object itself mentions its own unscaled data
        t = mapterm(t, lambda x: ('sym', 'self') if x[0] == 'new' and
                    x[1] == CLS['Array'] else x)
        if not {('sym', 'rescaled'), D} & set(subterms(t)):
            continue
        rep.ob('access', f"Array.{name} after rescaling", D not in set(subterms(t)),
               f"is {show(t)}", f.where)


def simple(t):
    return all(x[0] in ('attr', 'sym', 'k', 'new') or not isinstance(x[0], str)
               for x in subterms(t))


def isunitless(t):
    u = ('attr', CTX, 'unit')
    if t[0] == 'op' and t[1] in ('eq', 'ne') and u in t[2:]:
        other = t[3] if t[2] == u else t[2]
        other = unwrapunit(other)
        return t[1] == 'eq' and other == ONE if isk(other) else None
    return None


def data_of(t, D):
    while True:
        if t == D:
            return True
        if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in PASS and t[2]:
            t = t[2][0]
        elif t[0] == 'op' and t[1] == 'mul' and (K(1.0) in t[2:] or K(1) in t[2:]):
            t = t[3] if t[2] in (K(1.0), K(1)) else t[2]
        elif t[0] == 'op' and t[1] in ('mul', 'truediv', 'add', 'sub', 'pow', 'neg'):
            return False
        else:
            return None if D in set(subterms(t)) else False


def items(program, rep):
    S, I = ('sym', 'self'), ('sym', 'i')
    data = ('attr', S, 'data')
    for name in ('Vector', 'Tensor', 'Sequence', 'Measurement'):
        cls = CLS[name]
        for meth in ('__getitem__', '__iter__'):
            found = program.lookup(cls, meth)
            if not found or found[1][0] != 'func':
                continue
            f = found[1][1]
            param = [a.arg for a in (*f.node.args.posonlyargs, *f.node.args.args)]
            it = Interp(program, Config(inline=inmodules(f.module.name),
                                        trace=False))
            args = {param[1]: I} if len(param) > 1 else {}
            for o in it.run(f, selfclass=cls, args=args):
                if o.kind != 'return':
                    continue
                t = it.snap(o.value, o.st)
                if t == ('call', ('attr', S, '__iter__'), (), ()):
                    continue            # the inherited iteration by index
                if meth == '__iter__':
                    if t[0] in ('list', 'gen', 'tuple') and len(t[1]) == 1:
                        t = t[1][0][1] if t[1][0][0] in ('many', 'star') else t[1][0]
                    else:
                        rep.ob('item', f"{name}.{meth}", None, show(t), f.where)
                        continue
                if t[0] != 'call' or not t[2]:
                    rep.ob('item', f"{name}.{meth}", False if t == K(None) else
                           None, show(t), f.where)
                    continue
                kw = dict(t[3])
                u = kw.get('unit', t[2][1] if len(t[2]) > 1 else None)
                d = t[2][0]
                rep.ob('item', f"{name}.{meth} unit", u == ('attr', S, 'unit'),
                       f"unit is {show(u or K(None))}", f.where)
                if meth == '__getitem__':
                    ok = True if d == ('sub', data, I) else (
                        False if I not in set(subterms(d)) else None)
                    rep.ob('item', f"{name}.{meth} data", ok, show(d), f.where)
                elif d[0] != 'iter':
                    rep.ob('item', f"{name}.{meth} data", None, show(d), f.where)


def measure(program, rep):
    S = ('sym', 'self')
    for q in ('eprempy.physical._object:Object', CLS['Coordinates']):
        found = program.lookup(q, '__measure__')
        if not found:
            rep.ob('measure', q, None, 'not found', '')
            continue
        f = found[1][1]
        it = Interp(program, Config(inline=inmodules(f.module.name), trace=False))
        for o in it.run(f, selfclass=q):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            name = q.split(':')[1]
            if t[0] != 'call' or not t[2]:
                rep.ob('measure', name, None, show(t), f.where)
                continue
            kw = dict(t[3])
            u = kw.get('unit', t[2][1] if len(t[2]) > 1 else None)
            d = t[2][0]
            if d in (S,):
                ok = u in (None, ('attr', S, 'unit'))
            elif name == 'Coordinates':
                ok = d == ('attr', S, 'data') and (
                    u is None or u == ('attr', S, 'unit'))
            else:
                ok = d == ('attr', S, 'data') and u == ('attr', S, 'unit')
            rep.ob('measure', name, ok, show(t), f.where)
