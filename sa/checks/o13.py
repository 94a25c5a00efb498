"""O13: subscripting an observable selects, and interpolates to, requested values."""

from ..absint import Interp, Config, State, K, show, isk
from ..model import AnalysisError
from .o11 import self_attr

LEVEL = 'other'
EXPLANATION = (
    "Abstract interpretation of the code between a subscripted observable quantity "
    "and the value it returns. Quantity.__getitem__ and Context.implement are "
    "interpreted once per kind of request (index, slice, value on the axis, value "
    "between the values of the axis) for every axis, and the arguments that reach "
    "the implementation are compared with the request. The interpolation itself is "
    "evaluated over arrays of which only the order of the dimensions is known: "
    "every moveaxis, swapaxes, stack and loop is followed, so that the result must "
    "have the dimensions of the input in the same order, with the interpolated one "
    "replaced by the requested values, for every position of that dimension. The "
    "selection of reference values, bounds, units and remaining indices is read "
    "from the call that is made for each combination of requested values."
)
ASSUMPTIONS = [
    "numpy.moveaxis, numpy.swapaxes and scipy's interp1d do what they are "
    "documented to do",
    "conversion to the unit of an axis is checked by N09",
]
M = 'eprempy.observable._interfaces'
O = 'eprempy.observable._objects'
IMPL = M + ':Implementations'
Q = O + ':Quantity'
CTX = O + ':Context'
ARGS = O + ':Arguments'
COORDS = ('time', 'energy', 'mu')
AXES = ('time', 'shell', 'species', 'energy', 'mu')
ARRAYS = ('glob', 'eprempy.reference:ARRAYS')
RADIUS = ('radius', 'r', 'R')
V = ('sym', 'V')


class Unread(Exception):
    """A term this check cannot interpret."""


class Wrong(Exception):
    """A construct that breaks the property."""


def called(t, *names):
    """Whether t calls a function or class of one of these names."""
    if t[0] != 'call' or t[1][0] not in ('func', 'class', 'ext', 'attr'):
        return False
    n = t[1][2] if t[1][0] == 'attr' else t[1][1].rpartition(':')[2]
    return n in names or n.rpartition('.')[2] in names


# -- interpolation over labelled dimensions ---------------------------------

class Arr:
    """An array whose dimensions are known by name."""

    def __init__(self, labels, role):
        self.labels = list(labels)
        self.role = role        # 'data', 'reference', 'targets', 'lines'


class Line:
    """Linear interpolation along one dimension."""

    def __init__(self, labels, over):
        self.labels = list(labels)
        self.over = over


class Labels:
    """Evaluates a term of the interpolation code to an array."""

    def __init__(self, facts, interpolants, dims):
        self.facts = facts
        self.interpolants = interpolants    # key -> labels of the reference
        self.dims = dims
        self.assumed = set()

    def ev(self, t):
        if t == ('sym', 'array'):
            return Arr(self.dims, 'data')
        for k, labels in self.interpolants.items():
            if t == ('attr', ('sym', 'I' + k), 'reference'):
                return Arr(labels, ('reference', k))
            if t == ('attr', ('sym', 'I' + k), 'targets'):
                return Arr(['=' + k], ('targets', k))
        if t[0] == 'attr' and t[2] == 'data':
            return self.ev(t[1])
        if t[0] == 'iter':
            x = self.ev(t[1])
            if not x.labels:
                raise Wrong("iterates over a single value")
            return Arr(x.labels[1:], x.role)
        if t[0] in ('list', 'tuple') and len(t[1]) == 1 and t[1][0][0] == 'many':
            return self.many(t[1][0])
        if t[0] == 'sub':
            return self.subscript(t)
        if t[0] == 'call':
            return self.call(t)
        raise Unread(show(t)[:100])

    def many(self, t):
        """Stacked along the dimension the loop runs over."""
        bound = [c[1] for c in t[2] if c[0] == 'over']
        if len(bound) != 1:
            raise Unread('loop over an unknown collection')
        el = bound[0]
        parts = el[1] if el[0] == 'tuple' else [el]
        lead = []
        for p in parts:
            if p[0] == 'idx':
                p = ('iter', p[1])
            if p[0] != 'iter':
                x = self.lines(p)
                lead.append(x)
                continue
            x = self.ev(p[1])
            if not x.labels:
                raise Wrong("iterates over a single value")
            lead.append(x.labels[0])
        if len(set(lead)) != 1:
            raise Wrong("pairs values along " + ' and '.join(lead))
        x = self.ev(t[1])
        if isinstance(x, Line):
            return Line([lead[0], *x.labels], x.over)
        return Arr([lead[0], *x.labels], x.role)

    def lines(self, p):
        """The dimension along which a loop over prepared items runs."""
        found = set()

        def walk(t):
            if not isinstance(t, tuple):
                return
            if len(t) == 2 and t[0] == 'iter':
                x = self.ev(t[1])
                found.add((x.labels or ['?'])[0])
                return
            for y in t:
                walk(y)
        walk(p)
        if len(found) != 1:
            raise Unread(show(p)[:100])
        return found.pop()

    def ints(self, t):
        if isk(t, int):
            return (t[2],)
        if t[0] in ('tuple', 'list') and all(isk(x, int) for x in t[1]):
            return tuple(x[2] for x in t[1])
        raise Unread(show(t)[:80])

    def call(self, t):
        f, args, kwargs = t[1], t[2], dict(t[3])
        if f[0] == 'ext':
            n = f[1].rpartition('.')[2]
            if n in ('array', 'asarray', 'asfarray', 'stack', 'copy', 'list',
                     'tuple', 'float', 'vstack') and args:
                if n == 'stack' and kwargs.get('axis', K(0)) != K(0):
                    raise Unread('stack')
                return self.ev(args[0])
            if n in ('moveaxis', 'swapaxes'):
                x = self.ev(args[0])
                rest = list(args[1:]) + [kwargs[k] for k in (
                    'source', 'destination', 'axis1', 'axis2') if k in kwargs]
                a, b = self.ints(rest[0]), self.ints(rest[1])
                size = len(x.labels)
                if len(a) != len(b) or any(not -size <= i < size for i in a + b):
                    raise Wrong(f"{n} moves dimensions that do not exist")
                a, b = [i % size for i in a], [i % size for i in b]
                out = list(x.labels)
                if n == 'swapaxes':
                    out[a[0]], out[b[0]] = out[b[0]], out[a[0]]
                else:
                    out = [y for i, y in enumerate(out) if i not in a]
                    for d, s in sorted(zip(b, a)):
                        out.insert(d, x.labels[s])
                return Arr(out, x.role)
            if n == 'interp1d':
                return self.line(args, kwargs)
        if f[0] in ('call', 'iter', 'sub') and len(args) == 1:
            g = self.ev(f)
            if isinstance(g, Line):
                x = self.ev(args[0])
                if x.role[0] != 'targets':
                    raise Wrong("interpolates to values that are not the targets")
                if x.role[1] != g.over[1]:
                    raise Wrong(f"interpolates {g.over[1]} to the targets of "
                                f"{x.role[1]}")
                return Arr(x.labels + g.labels, 'data')
        raise Unread(show(t)[:100])

    def line(self, args, kwargs):
        x, y = self.ev(args[0]), self.ev(args[1])
        axis = kwargs.pop('axis', K(-1))
        kind = kwargs.pop('kind', args[2] if len(args) > 2 else K('linear'))
        if kind != K('linear'):
            raise Wrong(f"interpolation of kind {show(kind)}")
        kwargs.pop('assume_sorted', None)
        kwargs.pop('copy', None)
        if kwargs.pop('bounds_error', K(None)) not in (K(None), K(True)):
            raise Wrong("values outside the reference are not refused")
        if 'fill_value' in kwargs:
            raise Wrong("values outside the reference are not refused")
        if kwargs:
            raise Unread('interp1d ' + ' '.join(kwargs))
        if x.role[0] != 'reference' or y.role != 'data':
            raise Wrong("interpolates with respect to the wrong values")
        if len(x.labels) != 1:
            raise Wrong(f"interpolates over values of {len(x.labels)} dimensions "
                        "at once")
        i, = self.ints(axis)
        if not -len(y.labels) <= i < len(y.labels) or \
                y.labels[i] != x.labels[0]:
            raise Wrong(f"interpolates along {y.labels[i]!r} with values along "
                        f"{x.labels[0]!r}")
        rest = list(y.labels)
        del rest[i]
        return Line(rest, (x.labels[0], x.role[1]))

    def truth(self, test):
        """What the path assumes of a condition."""
        for k, v in self.facts.items():
            r = test(k)
            if r:
                return v if r is True else not v
        return None

    def subscript(self, t):
        x = self.ev(t[1])
        i = t[2]
        if not x.labels:
            raise Wrong("subscripts a single value")
        if isk(i, int):
            # allowed when there is only one value
            key = next((k for k, v in self.interpolants.items()
                        if v[-1] == x.labels[0]), None)
            if key is None:
                raise Unread('subscript')
            ref = ('attr', ('sym', 'I' + key), 'reference')

            def size(k):
                if k[:2] != ('op', 'eq') or K(1) not in k[2:]:
                    return False
                y = k[2] if k[3] == K(1) else k[3]
                if y[0] == 'attr' and y[2] == 'size' or called(y, 'len'):
                    z = y[1] if y[0] == 'attr' else y[2][0]
                    while z[0] == 'call' and z[2] and z != ref:
                        z = z[2][0]
                    return z == ref
                return False
            if i[2] not in (0, -1) or self.truth(size) is not True:
                raise Wrong("uses one value of an array with many")
            if x.role != 'data':
                raise Unread('subscript of the reference')
            return Arr(x.labels[1:], x.role)
        # the element at which the reference equals the target
        if i[0] == 'attr' and i[2] == 'index' and called(i[1], 'nearest') or \
                i[0] == 'sub' and i[2] == K(1) and called(i[1], 'nearest'):
            args = i[1][2]
            r, g = self.ev(args[0]), self.ev(args[1])
            if len(r.labels) != 1 or r.role[0] != 'reference' or \
                    g.labels or g.role != ('targets', r.role[1]):
                raise Wrong("uses the element nearest to something else than the "
                            "target")
            if r.labels[0] != x.labels[0]:
                raise Wrong(f"picks an element along {x.labels[0]!r} with an index "
                            f"along {r.labels[0]!r}")

            def member(k):
                if k[:2] == ('op', 'in'):
                    try:
                        a, b = self.ev(k[2]), self.ev(k[3])
                    except (Unread, Wrong):
                        return False
                    return not a.labels and a.role == g.role and b.role == r.role
                return False
            if self.truth(member) is not True:
                raise Wrong("uses the nearest element instead of interpolating")
            return Arr(x.labels[1:], x.role)
        raise Unread(show(t)[:100])


def compared(c, labels):
    """The outcome of a comparison of numbers of dimensions, if known."""
    nums = []
    for x in c[2:]:
        if isk(x, int):
            nums.append(x[2])
        elif x[0] == 'attr' and x[2] == 'ndim':
            try:
                nums.append(len(labels.ev(x[1]).labels))
            except (Unread, Wrong):
                return None
        else:
            return None
    a, b = nums
    return {'eq': a == b, 'lt': a < b, 'le': a <= b}[c[1]]


def interpolation(P, rep):
    found = [f for q, f in P.funcs.items() if f.cls is None and
             f.name == 'interpolate' and f.module.name in (M, O)]
    cases = []
    full = list(AXES)
    for dims in (['time', 'shell'], full, ['time', 'shell', 'species', 'energy'],
                 ['shell', 'time'], ['energy', 'time', 'shell']):
        cases.append((dims, ['radius']))
        cases.append((dims, ['time']))
        cases.append((dims, ['radius', 'time']))
    for dims in (full, ['energy', 'time', 'shell'], ['species', 'energy']):
        cases.append((dims, ['energy']))
    cases += [(full, ['mu']), (full, ['time', 'mu']), (full, ['radius', 'energy']),
              (['energy'], ['energy']), (['species', 'energy'], ['energy'])]
    for fn in found:
        for dims, keys in cases:
            one(P, rep, fn, dims, keys)
    if not found:
        rep.ob('interpolation', 'interpolate', None, 'not found')


def one(P, rep, fn, dims, keys):
    a = [x.arg for x in (*fn.node.args.posonlyargs, *fn.node.args.args)]
    if len(a) < 2:
        rep.ob('interpolation', fn.qual, None, 'unexpected signature', fn.where)
        return
    refs = {k: ['time', 'shell'] if k == 'radius' else [k] for k in keys}
    st = State()
    arr = ('sym', 'array')
    st.attrs[(arr, 'dimensions')] = ('tuple', tuple(K(d) for d in dims))
    preset(st)
    for k in keys:
        ref = ('attr', ('sym', 'I' + k), 'reference')
        st.attrs[(ref, 'dimensions')] = ('tuple', tuple(K(d) for d in refs[k]))
    # a copy of the interpolated array's axes

    def decide(it, c, s):
        if c[:2] == ('op', 'is') and K(None) in c[2:] and any(
                y[0] == 'call' and y[1][0] == 'ext' for y in c[2:]):
            return False
        if c[0] == 'op' and c[1] in ('eq', 'lt', 'le') and 'ndim' in repr(c):
            return compared(c, Labels(s.facts, refs, dims))
        return None
    it = Interp(P, Config(inline=lambda g: g.module is fn.module and g.cls is None,
                          binders=True, decide=decide))
    args = {a[0]: arr, a[1]: ('dict', tuple(
        (K(k), ('sym', 'I' + k)) for k in keys))}
    label = f"{fn.module.name.rpartition('.')[2]}.interpolate({' '.join(dims)}) " \
            f"to {' '.join(keys)}"
    # keys of the interpolants tell the dimension they replace
    want = []
    for d in dims:
        k = 'radius' if d == 'shell' and 'radius' in keys else d
        want.append('=' + k if k in keys else d)
    done = False
    for o in it.run(fn, args=args, state=st):
        if o.kind != 'return':
            continue
        t = it.snap(o.value, o.st)
        lab = Labels(o.st.facts, refs, dims)
        rep.count('paths')
        done = True
        try:
            judged(t, lab, keys, want)
            rep.ob('interpolation', label, True)
        except Wrong as err:
            rep.ob('interpolation', label, False, str(err), fn.where)
        except (Unread, IndexError, KeyError, AttributeError, ValueError) as err:
            rep.ob('interpolation', label, None, str(err)[:160], fn.where)
    if not done:
        rep.ob('interpolation', label, False, 'never returns', fn.where)


def preset(st):
    st.attrs[(ARRAYS, 'aliases')] = ('dict', (
        (K('radius'), ('tuple', tuple(K(k) for k in RADIUS))),
        (K('r'), ('tuple', tuple(K(k) for k in RADIUS)))))


def judged(t, lab, keys, want):
    arr = ('sym', 'array')
    if t == arr:
        raise Wrong("returns the array itself")
    if t == K(None):
        raise Wrong("returns None")
    if t[0] != 'call' or not (t[1] == ('attr', arr, 'spawn') or called(
            t, 'Array', 'array', 'array_factory')):
        raise Unread(show(t)[:120])
    kw = dict(t[3])
    data = t[2][0] if t[2] else kw.get('data')
    x = lab.ev(data)
    if x.labels != want:
        raise Wrong(f"the result has dimensions {names(x.labels)} instead of "
                    f"{names(want)}")
    if x.role != 'data':
        raise Wrong("the result is not interpolated data")
    unit = kw.get('unit') or (t[2][1] if len(t[2]) > 1 else None)
    if unit is not None and unit != ('attr', arr, 'unit'):
        if unit[0] in ('attr', 'k'):
            raise Wrong(f"the result has unit {show(unit)}")
        raise Unread(show(unit))
    if unit is None:
        raise Wrong("the result has no unit")
    if 'axes' not in kw:
        raise Wrong("the result has no axes")
    got = replaced(kw['axes'])
    if set(got) != set(keys):
        raise Wrong(f"axes replaced for {names(got)} instead of {names(keys)}")


def names(x):
    return ', '.join(str(i) for i in x)


def replaced(t):
    """{key: True} of axes replaced in the axes of the array."""
    base = ('attr', ('sym', 'array'), 'axes')
    if t in (base, ('call', ('attr', base, 'copy'), (), ())):
        return []
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'replace':
        out = replaced(t[1][1])
        args, kw = t[2], t[3]
        if not args or not isk(args[0], str):
            raise Unread(show(t)[:100])
        old = args[0][2]
        if len(args) == 2 and not kw:
            new, axis = old, args[1]
        elif len(args) == 1 and len(kw) == 1:
            new, axis = kw[0]
        else:
            raise Wrong("axis replaced with wrong arguments")
        key = new
        if (old == 'shell') != (new in RADIUS):
            raise Wrong(f"replaces the axis {old!r} with {new!r}")
        if new not in RADIUS and new != old:
            raise Wrong(f"replaces the axis {old!r} with {new!r}")
        if new in RADIUS and new != 'radius':
            raise Wrong(f"calls the radial axis {new!r}")
        inner = axis
        if not called(inner, 'Coordinates', 'coordinates'):
            raise Wrong(f"the new axis is {show(axis)[:80]}") if isk(axis) \
                else Unread(show(axis)[:100])
        if len(inner[2]) != 1:
            raise Unread(show(axis)[:100])
        inner = inner[2][0]
        me = ('sym', 'I' + key)
        if called(inner, 'sequence', 'Sequence', 'measure'):
            a = inner[2]
            unit = a[1] if len(a) > 1 else dict(inner[3]).get('unit')
            if a[0] == ('attr', me, 'targets'):
                if unit is None:
                    raise Wrong("the new axis has no unit")
                if unit == ('attr', ('attr', me, 'reference'), 'unit'):
                    return out + [key]
                raise Wrong(f"the new axis has unit {show(unit)[:80]}")
            if a[0][0] == 'attr':
                raise Wrong(f"the new axis has values {show(a[0])[:80]}")
        raise Unread(show(axis)[:100])
    raise Unread(show(t)[:100])


# -- from request to implementation ------------------------------------------

def inlined(P, cls):
    return lambda g: (str(g.cls) == cls and not P.isproperty(g)) or (
        g.cls is None and g.module.name == cls.partition(':')[0])


SLICES = (('call', ('ext', 'builtins.slice'), (K(None),), ()),
          ('slice', K(None), K(None), K(None)))


def request(P, rep):
    found = P.lookup(CTX, 'implement')
    if not found:
        rep.ob('request', 'Context.implement', False, 'is not defined')
        return
    fn = found[1][1]
    for k in AXES:
        for kind in ('index', 'slice', 'value on the axis', 'value off the axis'):
            if kind == 'value off the axis' and k not in COORDS:
                continue
            scenario(P, rep, fn, k, kind)
    scenario(P, rep, fn, 'radius', 'value')
    scenario(P, rep, fn, 'minimum energy', 'value')


def scenario(P, rep, fn, k, kind):
    axes = self_attr('axes')

    def named(x, name):
        return x == K(name) or x[0] == 'call' and x[2] and x[2][0] == K(name)

    def decide(it, a, st):
        if a[0] == 'truthy':
            a = a[1]
        if a[:2] == ('op', 'in') and a[3] == axes:
            for n in (*AXES, 'radius', 'minimum energy', ''):
                if named(a[2], n):
                    return n in AXES
        if called(a, 'isindexlike') and len(a[2]) == 1:
            x = it.snap(a[2][0], st)
            return x == V and kind == 'index' if x == V or x in SLICES else None
        if a[0] == 'isa':
            x = a[1]
            if x in SLICES:
                return 'slice' in repr(a[2])
            if x == V and 'slice' in repr(a[2]):
                return kind == 'slice'
        return None
    it = Interp(P, Config(inline=inlined(P, CTX), decide=decide, binders=True))
    label = f"{k} given as {'an' if kind[0] == 'i' else 'a'} {kind}"
    done = False
    off = kind == 'value off the axis'
    for o in it.run(fn, selfclass=CTX, args={'user': ('dict', ((K(k), V),))}):
        caught = any(x[0] == 'exc' and x[1] == 'caught' for x in o.st.facts)
        supp = any(x[0] == 'exc' and x[1] == 'suppressed' for x in o.st.facts)
        if o.kind != 'return' or caught != off or supp:
            continue
        rep.count('paths')
        done = True
        t = it.snap(o.value, o.st)
        try:
            bad = arguments(t, k, kind)
            rep.ob('request', label, not bad, bad or '', fn.where)
        except Unread as err:
            rep.ob('request', label, None, str(err)[:160], fn.where)
    if not done:
        rep.ob('request', label, None if off else False, 'never observed',
               fn.where)


def arguments(t, k, kind):
    """What is wrong with the call the request leads to, or ''."""
    if t[0] != 'call' or t[1] not in (self_attr('operator'), self_attr('apply')):
        return 'does not observe' if t == K(None) else unread(t)
    if len(t[2]) != 1 or not called(t[2][0], 'Arguments'):
        raise Unread(show(t)[:120])
    args, kw = t[2][0][2], dict(t[2][0][3])
    idx = args[0] if args else kw.pop('indices', None)
    if idx is None or idx[0] != 'dict':
        raise Unread(show(t)[:120])
    idx = {x[2]: y for x, y in idx[1] if isk(x, str)}
    off = kind.startswith('value') and kind != 'value on the axis'
    if off:
        if set(kw) != {k}:
            return f"the values of {k!r} are not passed on" if k not in kw else \
                f"passes on values of {names(set(kw) - {k})}"
        if not is_measured(kw[k]):
            if kw[k][0] == 'k' or called(kw[k], 'sequence'):
                return f"passes {show(kw[k])[:80]} as values of {k!r}"
            raise Unread(show(kw[k])[:100])
    elif kw:
        return f"interpolates to {names(kw)}"
    if k == 'minimum energy':
        return f"indexes {names(idx)}" if idx else ''
    dim = 'shell' if k == 'radius' else k
    if set(idx) != {dim}:
        return f"indexes {names(idx) or 'nothing'} instead of {dim}"
    x = idx[dim]
    axis = ('sub', self_attr('axes'), K(k))
    if kind == 'index':
        if x == V or called(x, 'sequence', 'value') and x[2] == (V,):
            return ''
    elif kind == 'slice':
        if x[0] == 'sub' and x[2] == V and x[1][0] == 'attr' and \
                x[1][2] == 'indices':
            return which(x[1][1], k)
        if x == V:
            raise Unread(show(x))
    elif kind == 'value on the axis':
        if x[0] == 'call' and x[1][0] == 'attr' and x[1][2] == 'index' and \
                x[2] == (V,):
            return which(x[1][1], k)
    else:
        return restricted(x, k)
    if x[0] == 'call' and V in x[2] or x[0] in ('k', 'slice') or x in SLICES:
        return f"indexes with {show(x)[:80]}"
    raise Unread(show(x)[:120])


def unread(t):
    raise Unread(show(t)[:120])


def is_measured(t):
    return called(t, 'measure') and t[2] == (V,) or t == V


def which(t, k):
    """'' if t is the axis k."""
    if t[0] == 'sub' and t[1] == self_attr('axes'):
        n = t[2]
        if n == K(k) or n[0] == 'call' and n[2] and n[2][0] == K(k):
            return ''
        if isk(n):
            return f"uses the axis {n[2]!r}"
    raise Unread(show(t)[:100])


def restricted(x, k):
    """'' if x covers the elements that bound the requested values."""
    if not called(x, 'sequence') or len(x[2]) != 1:
        if x in SLICES or x[0] == 'sub' and x[2] in SLICES:
            return ''       # interpolating over the whole axis is as good
        raise Unread(show(x)[:120])
    x = x[2][0]
    if not called(x, 'restrict') or not x[2]:
        raise Unread(show(x)[:120])
    base = ('attr', self_attr('grid'), 'r') if k == 'radius' else \
        ('sub', self_attr('axes'), K(k))
    if x[2][0] != base:
        return f"bounds the values along {show(x[2][0])[:80]}"
    axis = dict(x[3]).get('axis')
    want = (1, -1) if k == 'radius' else (0, -1)
    if axis is None or not isk(axis):
        raise Unread('axis')
    if axis[2] not in want:
        return f"bounds the values along dimension {axis[2]}"
    rest = x[2][1:]
    if not rest:
        return 'bounds no values'
    if len(rest) != 1:
        raise Unread(show(x)[:120])
    v = rest[0]
    if v[0] == 'sub':
        return 'bounds one of several values'
    v = v[1] if v[0] in ('many', 'star') else v
    while called(v, 'float') and len(v[2]) == 1:
        v = v[2][0]
    if v[0] != 'iter':
        raise Unread(show(v)[:100])
    v = v[1]
    if is_measured(v):
        return 'bounds values in the unit of the request'
    if v[0] == 'call' and v[1][0] == 'attr' and v[1][2] == 'withunit' and \
            is_measured(v[1][1]) and len(v[2]) == 1:
        u = v[2][0]
        if u == ('attr', base, 'unit'):
            return ''
        if u[0] in ('attr', 'k'):
            return f"bounds values in {show(u)[:60]}"
    raise Unread(show(v)[:100])


def subscription(P, rep):
    found = P.lookup(Q, '__getitem__')
    if not found:
        rep.ob('subscript', 'Quantity.__getitem__', False, 'is not defined')
        return
    fn = found[1][1]
    names_ = [x.arg for x in (*fn.node.args.posonlyargs, *fn.node.args.args)]
    user = ('sym', names_[1] if len(names_) > 1 else 'args')
    number(P, rep, fn, user)
    for dims in (('time',), ('energy',), ('species',), ('time', 'shell'), AXES,
                 ('time', 'shell', 'species', 'energy'), ('species', 'energy')):
        st = State()
        me = ('sym', 'self')
        st.attrs[(me, 'dimensions')] = ('tuple', tuple(K(d) for d in dims))
        st.attrs[(me, 'ndim')] = K(len(dims))
        given = []

        def expand(it, f, args, kwargs, st, node, fr, dims=dims, given=given):
            given.append((tuple(it.snap(a, st) for a in args), st.facts.copy()))
            return [(('tuple', tuple(('sym', '@' + d) for d in dims)), st)]
        it = Interp(P, Config(inline=inlined(P, Q), models={
            'eprempy.numeric._index:expand': expand}))
        for o in it.run(fn, selfclass=Q, state=st):
            if o.kind != 'return':
                continue
            rep.count('paths')
            t = it.snap(o.value, o.st)
            label = f"quantity[{', '.join(dims)}]"
            try:
                bad = observed(t, o.st.facts, dims, user)
                rep.ob('subscript', label, not bad, bad or '', fn.where)
            except Unread as err:
                rep.ob('subscript', label, None, str(err)[:160], fn.where)
        for args, facts in given:
            label = f"normalized indices of {len(dims)} dimension" + \
                's'[:len(dims) > 1]
            if len(args) < 2:
                continue
            if args[0] != K(len(dims)):
                rep.ob('subscript', label, False if isk(args[0]) else None,
                       show(args[0]), fn.where)
                continue
            single = any(v and called(k, 'ismeasurable') for k, v in facts.items())
            ok = args[1] == user or len(dims) == 1 and args[1] in (
                ('list', (user,)), ('tuple', (user,)))
            if single and len(dims) == 1:
                ok = args[1] != user
            rep.ob('subscript', label, ok, f"from {show(args[1])}", fn.where)


def number(P, rep, fn, user):
    """Any other number of indices than of dimensions is refused."""
    it = Interp(P, Config(inline=inlined(P, Q)))
    me = ('sym', 'self')
    lens = [('attr', me, 'ndim'),
            ('call', ('ext', 'builtins.len'), (('attr', me, 'dimensions'),), ())]
    for o in it.run(fn, selfclass=Q):
        if o.kind != 'return':
            continue
        t = it.snap(o.value, o.st)
        if any(k[0] == 'isa' and k[1] == user and v and 'Arguments' in repr(k[2])
               for k, v in o.st.facts.items()):
            ok = t == ('call', ('attr', self_attr('context'), 'apply'), (user,), ())\
                or t == ('call', ('attr', self_attr('context'), 'operator'),
                         (user,), ())
            rep.ob('subscript', 'existing arguments', ok if ok else None,
                   show(t)[:120], fn.where)
            continue
        known = None
        for k, v in o.st.facts.items():
            if k[:2] == ('op', 'eq') and any(x in lens for x in k[2:]) and any(
                    called(x, 'len') and x not in lens for x in k[2:]):
                known = v
        rep.ob('subscript', 'the number of indices is checked', known is True,
               '' if known else 'accepts a wrong number of indices', fn.where)


def observed(t, facts, dims, user):
    for k, v in facts.items():
        if k[0] == 'isa' and k[1] == user and v and 'Arguments' in repr(k[2]):
            return ''
    unit = self_attr('unit')
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'implement':
        return 'is not converted to the unit of the quantity'
    if t[0] != 'call' or t[1][0] != 'attr' or t[1][2] != 'withunit':
        return 'returns None' if t == K(None) else unread(t)
    if t[2] != (unit,):
        return f"is converted to {show(t[2][0])[:60]}" if t[2] else 'no unit'
    c = t[1][1]
    if c[0] != 'call' or c[1] != ('attr', self_attr('context'), 'implement'):
        raise Unread(show(c)[:120])
    consistent = None
    for k, v in facts.items():
        if k[0] == 'truthy':
            k = k[1]
        if k[:2] == ('op', 'or_') and set(k[2:]) == {('attr', c, 'unit'), unit}:
            consistent = v
    if consistent is not True:
        return 'an inconsistent unit is not refused' if consistent is False else \
            unread(('k', 'str', 'unit check'))
    kw = dict(c[3])
    if c[2]:
        raise Unread(show(c)[:120])
    for d in dims:
        me = ('sym', '@' + d)
        if d != 'shell':
            if d not in kw:
                return f"the index of {d!r} is lost"
            if kw[d] != me:
                return f"{d!r} is {show(kw[d])[:60]}"
            continue
        s = ('call', ('func', 'eprempy.quantity:measure'), (me,), ())
        isslice = next((v for k, v in facts.items() if k[0] == 'isa' and k[1] == me
                        and 'slice' in repr(k[2])), None)
        if isslice:
            if kw.get('shell') != me or 'radius' in kw:
                return "a slice of shells is not used as such"
            continue
        islen = islength(facts)
        if 'radius' in kw:
            if 'shell' in kw:
                return 'both a radius and a shell'
            if not islen:
                return 'shell numbers are used as radii'
            if indexlike(facts):
                return 'shell indices are used as radii'
            if 'measure' not in repr(kw['radius']) or not inside(
                    kw['radius'], me):
                raise Unread(show(kw['radius'])[:80])
        elif 'shell' in kw:
            if islen and not indexlike(facts):
                return 'radii are used as shell numbers'
            if not inside(kw['shell'], me):
                return f"shell is {show(kw['shell'])[:60]}"
        else:
            return 'the index of shell is lost'
    extra = set(kw) - set(dims) - {'radius'}
    if extra:
        return f"passes {names(extra)}"
    return ''


def inside(t, x):
    return repr(x) in repr(t)


def islength(facts):
    for k, v in facts.items():
        if k[:2] == ('op', 'eq') and K('length') in k[2:] and 'quantity' in repr(k):
            return v
    return None


def indexlike(facts):
    for k, v in facts.items():
        if k[0] == 'truthy':
            k = k[1]
        if called(k, 'isindexlike'):
            return v
    return None


# -- within the implementation --------------------------------------------------

def observing(P, rep):
    found = P.lookup(IMPL, '_observe')
    if not found:
        rep.ob('reference', '_observe', None, 'not found')
        return
    fn = found[1][1]
    if 'indices' not in (fn.node.args.kwarg.arg if fn.node.args.kwarg else ''):
        rep.ob('reference', '_observe', None, 'unexpected signature', fn.where)
        return
    full = AXES
    for dims, keys in (
            (('time', 'shell'), ()), (full, ()), (('species', 'energy'), ()),
            (('time', 'shell'), ('radius',)), (('time', 'shell'), ('time',)),
            (('time', 'shell'), ('time', 'radius')),
            (full, ('energy',)), (full, ('mu',)), (full, ('radius',)),
            (full, ('energy', 'time', 'radius')),
            (('time', 'shell'), ('energy',)), (('species', 'energy'), ('radius',)),
            (('species', 'energy'), ('energy',))):
        for kind in ('single indices', 'several indices', 'a single time',
                     'no indices'):
            inner(P, rep, fn, dims, keys, kind, False)
        if keys:
            inner(P, rep, fn, dims, keys, 'single indices', True)
            inner(P, rep, fn, dims, keys, 'no indices', True)


def inner(P, rep, fn, dims, keys, kind, short):
    X = ('sym', 'x')
    a = [x.arg for x in (*fn.node.args.posonlyargs, *fn.node.args.args)]
    st = State()
    preset(st)
    st.attrs[(X, 'dimensions')] = ('tuple', tuple(K(d) for d in dims))
    st.attrs[(X, 'axes')] = ('dict', tuple(
        (K(d), ('sym', 'X' + d)) for d in dims))
    mine = [k for k in keys if k in dims or k == 'radius' and 'shell' in dims]
    after = ['radius' if d == 'shell' and 'radius' in mine else d for d in dims]
    base = ('sym', 'base')
    st.attrs[(base, 'axes')] = ('dict', tuple(
        (K(d), ('sym', 'B' + d)) for d in after))
    st.attrs[(base, 'dimensions')] = ('tuple', tuple(K(d) for d in after))
    calls = []
    grid = self_attr('grid')
    sets = {repr(('attr', X, 'dimensions')): dims}

    def decide(it, c, s):
        if c[0] == 'truthy':
            c = c[1]
        if c[:2] == ('op', 'in') and isk(c[2], str):
            if c[3] == grid:
                return c[2][2] in COORDS + RADIUS
            if repr(c[3]) in sets:
                return c[2][2] in dims
        if c[0] == 'sym' and c[1][0] in 'VJXB' and len(c[1]) > 1:
            return True
        if c[:2] == ('op', 'is') and K(None) in c[2:] and any(
                y[0] == 'sym' and y[1][0] in 'VJXB' for y in c[2:]):
            return False
        if c[:2] == ('op', 'eq') and K(1) in c[2:] and 'len' in repr(c) and \
                "('sym', 'B" in repr(c):
            return short
        if c[0] == 'isa':
            if c[1] == X:
                return True
            if c[1][0] == 'sym' and c[1][1][0] == 'J':
                one = kind == 'single indices' or \
                    kind == 'a single time' and c[1][1] == 'Jtime'
                return ('Value' if one else 'Sequence') in repr(c[2])
            if called(c[1], 'value'):
                return 'Value' in repr(c[2])
            if c[1] in SLICES:
                return 'slice' in repr(c[2])
            if 'Coordinates' in repr(c[2]) and inside(c[1], self_attr('axes')):
                return True
        return None

    def interp(it, f, args, kwargs, s, node, fr):
        calls.append((it.snap(args[0], s),
                      it.snap(args[1] if len(args) > 1 else
                              kwargs.get('interpolants', K(None)), s),
                      dict(s.facts)))
        return [(base, s)]
    it = Interp(P, Config(
        inline=lambda g: g.module.name == M and not P.isproperty(g)
        and (g.cls is None or str(g.cls) == IMPL),
        decide=decide, binders=True, implicit=False,
        models={M + ':interpolate': interp, O + ':interpolate': interp,
                ('.', 'interpolate'): interp}))
    args = {a[1]: X, fn.node.args.kwarg.arg: ('dict', tuple(
        (K(d), K(None) if kind == 'no indices' else ('sym', 'J' + d))
        for d in AXES))}
    if len(a) > 2:
        args[a[2]] = ('dict', tuple((K(k), ('sym', 'V' + k)) for k in keys)) \
            if keys else K(None)
    label = f"{' '.join(dims)} " + (f"at {' '.join(keys)}" if keys else
                                    'at indices') + f" ({kind}" + \
        (', single values)' if short else ')')
    found = False
    for o in it.run(fn, selfclass=IMPL, args=args, state=st):
        if o.kind != 'return':
            continue
        rep.count('paths')
        found = True
        t = it.snap(o.value, o.st)
        try:
            bad = selected(t, short, dims, after, mine, X, base,
                           kind != 'no indices')
            rep.ob('remaining indices', label, not bad, bad or '', fn.where)
        except Unread as err:
            rep.ob('remaining indices', label, None, str(err)[:160], fn.where)
    if not found:
        rep.ob('remaining indices', label, False, 'never returns', fn.where)
    if mine and not calls:
        rep.ob('reference', label, False, 'never interpolates', fn.where)
    for x, d, facts in calls:
        try:
            bad = chosen(x, d, facts, dims, mine, X)
            rep.ob('reference', label, not bad, bad or '', fn.where)
        except Unread as err:
            rep.ob('reference', label, None, str(err)[:160], fn.where)
    for key in mine:
        v = ('sym', 'V' + key)
        if calls and not any(
                k[0] == 'op' and k[1] in ('le', 'lt', 'ge', 'gt') and inside(k, v)
                or k[0] in ('call', 'truthy') and inside(k, v) and
                any(n in repr(k) for n in ("'le'", "'lt'", "'min'", "'max'"))
                for _, _, f in calls for k in f):
            rep.ob('reference', label, False,
                   f"the values of {key!r} are never compared with the bounds",
                   fn.where)


def chosen(x, d, facts, dims, mine, X):
    """What is wrong with the interpolants, or ''."""
    if x != X:
        raise Unread(show(x)[:100])
    if d[0] != 'dict':
        raise Unread(show(d)[:100])
    keys = []
    for k, v in d[1]:
        if not isk(k, str):
            raise Unread(show(k)[:100])
        key = 'radius' if k[2] in RADIUS else k[2]
        keys.append(key)
        if key not in mine:
            return f"interpolates over {key}"
        if not called(v, 'Interpolant'):
            raise Unread(show(v)[:100])
        a = dict(zip(('reference', 'targets'), v[2]))
        a.update(dict(v[3]))
        bad = reference(a.get('reference'), key, X) or \
            targets(a.get('targets'), key) or bounded(facts, key, X)
        if bad:
            return f"{key}: {bad}"
    if set(keys) != set(mine):
        return f"does not interpolate over {names(set(mine) - set(keys))}"
    if 'radius' in keys and 'time' in keys and \
            keys.index('time') < keys.index('radius'):
        return "interpolates over time before the radius, which depends on time"
    return ''


def indices(key):
    own = [('attr', ('sym', 'X' + d), 'indices') for d in
           (('time', 'shell') if key == 'radius' else (key,))]
    return [('tuple', tuple(own))] + (own if len(own) == 1 else [])


def same(t, key):
    """Whether t is the axis or grid values of that coordinate."""
    while called(t, 'vector', 'tensor', 'array', 'asarray', 'measure') and \
            len(t[2]) == 1 and t[1][0] != 'attr':
        t = t[2][0]
    if t[0] == 'sub' and t[2] in indices(key):
        b = t[1]
        for c in (self_attr('grid'), self_attr('axes')):
            if b == ('sub', c, K(key)) or b[0] == 'call' and b[1] == (
                    'attr', c, 'get') and b[2][0] == K(key):
                return c == self_attr('grid') or key != 'radius' or None
        if b[0] in ('sub', 'call') and 'grid' in repr(b):
            return False
    elif t[0] == 'sub' and 'indices' in repr(t[2]):
        return False
    return None


def reference(t, key, X):
    if t is None:
        return 'no reference values'
    ok = same(t, key)
    if ok is None:
        if t == ('sub', self_attr('grid'), K(key)):
            return 'reference values are not those of the array'
        raise Unread(show(t)[:100])
    return '' if ok else f"wrong reference values {show(t)[:100]}"


def targets(t, key):
    if t is None:
        return 'no targets'
    while called(t, 'array', 'asarray', 'list', 'tuple') and len(t[2]) == 1:
        t = t[2][0]
    v = ('sym', 'V' + key)
    m = ('call', ('func', 'eprempy.quantity:measure'), (v,), ())
    if t in (m, v):
        return 'targets are not converted to the unit of the axis'
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'withunit' and \
            t[1][1] in (m, v) and len(t[2]) == 1:
        u = t[2][0]
        if key == 'radius' and (u == self_attr('system') or called(u, 'str') and
                                u[2] == (self_attr('system'),)):
            return ''
        if u[0] == 'attr' and u[2] == 'unit':
            if same(u[1], key) or u[1][0] in ('sub', 'call') and \
                    K(key) in (u[1][2] if u[1][0] == 'call' else u[1][2:]):
                return ''
            return f"targets are in {show(u)[:80]}"
    for k in (*COORDS, 'radius'):
        if k != key and inside(t, ('sym', 'V' + k)):
            return f"targets are the requested values of {k}"
    raise Unread(show(t)[:100])


def bounded(facts, key, X):
    """The path that interpolates knows that the values are within bounds."""
    low = high = None
    for k, v in facts.items():
        if k[:2] not in (('op', 'le'), ('op', 'lt')):
            continue
        a, b = k[2:]
        for x, y, n in ((a, b, 'min'), (b, a, 'max'), (b, a, 'min'), (a, b, 'max')):
            if not called(x, n, 'a' + n, 'nan' + n):
                continue
            z = x[2][0] if x[2] else x[1][1]
            if not (inside(y, ('sym', 'V' + key)) and y[0] == 'iter'):
                continue
            ok = same(z, key)
            if ok is False:
                return f"values are checked against {show(z)[:80]}"
            if ok is None:
                continue
            want = (x, y) if n == 'min' else (y, x)
            if (a, b) == want and k[1] == 'le' and v:
                good = True
            elif (b, a) == want and k[1] == 'lt' and not v:
                good = True
            else:
                good = False
            if n == 'min':
                low = good
            else:
                high = good
    if low is None and high is None:
        return ''       # no value at all
    if not low or not high:
        return 'values beyond the bounds are accepted, or those at the bounds ' \
            'refused'
    return ''


def selected(t, short, dims, after, mine, X, base, given):
    """What is wrong with the final subscription, or ''."""
    want = base if mine else X
    if t[0] != 'sub':
        if t == K(None):
            return 'returns None'
        return 'the remaining indices are not applied' if t in (X, base) else \
            unread(t)
    if t[1] not in (X, base):
        raise Unread(show(t)[:100])
    # interpolating over nothing gives the array itself
    if t[1] == X and mine:
        return 'the array is not interpolated'
    names_ = after if t[1] == base else dims
    idx = t[2]
    if idx[0] != 'tuple':
        raise Unread(show(t)[:100])
    if len(idx[1]) != len(names_):
        return f"{len(idx[1])} indices for {len(names_)} dimensions"
    done = {'shell' if k == 'radius' else k for k in mine} | set(mine)
    scalar = []
    for d, i in zip(names_, idx[1]):
        x = i
        wasint = False
        if called(x, 'sequence') and len(x[2]) == 1 and x[2][0][0] in (
                'list', 'tuple') and len(x[2][0][1]) == 1:
            x = x[2][0][1][0]
        elif called(x, 'int', 'index'):
            wasint = True
        while called(x, 'int', 'index') and len(x[2]) == 1:
            x = x[2][0]
        scalar.append(wasint)
        if x == ('sym', 'J' + d) or d == 'radius' and x == ('sym', 'Jshell'):
            if d in done:
                return f"the interpolated {d} is indexed again"
        elif x in SLICES or x == ('slice', K(None), K(None), K(None)):
            if d not in done and given:
                return f"the index of {d} is not applied"
        elif x == K(None):
            return f"indexes {d} with None"
        elif called(x, 'value') and len(x[2]) == 1 and isk(x[2][0], int) and \
                x[2][0] != K(0):
            return f"uses element {x[2][0][2]} of {d}"
        elif called(x, 'value') and x[2] == (K(0),) or x == K(0):
            if d not in done and given:
                return f"the index of {d} is not applied"
            if not short:
                return f"uses the first of several values of {d}"
        elif x[0] == 'sym' and x[1][0] == 'J':
            return f"{d} is indexed with the index of {x[1][1:]}"
        else:
            raise Unread(show(i)[:100])
    if any(scalar) and not all(scalar):
        return 'a single index drops its dimension'
    return ''


def truthful(P, rep):
    """Index values are never false, so `index or default` keeps index 0."""
    for c in ('Value', 'Sequence'):
        q = 'eprempy.numeric._index:' + c
        if q not in P.classes:
            continue
        bad = P.lookup(q, '__bool__') or c == 'Value' and P.lookup(q, '__len__')
        rep.ob('remaining indices', f"truth of an index {c}", not bad,
               'index 0 is mistaken for no index' if bad else '')


# -- algebra -------------------------------------------------------------------

OPS = {'__add__': 'add', '__sub__': 'sub', '__mul__': 'mul',
       '__truediv__': 'truediv', '__pow__': 'pow'}


def algebra(P, rep):
    other = ('sym', 'other')
    me = ('sym', 'self')
    user = ('sym', 'user')
    for m, op in OPS.items():
        found = P.lookup(Q, m)
        if not found or found[1][0] != 'func':
            rep.ob('algebra', m, False, 'is not defined')
            continue
        fn = found[1][1]
        a = [x.arg for x in (*fn.node.args.posonlyargs, *fn.node.args.args)]

        def context(it, f, args, kwargs, st, node, fr):
            g = args[0] if args else kwargs.get('operator')
            out = []
            for v, s in it.call(g, [user], {}, st, node, fr):
                out.append((('wired', it.snap(v, s), tuple(args[1:]), tuple(
                    (k, x) for k, x in kwargs.items() if k != 'operator')), s))
            return out

        def decide(it, c, s, op=op):
            if c[0] == 'isa' and c[1] == other:
                if 'Quantity' in repr(c[2]):
                    return op != 'pow'
                if 'Real' in repr(c[2]):
                    return op == 'pow'
            return None
        it = Interp(P, Config(inline=inlined(P, Q), decide=decide,
                              models={CTX: context}))
        done = False
        for o in it.run(fn, selfclass=Q, args={a[1]: other} if len(a) > 1 else {}):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            rep.count('paths')
            done = True
            try:
                bad = computed(t, op, me, other, user, o.st.facts)
                rep.ob('algebra', m, not bad, bad or '', fn.where)
            except Unread as err:
                rep.ob('algebra', m, None, str(err)[:160], fn.where)
        if not done:
            rep.ob('algebra', m, False, 'never returns', fn.where)


def computed(t, op, me, other, user, facts):
    if not called(t, 'Quantity', '__class__') and t[1] != (
            'call', ('ext', 'builtins.type'), (me,), ()):
        return 'returns None' if t == K(None) else \
            'is not supported' if t == ('ext', 'builtins.NotImplemented') else \
            unread(t)
    a = dict(zip(('context', 'unit', 'dimensions'), t[2]))
    a.update(dict(t[3]))
    c = a.get('context')
    if c is None or c[0] != 'wired':
        raise Unread(show(t)[:100])
    x = ('sub', me, user)
    y = other if op == 'pow' else ('sub', other, user)
    ap = ('call', ('attr', self_attr('context'), 'apply'), (user,), ())
    got = c[1]
    if got[0] == 'call' and got[1] == ('ext', 'builtins.pow'):
        got = ('op', 'pow', *got[2])
    if got[0] == 'call' and got[1][0] == 'ext' and got[1][1].startswith('operator.'):
        got = ('op', got[1][1][9:], *got[2])
    if got[0] != 'op' or len(got) != 4:
        raise Unread(show(got)[:100])
    u, v = (x if z == ap else z for z in got[2:])
    if not (got[1] == op and ((u, v) == (x, y) or op in ('add', 'mul') and
                              (v, u) == (x, y))):
        if {u, v} <= {x, y, me, other}:
            return f"observes {show(got)[:80]}"
        raise Unread(show(got)[:100])
    mine, its = ('attr', me, 'unit'), ('attr', other, 'unit')
    d, e = ('attr', me, 'dimensions'), ('attr', other, 'dimensions')
    unit, dims = a.get('unit'), a.get('dimensions')
    if op in ('add', 'sub'):
        want_u = [mine, its]
        want_d = [d, e]
        if not equal(facts, mine, its) or not equal(facts, d, e):
            return 'quantities of different unit or dimensions are combined'
    elif op == 'pow':
        want_u, want_d = [('op', 'pow', mine, other)], [d]
    else:
        want_u = [('op', op, mine, its)]
        if op == 'mul':
            want_u.append(('op', op, its, mine))
        want_d = [('op', 'or_', d, e)]
    if unit not in want_u:
        if unit is None or known(unit):
            return f"has unit {show(unit) if unit else ''}"
        raise Unread(show(unit)[:100])
    if dims not in want_d:
        if dims is None or known(dims):
            return f"has dimensions {show(dims) if dims else ''}"
        raise Unread(show(dims)[:100])
    return ''


def known(t):
    if t[0] == 'attr':
        return t[1] in (('sym', 'self'), ('sym', 'other'))
    return t[0] == 'k' or t[0] == 'op' and all(
        known(x) or x[0] == 'sym' for x in t[2:])


def equal(facts, a, b):
    for k, v in facts.items():
        if k[:2] == ('op', 'eq') and set(k[2:]) == {a, b}:
            return v
        if a[2] in repr(k) and '_unequal' in repr(k):
            return None
    # compared attribute by attribute, in a loop
    n = a[2]
    text = repr(list(facts.items()))
    if K(n) and repr(K(n)) in text:
        return True
    return False


def conversion(P, rep):
    """A quantity in another unit; a quantity as a plain array."""
    me, new = ('sym', 'self'), ('sym', 'new')
    unit = self_attr('unit')
    found = P.lookup(Q, 'withunit')
    if not found or found[1][0] != 'func':
        rep.ob('algebra', 'withunit', False, 'is not defined')
    else:
        fn = found[1][1]
        a = [x.arg for x in (*fn.node.args.posonlyargs, *fn.node.args.args)]
        it = Interp(P, Config(inline=inlined(P, Q)))
        made = False
        for o in it.run(fn, selfclass=Q, args={a[1]: new} if len(a) > 1 else {}):
            if o.kind != 'return':
                continue
            rep.count('paths')
            t = it.snap(o.value, o.st)
            same_ = equal(o.st.facts, unit, new)
            ok, why = None, show(t)[:120]
            if t == me:
                ok = True if same_ else False
                why = 'the quantity itself, in a different unit'
            elif t == K(None):
                ok, why = False, 'returns nothing'
            elif called(t, 'Quantity', '__class__') or t[0] == 'call' and t[1] == (
                    'call', ('ext', 'builtins.type'), (me,), ()):
                made = True
                b = dict(zip(('context', 'unit', 'dimensions'), t[2]))
                b.update(dict(t[3]))
                u = b.get('unit')
                ok = True
                if b.get('context') != self_attr('context'):
                    ok, why = False, 'a different context'
                elif b.get('dimensions') != self_attr('dimensions'):
                    ok, why = False, 'different dimensions'
                elif u == unit:
                    ok, why = same_ or False, 'keeps the old unit'
                elif not (u == new or u and u[0] == 'call' and u[2] == (new,)):
                    ok, why = None, show(u)[:80] if u else ''
                if ok and not same_:
                    fits = [v for k, v in o.st.facts.items() if
                            k[:2] == ('op', 'or_') and set(k[2:]) >= {unit} and
                            any(inside(x, new) for x in k[2:])]
                    if not fits or fits[0] is not True:
                        ok, why = False, 'an inconsistent unit is accepted'
            rep.ob('algebra', 'withunit', ok, why, fn.where)
        rep.ob('algebra', 'withunit changes the unit', made,
               'never makes a quantity in the new unit', fn.where)
    found = P.lookup(Q, '__array__')
    if found and found[1][0] == 'func':
        fn = found[1][1]
        it = Interp(P, Config(inline=lambda g: g is fn))
        full = ('slice', K(None), K(None), K(None))
        for o in it.run(fn, selfclass=Q):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            ok = None
            if called(t, 'array', 'asarray') and t[2]:
                x = t[2][0]
                ok = x in (('sub', me, full), ('sub', me, ('k', 'ellipsis', Ellipsis)),
                           ('sub', me, K(Ellipsis)))
                if not ok and not (x[0] == 'sub' and x[1] == me and
                                   x[2][0] in ('slice', 'k')):
                    ok = None
            rep.ob('subscript', 'a quantity as a plain array', ok, show(t)[:100],
                   fn.where)


def assumed(P, rep):
    """Requested values reach the interpolation under every name of the axis."""
    init, prop = P.lookup(ARGS, '__init__'), P.lookup(ARGS, 'assumptions')
    if not init or not prop or prop[1][0] not in ('func', 'prop', 'property'):
        rep.ob('request', 'Arguments.assumptions', None, 'not found')
        return
    fn, gn = init[1][1], prop[1][1]
    both = (('glob', 'eprempy.reference:ALIASES'),
            ('glob', 'eprempy.parameter._metadata:ALIASES'))
    inl = inlined(P, ARGS)
    it = Interp(P, Config(inline=inl))
    n = 0
    for o in it.run(fn, selfclass=ARGS, args={
            'indices': ('dict', ()), 'assumptions': ('dict', ((K('k'), V),))}):
        if o.kind != 'return':
            continue
        for r in Interp(P, Config(inline=inl)).run(gn, selfclass=ARGS, state=o.st):
            if r.kind != 'return':
                continue
            n += 1
            t = it.snap(r.value, r.st)
            ok, why = None, show(t)[:120]
            if t in (K(None), ('dict', ())):
                ok = False
            elif called(t, 'Mapping') and t[2] and t[2][0][0] == 'dict':
                d = dict(t[2][0][1])
                if K('k') not in d:
                    ok, why = False, 'the requested values are lost'
                elif not inside(d[K('k')], V):
                    ok, why = (False if d[K('k')][0] == 'k' else None), show(
                        d[K('k')])[:80]
                else:
                    rest = (t[2][1:], t[3])
                    ok = all(inside_any(rest, x) for x in both)
                    why = 'not found by every alias'
            rep.ob('request', 'Arguments.assumptions', ok, why, gn.where)
    if not n:
        rep.ob('request', 'Arguments.assumptions', False, 'never returns', gn.where)


def inside_any(t, x):
    return t == x or isinstance(t, tuple) and any(inside_any(y, x) for y in t)


def extreme(t):
    """('max', 'le'): the largest index at which array <= target."""
    n, x = None, None
    if t[0] == 'call' and t[1][0] == 'attr' and not t[2]:
        n, x = t[1][2], t[1][1]
    elif called(t, 'min', 'max', 'amin', 'amax') and len(t[2]) == 1:
        n, x = t[1][1].rpartition('.')[2][-3:], t[2][0]
    elif t[0] == 'sub' and isk(t[2], int) and t[2][2] in (0, -1):
        n, x = ('min', 'max')[t[2][2]], t[1]
    if n not in ('min', 'max'):
        return None
    if x[0] == 'sub' and x[2] == K(0):
        x = x[1]
    if not called(x, 'where', 'nonzero', 'flatnonzero') or len(x[2]) != 1:
        return None
    c = x[2][0]
    a, b = ('sym', 'array'), ('sym', 'target')
    if c[0] != 'op' or c[1] not in ('le', 'lt', 'ge', 'gt') or \
            set(c[2:]) != {a, b}:
        return None
    swap = {'le': 'ge', 'lt': 'gt', 'ge': 'le', 'gt': 'lt'}
    return n, c[1] if c[2] == a else swap[c[1]]



def unmoved(t, B):
    """A term in which the axis of bounds is the last one."""
    if not isinstance(t, tuple):
        return t
    if t[:1] == ('call',) and called(t, 'moveaxis') and len(t[2]) == 3 and \
            t[2][0] == B and t[2][2] == K(-1):
        return B
    return tuple(unmoved(x, B) for x in t)


def bounding(P, rep):
    """Indices around the targets along an axis."""
    N = 'eprempy.numeric._index:'
    fn = P.funcs.get(N + 'restrict')
    if fn is not None and N + '_compute_bounds' in P.funcs:
        def bounds(it, f, args, kwargs, st, node, fr):
            t = args[1] if len(args) > 1 else kwargs.get('target')
            return [(('tuple', (('sym', 'lo' + t[1]), ('sym', 'hi' + t[1]))), st)]

        def decide(it, c, s):
            if c[:2] == ('op', 'is') and K(None) in c[2:] and any(
                    x[0] == 'sym' or x[0] == 'call' for x in c[2:]):
                return False
            return None
        va = fn.node.args.vararg
        for ts in (('1',), ('1', '2'), ('1', '2', '3')):
            it = Interp(P, Config(inline=lambda g: g is fn, decide=decide,
                                  models={N + '_compute_bounds': bounds}))
            args = {va.arg: ('tuple', tuple(('sym', t) for t in ts))} if va else {}
            label = f"indices around {len(ts)} value{'s'[:len(ts) > 1]}"
            for o in it.run(fn, args=args):
                if o.kind == 'return':
                    t = it.snap(o.value, o.st)
                    bad = span(t, ts)
                    rep.ob('request', label, None if bad is None else not bad,
                           bad or '', fn.where)
    fn = P.funcs.get(N + '_find_1d_indices')
    if fn is not None:
        it = Interp(P, Config(inline=lambda g: g is fn))
        for o in it.run(fn, args={a.arg: ('sym', n) for a, n in zip(
                fn.node.args.args, ('array', 'target'))}):
            if o.kind != 'return':
                continue
            t = it.snap(o.value, o.st)
            ok, why = None, ''
            if t[0] in ('tuple', 'list') and len(t[1]) == 2:
                lo, hi = (extreme(x) for x in t[1])
                last = ('op', 'sub', ('call', ('ext', 'builtins.len'), (
                    ('sym', 'array'),), ()), K(1))
                ends = (K(0), (last, K(-1)))
                if lo == ('max', 'le') or t[1][0] == K(0):
                    ok = True
                elif lo or isk(t[1][0]):
                    ok, why = False, 'lower bound'
                if hi == ('min', 'ge') or t[1][1] == last:
                    pass
                elif hi or isk(t[1][1]) or t[1][1] == last[2] or t[1][1][0] == \
                        'op' and t[1][1][2] == last[2] and isk(t[1][1][3]):
                    ok, why = False, 'upper bound'
                else:
                    ok = ok and None
                # an end of the axis only when no value is within the bound
                for x, rel, sign in ((t[1][0], 'le', 0), (t[1][1], 'ge', 1)):
                    if extreme(x) is None and ok:
                        any_ = [v for k, v in o.st.facts.items()
                                if called(k, 'any') and repr(rel) in repr(k)]
                        ok = None if not any_ else not any_[0]
                        why = 'ignores the values within the bound'
            rep.ob('request', 'indices that bound a value', ok, why, fn.where)
    fn = P.funcs.get(N + '_compute_bounds')
    if fn is not None and N + '_get_index_bounds' in P.funcs:
        B = ('sym', 'B')
        it = Interp(P, Config(inline=lambda g: g is fn, models={
            N + '_get_index_bounds': lambda *a: [(B, a[4])]}))
        full = ('slice', K(None), K(None), K(None))
        col = [('sub', B, ('tuple', (full, K(i)))) for i in (0, 1)]
        for o in it.run(fn):
            if o.kind != 'return':
                continue
            t = unmoved(it.snap(o.value, o.st), B)
            two = any(v and k[:2] == ('op', 'eq') and K(2) in k[2:] and
                      'ndim' in repr(k) for k, v in o.st.facts.items())
            ok = None
            if two and t[0] in ('tuple', 'list') and len(t[1]) == 2:
                got = []
                for x in t[1]:
                    if called(x, 'min', 'max') and x[1][0] == 'attr' and not x[2]:
                        got.append((x[1][2], x[1][1]))
                    elif called(x, 'min', 'max', 'amin', 'amax') and len(x[2]) == 1:
                        got.append((x[1][1].rpartition('.')[2][-3:], x[2][0]))
                if len(got) == 2:
                    ok = got == [('min', col[0]), ('max', col[1])]
            elif not two and (called(t, 'tuple') and t[2] == (B,) or t in (
                    B, ('tuple', (('sub', B, K(0)), ('sub', B, K(1)))))):
                ok = True
            rep.ob('request', 'indices that bound a value at '
                   + ('every time' if two else 'one time'), ok, show(t)[:120],
                   fn.where)


def span(t, ts):
    """What is wrong with a range of indices around values."""
    if not called(t, 'range'):
        return None
    a, b = t[2] if len(t[2]) == 2 else (K(0), t[2][0])
    if len(t[2]) > 2:
        return None
    if b[0] == 'op' and b[1] == 'sub' and isk(b[3]) and leaves(b[2]):
        return 'excludes the upper bound'
    if b[0] != 'op' or b[1] != 'add' or K(1) not in b[2:]:
        return 'excludes the upper bound' if leaves(b) else None
    b = b[2] if b[3] == K(1) else b[3]
    lo, hi = leaves(a), leaves(b)
    if lo is None or hi is None:
        return None
    if lo != ({'min'} if len(ts) > 1 else set(), {'lo' + x for x in ts}):
        return f"starts at {show(a)}"
    if hi != ({'max'} if len(ts) > 1 else set(), {'hi' + x for x in ts}):
        return f"ends at {show(b)}"
    return ''


def leaves(t):
    if t[0] == 'sym':
        return set(), {t[1]}
    if called(t, 'int') and len(t[2]) == 1:
        return leaves(t[2][0])
    if called(t, 'min', 'max'):
        args = t[2]
        if len(args) == 1 and args[0][0] in ('tuple', 'list'):
            args = args[0][1]
        ops, out = {t[1][1].rpartition('.')[2]}, set()
        for x in args:
            r = leaves(x)
            if r is None:
                return None
            ops |= r[0]
            out |= r[1]
        return (ops if len(args) > 1 else set()), out
    return None


def run(program, rep):
    P = program
    rep.rule('interpolation', "interpolating over a dimension interpolates linearly "
             "along it only, and replaces its axis by the requested values", 10)
    rep.rule('request', "each request reaches the implementation as index or as "
             "value to interpolate to", 5)
    rep.rule('subscript', "a subscripted quantity observes the requested indices in "
             "its unit", 3)
    rep.rule('reference', "arrays are interpolated with respect to their own "
             "coordinates, within bounds, in one unit", 3)
    rep.rule('remaining indices', "indices that were not interpolated are applied "
             "once", 3)
    rep.rule('algebra', "operations on quantities are operations on what they "
             "observe", 0)
    if IMPL not in P.classes or Q not in P.classes:
        raise AnalysisError('observable quantities not found')
    interpolation(P, rep)
    request(P, rep)
    subscription(P, rep)
    observing(P, rep)
    truthful(P, rep)
    algebra(P, rep)
    conversion(P, rep)
    assumed(P, rep)
    bounding(P, rep)
