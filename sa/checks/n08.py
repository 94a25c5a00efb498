"""N08: results have the kind and the axes their operands imply."""

from ..absint import Interp, Config, K, show, subterms
from ..ops import built, as_op
from ..opspec import (A, B, KINDS, ADDITIVE, MULTIPLICATIVE, RANK, binary_kinds,
                      owner, strip, bare, axes, Equal)
from ..physops import physops, CLASSES
from ..util import callname, inmodules
from .n06 import feasible, PLAIN
from .n07 import REDUCTIONS, TRIG, LOGS, FACTORIES, items

LEVEL = 'other'
EXPLANATION = (
    "Path-sensitive abstract interpretation of the registered operators and "
    "functions of physical objects for every combination of operand kinds, and "
    "of indexing and transposition of arrays: on every path that returns, the "
    "factory that creates the result and the axes it receives are compared with "
    "the kinds and axes of the operands."
)
ASSUMPTIONS = [
    "each factory creates an object of the class it is named for",
    "user code does not register further implementations",
]
AX, BX = axes(A), axes(B)


def run(program, rep):
    rep.rule('kind', "the result of an operation is an object of the highest kind "
             "among its operands (or the kind a reduction implies)", 120)
    rep.rule('axes', "the axes of an array result are those its data have", 40)
    rep.rule('index', "indexing or transposing an array does the same to its data "
             "and to its axes, and keeps its unit", 4)
    P = physops(program)
    for op in (*ADDITIVE, *MULTIPLICATIVE, 'pow'):
        for kinds in binary_kinds():
            binary(P, rep, op, kinds)
    for op in ('abs', 'pos', 'neg', 'round', 'floor', 'ceil', 'trunc'):
        for k in KINDS:
            single(P, rep, op, k, None, [k])
    for k in KINDS:
        for name in ('numpy.sqrt', *TRIG, *LOGS):
            single(P, rep, name, k, None, [k])
        for kw in (None, {'axis': ('sym', 'axis')}):
            for name in REDUCTIONS:
                short = name.split('.')[1]
                if short == 'squeeze':
                    want = ['Scalar'] if k == 'Scalar' else ['Scalar', k]
                elif short == 'cumsum':
                    want = ['Vector'] if kw is None or k == 'Scalar' else [k]
                elif short == 'transpose':
                    want = [k]
                else:
                    want = ['Scalar'] if kw is None or k == 'Scalar' else [k]
                single(P, rep, name, k, kw, want, reduce=True)
        if k != 'Scalar':
            single(P, rep, 'numpy.gradient', k, None, [k])
            for kw in (None, {'axis': ('sym', 'axis')}):
                single(P, rep, 'numpy.trapz', k, kw, [k], reduce=True)
    indexing(program, rep)


def outer_kind(t):
    """Kind of object a result term creates."""
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'apply' and t[2]:
        f = t[2][0]
        if f[0] in ('func', 'rawfunc'):
            return FACTORIES.get(f[1].split(':')[-1])
        if f[0] == 'class':
            return f[1].split(':')[-1]
        return None
    n = callname(t)
    if n in FACTORIES:
        return FACTORIES[n]
    if t[0] == 'new':
        n = t[1].split(':')[-1]
        return n if n in KINDS else None
    return None


def same_axes(t, eq, want):
    t = canon(t)
    return any(t == canon(w) or eq.same(t, w) for w in want)


def canon(t):
    """dict(x.axes), x.axes.copy() and {d: x.axes[d] for d in x.axes} as x.axes."""
    t = strip(t)
    if t[0] == 'call' and callname(t) == 'copy' and t[1][0] == 'attr':
        return canon(t[1][1])
    if t[0] == 'call' and callname(t) in ('dict', 'axes_factory', 'axes', 'Axes') \
            and len(t[2]) == 1 and not t[3]:
        return canon(t[2][0])
    return t


def reduced(t, data):
    """True when t is {d: a.axes[d] for d in data.dimensions}; None if unsure."""
    t = canon(t)
    if t == AX:
        return False
    if t[0] == 'call' and callname(t) == 'extract' and t[1][0] == 'attr' and \
            canon(t[1][1]) == AX:
        return True if dims_of(t[2][0] if t[2] else None, data) else None
    if t[0] == 'dict' and len(t[1]) == 1:
        k, v = t[1][0]
        if k[0] in ('many', 'star'):
            k = k[1]
        if v[0] in ('many', 'star'):
            v = v[1]
        if v[0] == 'sub' and canon(v[1]) == AX:
            if v[2] != k:
                return False
            if k[0] == 'iter':
                return dims_of(k[1], data) or None
    return None


def dims_of(t, data):
    if t is None:
        return None
    if t[0] in ('star', 'many'):
        t = t[1]
    return t[0] == 'attr' and t[2] == 'dimensions' and strip(t[1]) == strip(data)


def kind_ob(rep, what, t, wants, where):
    got = outer_kind(t)
    if t == K(None):
        rep.ob('kind', what, False, "returns nothing", where)
        return None
    rep.ob('kind', what, None if got is None else got in wants,
           f"creates a {got}, not a {' or '.join(wants)}" if got else
           f"result {show(t)} not understood", where)
    return got


def single(P, rep, op, k, kw, wants, reduce=False):
    res = P.outcomes(k, op, (k,), kwargs=kw)
    if res is None:
        return
    what = f"{op}({k}{', axis' if kw else ''})"
    where = P.where(k, op)
    for kind, t, facts in res:
        if kind != 'return' or not feasible(facts):
            continue
        if bare(t):
            rep.ob('kind', what, k in wants, "returns the operand", where)
            continue
        for x in items(t):
            got = kind_ob(rep, what, x, wants, where)
            if got != 'Array':
                continue
            b = built(x)
            if b is None:
                continue
            if b.axes is None:
                rep.ob('axes', what, False, "the result has default axes instead "
                       "of the axes of the operand", where)
                continue
            if reduce:
                rep.ob('axes', what, reduced(b.axes, b.data),
                       f"the axes of the result are {show(b.axes)}", where)
            else:
                rep.ob('axes', what, same_axes(b.axes, Equal(facts), [AX]),
                       f"the axes of the result are {show(b.axes)}", where)


def binary(P, rep, op, kinds):
    cls = owner(kinds)
    res = P.outcomes(cls, op, kinds)
    if res is None:
        return
    if op == 'pow' and kinds[0] in PLAIN:
        return
    what = f"{kinds[0]} {op} {kinds[1]}"
    where = P.where(cls, op)
    top = max((k for k in kinds if k in RANK), key=RANK.get)
    for kind, t, facts in res:
        if kind != 'return' or not feasible(facts):
            continue
        got = kind_ob(rep, what, t, [top], where)
        if got != 'Array':
            continue
        b = built(t)
        if b is None:
            continue
        eq = Equal(facts)
        if b.axes is None:
            rep.ob('axes', what, False, "the result has default axes", where)
            continue
        if kinds == ('Array', 'Array'):
            x = canon(b.axes)
            if op in ADDITIVE:
                if x in (AX, BX):
                    ok = eq.same(AX, BX)
                else:
                    o = as_op(x)
                    ok = bool(o and o[0] == 'add' and
                              {canon(y) for y in o[1]} == {AX, BX}) or None
                    if o and o[0] in ('or_', 'sub', 'and_'):
                        ok = False
            elif op in MULTIPLICATIVE:
                if x in (AX, BX):
                    ok = eq.same(AX, BX)
                elif x[0] == 'op' and x[1] == 'or_':
                    ok = tuple(canon(y) for y in x[2:]) == (AX, BX)
                elif x[0] == 'call' and callname(x) in ('_merge', 'merge',
                                                        '__or__'):
                    ok = None
                else:
                    ok = None
            else:
                ok = x == AX or None if x != BX else eq.same(AX, BX)
            rep.ob('axes', what, ok, f"the axes of the result are {show(b.axes)}",
                   where)
        else:
            want = AX if kinds[0] == 'Array' else BX
            rep.ob('axes', what, same_axes(b.axes, eq, [want]),
                   f"the axes of the result are {show(b.axes)}", where)


# ----------------------------------------------------------------------

def indexing(program, rep):
    S = ('sym', 'self')
    cls = program.need_class(CLASSES['Array']).qual
    it = Interp(program, Config(inline=inmodules('eprempy.physical._array'),
                                trace=False))
    found = program.lookup(cls, '__getitem__')
    f = found[1][1]
    data, ax = ('attr', S, 'data'), ('attr', S, 'axes')
    n = 0
    for o in it.run(f, selfclass=cls):
        if o.kind != 'return':
            continue
        t = it.snap(o.value, o.st)
        b = built(t)
        n += 1
        if b is None or b.data is None:
            rep.ob('index', 'array[...]', None, show(t), f.where)
            continue
        i = None
        if b.data[0] == 'sub' and b.data[1] == data:
            i = b.data[2]
        rep.ob('index', 'array[...] data', True if i is not None else None,
               f"data of the result are {show(b.data)}", f.where)
        rep.ob('index', 'array[...] unit', unit_ok(b.unit, S),
               f"unit of the result is {show(b.unit or K(None))}", f.where)
        rep.ob('index', 'array[...] axes', indexed_axes(b.axes, ax, i),
               f"axes of the result are {show(b.axes or K(None))}", f.where)
    rep.ob('index', 'array[...] returns', n > 0 or None, "never returns", f.where)
    f = program.lookup(cls, 'transpose')[1][1]
    for o in it.run(f, selfclass=cls):
        if o.kind != 'return':
            continue
        t = it.snap(o.value, o.st)
        if t == S:
            empty = any(x in (('sym', '*args'),) and not v
                        for x, v in o.st.facts.items())
            rep.ob('index', 'transpose() of an array', empty or None,
                   "returns the array itself", f.where)
            continue
        b = built(t)
        if b is None or b.data is None:
            rep.ob('index', 'transpose', None, show(t), f.where)
            continue
        da = moved(b.data, data, ('transpose',))
        xa = moved(b.axes, ax, ('permute',))
        ok = None
        if da is not None and xa is not None:
            ok = da == xa
        elif b.axes == ax and da:
            ok = False
        rep.ob('index', 'transpose', ok, f"data {show(b.data)}, axes "
               f"{show(b.axes or K(None))}", f.where)
        rep.ob('index', 'transpose unit', unit_ok(b.unit, S),
               f"unit is {show(b.unit or K(None))}", f.where)


def unit_ok(u, S):
    if u == ('attr', S, 'unit'):
        return True
    return False if u is None else None


def moved(t, base, names):
    """Arguments of base.transpose(...) / base.permute(...)."""
    if t is None:
        return None
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][1] == base and \
            t[1][2] in names:
        return t[2], t[3]
    if t[0] == 'call' and t[1][0] == 'ext' and t[2] and t[2][0] == base and \
            t[1][1].split('.')[-1] in names:
        return t[2][1:], t[3]
    return None


def indexed_axes(t, ax, idx):
    """True when t is {**axes, **{k: v[i] for i, (k, v) in zip(idx, axes.items())}}."""
    if t is None:
        return False
    if t == ax or t[0] == 'dict' and len(t[1]) == 1 and t[1][0][0] == ('**', ax) or \
            t[0] == 'call' and t[2] == (
            ax,) and t[1][-1] in ('builtins.dict', 'eprempy.physical._axes:axes_factory'):
        return False
    rest = t[0] == 'dict' and len(t[1]) == 2 and t[1][0][0] == ('**', ax)
    if t[0] == 'dict' and (len(t[1]) == 1 or rest) and idx is not None:
        k, v = t[1][-1]
        if k[0] in ('many', 'star'):
            k = k[1]
        if v[0] in ('many', 'star'):
            v = v[1]
        if v[0] != 'sub':
            return False if k in set(subterms(v)) or v[0] == 'sub' else None
        axis, i = v[1], v[2]
        named = named_axis(k, axis, ax)
        paired = i in each_of(idx)
        if named and paired:
            # one index may stand for fewer axes than there are
            short = idx[0] == 'call' and 'expand' in repr(idx[1])
            return True if rest or not short else False
        if named and i[0] == 'iter' and i not in each_of(idx):
            return None
    return None


def named_axis(k, v, ax):
    """Whether axis v is the one stored in ax under the name k."""
    if v == ('sub', ax, k):
        return True
    its = ('call', ('attr', ax, 'items'), (), ())
    e = ('iter', its)
    if k == ('sub', e, K(0)) and v == ('sub', e, K(1)):
        return True
    return k[0] == v[0] == 'sub' and k[1] == v[1] and \
        (k[2], v[2]) == (K(0), K(1)) and its in set(subterms(k))


def each_of(idx):
    return {('iter', idx)}
