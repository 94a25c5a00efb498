"""N05: every arithmetic operator computes its own operation, in order."""

from ..absint import Interp, Config, State, K, show, NOTIMPL, isk
from ..model import AnalysisError
from ..ops import DUNDERS, UNARY, BINARY, EXTNAMES, Registrations, exact, opname, \
    as_op, built
from ..opspec import (A, B, KINDS, COMPARE, ADDITIVE, MULTIPLICATIVE, binary_kinds,
                      owner, source, operation)
from ..physops import physops, CLASSES
from ..util import inmodules, module_value, pyval, Opaque, line_of

LEVEL = 'other'
EXPLANATION = (
    "Abstract interpretation follows each arithmetic and comparison operator from "
    "the special method python selects, through the dispatch table, to the "
    "registered implementation and the data it computes, for every combination of "
    "operand kinds, and compares operator and operand order on every path."
)
ASSUMPTIONS = [
    "the special methods are not replaced at run time",
    "builtin operators on numbers and numpy arrays mean what python documents",
]
REAL = 'eprempy.real._array:Array'
OPS = 'eprempy.numeric._operations'


def run(program, rep):
    rep.rule('dispatch', "a special method hands its own operation and its operands, "
             "in python's order, to the dispatcher", 20)
    rep.rule('dispatcher', "the dispatcher calls the implementation stored under "
             "the operation it was given, with the operands it was given", 3)
    rep.rule('compute', "the implementation registered for an operation applies "
             "that operation to the data of its operands in order", 40)
    rep.rule('function', "a numpy function applied to a physical object computes "
             "that same function of the object's data and passes the given axis on",
             40)
    rep.rule('table', "each name, alias and function in the operator tables denotes "
             "one operation", 40)
    rep.rule('derived', "an operator derived from others computes what its name "
             "says", 6)
    rep.rule('cast', "a conversion to a builtin number looks up and applies that "
             "conversion", 4)
    table = names(program)
    dispatch(program, rep, table)
    dispatcher(program, rep)
    physical(program, rep)
    real(program, rep)
    functions(program, rep)
    tables(program, rep, table)
    derived(program, rep)
    casts(program, rep)


# ----------------------------------------------------------------------

ALIASES = {
    'eq': ['equal'], 'ne': ['not equal', 'unequal'],
    'lt': ['less than', 'less'], 'le': ['less than or equal to', 'less or equal'],
    'gt': ['greater than', 'greater'],
    'ge': ['greater than or equal to', 'greater or equal'],
    'abs': ['absolute'], 'pos': ['positive'], 'neg': ['negative'],
    'round': [], 'floor': [], 'ceil': ['ceiling'], 'trunc': ['truncate'],
    'add': ['addition'], 'sub': ['subtraction', 'subtract'],
    'mul': ['multiplication', 'multiply'],
    'truediv': ['true divide', 'true_divide', 'divide', 'division',
                'true division', 'floating-point division'],
    'floordiv': ['floor divide', 'floor_divide', 'floor division'],
    'mod': ['remainder'], 'pow': ['power'],
    'int': [], 'float': [], 'complex': [],
}
NAMES = {n: op for op, v in ALIASES.items() for n in [op, *v]}


def names(program):
    return NAMES


def denoted(t, table):
    """Operation a dispatcher argument denotes."""
    if t[0] == 'k' and isinstance(t[2], str):
        return table.get(t[2])
    if t[0] == 'call' and t[1][0] == 'func' and t[1][1].endswith(':resolve') \
            and t[2]:
        return denoted(t[2][0], table)
    if t[0] == 'ext':
        return opname(t)
    if t[0] in ('func', 'glob'):
        n = t[1].split(':')[-1].split('.')[-1]
        return DUNDERS.get(n, (table.get(n),))[0]
    return None


SELF, OTHER = ('sym', 'self'), ('sym', 'other')


def method(it, program, cls, name, st):
    """The callable a class attribute is."""
    found = program.lookup(cls, name)
    if found is None:
        return None
    own, e = found
    if e[0] == 'func':
        return ('func', e[1].qual), e[1].where, own
    if e[0] == 'assign':
        v = it.class_const(own, name, st)
        return v, f"{program.classes[own].module.path}:{e[1].lineno}", own
    return None


def isabstract(program, cls, name):
    found = program.lookup(cls, name)
    return bool(found and found[1][0] == 'func' and any(
        'abstract' in __import__('ast').unparse(d)
        for d in found[1][1].decorators()))


def dispatch(program, rep, table, classes=None, without=()):
    def decide(it, atom, st):
        if atom[0] == 'isa' and atom[1] == SELF:
            for c in atom[2]:
                if c[0] == 'class' and c[1].endswith(':Customizable'):
                    return True
        return None
    cfg = Config(inline=lambda f: f.module.name == 'eprempy.numeric._implementation',
                 classattrs=lambda o, n: n in DUNDERS, trace=False, decide=decide)
    for label, q in classes or [*CLASSES.items(), ('real array', REAL)]:
        cls = program.need_class(q).qual
        for name, (op, rev) in DUNDERS.items():
            if op in without:
                continue
            if name.startswith('__i') and name != '__int__':
                continue
            if op in ('int', 'float', 'complex'):
                continue
            it = Interp(program, cfg)
            st = State()
            st.types[SELF] = cls
            got = method(it, program, cls, name, st)
            if got is None or isabstract(program, cls, name):
                if not (label != 'Scalar' and op in ('round', 'floor', 'ceil',
                                                     'trunc')):
                    rep.ob('dispatch', f"{label}.{name}", False,
                           "the class defines no such operator",
                           program.classes[cls].where)
                continue
            f, where, own = got
            what = f"{label}.{name}"
            if f is None:
                rep.ob('dispatch', what, None, "definition not understood", where)
                continue
            args = [SELF] if op in UNARY else [SELF, OTHER]
            it.sinks.append([])
            fr = it._frame(program.classes[cls].module, None, cls)
            try:
                res = it.call(f, args, {}, st, None, fr)
            except Exception as err:
                rep.ob('dispatch', what, None, f"{err}", where)
                continue
            raised = it.sinks.pop()
            extras(program, rep, it, cls, f, op, args, what, where, own, name)
            want = args[::-1] if rev else args
            verdict, detail = None, "no dispatching path"
            bad = False
            for v, s in res:
                v = it.snap(v, s)
                if v == NOTIMPL:
                    bad = bad or len(res) == 1
                    detail = "always returns NotImplemented"
                    if any(x[0] == 'isa' and x[1] == SELF for x in s.facts):
                        bad = True
                    continue
                k = dispatched(v)
                if k is None:
                    direct = as_op(v)
                    if direct and set(direct[1]) <= {SELF, OTHER}:
                        ok = direct[0] == op and list(direct[1]) == want
                        # an operator expressed through itself reversed
                        if not ok:
                            bad, detail = True, f"computes {show(v)}"
                        else:
                            verdict = True
                    else:
                        detail = f"returns {show(v)}"
                    continue
                o, xs = k
                d = denoted(o, table)
                if d is None:
                    detail = f"operation {show(o)} not understood"
                elif d != op or list(xs) != want:
                    bad = True
                    detail = (f"dispatches {d}({', '.join(map(show, xs))}) instead "
                              f"of {op}({', '.join(map(show, want))})")
                else:
                    verdict = True
            if bad:
                verdict = False
            if not res and raised:
                verdict, detail = False, "always raises"
            rep.ob('dispatch', what, verdict, detail, where)


EXTRA = ('sym', 'extra')
EXTRAS = {'round': 'ndigits', 'pow': 'mod'}


def extras(program, rep, it, cls, f, op, args, what, where, own, name):
    """Python passes the digits of round and the modulus of pow by position."""
    if op not in EXTRAS or name.startswith('__r') and op == 'pow' or \
            own.startswith('eprempy.base'):
        return
    st = State()
    st.types[SELF] = cls
    it.sinks.append([])
    fr = it._frame(program.classes[cls].module, None, cls)
    try:
        res = it.call(f, [*args, EXTRA], {}, st, None, fr)
    except Exception:
        return
    raised = it.sinks.pop()
    ok, detail = None, ''
    for v, s in res:
        v = it.snap(v, s)
        if v == NOTIMPL:
            continue
        k = dispatched(v)
        if k is None:
            if v[0] == 'call' and v[1][0] == 'fn' and EXTRA in v[2]:
                ok, detail = False, f"takes no positional {EXTRAS[op]} argument"
            continue
        ok = EXTRA in subterm(v) and ok is not False
        detail = f"the {EXTRAS[op]} argument is dropped: {show(v)}"
    if not res and raised:
        ok, detail = False, f"a positional {EXTRAS[op]} argument is refused"
    rep.ob('dispatch', f"{what} with {EXTRAS[op]}", ok, detail, where)


def dispatched(v):
    """(operation, operands) of a call to the dispatcher."""
    if v[0] != 'call':
        return None
    f, args = v[1], v[2]
    if f[0] == 'attr' and f[2] == '__object_operator__' and f[1] == SELF:
        return (args[0], args[1:]) if args else None
    if f[0] in ('bound', 'func') and f[-1].endswith('__object_operator__'):
        if f[0] == 'func':
            args = args[1:]
        elif args and args[0] == SELF and len(args) > 1 and args[1] not in (
                SELF, OTHER):
            args = args[1:]
        return (args[0], args[1:]) if args else None
    return None


# ----------------------------------------------------------------------

def dispatcher(program, rep):
    """__object_operator__ and implements of the operator mixin."""
    mod = 'eprempy.numeric._mixins'
    cls = program.need_class(f"{mod}:Operators")
    f = program.need_method(cls.qual, '__object_operator__') \
        if hasattr(program, 'need_method') else program.lookup(
            cls.qual, '__object_operator__')[1][1]
    op, x, y = ('sym', 'operation'), ('sym', 'x'), ('sym', 'y')
    resolved = ('call', ('func', f'{OPS}:resolve'), (op,), ())
    cfg = Config(inline=inmodules(mod), trace=False)
    it = Interp(program, cfg)
    concrete = program.need_class(CLASSES['Vector']).qual
    outs = it.run(f, args={'args': ('tuple', (x, y)), 'operation': op,
                           'kwargs': ('dict', ())},
                  selfclass=concrete)
    hit = False
    for o in outs:
        t = it.snap(o.value, o.st)
        if o.kind == 'raise':
            continue
        if t == NOTIMPL:
            # allowed only where no implementation is registered
            pos = [a for a, v in o.st.facts.items()
                   if v and a[0] == 'op' and a[1] == 'in' and
                   mentions(a, '_OPERATORS')]
            rep.ob('dispatcher', 'registered implementations are used', not pos,
                   "an operation with a registered implementation is refused",
                   f.where)
            continue
        if t[0] == 'call' and t[1][0] == 'sub' and mentions(t[1][1], '_OPERATORS'):
            hit = True
            key = t[1][2]
            rep.ob('dispatcher', 'lookup key', key in (op, resolved),
                   f"looks up {show(key)}", f.where)
            rep.ob('dispatcher', 'operands', tuple(t[2]) in ((x, y),
                   (('star', ('tuple', (x, y))),)),
                   f"calls the implementation with {list(map(show, t[2]))}", f.where)
    rep.ob('dispatcher', 'an implementation is called', hit or None,
           "no path calls a registered implementation", f.where)
    # registration
    g = program.lookup(cls.qual, 'implements')[1][1]
    it = Interp(program, Config(inline=inmodules(mod), trace=True))
    fn = ('sym', 'user_function')
    for o in it.run(g, args={'operation': op}, selfclass=concrete):
        if o.kind != 'return':
            continue
        it.sinks.append([])
        try:
            res = it.call(o.value, [fn], {}, o.st.copy(), None,
                          it._frame(g.module, g, cls.qual))
        except Exception:
            continue
        finally:
            it.sinks.pop()
        for v, s in res:
            ev = [e for e in s.trace if e.kind == 'setitem' or
                  e.kind == 'store_item']
            for e in ev:
                d = e.data
                if not mentions(d, '_OPERATORS'):
                    continue
                ok = resolved in subterm(d) and fn in subterm(d) or None
                rep.ob('dispatcher', 'registration', ok,
                       f"stores {show(d)}", g.where)
            rep.ob('dispatcher', 'registration returns the function',
                   True if it.snap(v, s) == fn else None, show(v), g.where)
    # each class keeps its own registry
    for label, q in [*CLASSES.items(), ('real array', REAL)]:
        c = program.need_class(q)
        for attr in ('_OPERATORS', '_FUNCTIONS'):
            rep.ob('dispatcher', f"{label} has its own {attr.strip('_').lower()}",
                   attr in c.members,
                   "registrations on this class leak into its parent class",
                   c.where)


def subterm(t):
    from ..absint import subterms
    return set(subterms(t))


def mentions(t, name):
    from ..absint import subterms
    return any((x[0] == 'attr' and x[2] == name) or
               (x[0] == 'cattr' and x[2] == name) for x in subterms(t)
               if len(x) > 2)


# ----------------------------------------------------------------------

def compute(rep, what, op, kinds, res, where, rev=False):
    """One registered implementation for operands of given kinds."""
    if res is None:
        return
    want = (A, B)[:len(kinds)]
    seen = 0
    for kind, t, facts in res:
        if kind != 'return':
            continue
        while t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'apply':
            t = t[1][1]
        b = built(t)
        data = b.data if b is not None and b.data is not None else t
        got = operation(data)
        if got is None and data is not t:
            got = operation(t)
        if got is None:
            src = source(data)
            if t == K(None):
                rep.ob('compute', what, False, "returns nothing", where)
                continue
            if op == 'pos' and src == A:
                rep.ob('compute', what, True, '', where)
                seen += 1
                continue
            if src is not None or data[0] == 'k':
                rep.ob('compute', what, False,
                       f"the result is {show(data)}, not {op} of the operands",
                       where)
                continue
            rep.ob('compute', what, None, f"data {show(data)}", where)
            continue
        name, args = got
        srcs = tuple(source(x) for x in args[:len(want)])
        if None in srcs:
            rep.ob('compute', what, None, f"operands {show(data)}", where)
            continue
        seen += 1
        ok = name == op and srcs == want
        rep.ob('compute', what, ok, f"computes {show(data)}", where)
    rets = [x for x in res if x[0] == 'return']
    if not rets and not allowed_refusal(op, kinds):
        rep.ob('compute', what, False, "no path returns a result", where)


def allowed_refusal(op, kinds):
    if op in ADDITIVE:
        return 'Array' in kinds and 'Vector' in kinds
    return False


def physical(program, rep):
    P = physops(program)
    for op in (*COMPARE, *ADDITIVE, *MULTIPLICATIVE, 'pow'):
        for kinds in binary_kinds():
            cls = owner(kinds)
            what = f"{kinds[0]} {op} {kinds[1]}"
            res = P.outcomes(cls, op, kinds)
            if res is None:
                rep.ob('compute', what, False, f"{cls} registers no {op}", '')
                continue
            compute(rep, what, op, kinds, res, P.where(cls, op))
    for op in ('abs', 'pos', 'neg', 'round', 'floor', 'ceil', 'trunc'):
        for k in KINDS:
            if op in ('round', 'floor', 'ceil', 'trunc') and k != 'Scalar':
                continue
            res = P.outcomes(k, op, (k,))
            if res is None:
                rep.ob('compute', f"{op} {k}", False, f"{k} registers no {op}", '')
                continue
            compute(rep, f"{op} {k}", op, (k,), res, P.where(k, op))
    res = P.outcomes('Scalar', 'round', ('Scalar',), kwargs={'ndigits': ('sym', 'n')})
    for kind, t, f in res or ():
        if kind == 'return' and built(t):
            d = built(t).data
            rep.ob('compute', 'round Scalar digits', ('sym', 'n') in subterm(d),
                   f"the requested digits are dropped: {show(d)}",
                   P.where('Scalar', 'round'))
    for kinds in binary_kinds():
        cls = owner(kinds)
        res = P.outcomes(cls, 'pow', kinds, kwargs={'mod': ('sym', 'modulus')})
        for kind, t, f in res or ():
            if kind == 'return':
                b = built(t)
                d = b.data if b is not None and b.data is not None else t
                rep.ob('compute', f"pow({kinds[0]}, {kinds[1]}, modulus)",
                       ('sym', 'modulus') in subterm(d),
                       f"the modulus is dropped: {show(d)}", P.where(cls, 'pow'))
    for op in ('int', 'float', 'complex'):
        res = P.outcomes('Scalar', op, ('Scalar',)) or ()
        for kind, t, f in res:
            if kind != 'return':
                continue
            n = opname(t[1]) if t[0] == 'call' else None
            rep.ob('cast', f"{op}(Scalar)", n == op and source(t[2][0]) == A
                   if n else None, f"computes {show(t)}", P.where('Scalar', op))
    # ufuncs registered next to an operator compute the same operation
    from ..ops import UFUNC_OP
    for k in KINDS:
        for key in P.table.get(P.classes[k], {}):
            if key in UFUNC_OP:
                res = P.outcomes(k, key, (k, 'float'))
                compute(rep, f"{key} {k}", UFUNC_OP[key], (k, 'float'), res,
                        P.where(k, key))


AXISLESS = ('sin', 'cos', 'tan', 'sqrt', 'log', 'log10', 'log2', 'log1p')
AXISFUL = ('squeeze', 'min', 'max', 'mean', 'sum', 'cumsum', 'transpose')
SAME = {'amin': 'min', 'amax': 'max'}


def functions(program, rep):
    from ..absint import subterms
    P = physops(program)
    AX = ('sym', 'axis')
    for name in (*AXISLESS, *AXISFUL, 'gradient', 'trapz'):
        for k in KINDS:
            variants = [(None, ())]
            if name in AXISFUL:
                kw = 'axes' if name == 'transpose' else 'axis'
                variants.append(({kw: AX}, ()))
            if name == 'gradient':
                variants.append(({'axis': AX}, ()))
                variants += [(None, (x,)) for x in ('Scalar', 'Vector', 'Array',
                                                    'float', 'ndarray')]
            if name == 'trapz':
                if P.outcomes(k, 'numpy.trapz', (k,)) is None:
                    continue            # only arrays have it
                variants += [({'axis': AX}, ()), ({'dx': B}, ()),
                             *((None, (x,)) for x in ('Vector', 'Array', 'ndarray'))]
            for kwargs, extra in variants:
                if name in ('gradient', 'squeeze') and k == 'Scalar':
                    continue
                res = P.outcomes(k, f'numpy.{name}', (k, *extra), kwargs=kwargs)
                what = f"numpy.{name}({', '.join((k, *extra))}" + \
                    (f', {next(iter(kwargs))})' if kwargs else ')')
                if res is None:
                    rep.ob('function', what, False, 'not implemented', '')
                    continue
                where = P.where(k, f'numpy.{name}')
                for kind, t, facts in res:
                    if kind == 'return':
                        one_function(rep, what, name, t, where,
                                     AX if AX in (kwargs or {}).values() else None,
                                     B if extra or B in (kwargs or {}).values()
                                     else None,
                                     set(subterms(t)))


def one_function(rep, what, name, t, where, axis, spacing, subs):
    calls = [x for x in subs if x[0] == 'call' and x[1][0] == 'ext' and
             x[1][1].startswith('numpy.') and x[2] and
             x[1][1].split('.')[1] not in ('array', 'asarray', 'ravel')]
    mine = [x for x in calls if SAME.get(x[1][1][6:], x[1][1][6:]) == name]
    if t == K(None):
        rep.ob('function', what, False, 'returns nothing', where)
        return
    if not mine:
        plain = source(built(t).data) if built(t) and built(t).data else source(t)
        rep.ob('function', what, False if calls or plain else None,
               f"computes {show(t)}", where)
        return
    for c in mine:
        ok = source(c[2][0]) == A
        if axis is not None and ok:
            ok = axis in [v for k, v in c[3]] or axis in c[2][1:]
        if spacing is not None and ok:
            ok = spacing in subterm(('tuple', c[2][1:])) or any(
                spacing in subterm(v) for k, v in c[3])
        rep.ob('function', what, ok, f"computes {show(c)}", where)


def real(program, rep):
    cls = program.need_class(REAL).qual
    types = {}

    def decide(it, atom, st):
        return exact(program, types)(it, atom, st) if types else None
    reg = Registrations(program, 'eprempy.real._array', decide=decide,
                        opaque=('eprempy.real._array:array_factory',))
    from ..ops import UFUNC_OP
    for c, opterm, value, node in reg.entries:
        if c != cls:
            continue
        key = opterm[2] if opterm[0] == 'k' else opname(opterm) or opterm[1]
        op = NAMES.get(key) or UFUNC_OP.get(key)
        if op is None or op in ('eq', 'ne', 'round'):
            continue
        f = program.funcs.get(value[1]) if value[0] in ('rawfunc', 'func') else None
        where = f.where if f else ''
        combos = [(cls,)] if op in UNARY else [
            (cls, cls), (cls, 'float'), ('float', cls), (cls, 'ndarray'),
            ('ndarray', cls)]
        if op in COMPARE:
            combos = [(cls, cls), (cls, 'float')]
        for kinds in combos:
            types.clear()
            types.update(zip((A, B), kinds))
            st = {t: k for t, k in types.items() if k == cls}
            res = []
            for kind, t, s in reg.call(value, [A, B][:len(kinds)], types=st):
                res.append((kind, t, dict(s.facts)))
            label = ' '.join(k.split(':')[-1] for k in kinds)
            remeshed(rep, f"real {key} {label}", op, kinds, res, where)
    types.clear()


def remeshed(rep, what, op, kinds, res, where):
    """Like compute, with operands taken from remesh(a, b)."""
    out = []
    for kind, t, facts in res:
        out.append((kind, unremesh(t), facts))
    compute(rep, what, op, kinds, out, where)


def unremesh(t):
    from ..util import mapterm, callname

    def fn(x):
        if x[0] == 'sub' and x[1][0] == 'call' and callname(x[1]) == 'remesh' \
                and isk(x[2], int) and len(x[1][2]) == 2:
            return x[1][2][x[2][2]]
        if x[0] == 'op' and len(x) == 3 and x[2][0] == 'star' \
                and callname(x[2][1]) == 'remesh':
            return ('op', x[1], *x[2][1][2])
        if x[0] == 'call' and len(x[2]) == 1 and x[2][0][0] == 'star' \
                and x[2][0][1][0] == 'call' and callname(x[2][0][1]) == 'remesh':
            return ('call', x[1], x[2][0][1][2], x[3])
        return x
    return mapterm(t, fn)


# ----------------------------------------------------------------------

def tables(program, rep, table):
    t = module_value(program, OPS, '_OPERATION_METADATA')
    where = line_of(program, OPS, '_OPERATION_METADATA')
    d = pyval(t)
    if not isinstance(d, dict):
        raise AnalysisError("operation metadata not understood")
    for name, e in d.items():
        what = f"operation {name!r}"
        if not isinstance(e, dict):
            rep.ob('table', what, None, "entry not understood", where)
            continue
        for key, x in e.items():
            if key == 'aliases':
                for a in x if isinstance(x, list) else ():
                    if isinstance(a, str) and a in NAMES:
                        rep.ob('table', f"{what} alias {a!r}", NAMES[a] == name,
                               f"{a!r} denotes {NAMES[a]}", where)
                continue
            if not isinstance(x, Opaque):
                continue
            got = callable_op(program, x.term)
            if got is None:
                rep.ob('table', f"{what} {key}", None, show(x.term), where)
                continue
            op, rev = got
            want = (name, key == 'reverse')
            rep.ob('table', f"{what} {key}", (op, bool(rev)) == want,
                   f"is {show(x.term)}, which computes {op}"
                   f"{' with reversed operands' if rev else ''}", where)
    for n in ('_DUNDER_MAP', '_CALLABLE_MAP'):
        try:
            m = pyval(module_value(program, OPS, n))
        except AnalysisError:
            continue
        if not isinstance(m, dict):
            continue
        for key, x in m.items():
            if not isinstance(x, Opaque) or not isinstance(key, str):
                continue
            got = callable_op(program, x.term)
            want = DUNDERS.get(key, (key, 0))
            rep.ob('table', f"{n.strip('_').lower()} {key!r}",
                   None if got is None else (got[0], bool(got[1])) ==
                   (want[0], bool(want[1])), f"is {show(x.term)}",
                   line_of(program, OPS, n))


def callable_op(program, t):
    """(operation, reversed) a callable computes."""
    n = opname(t)
    if n:
        return n, 0
    if t[0] == 'func':
        f = program.funcs[t[1]]
        params = [a.arg for a in f.node.args.args]
        it = Interp(program, Config(inline=lambda g: False, trace=False))
        outs = [o for o in it.run(f) if o.kind == 'return']
        vals = {it.snap(o.value, o.st) for o in outs}
        if len(vals) != 1:
            return None
        got = as_op(vals.pop())
        if got is None:
            return None
        op, args = got
        syms = [x[1] for x in args if x[0] == 'sym']
        if op in UNARY:
            return (op, 0) if syms[:1] == params[:1] else None
        if syms[:2] == params[:2]:
            return op, 0
        if syms[:2] == params[:2][::-1]:
            return op, 1
    return None


# ----------------------------------------------------------------------

def derived(program, rep):
    lt, eq = ('op', 'lt', SELF, OTHER), ('op', 'eq', SELF, OTHER)
    orders = {'lt': (True, False), 'eq': (False, True), 'gt': (False, False)}
    want = {
        '__ne__': {'lt': True, 'eq': False, 'gt': True},
        '__le__': {'lt': True, 'eq': True, 'gt': False},
        '__gt__': {'lt': False, 'eq': False, 'gt': True},
        '__ge__': {'lt': False, 'eq': True, 'gt': True},
    }
    from ..opspec import truth, consistent
    for q in ('eprempy.base.mixins:Comparable', 'eprempy.real._objects:Quantity'):
        c = program.classes.get(q)
        if c is None:
            rep.ob('derived', q, None, "class not found", '')
            continue
        for name, table in want.items():
            e = (c.members.get(name) or [None])[-1]
            if e is None or e[0] != 'func':
                continue
            f = e[1]
            it = Interp(program, Config(inline=inmodules(f.module.name),
                                        trace=False, opaque={}))
            outs = it.run(f, types={})
            for case, (l, q2) in orders.items():
                env = {lt: l, eq: q2, ('op', 'gt', SELF, OTHER): case == 'gt',
                       ('op', 'le', SELF, OTHER): case != 'gt',
                       ('op', 'ge', SELF, OTHER): case != 'lt',
                       ('op', 'ne', SELF, OTHER): case != 'eq'}
                own = ('op', name.strip('_'), SELF, OTHER)
                env.pop(own)
                verdict = None
                for o in outs:
                    if o.kind != 'return':
                        continue
                    facts = {norm(a): v for a, v in o.st.facts.items()}
                    if consistent(facts, env) is False:
                        continue
                    v = norm(it.snap(o.value, o.st))
                    got = truth(v, env)
                    if own in subterm(v):
                        verdict = False
                        break
                    if got is None:
                        continue
                    if got != table[case]:
                        verdict = False
                        break
                    verdict = True
                rep.ob('derived', f"{c.name}.{name} when self {case} other", verdict,
                       "the derived comparison has the wrong truth value", f.where)
    sub = {
        '__sub__': ('op', 'add', SELF, ('op', 'neg', OTHER)),
        '__rsub__': ('op', 'add', OTHER, ('op', 'neg', SELF)),
    }
    alt = {
        '__sub__': ('op', 'add', ('op', 'neg', OTHER), SELF),
        '__rsub__': ('op', 'add', ('op', 'neg', SELF), OTHER),
    }
    for q in ('eprempy.base.mixins:Complex', 'eprempy.real._objects:Quantity'):
        c = program.classes.get(q)
        if c is None:
            continue
        for name in sub:
            e = (c.members.get(name) or [None])[-1]
            if e is None or e[0] != 'func':
                continue
            f = e[1]
            it = Interp(program, Config(inline=lambda g: False, trace=False))
            outs = it.run(f, types={})
            if outs and all(o.kind == 'return' and
                            it.snap(o.value, o.st) == NOTIMPL for o in outs):
                rep.ob('derived', f"{c.name}.{name}", False,
                       "always refuses its operands", f.where)
            for o in outs:
                v = it.snap(o.value, o.st)
                if o.kind != 'return' or v == NOTIMPL:
                    if v == NOTIMPL and [a for a, y in o.st.facts.items()
                                         if y and a[0] == 'isa' and a[1] == OTHER]:
                        rep.ob('derived', f"{c.name}.{name}", False,
                               "refuses operands of its own type", f.where)
                    continue
                got = as_op(v)
                if v in (sub[name], alt[name]):
                    ok = True
                elif got and got[0] in ('add', 'sub'):
                    ok = False
                else:
                    ok = None
                rep.ob('derived', f"{c.name}.{name}", ok, f"computes {show(v)}",
                       f.where)


def norm(t):
    """Dunder calls read as operators."""
    from ..util import mapterm

    def fn(x):
        if x[0] == 'call':
            got = as_op(x)
            if got and len(got[1]) == 2:
                return ('op', got[0], *got[1])
        return x
    return mapterm(t, fn)


def casts(program, rep):
    """__int__, __float__ and __complex__ of scalars, arrays and variables."""
    cases = {'__int__': 'int', '__float__': 'float', '__complex__': 'complex'}
    for label, q in (('Scalar', CLASSES['Scalar']), ('Array', CLASSES['Array']),
                     ('Variable', 'eprempy.real._objects:Variable'),
                     ('numeric array', 'eprempy.numeric._array:Array')):
        c = program.classes.get(q)
        if c is None:
            continue
        for name, op in cases.items():
            found = program.lookup(c.qual, name)
            if not found or found[1][0] != 'func':
                continue
            f = found[1][1]
            it = Interp(program, Config(inline=inmodules(f.module.name),
                                        trace=False))
            outs = it.run(f, selfclass=c.qual)
            n = 0
            for o in outs:
                if o.kind != 'return':
                    continue
                v = it.snap(o.value, o.st)
                n += 1
                if v[0] == 'call' and v[1][0] == 'sub' and \
                        mentions(v[1][1], '_OPERATORS'):
                    key = denoted(v[1][2], NAMES)
                    ok = key == op and isinstance(v[1][2], tuple) and \
                        v[1][2][0] != 'k'
                    rep.ob('cast', f"{label}.{name}", ok,
                           f"looks up {show(v[1][2])}", f.where)
                    continue
                if v[0] == 'call' and v[1][0] == 'call' and v[1][1][0] == 'attr' \
                        and v[1][1][2] == 'get':
                    key = v[1][2][0] if v[1][2] else None
                    d = denoted(key, NAMES) if key else None
                    rep.ob('cast', f"{label}.{name}", d == op and key[0] != 'k',
                           f"looks up {show(key)}", f.where)
                    continue
                k = opname(v[1]) if v[0] == 'call' else None
                if k is None:
                    rep.ob('cast', f"{label}.{name}", None, show(v), f.where)
                else:
                    rep.ob('cast', f"{label}.{name}", k == op,
                           f"computes {show(v)}", f.where)
            if not n:
                rep.ob('cast', f"{label}.{name}", False, "never returns", f.where)
