"""M03: universal constants are coherent across metric systems."""

from ..absint import Interp, Config, show, K
from ..model import AnalysisError
from ..util import module_value, pyval, line_of, close, Opaque, inmodules, simplify, builtonly
from .. import physics as ph

LEVEL = 'other'
EXPLANATION = (
    "Constant propagation through the constants module yields the complete "
    "table of universal constants in both metric systems. Each entry is checked "
    "for dimension (its unit against its stated quantity), for agreement "
    "between the two systems, and against an accepted value; the look-up path "
    "is interpreted over value terms to check that value, unit and metadata are "
    "taken from the same entry and the requested system."
)
ASSUMPTIONS = [
    "accepted values and unit definitions in sa/physics.py",
    "the table is not rewritten at run time by other modules",
]
MOD = 'eprempy.universal'
UNDERSTOOD = ('sub', 'sym', 'k', 'attr', 'cattr', 'op')


def gaussian_ratio(unit):
    """Value in (g, cm, s) Gaussian of a unit, as a factor to its SI analogue."""
    v = 1.0
    for name, n in ph.parse(unit).items():
        s = ph.split_unit(name)
        if s is None:
            return None
        if s[1] in ('statC', 'statA'):
            v *= (10.0 ** s[0] * 10 / ph.C_CM) ** float(n)
        elif s[1] in ph.SI_VALUE:
            v *= (10.0 ** s[0] * ph.SI_VALUE[s[1]]) ** float(n)
        else:
            return None
    return v


def quantity_dim(text, system):
    table = ph.MKS_DIM if system == 'mks' else ph.CGS_DIM
    s = text
    for k in sorted(table, key=len, reverse=True):
        if ' ' in k:
            s = s.replace(k, k.replace(' ', '_'))
    out = {}
    for name, n in ph.parse(s).items():
        k = name.replace('_', ' ')
        if k not in table:
            return None
        out = ph.dmul(out, table[k], n)
    return out


def run(program, rep):
    rep.rule('dimension', "the unit of each constant in each metric system has "
             "the dimension of the constant's stated quantity", 30)
    rep.rule('coherent', "the values of one constant in the two metric systems "
             "denote the same physical amount", 15)
    rep.rule('value', "each constant has its accepted value", 15)
    rep.rule('lookup', "a constant is looked up with the value and the unit of "
             "one entry, in the requested metric system", 4)
    t = module_value(program, MOD, 'CONSTANTS')
    where = line_of(program, MOD, 'CONSTANTS')
    if t[0] != 'call' or not t[2] or t[2][0][0] != 'dict':
        raise AnalysisError("the constants are not a table")
    table = pyval(t[2][0])
    rep.analysed['constants'] = len(table)
    for name, e in sorted(table.items(), key=lambda x: str(x[0])):
        check_entry(rep, name, e, where)
    for name in ph.CONSTANTS:
        rep.ob('value', f"constant {name!r} present", name in table,
               "the constant is not defined", where)
    lookups(program, rep)


def check_entry(rep, name, e, where):
    if not isinstance(e, dict) or isinstance(e.get('quantity'), (Opaque, type(None))):
        rep.ob('dimension', f"constant {name!r}", None, "entry not understood", where)
        return
    ref = ph.CONSTANTS.get(name)
    si = {}
    for system in ('mks', 'cgs'):
        d = e.get(system)
        if not isinstance(d, dict) or set(d) < {'unit', 'value'}:
            rep.ob('dimension', f"constant {name!r} in {system}", False,
                   "value or unit missing", where)
            continue
        unit, value = d['unit'], d['value']
        if isinstance(unit, Opaque) or isinstance(value, Opaque):
            rep.ob('dimension', f"constant {name!r} in {system}", None,
                   "not constant", where)
            continue
        try:
            have = ph.unit_dim(unit, system)
            want = quantity_dim(e['quantity'], system)
        except ph.UnitSyntax as err:
            have = want = None
        if have is None or want is None:
            rep.ob('dimension', f"constant {name!r} in {system}",
                   None, f"cannot read {unit!r} or {e['quantity']!r}", where)
        else:
            rep.ob('dimension', f"constant {name!r} in {system}", have == want,
                   f"unit {unit!r} has dimension {ph.showdim(have)} but "
                   f"{e['quantity']!r} has {ph.showdim(want)}", where)
        g = gaussian_ratio(unit)
        if g is not None:
            si[system] = value * g
        if ref is None:
            rep.ob('value', f"constant {name!r} in {system}", None,
                   "no reference value", where)
        else:
            want, tol, cgs = ref
            if system == 'cgs' and cgs is not None:
                rep.ob('value', f"constant {name!r} in cgs", close(value, cgs, tol),
                       f"value {value!r}, accepted {cgs!r}", where)
            elif g is None:
                rep.ob('value', f"constant {name!r} in {system}", None,
                       f"unit {unit!r} not understood", where)
            else:
                rep.ob('value', f"constant {name!r} in {system}",
                       close(value * g, want, tol),
                       f"value {value!r} {unit} is {value * g:.6g} in SI, "
                       f"accepted {want:.6g}", where)
    if ref is not None and ref[2] is not None:
        return
    if len(si) == 2:
        rep.ob('coherent', f"constant {name!r}", close(si['mks'], si['cgs'], 5e-5),
               f"mks value is {si['mks']:.6g} in SI, cgs value is "
               f"{si['cgs']:.6g}", where)


def lookups(program, rep):
    """Constants(system)[name] -> value(entry[system].value, entry[system].unit)."""
    cls = program.need_class(f"{MOD}:Constants")
    found = program.lookup(cls.qual, '__getitem__')
    init = program.lookup(cls.qual, '__init__')
    if not found or not init:
        raise AnalysisError("the constants have no look-up method")
    opaque = set()
    value = program.resolve_dotted('eprempy.measured', 'value')
    const = program.resolve_dotted(MOD, 'Constant')
    it = Interp(program, Config(inline=inmodules(MOD), opaque=opaque))
    system = ('sym', 'system')
    self_ = ('sym', 'self')
    from ..absint import State
    st = State()
    outs = it.run(init[1][1], {'self': self_, 'system': system}, state=st)
    done = 0
    for o in outs:
        if o.kind != 'return':
            continue
        st2 = o.st
        for r in it.run(found[1][1], {'self': self_, 'name': ('sym', 'name')},
                        state=st2.copy()):
            if r.kind != 'return':
                continue
            done += 1
            judge_lookup(it, r, rep, found[1][1].where, const, value)
    if not done:
        raise AnalysisError("constant look-up never returns")
    for var, system in (('MKS', 'mks'), ('CGS', 'cgs')):
        t = module_value(program, MOD, var)
        ok = None
        if t[0] == 'call' and t[2] and t[2][0][0] == 'k':
            ok = str(t[2][0][2]).lower() == system
        rep.ob('lookup', f"constants {var}", ok,
               f"built as {show(t)}", line_of(program, MOD, var))


def judge_lookup(it, r, rep, where, const, value):
    t = simplify(it.snap(r.value, r.st))
    if t[0] != 'call' or t[1] != const or not t[2]:
        rep.ob('lookup', 'Constants[name]', None, f"returns {show(t)}", where)
        return
    x = t[2][0]
    meta = dict(zip(('quantity', 'info'), t[2][1:]))
    meta.update(dict(t[3]))
    if x[0] == 'call' and x[1] == value:
        args = dict(zip(('data', 'unit'), x[2]))
        args.update(dict(x[3]))
    else:
        rep.ob('lookup', 'Constants[name]', None, f"built from {show(x)}", where)
        return
    v, u = x[2][0] if x[2] else None, args.get('unit')
    entry = None

    def field(term, name):
        """entry term when term is entry[system][name]"""
        if term and term[0] == 'sub' and term[2] == K(name) and term[1][0] == 'sub':
            return term[1][1], term[1][2]
        return None
    a, b = field(v, 'value'), field(u, 'unit')
    def verdict(x, known):
        if known is not None:
            return True
        return False if x is None or builtonly(x, UNDERSTOOD) else None
    rep.ob('lookup', 'value of Constants[name]', verdict(v, a),
           f"the value is {show(v) if v else 'missing'}", where)
    rep.ob('lookup', 'unit of Constants[name]', verdict(u, b),
           f"the unit is {show(u) if u else 'missing'}", where)
    if a and b:
        rep.ob('lookup', 'value and unit of one entry', a == b,
               f"value from {show(v)}, unit from {show(u)}", where)
        sys_ok = a[1] in (
            ('call', ('attr', ('sym', 'system'), 'lower'), (), ()),
            ('sym', 'system'))
        if not sys_ok and not builtonly(a[1], UNDERSTOOD):
            sys_ok = None
        rep.ob('lookup', 'requested system', sys_ok,
               f"system is {show(a[1])}", where)
        key_ok = a[0][0] == 'sub' and a[0][2] == ('sym', 'name')
        rep.ob('lookup', 'requested name', key_ok, f"entry is {show(a[0])}", where)
        for f in ('quantity', 'info'):
            rep.ob('lookup', f"{f} of Constants[name]",
                   meta.get(f) == ('sub', a[0], K(f)),
                   f"{f} is {show(meta.get(f) or ())}", where)
