"""M04: dimensions, canonical units and formulas of the named quantities."""

from ..absint import show
from ..model import AnalysisError
from .m01 import named_units
from ..util import module_value, pyval, line_of, Opaque
from .. import physics as ph

LEVEL = 'other'
EXPLANATION = (
    "Constant propagation through the module that defines the metric "
    "quantities yields the complete table the package is built with. For every "
    "quantity and both metric systems the stated dimension is compared with an "
    "independent reference, the canonical unit is dimensionally checked against "
    "it, and a formula in terms of other quantities is resolved through the "
    "table itself and compared with the reference."
)
ASSUMPTIONS = [
    "reference dimensions in sa/physics.py",
    "the tables are not rewritten at run time by other modules",
]
MOD = 'eprempy.metric._reference'
SYSTEMS = ('mks', 'cgs')


def run(program, rep):
    rep.rule('dimension', "the stated dimension of a quantity in a metric system "
             "is its physical dimension", 40)
    rep.rule('unit', "the canonical unit of a quantity in a metric system has the "
             "quantity's dimension", 40)
    rep.rule('formula', "a quantity defined by a formula refers to defined "
             "quantities and has the dimension of that formula", 15)
    rep.rule('base', "the base quantities carry their SI dimension and unit", 5)
    t = module_value(program, MOD, '_QUANTITIES')
    where = line_of(program, MOD, '_QUANTITIES')
    if t[0] != 'dict':
        raise AnalysisError("the metric quantities are not a table")
    table = pyval(t)
    rep.analysed['quantities'] = len(table)
    for name, e in sorted(table.items(), key=lambda x: str(x[0])):
        if isinstance(e, str):
            formula(rep, table, name, e, where)
        elif isinstance(e, dict):
            for system in SYSTEMS:
                entry(rep, name, e, system, where)
        else:
            rep.ob('dimension', f"quantity {name!r}", None, "not understood", where)
    for name in ph.MKS_DIM:
        if name in REQUIRED:
            rep.ob('formula', f"quantity {name!r} present", name in table,
                   "the quantity is not defined", where)
    for e in named_units(program).values():
        b = e.get('base') if isinstance(e, dict) else None
        q = b.get('quantity') if isinstance(b, dict) else None
        if isinstance(q, str):
            rep.ob('formula', f"quantity of the unit {b.get('symbol')!r}", q in table,
                   f"the quantity {q!r} is not defined", where)
    base(program, rep)


REQUIRED = set(ph.MKS_DIM)


def ref(name, system):
    return (ph.MKS_DIM if system == 'mks' else ph.CGS_DIM).get(name)


def entry(rep, name, e, system, where):
    what = f"quantity {name!r} in {system}"
    want = ref(name, system)
    dims, units = e.get('dimensions'), e.get('units')
    if not isinstance(dims, dict) or not isinstance(units, dict):
        rep.ob('dimension', what, None, "entry not understood", where)
        return
    if system not in dims:
        rep.ob('dimension', what, False, "no dimension is stated", where)
        return
    if system not in units:
        rep.ob('unit', what, False, "no canonical unit is stated", where)
        return
    text, unit = dims[system], units[system]
    if isinstance(text, str):
        try:
            have = ph.parse(text)
        except ph.UnitSyntax:
            rep.ob('dimension', what, None, f"cannot read {text!r}", where)
        else:
            rep.ob('dimension', what, None if want is None else have == want,
                   f"stated dimension is {text!r}, physically it is "
                   f"{ph.showdim(want)}", where)
    else:
        rep.ob('dimension', what, None, "not constant", where)
    if not isinstance(unit, str):
        rep.ob('unit', what, None, "not constant", where)
        return
    try:
        got = ph.unit_dim(unit, system)
        names = [n for n in ph.parse(unit) if ph.split_unit(n) is None]
    except ph.UnitSyntax:
        rep.ob('unit', what, None, f"cannot read {unit!r}", where)
        return
    if names:
        rep.ob('unit', what, None, f"unknown unit {names}", where)
    elif got is None:
        rep.ob('unit', what, False, f"the canonical unit {unit!r} does not belong "
               f"to the {system} system", where)
    elif want is None:
        rep.ob('unit', what, None, "no reference", where)
    else:
        rep.ob('unit', what, got == want,
               f"the canonical unit {unit!r} has dimension {ph.showdim(got)}, "
               f"the quantity {ph.showdim(want)}", where)
    canonical(rep, what, unit, system, where)


COHERENT = {
    'mks': {'m', 'kg', 's', 'A', 'K', 'mol', 'cd', 'rad', 'sr', 'Hz', 'J', 'N',
            'Pa', 'W', 'C', 'V', 'ohm', 'S', 'F', 'Wb', 'H', 'T', 'Bq', 'Gy', '1',
            'lm', 'lx', '#'},
    'cgs': {'cm', 'g', 's', 'statA', 'K', 'mol', 'cd', 'rad', 'sr', 'Hz', 'erg',
            'dyn', 'statC', 'statV', 'Mx', 'G', 'Oe', 'P', 'Ci', '1', 'lm', 'lx',
            '#'},
}


def canonical(rep, what, unit, system, where):
    """The unit is built from the system's own unprefixed units."""
    try:
        names = ph.parse(unit)
    except ph.UnitSyntax:
        return
    other = COHERENT['cgs' if system == 'mks' else 'mks']
    for n in names:
        if n in COHERENT[system]:
            continue
        bad = n in other
        rep.ob('unit', f"{what}: {n}", False if bad else None,
               f"the canonical unit {unit!r} uses {n!r}, which belongs to the "
               "other metric system", where)


def resolve(table, text, system, depth=0):
    """Dimension of a formula, through the table itself."""
    if depth > 20:
        return None
    for k in table:
        if isinstance(k, str) and ' ' in k:
            text = text.replace(k, k.replace(' ', '_'))
    out = {}
    for name, n in ph.parse(text).items():
        key = name.replace('_', ' ')
        if key not in table:
            raise KeyError(key)
        e = table[key]
        if isinstance(e, str):
            d = resolve(table, e, system, depth + 1)
        elif isinstance(e, dict) and isinstance(
                (e.get('dimensions') or {}).get(system), str):
            # the reference, so that one wrong entry is reported once
            d = ref(key, system) or ph.parse(e['dimensions'][system])
        else:
            d = None
        if d is None:
            return None
        out = ph.dmul(out, d, n)
    return out


def formula(rep, table, name, text, where):
    for system in SYSTEMS:
        what = f"quantity {name!r} in {system}"
        want = ref(name, system)
        try:
            got = resolve(table, text, system)
        except KeyError as err:
            rep.ob('formula', what, False, f"the formula {text!r} refers to the "
                   f"undefined quantity {err.args[0]!r}", where)
            continue
        except ph.UnitSyntax:
            rep.ob('formula', what, None, f"cannot read {text!r}", where)
            continue
        if got is None or want is None:
            rep.ob('formula', what, None, f"{text!r} not resolved", where)
        else:
            rep.ob('formula', what, got == want,
                   f"{text!r} has dimension {ph.showdim(got)}, the quantity "
                   f"{ph.showdim(want)}", where)


BASE = {
    'identity': ('1', '1'), 'amount': ('N', 'mol'), 'current': ('I', 'A'),
    'length': ('L', 'm'), 'luminous intensity': ('J', 'cd'), 'mass': ('M', 'kg'),
    'temperature': ('H', 'K'), 'time': ('T', 's'),
}


def base(program, rep):
    try:
        t = module_value(program, MOD, '_BASE_QUANTITIES')
    except AnalysisError:
        for k in BASE:
            rep.ob('base', f"base quantity {k!r}", None, "no table", '')
        return
    where = line_of(program, MOD, '_BASE_QUANTITIES')
    rows = pyval(t[2][0]) if t[0] == 'call' and t[2] else pyval(t)
    if isinstance(rows, Opaque):
        rep.ob('base', "base quantities", None, show(t), where)
        return
    seen = {}
    for r in rows:
        if isinstance(r, dict):
            seen[r.get('name')] = (r.get('dimension'), r.get('unit'))
    for k, v in BASE.items():
        rep.ob('base', f"base quantity {k!r}", seen.get(k) == v,
               f"defined as {seen.get(k)}, SI says {v}", where)
