"""P15: the tables of EPREM parameters are right and agree with one another."""

import ast
import json
import math
import os

from .. import physics as ph
from ..model import AnalysisError
from ..util import module_value, pyval, Opaque

LEVEL = 'other'
EXPLANATION = (
    "Constant propagation through the two Python tables of parameters, and reading of "
    "the JSON database next to them. Every constant of baseTypes.h is evaluated from "
    "its C expression and compared with the value of the other table and, if it is a "
    "physical or mathematical constant, with its accepted value in the unit given. "
    "The two tables of metadata are compared entry by entry; types follow from the "
    "reading function named in the database; names and aliases are compared with one "
    "another; default values are resolved and compared with their bounds."
)
ASSUMPTIONS = [
    "the database was extracted from the sources of EPREM (the tests compare them)",
    "EPREM uses constants rounded to about four digits, and so may the tables",
]
META = 'eprempy.parameter._metadata'
REF = 'eprempy.parameter.reference'

# accepted values, in the unit that follows
CONSTANTS = {
    'AU': (1.495978707e13, 'cm'), 'C': (2.99792458e10, 'cm/s'),
    'EV': (1.602176634e-12, 'erg/eV'), 'MEV': (1.602176634e-6, 'erg/MeV'),
    'GEV': (1.602176634e-3, 'erg/GeV'), 'MP': (1.67262192e-24, 'g'),
    'MZERO': (0.938272088, 'GeV'), 'Q': (4.80320471e-10, 'statC'),
    'RSUN': (6.96e10, 'cm'), 'TAU': (499.004784, 's'), 'RSAU': (0.00465247, '1'),
    'VOLT': (1 / 299.792458, '1'), 'PI': (math.pi, None),
    'HALF_PI': (math.pi / 2, None), 'TWO_PI': (2 * math.pi, None),
    'DEG2RAD': (math.pi / 180, '1'), 'RAD2DEG': (180 / math.pi, '1'),
    'DAY': (499.004784 / 86400, 'day'), 'F': (0, None), 'T': (1, None),
}
TYPES = {'readInt': int, 'readDouble': float, 'readString': str,
         'readDoubleArray': list}
KNOWN = {'nucleon', 'nuc', 'rad'}
SPECIAL = {'N_PROCS': None, 'third': 1 / 3}


def number(node, names):
    """The value of a C expression."""
    if isinstance(node, ast.Expression):
        return number(node.body, names)
    if isinstance(node, ast.Constant) and type(node.value) in (int, float):
        return node.value
    if isinstance(node, ast.Name):
        return names(node.id)
    if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name):
        return names(node.attr)
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
        return -number(node.operand, names)
    if isinstance(node, ast.BinOp):
        x, y = number(node.left, names), number(node.right, names)
        if isinstance(node.op, ast.Add):
            return x + y
        if isinstance(node.op, ast.Sub):
            return x - y
        if isinstance(node.op, ast.Mult):
            return x * y
        if isinstance(node.op, ast.Div):
            return x / y
    if isinstance(node, ast.Call) and getattr(node.func, 'id', '') == 'sqrt':
        return math.sqrt(number(node.args[0], names))
    raise ValueError(ast.dump(node)[:60])


def evaluate(text, names):
    return number(ast.parse(text.strip(), mode='eval'), names)


def near(x, y, tol=1e-3):
    return x == y or abs(x - y) <= tol * max(abs(x), abs(y))


def kind(x):
    """The type a table entry names."""
    if isinstance(x, type):
        return x
    if isinstance(x, str):
        return {t.__name__: t for t in (int, float, str, list)}.get(x)
    text = repr(x)
    for t in (int, float, str, list):
        if t.__name__ in text:
            return t


def table(P, mod, name):
    t = pyval(module_value(P, mod, name))
    return t if isinstance(t, dict) else None


def unit_known(u):
    try:
        terms = ph.parse(u)
    except Exception:
        return False
    for n in terms:
        if n != '1' and ph.split_unit(n) is None and n not in KNOWN:
            return False
    return True


def run(P, rep):
    rep.rule('constants', "constants of baseTypes.h have the values of their defining "
             "expressions and, where physical, accepted values in their units", 15)
    rep.rule('tables', "the database, the metadata and the reference tables describe "
             "the same parameters in the same way", 60)
    rep.rule('units', "the unit of each parameter is a unit the package knows", 20)
    rep.rule('aliases', "no name or alias refers to two parameters", 60)
    rep.rule('bounds', "default values are of their type and within their bounds", 60)

    path = os.path.join(P.root, 'src', 'eprempy', 'parameter', 'reference.json')
    try:
        with open(path) as fp:
            db = json.load(fp)
    except (OSError, ValueError) as err:
        raise AnalysisError(f"cannot read the parameter database: {err}")
    base, conf = db.get('BASETYPES_H', {}), db.get('CONFIGURATION_C', {})
    meta_b, meta_c = table(P, META, '_BASETYPES_H'), table(P, META, '_CONFIGURATION_C')
    meta_l = table(P, META, '_LOCAL')
    ref_b, ref_c = table(P, REF, 'BASETYPES_H'), table(P, REF, 'CONFIGURATION_C')
    for n, t in (('_BASETYPES_H', meta_b), ('_CONFIGURATION_C', meta_c),
                 ('_LOCAL', meta_l), ('BASETYPES_H', ref_b),
                 ('CONFIGURATION_C', ref_c)):
        if t is None:
            rep.ob('tables', n, None, 'not understood')
            return
    rep.count('table entries', sum(map(len, (base, conf, meta_b, meta_c, meta_l,
                                             ref_b, ref_c))))
    where = 'src/eprempy/parameter/reference.json'

    # constants
    values, active = {}, set()

    def constant(name):
        if name in values:
            return values[name]
        if name not in base or name in active:
            raise ValueError(f"unknown constant {name}")
        active.add(name)
        values[name] = evaluate(base[name], constant)
        return values[name]

    for name in base:
        try:
            v = constant(name)
        except (ValueError, SyntaxError, ZeroDivisionError) as err:
            rep.ob('constants', name, None, str(err)[:80], where)
            continue
        want = CONSTANTS.get(name)
        unit = meta_b.get(name, {}).get('unit')
        if want:
            ok = near(v, want[0]) if want[1] is not None or name in ('F', 'T') \
                else near(v, want[0], 1e-12)
            rep.ob('constants', name, ok, f"is {v!r}, not {want[0]!r}", where)
            same = unit == want[1]
            if not same and unit and want[1]:
                try:
                    same = ph.parse(unit) == ph.parse(want[1])
                except Exception:
                    same = None
            rep.ob('constants', f"unit of {name}", same,
                   f"is {unit!r}, not {want[1]!r}", 'src/eprempy/parameter/_metadata.py')
        given = ref_b.get(name, {}).get('value')
        if given is None or isinstance(given, Opaque):
            rep.ob('constants', f"reference value of {name}",
                   False if name not in ref_b else None, repr(given))
        else:
            rep.ob('constants', f"reference value of {name}", near(v, given, 1e-9),
                   f"is {given!r}, but {base[name]} gives {v!r}",
                   'src/eprempy/parameter/reference.py')
        t = kind(meta_b.get(name, {}).get('type'))
        if t is not None:
            rep.ob('constants', f"type of {name}",
                   t is float or t is int and float(v).is_integer() and
                   '.' not in base[name], f"{base[name]} is not {t.__name__}", where)

    # the same parameters everywhere
    for what, d, metas, ref in (('constant', base, meta_b, ref_b),
                                ('parameter', conf, meta_c, ref_c)):
        for n in d:
            lost = n not in ref or what == 'constant' and n not in metas
            rep.ob('tables', f"{what} {n}", not lost, 'is missing from a table')
        for n in ref:
            if n not in d:
                rep.ob('tables', f"{what} {n}", False, 'is not in the database')
        for n, m in metas.items():
            r = ref.get(n)
            if r is None:
                continue
            for k in ('unit', 'aliases', 'type'):
                if k not in m or k not in r:
                    continue
                x, y = m[k], r[k]
                if k == 'type':
                    x, y = kind(x), kind(y)
                if isinstance(x, Opaque) or isinstance(y, Opaque):
                    continue
                if k == 'aliases':
                    x, y = set(x), set(y)
                rep.ob('tables', f"{k} of {n}", x == y, f"{x!r} or {y!r}",
                       'src/eprempy/parameter/_metadata.py')
    for n, entry in conf.items():
        r = ref_c.get(n, {})
        want = TYPES.get(entry.get('mode'))
        if 'type' in r and want:
            rep.ob('tables', f"type of {n}", kind(r['type']) is want,
                   f"is {kind(r['type'])}, but it is read by {entry['mode']}",
                   'src/eprempy/parameter/reference.py')
        for k in ('defaultVal', 'minVal', 'maxVal'):
            if k in entry or k in r:
                rep.ob('tables', f"{k} of {n}", entry.get(k) == r.get(k),
                       f"{entry.get(k)!r} or {r.get(k)!r}",
                       'src/eprempy/parameter/reference.py')

    # units and names
    owner = {}
    for metas in (meta_l, meta_b, meta_c):
        for n, m in metas.items():
            u = m.get('unit')
            if isinstance(u, str):
                rep.ob('units', f"unit of {n}", unit_known(u), repr(u),
                       'src/eprempy/parameter/_metadata.py')
            names = [n, *(x for x in m.get('aliases', ()) if isinstance(x, str))]
            clash = [a for a in names if owner.get(a, n) != n]
            rep.ob('aliases', f"names of {n}", not clash,
                   f"{clash} also refers to {[owner[a] for a in clash]}",
                   'src/eprempy/parameter/_metadata.py')
            for a in names:
                owner.setdefault(a, n)

    # defaults
    def setting(name):
        if name in conf:
            return number_of(conf[name]['defaultVal'])
        if name in SPECIAL:
            if SPECIAL[name] is None:
                raise ValueError(name)
            return SPECIAL[name]
        return constant(name)

    def number_of(text):
        return evaluate(text.strip('[]'), setting)

    for n, entry in conf.items():
        if entry.get('mode') == 'readString' or entry.get('defaultVal') == 'N_PROCS':
            continue
        try:
            v = number_of(entry['defaultVal'])
            lo = number_of(entry['minVal']) if 'minVal' in entry else -math.inf
            hi = number_of(entry['maxVal']) if 'maxVal' in entry else math.inf
        except (ValueError, SyntaxError, KeyError, RecursionError) as err:
            if 'N_PROCS' not in json.dumps(entry):
                rep.ob('bounds', f"default of {n}", None, str(err)[:80], where)
            continue
        rep.ob('bounds', f"default of {n}", lo <= v <= hi,
               f"{v!r} is not between {lo!r} and {hi!r}", where)
        if entry['mode'] == 'readInt':
            rep.ob('bounds', f"type of the default of {n}", isinstance(v, int) or
                   v == int(v), f"{v!r} is not whole", where)
