"""M01: the unit tables state true physics."""

from ..model import AnalysisError
from ..util import module_value, pyval, line_of, close, Opaque
from .. import physics as ph

LEVEL = 'proof'
LEVEL = 'other'
EXPLANATION = (
    "Constant propagation through the module that defines the metric prefixes, "
    "the named units and the conversion graph yields the complete tables the "
    "package is built with; each entry is then compared with an independent "
    "physical reference. Every entry of the tables is examined."
)
ASSUMPTIONS = [
    "the tables are module-level data: code outside the defining module does "
    "not rewrite them (no store to them was found elsewhere)",
    "the reference data in sa/physics.py states the accepted values",
]
MOD = 'eprempy.metric._reference'


def run(program, rep):
    rep.rule('prefix', "every metric prefix has its SI name and power of ten, "
             "and no two prefixes share a symbol or a name", 15)
    rep.rule('unit', "every (prefix, unit) spelling maps to the prefix and the "
             "unit it spells, with the standard name and physical quantity", 300)
    rep.rule('factor', "every tabulated conversion factor equals the physical "
             "ratio of its two units", 20)
    rep.rule('cycle', "all chains of tabulated conversions between two units "
             "agree", 1)
    prefixes(program, rep)
    units(program, rep)
    factors(program, rep)


def prefixes(program, rep):
    named = named_units(program)
    where = line_of(program, MOD, 'NAMED_UNITS')
    seen = {}
    for key, entry in named.items():
        p = entry.get('prefix')
        if isinstance(p, dict):
            seen[(p.get('symbol'), p.get('name'), p.get('factor'))] = p
    bysym = {}
    for sym, name, factor in sorted(seen, key=repr):
        if sym not in ph.SI_PREFIXES:
            rep.ob('prefix', f"prefix {sym!r}", None, "not an SI prefix", where)
            continue
        ref, power = ph.SI_PREFIXES[sym]
        ok = name == ref and close(factor, 10.0 ** power, 1e-9)
        rep.ob('prefix', f"prefix {sym!r}", ok,
               f"defined as {name!r} with factor {factor!r}; SI says {ref!r}, "
               f"10^{power}", where)
        bysym.setdefault(sym, []).append(name)
    for sym, names in bysym.items():
        if len(names) > 1:
            rep.ob('prefix', f"prefix {sym!r} unique", False,
                   f"{sym!r} is defined {len(names)} times: {names}", where)
    for sym, (name, power) in ph.SI_PREFIXES.items():
        if name in {'ronna', 'quetta', 'ronto', 'quecto'} or sym == 'u':
            continue
        rep.ob('prefix', f"prefix {sym!r} present", sym in bysym,
               f"no named unit carries the SI prefix {sym!r}", where)


_cache = {}


def named_units(program):
    if program not in _cache:
        t = module_value(program, MOD, 'NAMED_UNITS')
        if t[0] != 'call' or not t[2] or t[2][0][0] != 'dict':
            raise AnalysisError("the collection of named units is not a table")
        _cache[program] = pyval(t[2][0])
    return _cache[program]


def units(program, rep):
    named = named_units(program)
    where = line_of(program, MOD, 'NAMED_UNITS')
    bases = {}
    owner = {}
    for key, entry in named.items():
        p, b = entry.get('prefix'), entry.get('base')
        if not (isinstance(p, dict) and isinstance(b, dict)
                and isinstance(key, tuple)):
            rep.ob('unit', f"unit {key!r}", None, "entry not understood", where)
            continue
        spell = {f"{p['symbol']}{b['symbol']}", f"{p['name']}{b['name']}"}
        if p['symbol'] == 'μ':
            spell.add(f"u{b['symbol']}")
        rep.ob('unit', f"unit {key[0]!r}", set(key) == spell,
               f"spellings {key!r} are bound to prefix {p['symbol']!r} of unit "
               f"{b['symbol']!r}", where)
        bases[b['symbol']] = b
        for k in key:
            owner.setdefault(k, set()).add((p['symbol'], b['symbol']))
    for sym, b in sorted(bases.items()):
        ref = ph.UNITS.get(sym)
        if ref is None:
            rep.ob('unit', f"base unit {sym!r}", None, "no reference data", where)
            continue
        names, q = ref
        ok = b.get('name') in names and b.get('quantity') == q
        rep.ob('unit', f"base unit {sym!r}", ok,
               f"defined as {b.get('name')!r} of {b.get('quantity')!r}; "
               f"expected {sorted(names)} of {q!r}", where)
    for sym in ph.UNITS:
        rep.ob('unit', f"base unit {sym!r} present", sym in bases,
               f"the unit {sym!r} is not defined", where)
        if sym in bases and sym != '1':
            n = sum(1 for p, b in (
                x for v in owner.values() for x in v) if b == sym and p == '')
            rep.ob('unit', f"base unit {sym!r} unprefixed", n > 0,
                   f"the unit {sym!r} cannot be used without a prefix", where)
    rep.analysed['named-unit entries'] = len(named)


def factors(program, rep):
    t = module_value(program, MOD, 'CONVERSIONS')
    where = line_of(program, MOD, 'CONVERSIONS')
    if t[0] != 'call' or not t[2] or t[2][0][0] != 'dict':
        raise AnalysisError("the conversion graph is not built from a table")
    table = pyval(t[2][0])
    rep.analysed['conversion entries'] = len(table)
    edges = {}
    for key, value in table.items():
        if not (isinstance(key, tuple) and len(key) == 2):
            rep.ob('factor', f"conversion {key!r}", None, "not a pair", where)
            continue
        u0, u1 = key
        name = f"conversion {u0!r} -> {u1!r}"
        if isinstance(value, Opaque):
            rep.ob('factor', name, None, "factor not constant", where)
            continue
        edges[key] = value
        want = None
        if (u0, u1) in ph.CONVERSIONS:
            want, tol = ph.CONVERSIONS[(u0, u1)]
        elif (u1, u0) in ph.CONVERSIONS:
            want, tol = ph.CONVERSIONS[(u1, u0)]
            want = 1 / want
        else:
            try:
                a, b = ph.si_value(u0), ph.si_value(u1)
                da, db = ph.unit_dim(u0, 'mks'), ph.unit_dim(u1, 'mks')
                if None not in (a, b, da, db) and da == db:
                    want, tol = a / b, 2e-3
            except ph.UnitSyntax:
                pass
        if want is None:
            rep.ob('factor', name, None, "no reference data", where)
            continue
        rep.ob('factor', name, close(value, want, tol),
               f"factor is {value!r}; 1 {u0} is {want:.6g} {u1}", where)
    for u0, u1 in ph.CONVERSIONS:
        if (u0, u1) in REQUIRED:
            rep.ob('factor', f"conversion {u0!r} -> {u1!r} present",
                   (u0, u1) in table or (u1, u0) in table,
                   "the conversion is not defined", where)
    # agreement of chains
    adj = {}
    for (a, b), w in edges.items():
        adj.setdefault(a, []).append((b, w))
        adj.setdefault(b, []).append((a, 1 / w))
    done = set()
    for root in sorted(adj):
        if root in done:
            continue
        val = {root: 1.0}
        todo = [root]
        while todo:
            a = todo.pop()
            for b, w in adj[a]:
                if b not in val:
                    val[b] = val[a] * w
                    todo.append(b)
                elif not close(val[b], val[a] * w, 1e-3):
                    rep.ob('cycle', f"{a!r} -> {b!r}", False,
                           "disagrees with the other chain of conversions", where)
        done |= set(val)
        rep.ob('cycle', f"component of {root!r}", True, '', where)


REQUIRED = {
    ('Rs', 'm'), ('au', 'm'), ('J', 'erg'), ('eV', 'J'), ('N', 'dyn'),
    ('T', 'G'), ('nuc', 'kg'), ('rad', 'deg'), ('Pa', 'dyn / cm^2'),
    ('s', 'min'), ('s', 'h'), ('s', 'd'), ('e', 'C'), ('C', 'statC'),
    ('W', 'erg / s'), ('Wb', 'Mx'),
}
