"""Helpers shared by the checks."""

from .absint import Interp, Config, Budget, show
from .model import AnalysisError


class Opaque:
    """A value the analysis does not know."""

    def __init__(self, term):
        self.term = term

    def __repr__(self):
        return f"<{show(self.term)}>"

    def __eq__(self, other):
        return isinstance(other, Opaque) and self.term == other.term

    def __hash__(self):
        return hash(self.term)


def pyval(t):
    """The Python value of a snapshot term; unknown parts become Opaque."""
    tag = t[0]
    if tag == 'k':
        return t[2]
    if tag == 'tuple':
        return tuple(pyval(x) for x in t[1])
    if tag == 'list':
        return [pyval(x) for x in t[1]]
    if tag == 'set':
        return frozenset(hashable(pyval(x)) for x in t[1])
    if tag == 'dict':
        return {hashable(pyval(k)): pyval(v) for k, v in t[1]}
    return Opaque(t)


def hashable(x):
    if isinstance(x, list):
        return tuple(hashable(i) for i in x)
    if isinstance(x, dict):
        return tuple(sorted((k, hashable(v)) for k, v in x.items()))
    return x


def inmodules(*mods):
    """Inline policy: the functions of the given modules only."""
    return lambda f: f.module.name in mods


def inpackage(*prefixes):
    return lambda f: any(
        f.module.name == p or f.module.name.startswith(p + '.')
        for p in prefixes)


def module_value(program, modname, name, **cfg):
    """Snapshot of a module-level value after the module body has run."""
    cfg.setdefault('inline', inmodules(modname))
    cfg.setdefault('trace', False)
    it = Interp(program, Config(**cfg))
    outs, fr = it.run_module(modname)
    found = []
    for o in outs:
        v = o.st.vars.get((fr.fid, name))
        if v is not None:
            t = it.snap(v, o.st)
            if t not in found:
                found.append(t)
    if len(found) == 1:
        return found[0]
    if not found:
        r = program.resolve_global(modname, name)
        if r and r[0] == 'glob' and not r[1].startswith(modname + ':'):
            m, n = r[1].split(':')
            return module_value(program, m, n)
        raise AnalysisError(f"anchor {modname}.{name} not found")
    raise AnalysisError(f"{modname}.{name} has {len(found)} possible values")


def line_of(program, modname, name):
    m = program.modules[modname]
    b = m.bindings.get(name)
    if b:
        return f"{m.path}:{b[-1][2].lineno}"
    return m.path


def close(a, b, tol):
    try:
        return abs(a - b) <= tol * max(abs(a), abs(b))
    except TypeError:
        return False


def callname(t):
    """Last component of a called term's name."""
    if t[0] != 'call':
        return None
    f = t[1]
    if f[0] in ('attr', 'meth'):
        return f[2]
    if f[0] in ('func', 'class'):
        return f[1].split(':')[-1].split('.')[-1]
    if f[0] == 'ext':
        return f[1].split('.')[-1]
    return None


def mapterm(t, fn):
    """Rebuild a term bottom-up through fn."""
    if isinstance(t, frozenset):
        return frozenset(mapterm(x, fn) for x in t)
    if not isinstance(t, tuple):
        return t
    new = tuple(mapterm(x, fn) for x in t)
    if new and isinstance(new[0], str):
        return fn(new)
    return new


def _get_as_sub(t):
    if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] in ('get', '__getitem__') \
            and len(t[2]) == 1 and not t[3]:
        return ('sub', t[1][1], t[2][0])
    if t[0] == 'call' and t[1] == ('ext', 'operator.getitem') and len(t[2]) == 2:
        return ('sub', t[2][0], t[2][1])
    return t


def simplify(t):
    """x.get(k) and x.__getitem__(k) read as x[k]."""
    return mapterm(t, _get_as_sub)


def builtonly(t, tags=('sub', 'sym', 'k', 'attr', 'tuple', 'list', 'dict')):
    """True when a term consists of understood constructors only."""
    from .absint import subterms
    return all(x[0] in tags for x in subterms(t))
