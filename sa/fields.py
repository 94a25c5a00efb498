"""What the properties of a class return, in terms of its constructor's arguments."""

from .absint import Interp, Config, K


def initial(P, cls, inline=None, method='__init__'):
    """{attribute: set of terms} assigned by the constructor, or None."""
    found = P.lookup(cls, method)
    if not found or found[1][0] != 'func':
        return None
    it = Interp(P, Config(inline=inline or (lambda g: own(P, cls, g))))
    out = {}
    for o in it.run(found[1][1], selfclass=cls):
        if o.kind != 'return':
            continue
        for (v, name), x in o.st.attrs.items():
            if v == ('sym', 'self'):
                out.setdefault(name, set()).add(it.snap(x, o.st))
    return out


def own(P, cls, g):
    """A method of the class, or a helper function of its module."""
    if g.cls is None:
        return g.module.name == cls.partition(':')[0] and g.name.startswith('_')
    return str(g.cls) == cls


def substitute(t, init):
    """Replace ``self._x`` by what the constructor assigned to it."""
    if not isinstance(t, tuple):
        return t
    if len(t) == 3 and t[0] == 'attr' and t[1] == ('sym', 'self'):
        x = init.get(t[2])
        if x and len(x) == 1:
            return next(iter(x))
        return t
    return tuple(substitute(x, init) for x in t)


def values(P, cls, prop, init, inline=None, **run):
    """The terms a property or method may return when first used."""
    found = P.lookup(cls, prop)
    if not found or found[1][0] != 'func':
        return None
    it = Interp(P, Config(inline=inline or (
        lambda g: own(P, cls, g) and not P.isproperty(g))))
    out = []
    for o in it.run(found[1][1], selfclass=cls, **run):
        facts = {substitute(k, init): v for k, v in o.st.facts.items()}
        if any(impossible(k, v) for k, v in facts.items()):
            continue
        if o.kind == 'return':
            out.append((substitute(it.snap(o.value, o.st), init), facts))
        else:
            out.append((None, facts))
    return out


def impossible(k, v):
    if k[:2] == ('op', 'is') and k[2] == k[3]:
        return not v
    if k[:2] == ('op', 'is') and {x[0] for x in k[2:]} <= {'k'} and k[2] != k[3]:
        return v
    if k == K(None) or k == ('truthy', K(None)):
        return v
    return False
