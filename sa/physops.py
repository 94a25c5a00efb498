"""Outcomes of the operators of physical objects, by operand type."""

from .absint import K, show
from .ops import Registrations, exact, opname

MOD = 'eprempy.physical._operations'
A, B = ('sym', 'a'), ('sym', 'b')
CLASSES = {
    'Scalar': 'eprempy.physical._scalar:Scalar',
    'Vector': 'eprempy.physical._vector:Vector',
    'Tensor': 'eprempy.physical._tensor:Tensor',
    'Array': 'eprempy.physical._array:Array',
}


class PhysOps:
    def __init__(self, program):
        self.p = program
        self.types = {}
        self.reg = Registrations(program, MOD)
        self.reg.cfg.userdecide = self._decide
        self.table = {}
        for cls, op, value, node in self.reg.entries:
            key = op[2] if op[0] == 'k' else opname(op) or op[1]
            self.table.setdefault(cls, {})[key] = (value, node)
        self.classes = {}
        for name, q in CLASSES.items():
            c = program.need_class(q)
            self.classes[name] = c.qual
        self.memo = {}

    def _decide(self, it, atom, st):
        return exact(self.p, self.types)(it, atom, st) if self.types else None

    def implementation(self, cls, op):
        """The function registered for an operation of a class."""
        return self.table.get(self.classes[cls], {}).get(op)

    def where(self, cls, op):
        e = self.implementation(cls, op)
        if e and e[0][0] in ('rawfunc', 'func'):
            return self.p.funcs[e[0][1]].where
        m = self.p.modules[MOD]
        return f"{m.path}:{getattr(e[1], 'lineno', 0) if e else 0}"

    def outcomes(self, cls, op, kinds, kwargs=None, rest=()):
        """Outcomes of the operation for operands of exactly these kinds."""
        key = (cls, op, tuple(kinds), repr(kwargs), rest)
        if key in self.memo:
            return self.memo[key]
        e = self.implementation(cls, op)
        if e is None:
            return None
        args = (A, B)[:len(kinds)]
        self.types = {}
        st = {}
        for t, k in zip(args, kinds):
            self.types[t] = self.classes.get(k, k)
            if k in self.classes:
                st[t] = self.classes[k]
        out = self.reg.call(e[0], [*args, *rest], kwargs, types=st)
        seen, res = set(), []
        for k, t, s in out:
            facts = dict(s.facts)
            h = (k, t, frozenset(facts.items()))
            if h not in seen:
                seen.add(h)
                res.append((k, t, facts))
        self.memo[key] = res
        return res


def physops(program):
    got = getattr(program, 'physops', None)
    if got is None:
        got = program.physops = PhysOps(program)
    return got
