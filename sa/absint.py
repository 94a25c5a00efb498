"""A small abstract interpreter for the analysed package.

The interpreter evaluates functions over *value terms* (nested tuples that name
where a value came from), keeping one abstract state per control-flow
partition.  It never runs the analysed code: unknown inputs stay opaque terms,
unknown branches are both taken, and a loop over an unknown collection is
analysed for zero and for one abstract iteration whose element stands for all
elements.  Two pieces of code that compute the same thing through different
statements (a helper, a temporary, a comprehension instead of a loop) evaluate
to the same terms, which is what the checks compare.

Terms
-----
('k', typename, value)            constant
('sym', name)                     an input
('func', qual) ('class', qual) ('mod', name) ('glob', q) ('ext', dotted)
('cattr', classqual, name)        class attribute
('fn', n)                         closure, see Interp.closures
('bound', self, funcqual)         bound method
('attr', x, name) ('sub', x, i) ('iter', x) ('op', name, ...)
('call', f, args, kwargs)
('tuple', items) ('list', items) ('set', items) ('dict', pairs)
('obj', n)                        heap object of the current state
('new', classqual, args, kwargs)  snapshot of an instance
('many', x, conds) ('star', x)    items of sequences of unknown length
('fmt', parts) ('slice', a, b, c) ('exc', label)
"""

import ast
import builtins
import math
import string

from .model import dotted, toplevel, AnalysisError


class Budget(Exception):
    """The abstract state space of one obligation grew too large."""


NONE = ('k', 'NoneType', None)
TRUE = ('k', 'bool', True)
FALSE = ('k', 'bool', False)
NOTIMPL = ('ext', 'builtins.NotImplemented')


def K(v):
    return ('k', type(v).__name__, v)


def isk(t, typ=None):
    return t[0] == 'k' and (typ is None or isinstance(t[2], typ))


BIN = {
    ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv',
    ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow',
    ast.MatMult: 'matmul', ast.LShift: 'lshift', ast.RShift: 'rshift',
    ast.BitOr: 'or_', ast.BitAnd: 'and_', ast.BitXor: 'xor',
}
UN = {ast.USub: 'neg', ast.UAdd: 'pos', ast.Invert: 'invert'}
CMP = {
    ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt',
    ast.GtE: 'ge', ast.Is: 'is', ast.IsNot: 'isnot', ast.In: 'in',
    ast.NotIn: 'notin',
}
import operator as _o
PYBIN = {
    'add': _o.add, 'sub': _o.sub, 'mul': _o.mul, 'truediv': _o.truediv,
    'floordiv': _o.floordiv, 'mod': _o.mod, 'pow': _o.pow, 'or_': _o.or_,
    'and_': _o.and_, 'xor': _o.xor, 'lshift': _o.lshift, 'rshift': _o.rshift,
}
PYCMP = {'eq': _o.eq, 'ne': _o.ne, 'lt': _o.lt, 'le': _o.le, 'gt': _o.gt,
         'ge': _o.ge}
OPERATOR_FUNCS = {
    'operator.' + n: n for n in (
        'add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'neg', 'pos',
        'eq', 'ne', 'lt', 'le', 'gt', 'ge', 'or_', 'and_', 'xor')
}
EXTCONST = {
    'numpy.pi': math.pi, 'math.pi': math.pi, 'numpy.e': math.e,
    'math.e': math.e, 'sys.float_info.min': 2.2250738585072014e-308,
}
NUMTYPES = (int, float, complex)
STRMETHODS = {
    'lower', 'upper', 'replace', 'split', 'strip', 'lstrip', 'rstrip', 'join',
    'startswith', 'endswith', 'format', 'capitalize', 'title', 'rsplit',
    'splitlines', 'partition', 'isidentifier', 'zfill', 'casefold',
    'removeprefix', 'removesuffix', 'isdigit', 'count', 'find',
}


MUTATORS = {
    'append', 'add', 'extend', 'update', 'insert', 'pop', 'remove', 'clear',
    'discard', 'sort', 'reverse', 'setdefault', 'popitem',
    'difference_update', 'intersection_update',
}


class Frame:
    __slots__ = ('fid', 'module', 'cls', 'func', 'parent', 'selfterm',
                 'yields', 'isgen', 'locals')

    def __init__(self, fid, module, func=None, cls=None, parent=None):
        self.fid = fid
        self.module = module
        self.func = func
        self.cls = cls
        self.parent = parent
        self.selfterm = None
        self.isgen = False
        self.locals = set()


class State:
    __slots__ = ('vars', 'facts', 'trace', 'heap', 'attrs', 'types')

    def __init__(self):
        self.vars = {}
        self.facts = {}
        self.trace = ()
        self.heap = {}
        self.attrs = {}
        self.types = {}

    def copy(self):
        s = State.__new__(State)
        s.vars = dict(self.vars)
        s.facts = dict(self.facts)
        s.trace = self.trace
        s.heap = dict(self.heap)
        s.attrs = dict(self.attrs)
        s.types = dict(self.types)
        return s


class Out:
    __slots__ = ('kind', 'value', 'st', 'node', 'where')

    def __init__(self, kind, value, st, node, where=None):
        self.kind = kind
        self.value = value
        self.st = st
        self.node = node
        self.where = where

    def __repr__(self):
        return f"Out({self.kind}, {show(self.value)})"


class Event:
    __slots__ = ('kind', 'data', 'node', 'path', 'func')

    def __init__(self, kind, data, node, path, func):
        self.kind = kind
        self.data = data
        self.node = node
        self.path = path
        self.func = func

    def __eq__(self, o):
        return (self.kind, self.data) == (o.kind, o.data)

    def __hash__(self):
        return hash((self.kind, self.data))

    @property
    def where(self):
        return f"{self.path}:{getattr(self.node, 'lineno', 0)}"

    def __repr__(self):
        return f"<{self.kind} {self.where} {show(self.data)}>"


def indices(t):
    """The index of each item of x, for range(len(x))."""
    if t[0] == 'call' and t[1] == ('ext', 'builtins.range') and len(t[2]) == 1 and \
            t[2][0][0] == 'call' and t[2][0][1] == ('ext', 'builtins.len') and not t[3]:
        return ('idx', t[2][0][2][0])
    return None


OPPOSITE = {'is': 'isnot', 'isnot': 'is', 'in': 'notin', 'notin': 'in'}


class Config:
    """What an analysis wants inlined, instantiated, or modelled."""

    maxdepth = 14
    maxsteps = 400000
    maxouts = 4000
    trace = True
    implicit_exceptions = True

    def __init__(self, inline=None, opaque=(), props=None, instantiate=(),
                 models=None, classattrs=None, trace=True, decide=None,
                 loops=None, maxsteps=None, implicit=True, inlineclass=None,
                 binders=False, breaks=False):
        self.binders = binders      # record what repeated items range over
        self.breaks = breaks        # record that a loop over items was left early
        self._inline = inline
        self.opaque = set(opaque)
        self._props = props
        self.instantiate = set(instantiate)
        self.models = models or {}
        self.classattrs = classattrs
        self.trace = trace
        self.userdecide = decide
        self.implicit_exceptions = implicit
        if maxsteps:
            self.maxsteps = maxsteps

    def inline(self, f):
        if f.qual in self.opaque:
            return False
        if f.new or self._inline is None:
            return True
        return self._inline(f)

    def inline_prop(self, f):
        if f.qual in self.opaque:
            return False
        if f.new:
            return True
        if self._props is None:
            return False
        return self._props(f) if callable(self._props) else f.qual in self._props


class Interp:
    def __init__(self, program, config=None):
        self.p = program
        self.cfg = config or Config()
        self.closures = []
        self.nframe = 0
        self.nobj = 0
        self.steps = 0
        self.stack = []
        self.sinks = [[]]
        self.globcache = {}
        self.genstack = []

    # ------------------------------------------------------------------
    # entry points
    # ------------------------------------------------------------------

    def run(self, func, args=None, types=None, facts=None, selfclass=None,
            state=None, star=None):
        """Abstractly call a function with symbolic arguments.

        args: {param: term}; the remaining parameters become symbols of their
        own names (defaults included: a parameter with a default is also an
        input).  Returns the list of outcomes.
        """
        st = state or State()
        if types:
            st.types.update(types)
        if facts:
            for a, v in facts.items():
                st.facts[a] = v
        fr = self._frame(func.module, func, func.cls)
        a = func.node.args
        args = dict(args or {})
        names = [x.arg for x in a.posonlyargs + a.args]
        for i, n in enumerate(names):
            v = args.get(n, ('sym', n))
            if i == 0 and func.cls and not self.p.isstatic(func):
                if self.p.isclassmethod(func):
                    v = args.get(n, ('class', selfclass or func.cls))
                elif v == ('sym', n):
                    st.types.setdefault(v, selfclass or func.cls)
                fr.selfterm = v
            st.vars[(fr.fid, n)] = v
        for x in a.kwonlyargs:
            st.vars[(fr.fid, x.arg)] = args.get(x.arg, ('sym', x.arg))
        if a.vararg:
            n = a.vararg.arg
            st.vars[(fr.fid, n)] = args.get(n, ('sym', '*' + n))
        if a.kwarg:
            n = a.kwarg.arg
            st.vars[(fr.fid, n)] = args.get(n, ('sym', '**' + n))
        outs = self._body(func.node, st, fr, func)
        return outs

    def run_module(self, modname, upto=None):
        """Constant-propagate a module body; returns (outs, frame)."""
        m = self.p.need_module(modname)
        fr = Frame(f"mod:{modname}", m)
        st = State()
        self.sinks.append([])
        outs = self.ex(m.tree.body, st, fr)
        self.sinks.pop()
        return outs, fr

    def _frame(self, module, func, cls, parent=None):
        self.nframe += 1
        return Frame(self.nframe, module, func, cls, parent)

    def _body(self, node, st, fr, func):
        """Execute a function body; returns outcomes (return/raise)."""
        if isinstance(node, ast.Lambda):
            self.sinks.append([])
            outs = [Out('return', v, s, node.body)
                    for v, s in self.ev(node.body, st, fr)]
            outs += self.sinks.pop()
            return outs
        gen = is_generator(node)
        if gen:
            fr.isgen = True
            self.nobj += 1
            g = ('obj', self.nobj)
            st.heap[g] = ('list', ())
            st.vars[('<born>', g)] = st.vars.get('<loop>', 0)
            st.vars[(fr.fid, '<gen>')] = g
        self.stack.append(func.qual if func else '<closure>')
        self.sinks.append([])
        outs = self.ex(node.body, st, fr)
        outs += self.sinks.pop()
        self.stack.pop()
        res = []
        for o in outs:
            if o.kind == 'fall':
                o = Out('return', NONE, o.st, node)
            if gen and o.kind == 'return':
                o = Out('return', o.st.vars[(fr.fid, '<gen>')], o.st, o.node)
            o.where = o.where or fr.module.path
            res.append(o)
        return self._dedupe(res)

    def _dedupe(self, outs):
        if len(outs) > self.cfg.maxouts:
            raise Budget(f"{len(outs)} abstract outcomes")
        return outs

    # ------------------------------------------------------------------
    # facts
    # ------------------------------------------------------------------

    def canon(self, cond, st):
        """Canonical (atom, polarity) of a boolean term."""
        pol = True
        while True:
            if cond[0] == 'op' and cond[1] == 'not':
                cond, pol = cond[2], not pol
                continue
            if cond[0] == 'call' and cond[1] == ('ext', 'builtins.bool') \
                    and len(cond[2]) == 1:
                cond = cond[2][0]
                continue
            break
        if cond[0] == 'op':
            n = cond[1]
            if n == 'ne':
                cond, pol = ('op', 'eq', *cond[2:]), not pol
            elif n == 'isnot':
                cond, pol = ('op', 'is', *cond[2:]), not pol
            elif n == 'notin':
                cond, pol = ('op', 'in', *cond[2:]), not pol
            elif n == 'gt':
                cond = ('op', 'lt', cond[3], cond[2])
            elif n == 'ge':
                cond = ('op', 'le', cond[3], cond[2])
            if cond[1] in ('eq', 'is'):
                a, b = sorted(cond[2:], key=repr)
                cond = ('op', cond[1], a, b)
        return cond, pol

    def decide(self, cond, st):
        """True/False when the state settles a condition, else None."""
        atom, pol = self.canon(cond, st)
        v = self._decide(atom, st)
        if v is None:
            return None
        return v if pol else not v

    def _decide(self, atom, st):
        if atom in st.facts:
            return st.facts[atom]
        if self.cfg.userdecide:
            v = self.cfg.userdecide(self, atom, st)
            if v is not None:
                return v
        t = atom[0]
        if t == 'k':
            try:
                return bool(atom[2])
            except Exception:
                return None
        if t in ('func', 'class', 'mod', 'fn', 'bound', 'ext', 'new'):
            return True
        if t in ('obj', 'tuple', 'list', 'set', 'dict'):
            n = self.seqlen(atom, st)
            if n is not None:
                return n > 0
            return None
        if t == 'fmt':
            if any(isk(x, str) and x[2] for x in atom[1]):
                return True
            return None
        if t == 'isa':
            return self._decide_isa(atom, st)
        if t == 'op' and atom[1] == 'is':
            a, b = atom[2:]
            if a == b:
                return True
            if NONE in (a, b):
                x = b if a == NONE else a
                if x[0] in ('k', 'obj', 'tuple', 'list', 'dict', 'set', 'func',
                            'class', 'fn', 'new', 'fmt', 'bound', 'mod'):
                    return False
                if st.facts.get(x) is True:
                    return False
                if x[0] == 'op' and x[1] in PYBIN:
                    return False
                for f, v in st.facts.items():
                    if f[0] == 'isa' and f[1] == x and v:
                        return False
            elif a[0] == 'k' and b[0] == 'k':
                return a == b
            elif a[0] == 'obj' and b[0] == 'obj':
                return False
            elif a[0] in ('class', 'func', 'ext') and b[0] in ('class', 'func', 'ext'):
                return False
            return None
        if t == 'op' and atom[1] == 'eq':
            a, b = atom[2:]
            if a[0] == 'k' and b[0] == 'k':
                return a[2] == b[2]
            if a == b and a[0] in ('func', 'class', 'ext', 'mod', 'sym'):
                return True
            if a[0] in ('func', 'class', 'ext', 'fn') and \
                    b[0] in ('func', 'class', 'ext', 'fn'):
                return a == b
            if NONE in (a, b):
                r = self._decide(('op', 'is', a, b), st)
                if r is not None:
                    return r
            return self._transitive(a, b, st)
        if t == 'op' and atom[1] in ('lt', 'le'):
            a, b = atom[2:]
            if a[0] == 'k' and b[0] == 'k':
                try:
                    return PYCMP[atom[1]](a[2], b[2])
                except Exception:
                    return None
            return None
        if t == 'op' and atom[1] == 'in':
            x, c = atom[2:]
            if x[0] == 'k' and c[0] == 'k' and isinstance(c[2], str):
                try:
                    return x[2] in c[2]
                except Exception:
                    return None
            keys = self.known_keys(c, st)
            if keys is not None:
                if x in keys:
                    return True
                if ground(x) and all(ground(k) for k in keys):
                    if x[0] == 'k':
                        return any(k[0] == 'k' and k[2] == x[2] for k in keys)
                    return False
            return None
        # truthiness of an arbitrary term
        n = ('op', 'is', *sorted((atom, NONE), key=repr))
        if st.facts.get(n) is True:
            return False
        for f, v in st.facts.items():
            if v and f[0] == 'op' and f[1] == 'eq' and atom in f[2:]:
                other = f[3] if f[2] == atom else f[2]
                if other[0] == 'k':
                    return bool(other[2])
        return None

    def _transitive(self, a, b, st):
        """a == b through a third term both were compared with."""
        near = {}
        for f, v in st.facts.items():
            if f[0] == 'op' and f[1] == 'eq':
                for x, y in ((f[2], f[3]), (f[3], f[2])):
                    if x == a or x == b:
                        near.setdefault(y, {})[x] = v
        for y, d in near.items():
            if a in d and b in d and (d[a] or d[b]):
                return d[a] and d[b]
        return None

    def _decide_isa(self, atom, st):
        _, x, classes = atom
        known = self.types_of(x, st)
        if x[0] == 'k':
            py = type(x[2])
            res = []
            for c in classes:
                if c[0] == 'ext':
                    nm = c[1].split('.')[-1]
                    if c[1].startswith('builtins.') and isinstance(
                            getattr(builtins, nm, None), type):
                        res.append(issubclass(py, getattr(builtins, nm)))
                    elif c[1] in ('numbers.Real', 'numbers.Number',
                                  'numbers.Complex'):
                        res.append(py in (int, float, bool) or
                                   (py is complex and nm != 'Real'))
                    elif c[1] in ('numbers.Integral',):
                        res.append(py in (int, bool))
                    elif c[1] in ('typing.Iterable', 'typing.Sequence',
                                  'collections.abc.Iterable',
                                  'collections.abc.Sequence'):
                        res.append(py in (str, bytes))
                    elif c[1].startswith('numpy.'):
                        res.append(False)
                    else:
                        res.append(None)
                elif c[0] == 'class':
                    res.append(False if py in (str, int, float, bool,
                                               type(None)) and
                               not self._structural(c[1]) else None)
                else:
                    res.append(None)
            if any(r is True for r in res):
                return True
            if all(r is False for r in res):
                return False
            return None
        kinds = {'tuple': 'tuple', 'list': 'list', 'set': 'set',
                 'dict': 'dict', 'fmt': 'str'}
        kind = x[0]
        if kind == 'obj' and x in st.heap:
            kind = st.heap[x][0]
        if kind in kinds:
            py = kinds[kind]
            res = []
            for c in classes:
                if c[0] == 'ext':
                    nm = c[1].split('.')[-1]
                    if c[1].startswith('builtins.'):
                        res.append(nm == py)
                    elif nm in ('Iterable', 'Collection', 'Sized'):
                        res.append(True)
                    elif nm in ('Sequence',):
                        res.append(py in ('tuple', 'list', 'str'))
                    elif nm in ('Mapping', 'MutableMapping'):
                        res.append(py == 'dict')
                    elif c[1].startswith(('numbers.', 'numpy.', 'pathlib.')):
                        res.append(False)
                    else:
                        res.append(None)
                elif c[0] == 'class':
                    res.append(None if self._structural(c[1]) else False)
                else:
                    res.append(None)
            if any(r is True for r in res):
                return True
            if all(r is False for r in res):
                return False
            return None
        if kind in ('fn', 'func', 'bound') and all(
                c[0] == 'ext' and c[1].startswith(('builtins.', 'numbers.'))
                or c[0] == 'class' and not self._structural(c[1])
                for c in classes):
            return False
        for k in known:
            for c in classes:
                if c[0] == 'class' and self.p.issub(k, c[1]):
                    return True
        # positive facts about narrower classes
        neg = set()
        for f, v in st.facts.items():
            if f[0] == 'isa' and f[1] == x:
                if v:
                    if all(any(c == d or (c[0] == d[0] == 'class' and
                                          self.p.issub(c[1], d[1]))
                               for d in classes) for c in f[2]):
                        return True
                else:
                    neg |= set(f[2])
        if classes and all(
                any(c == d or (c[0] == d[0] == 'class' and
                               self.p.issub(c[1], d[1])) for d in neg)
                for c in classes):
            return False
        # an instance of exactly-known class is no instance of unrelated ones
        if x[0] in ('new',) or (x[0] == 'obj' and known):
            if all(c[0] == 'class' and not any(self.p.issub(k, c[1]) for k in known)
                   and not self._structural(c[1]) for c in classes):
                return False
        return None

    def _structural(self, q):
        if q not in self.p.classes:
            return True
        ext = self.p.extbases(q)
        own = {b[1] for b in self.p.classes[q].bases if b[0] != 'class'}
        return any(e.split('.')[-1] in ('Protocol',) for e in own)

    def types_of(self, x, st):
        """Repo classes the term is known to be an instance of."""
        out = []
        if x in st.types:
            out.append(st.types[x])
        if x[0] == 'call' and x[1][0] == 'class':
            out.append(x[1][1])
        if x[0] == 'new':
            out.append(x[1])
        if x[0] == 'obj' and x in st.heap and st.heap[x][0] == 'inst':
            out.append(st.heap[x][1])
        for f, v in st.facts.items():
            if v and f[0] == 'isa' and f[1] == x and len(f[2]) == 1:
                (c,) = f[2]
                if c[0] == 'class':
                    out.append(c[1])
        return out

    def assume(self, cond, value, st):
        """Record a fact; False when it contradicts the state."""
        if cond[0] == 'over':
            return True
        atom, pol = self.canon(cond, st)
        v = value if pol else not value
        known = self._decide(atom, st)
        if known is not None:
            return known == v
        st.facts[atom] = v
        if v and atom[0] not in ('op', 'isa'):
            st.facts[('op', 'is', *sorted((atom, NONE), key=repr))] = False
        return True

    def branch(self, cond, st):
        """[(bool, state)] for the feasible outcomes of a condition."""
        d = self.decide(cond, st)
        if d is not None:
            return [(d, st)]
        other = st.copy()
        out = []
        if self.assume(cond, True, st):
            out.append((True, st))
        if self.assume(cond, False, other):
            out.append((False, other))
        return out

    # ------------------------------------------------------------------
    # sequences
    # ------------------------------------------------------------------

    def items_of(self, t, st):
        """Known item list of a sequence term, or None."""
        if t[0] in ('tuple', 'list', 'set'):
            return list(t[1])
        if t[0] == 'obj' and t in st.heap:
            h = st.heap[t]
            if h[0] in ('list', 'set', 'gen'):
                return None if h[1] is None else list(h[1])
            if h[0] == 'dict':
                if h[1] is None:
                    return None
                return [k if k[0] != '**' else ('star', k) for k, _ in h[1]]
        if t[0] == 'dict':
            return [k if k[0] != '**' else ('star', k) for k, _ in t[1]]
        if t[0] == 'k' and isinstance(t[2], str):
            return [K(c) for c in t[2]]
        return None

    def pairs_of(self, t, st):
        if t[0] == 'dict':
            return list(t[1])
        if t[0] == 'obj' and t in st.heap and st.heap[t][0] == 'dict':
            h = st.heap[t][1]
            return None if h is None else list(h)
        return None

    def known_keys(self, t, st):
        items = self.items_of(t, st)
        if items is None:
            return None
        if any(i[0] in ('many', 'star') for i in items):
            return None
        return items

    def seqlen(self, t, st):
        items = self.items_of(t, st)
        if items is None:
            return None
        if any(i[0] in ('many', 'star') for i in items):
            if any(i[0] not in ('many', 'star') for i in items):
                return 1    # at least one
            return None
        return len(items)

    def snap(self, t, st, depth=0):
        """A self-contained copy of a term (heap objects resolved)."""
        tag = t[0]
        if tag in ('k', 'sym', 'func', 'class', 'mod', 'glob', 'ext', 'cattr',
                   'fn', 'exc', 'idx'):
            return t
        if depth > 30:
            return ('top',)
        if tag == 'meth':
            return ('attr', self.snap(t[1], st, depth + 1), t[2])
        if tag == 'obj':
            h = st.heap.get(t)
            if h is None:
                return t
            if h[0] == 'inst':
                return ('new', h[1],
                        tuple(self.snap(x, st, depth + 1) for x in h[2]),
                        tuple((k, self.snap(v, st, depth + 1)) for k, v in h[3]))
            if h[1] is None:
                return ('top',)
            if h[0] == 'dict':
                return ('dict', tuple(
                    (self.snap(k, st, depth + 1), self.snap(v, st, depth + 1))
                    for k, v in h[1]))
            return (h[0], tuple(self.snap(x, st, depth + 1) for x in h[1]))
        return tuple(
            self.snap(x, st, depth + 1) if isinstance(x, tuple) and x and
            isinstance(x[0], str) else
            (tuple(self.snap(y, st, depth + 1) if isinstance(y, tuple) and y and
                   isinstance(y[0], str) else
                   (tuple(self.snap(z, st, depth + 1) if isinstance(z, tuple)
                          and z and isinstance(z[0], str) else z for z in y)
                    if isinstance(y, tuple) else y)
                   for y in x) if isinstance(x, tuple) else x)
            for x in t
        )

    def alloc(self, kind, items, st):
        self.nobj += 1
        o = ('obj', self.nobj)
        st.heap[o] = (kind, items)
        st.vars[('<born>', o)] = st.vars.get('<loop>', 0)
        return o

    def elements(self, t, st):
        """Items to iterate over: list of ('one', term) / ('many', term, conds)
        or None for an unknown collection."""
        items = self.items_of(t, st)
        if items is None:
            return None
        out = []
        for i in items:
            if i[0] == 'many':
                out.append(('many', i[1], i[2]))
            elif i[0] == 'star':
                out.append(('many', ('iter', i[1]), ()))
            else:
                out.append(('one', i, ()))
        return out

    def iterate(self, t, st):
        """Elements of any iterable term (unknown ones become one 'many')."""
        els = self.elements(t, st)
        if els is not None:
            return els
        t = self.snap(t, st)
        if t[0] == 'call':
            f = t[1]
            if f[0] == 'attr' and not t[2] and not t[3]:
                base = f[1]
                if f[2] == 'items':
                    k = ('iter', base)
                    return [('many', ('tuple', (k, ('sub', base, k))), ())]
                if f[2] == 'values':
                    return [('many', ('sub', base, ('iter', base)), ())]
                if f[2] == 'keys':
                    return [('many', ('iter', base), ())]
            if f in (('ext', 'builtins.enumerate'),) and t[2]:
                i = ('idx', t[2][0])
                start = t[2][1] if len(t[2]) > 1 else dict(t[3]).get('start', K(0))
                if start != K(0):
                    i = ('op', 'add', i, start)
                return [('many', ('tuple', (i, ('iter', t[2][0]))), ())]
            if f == ('ext', 'builtins.zip'):
                return [('many', ('tuple', tuple(
                    indices(a) or ('iter', a) for a in t[2])), ())]
            if indices(t):
                return [('many', indices(t), ())]
            if f in (('ext', 'builtins.list'), ('ext', 'builtins.tuple'),
                     ('ext', 'builtins.sorted'), ('ext', 'builtins.iter'),
                     ('ext', 'builtins.set'), ('ext', 'builtins.frozenset'),
                     ('ext', 'builtins.reversed')) and len(t[2]) == 1:
                return self.iterate(t[2][0], st)
        return [('many', ('iter', t), ())]

    # ------------------------------------------------------------------
    # expressions
    # ------------------------------------------------------------------

    def ev(self, node, st, fr):
        """[(term, state)] for an expression."""
        self.steps += 1
        if self.steps > self.cfg.maxsteps:
            raise Budget("step budget exhausted")
        m = getattr(self, 'ev_' + type(node).__name__, None)
        if m is None:
            return [(('top', type(node).__name__), st)]
        return m(node, st, fr)

    def evs(self, nodes, st, fr):
        """Evaluate several expressions left to right: [([terms], state)]."""
        res = [([], st)]
        for n in nodes:
            nxt = []
            for vals, s in res:
                for v, s2 in self.ev(n, s, fr):
                    nxt.append((vals + [v], s2))
            res = nxt
        return res

    def ev_Constant(self, node, st, fr):
        return [(K(node.value), st)]

    def ev_Name(self, node, st, fr):
        return [(self.lookup(node.id, st, fr), st)]

    def lookup(self, name, st, fr):
        f = fr
        while f is not None:
            v = st.vars.get((f.fid, name))
            if v is not None:
                return v
            f = f.parent
        if isinstance(fr.fid, str) and fr.fid[:4] == 'cls:' and fr.cls:
            # a name in the body of a class
            c = self.p.classes.get(fr.cls)
            e = c.members.get(name) if c else None
            if e and e[-1][0] == 'assign' and isinstance(e[-1][1], ast.Constant):
                return K(e[-1][1].value)
            if e and e[-1][0] == 'func' and not e[-1][1].decorators():
                return ('func', e[-1][1].qual)
        return self.global_value(fr.module.name, name, st)

    def global_value(self, modname, name, st):
        v = st.vars.get((f"mod:{modname}", name))
        if v is not None:
            return v
        if name == '__name__':
            return K(modname)
        r = self.p.resolve_global(modname, name)
        if r is None:
            if name == 'Ellipsis':
                return K(Ellipsis)
            if hasattr(builtins, name):
                return ('ext', f"builtins.{name}")
            return ('unbound', name)
        return self.global_term(r, st)

    def global_term(self, r, st):
        if r[0] == 'ext' and r[1] in EXTCONST:
            return K(EXTCONST[r[1]])
        if r[0] == 'glob':
            return self.glob(r, st)
        return r

    def glob(self, r, st):
        """Value of a module-level variable: constants are folded."""
        if r in self.globcache:
            return self.globcache[r]
        self.globcache[r] = r
        mod, name = r[1].split(':')
        m = self.p.modules[mod]
        entries = [b for b in m.bindings[name] if b[0] == 'assign']
        if len(entries) == 1:
            s = entries[0][1]
            expr = getattr(s, 'value', None)
            simple = isinstance(s, ast.Assign) and all(
                isinstance(t, ast.Name) for t in s.targets
            ) or isinstance(s, ast.AnnAssign)
            if simple and expr is not None and foldable(expr):
                if immutable_expr(expr) or not mutated(m.tree, name):
                    try:
                        tmp = State()
                        vals = self.ev(expr, tmp, Frame(f"mod:{mod}", m))
                        if len(vals) == 1:
                            v = self.snap(vals[0][0], vals[0][1])
                            if not contains(v, 'fn'):
                                self.globcache[r] = v
                    except Budget:
                        raise
        return self.globcache[r]

    def ev_Attribute(self, node, st, fr):
        out = []
        for v, s in self.ev(node.value, st, fr):
            out += self.getattr(v, node.attr, s, node, fr)
        return out

    def getattr(self, v, name, st, node, fr):
        key = (v, name)
        if key in st.attrs:
            return [(st.attrs[key], st)]
        if self.iscontainer(v, st):
            return [(('meth', v, name), st)]
        if v[0] in ('mod', 'ext'):
            if v[0] == 'ext' and f"{v[1]}.{name}" in EXTCONST:
                return [(K(EXTCONST[f"{v[1]}.{name}"]), st)]
            r = self.p.member(v, name)
            if r is None:
                return [(('attr', v, name), st)]
            return [(self.global_term(r, st), st)]
        if v[0] == 'class' and v[1] in self.p.classes:
            if name in ('__name__', '__qualname__'):
                return [(K(self.p.classes[v[1]].name), st)]
            return self.classattr(v, name, st, fr)
        if v[0] == 'super':
            _, cls, selfterm, mrocls = v
            found = self.p.lookup(mrocls, name, after=cls)
            if found is None:
                return [(('attr', ('super', selfterm), name), st)]
            return self.member_value(found, selfterm, mrocls, name, st, node, fr)
        if name == '__class__':
            ts = self.types_of(v, st)
            if ts:
                return [(('typeof', v), st)]
        if v[0] == 'typeof':
            for c in self.types_of(v[1], st):
                if name in ('__name__', '__qualname__', '__module__'):
                    break
                found = self.p.lookup(c, name)
                if found and found[1][0] == 'func':
                    f = found[1][1]
                    if self.p.isclassmethod(f):
                        return [(('bound', v, f.qual), st)]
                    return [(('func', f.qual), st)]
            return [(('attr', v, name), st)]
        for c in self.types_of(v, st):
            found = self.p.lookup(c, name)
            if found:
                return self.member_value(found, v, c, name, st, node, fr)
        return [(('attr', self.snap(v, st), name), st)]

    def member_value(self, found, v, c, name, st, node, fr):
        owner, e = found
        if e[0] == 'func':
            f = e[1]
            if self.p.isproperty(f):
                if self.cfg.inline_prop(f):
                    return self.call_func(f, [v], {}, st, node, fr)
                return [(('attr', self.snap(v, st), name), st)]
            if self.p.isstatic(f):
                return [(('func', f.qual), st)]
            if self.p.isclassmethod(f):
                return [(('bound', ('typeof', v), f.qual), st)]
            if any((dotted(d) or '').endswith('classproperty') for d in f.decorators()):
                return [(('attr', self.snap(v, st), name), st)]
            return [(('bound', v, f.qual), st)]
        if e[0] == 'class':
            return [(('class', e[1].qual), st)]
        if e[0] == 'assign' and name not in self.p.stored(c):
            val = self.class_const(owner, name, st)
            if val is not None:
                if val[0] in ('fn',):
                    return [(('boundfn', v, val), st)]
                if val[0] == 'func':
                    return [(('bound', v, val[1]), st)]
                return [(val, st)]
        return [(('attr', self.snap(v, st), name), st)]

    def class_const(self, owner, name, st):
        """Value of a class-level assignment when simple enough."""
        _, e = self.p.lookup(owner, name)
        if e[0] != 'assign':
            return None
        expr, idx = e[1], e[3]
        c = self.p.classes[owner]
        hook = self.cfg.classattrs
        force = hook and hook(owner, name)
        if not force and not immutable_expr(expr):
            if not (isinstance(expr, (ast.Name,))):
                return None
        fr = Frame(f"cls:{owner}", c.module, cls=owner)
        if isinstance(expr, ast.Name) and expr.id in c.members:
            f2, e2 = self.p.lookup(owner, expr.id)
            if e2[0] == 'func':
                return ('func', e2[1].qual)
            if e2[0] == 'assign' and expr.id != name:
                return self.class_const(owner, expr.id, st)
        vals = self.ev(expr, st, fr)
        if len(vals) != 1:
            return None
        v = vals[0][0]
        if idx is not None:
            items = self.items_of(v, st)
            if items is None or idx >= len(items):
                return None
            v = items[idx]
        return v

    def classattr(self, v, name, st, fr):
        found = self.p.lookup(v[1], name)
        if found is None:
            return [(('attr', v, name), st)]
        owner, e = found
        if e[0] == 'func':
            f = e[1]
            if self.p.isclassmethod(f):
                return [(('bound', v, f.qual), st)]
            return [(('func', f.qual), st)]
        if e[0] == 'class':
            return [(('class', e[1].qual), st)]
        val = self.class_const(owner, name, st)
        if val is not None:
            return [(val, st)]
        return [(('cattr', owner, name), st)]

    def ev_Subscript(self, node, st, fr):
        out = []
        for (v, i), s in self.evs([node.value, node.slice], st, fr):
            out += self.getitem(v, i, s, node, fr)
        return out

    def getitem(self, v, i, st, node, fr):
        pairs = self.pairs_of(v, st)
        if pairs is not None:
            for k, x in reversed(pairs):
                if k == i or k[0] == 'many' and len(pairs) == 1 and k[1] == i:
                    return [(x, st)]
                if not (ground(k) and ground(i)):
                    break
        elif i[0] == 'k' and isinstance(i[2], int):
            items = self.items_of(v, st)
            if items is not None and not any(
                    x[0] in ('many', 'star') for x in items):
                try:
                    return [(items[i[2]], st)]
                except IndexError:
                    return [(('top', 'index'), st)]
            if items is not None and i[2] >= 0:
                pre = items[:i[2] + 1]
                if len(pre) == i[2] + 1 and not any(
                        x[0] in ('many', 'star') for x in pre):
                    return [(pre[-1], st)]
                if items and items[0][0] == 'many' and i[2] == 0 and len(items) == 1:
                    return [(items[0][1], st)]
        elif i[0] == 'slice':
            items = self.items_of(v, st)
            if items is not None and all(x[0] == 'k' for x in i[1:]) and \
                    not any(x[0] in ('many', 'star') for x in items):
                kind = 'tuple' if v[0] == 'tuple' else 'list'
                if v[0] == 'k':
                    return [(K(v[2][slice(*(x[2] for x in i[1:]))]), st)]
                try:
                    part = tuple(items[slice(*(x[2] for x in i[1:]))])
                except Exception:
                    return [(('sub', self.snap(v, st), i), st)]
                return [((kind, part), st)]
        i = self.snap(i, st)
        v2 = self.snap(v, st)
        if i == ('idx', v2):
            return [(('iter', v2), st)]
        key = (v2, i)
        if ('item', key) in st.attrs:
            return [(st.attrs[('item', key)], st)]
        for c in self.types_of(v, st):
            found = self.p.lookup(c, '__getitem__')
            if found and found[1][0] == 'func' and self.cfg._props and \
                    self.cfg.inline_prop(found[1][1]):
                return self.call_func(found[1][1], [v, i], {}, st, node, fr)
        return [(('sub', v2, i), st)]

    def ev_Slice(self, node, st, fr):
        parts = [node.lower, node.upper, node.step]
        res = []
        nodes = [x if x is not None else ast.Constant(None) for x in parts]
        for vals, s in self.evs(nodes, st, fr):
            res.append((('slice', *[self.snap(v, s) for v in vals]), s))
        return res

    def ev_Tuple(self, node, st, fr):
        return self._display('tuple', node.elts, st, fr)

    def ev_List(self, node, st, fr):
        return self._display('list', node.elts, st, fr)

    def ev_Set(self, node, st, fr):
        return self._display('set', node.elts, st, fr)

    def _display(self, kind, elts, st, fr):
        res = []
        nodes = [e.value if isinstance(e, ast.Starred) else e for e in elts]
        for vals, s in self.evs(nodes, st, fr):
            items = []
            for e, v in zip(elts, vals):
                if isinstance(e, ast.Starred):
                    items += self.spread(v, s)
                else:
                    items.append(v)
            if kind == 'tuple':
                res.append((('tuple', tuple(items)), s))
            else:
                res.append((self.alloc(kind, tuple(items), s), s))
        return res

    def spread(self, v, st):
        items = self.items_of(v, st)
        if items is not None:
            return items
        v = self.snap(v, st)
        els = self.iterate(v, st)
        if len(els) == 1 and els[0][0] == 'many' and els[0][1] == ('iter', v):
            return [('star', v)]
        return [('many', e[1], e[2]) if e[0] == 'many' else e[1] for e in els]

    def ev_Dict(self, node, st, fr):
        nodes = []
        for k, v in zip(node.keys, node.values):
            nodes.append(k if k is not None else ast.Constant('**'))
            nodes.append(v)
        res = []
        for vals, s in self.evs(nodes, st, fr):
            pairs = []
            for j, k in enumerate(node.keys):
                kv, vv = vals[2 * j], vals[2 * j + 1]
                if k is None:
                    pairs = self.merge(pairs, vv, s)
                else:
                    pairs = setpair(pairs, self.snap(kv, s), vv)
            res.append((self.alloc('dict', tuple(pairs), s), s))
        return res

    def merge(self, pairs, v, st):
        more = self.pairs_of(v, st)
        pairs = list(pairs)
        if more is None:
            pairs.append((('**', self.snap(v, st)), NONE))
            return pairs
        for k, x in more:
            pairs = setpair(pairs, k, x)
        return pairs

    def ev_BinOp(self, node, st, fr):
        out = []
        op = BIN[type(node.op)]
        for (a, b), s in self.evs([node.left, node.right], st, fr):
            out += self.binop(op, a, b, s, node, fr)
        return out

    def binop(self, op, a, b, st, node=None, fr=None):
        if a[0] == 'k' and b[0] == 'k' and op in PYBIN:
            try:
                if op == 'pow' and abs(b[2]) > 400:
                    raise ValueError
                v = PYBIN[op](a[2], b[2])
                return [(K(v), st)]
            except Exception:
                pass
        if op == 'add':
            ia, ib = self.items_of(a, st), self.items_of(b, st)
            if a[0] != 'k' and b[0] != 'k' and (ia is not None and ib is not None):
                ka = a[0] if a[0] != 'obj' else st.heap[a][0]
                if ka in ('list', 'tuple'):
                    items = tuple(ia + ib)
                    if ka == 'tuple':
                        return [(('tuple', items), st)]
                    return [(self.alloc('list', items, st), st)]
        if op == 'mod' and a[0] == 'k' and isinstance(a[2], str):
            return [(('fmt', (a, self.snap(b, st))), st)]
        if op == 'or_':
            pa, pb = self.pairs_of(a, st), self.pairs_of(b, st)
            if pa is not None and pb is not None:
                return [(self.alloc('dict', tuple(self.merge(pa, b, st)), st), st)]
        a, b = self.snap(a, st), self.snap(b, st)
        t = ('op', op, a, b)
        hook = self.cfg.models.get(('binop', op)) or self.cfg.models.get('binop')
        if hook and node is not None:
            r = hook(self, op, a, b, st, node, fr)
            if r is not None:
                return r
        if node is not None:
            self.event('op', t, node, st, fr)
        return [(t, st)]

    def ev_UnaryOp(self, node, st, fr):
        out = []
        for v, s in self.ev(node.operand, st, fr):
            if isinstance(node.op, ast.Not):
                d = self.decide(v, s)
                t = self.snap(v, s)
                if t[0] == 'op' and t[1] in OPPOSITE:
                    t = ('op', OPPOSITE[t[1]], *t[2:])
                else:
                    t = ('op', 'not', t)
                out.append((K(not d) if d is not None else t, s))
                continue
            op = UN[type(node.op)]
            if v[0] == 'k' and isinstance(v[2], NUMTYPES):
                try:
                    out.append((K({'neg': _o.neg, 'pos': _o.pos,
                                   'invert': _o.invert}[op](v[2])), s))
                    continue
                except Exception:
                    pass
            t = ('op', op, self.snap(v, s))
            self.event('op', t, node, s, fr)
            out.append((t, s))
        return out

    def ev_BoolOp(self, node, st, fr):
        isand = isinstance(node.op, ast.And)
        res = []
        work = [(self.ev(node.values[0], st, fr), 1)]
        while work:
            vals, i = work.pop()
            for v, s in vals:
                if i == len(node.values):
                    res.append((v, s))
                    continue
                for truth, s2 in self.branch(v, s):
                    if truth == isand:
                        work.append((self.ev(node.values[i], s2, fr), i + 1))
                    else:
                        res.append((v, s2))
        return res

    def ev_Compare(self, node, st, fr):
        if len(node.ops) == 1:
            res = []
            for (a, b), s in self.evs([node.left, node.comparators[0]], st, fr):
                res.append((self.compare(CMP[type(node.ops[0])], a, b, s, node, fr), s))
            return res
        # a < b < c  ==>  (a < b) and (b < c)
        parts = []
        left = node.left
        for op, right in zip(node.ops, node.comparators):
            parts.append(ast.copy_location(
                ast.Compare(left=left, ops=[op], comparators=[right]), node))
            left = right
        return self.ev_BoolOp(
            ast.copy_location(ast.BoolOp(op=ast.And(), values=parts), node),
            st, fr)

    def compare(self, op, a, b, st, node=None, fr=None):
        if op in PYCMP and a[0] == 'k' and b[0] == 'k':
            try:
                return K(bool(PYCMP[op](a[2], b[2])))
            except Exception:
                pass
        if op in ('is', 'isnot', 'in', 'notin'):
            t = ('op', op, a, b)
            d = self.decide(t, st)
            if d is not None:
                return K(d)
        t = ('op', op, self.snap(a, st), self.snap(b, st))
        d = self.decide(t, st) if op in ('eq', 'ne') else None
        if d is not None:
            return K(d)
        if node is not None:
            self.event('op', t, node, st, fr)
        return t

    def ev_IfExp(self, node, st, fr):
        res = []
        for c, s in self.ev(node.test, st, fr):
            for truth, s2 in self.branch(c, s):
                res += self.ev(node.body if truth else node.orelse, s2, fr)
        return res

    def ev_NamedExpr(self, node, st, fr):
        res = []
        for v, s in self.ev(node.value, st, fr):
            s.vars[(fr.fid, node.target.id)] = v
            res.append((v, s))
        return res

    def ev_JoinedStr(self, node, st, fr):
        nodes = []
        for v in node.values:
            nodes.append(v.value if isinstance(v, ast.FormattedValue) else v)
        res = []
        for vals, s in self.evs(nodes, st, fr):
            parts = []
            for n, v in zip(node.values, vals):
                if isinstance(n, ast.FormattedValue):
                    if n.conversion == 114:
                        v = K(repr(v[2])) if v[0] == 'k' else (
                            'call', ('ext', 'builtins.repr'),
                            (self.snap(v, s),), ())
                    if n.format_spec is not None:
                        v = formatted(self.snap(v, s), n.format_spec)
                    if v[0] == 'k':
                        v = K(str(v[2]))
                parts.append(self.snap(v, s))
            res.append((fmt(parts), s))
        return res

    def ev_FormattedValue(self, node, st, fr):
        return self.ev(node.value, st, fr)

    def ev_Lambda(self, node, st, fr):
        self.closures.append((node, fr, fr.module))
        return [(('fn', len(self.closures) - 1), st)]

    def ev_Starred(self, node, st, fr):
        return [(('star', self.snap(v, s)), s) for v, s in self.ev(node.value, st, fr)]

    def ev_Await(self, node, st, fr):
        return self.ev(node.value, st, fr)

    def ev_Yield(self, node, st, fr):
        res = []
        vals = self.ev(node.value, st, fr) if node.value else [(NONE, st)]
        for v, s in vals:
            self.gen_add(v, s, fr)
            res.append((NONE, s))
        return res

    def ev_YieldFrom(self, node, st, fr):
        res = []
        for v, s in self.ev(node.value, st, fr):
            for e in self.iterate(v, s):
                if e[0] == 'many':
                    self.gen_add(('many', e[1], e[2]), s, fr)
                else:
                    self.gen_add(e[1], s, fr)
            res.append((NONE, s))
        return res

    def gen_add(self, v, st, fr):
        f = fr
        while f is not None and (f.fid, '<gen>') not in st.vars:
            f = f.parent
        if f is None:
            return
        g = st.vars[(f.fid, '<gen>')]
        self.append(g, v, st)

    def append(self, o, v, st):
        kind, items = st.heap[o][0], st.heap[o][1]
        if items is None:
            return
        depth = st.vars.get('<loop>', 0)
        base = st.vars.get(('<born>', o), 0)
        if depth > base and v[0] != 'many':
            v = ('many', v, tuple(('over', e) for e in st.vars.get(
                '<over>', ())[base:depth]))
        if kind == 'set' and v in items:
            return
        st.heap[o] = (kind, items + (v,))

    def ev_ListComp(self, node, st, fr):
        return self._comp('list', node, st, fr)

    def ev_SetComp(self, node, st, fr):
        return self._comp('set', node, st, fr)

    def ev_GeneratorExp(self, node, st, fr):
        return self._comp('list', node, st, fr)

    def ev_DictComp(self, node, st, fr):
        return self._comp('dict', node, st, fr)

    def _comp(self, kind, node, st, fr):
        """Comprehensions: expand known collections, abstract unknown ones."""
        res = []
        for items, s, many in self._comp_gen(node, 0, [], st, fr, kind):
            res.append((self.alloc(kind, tuple(items), s), s))
        return res

    def _comp_gen(self, node, i, acc, st, fr, kind, many=False, conds=()):
        """[(items, state, many)] after running generators i.. of a
        comprehension; acc holds the items collected so far."""
        if i == len(node.generators):
            out = []
            if kind == 'dict':
                for (k, v), s in self.evs([node.key, node.value], st, fr):
                    k, v = self.snap(k, s), v
                    if many:
                        k = ('many', k, conds) if not ground(k) else k
                    out.append((setpair(acc, k, v), s, many))
                return out
            for v, s in self.ev(node.elt, st, fr):
                if kind != 'dict':
                    item = ('many', self.snap(v, s), conds) if many else v
                    if kind == 'set' and item in acc:
                        out.append((acc, s, many))
                    else:
                        out.append((acc + [item], s, many))
            return out
        g = node.generators[i]
        out = []
        for it, s in self.ev(g.iter, st, fr):
            els = self.iterate(it, s)
            cur = [(acc, s)]
            for kind_e, el, econds in els:
                nxt = []
                for a, s1 in cur:
                    ismany = many or kind_e == 'many'
                    for s2 in self.bind(g.target, el, s1, fr):
                        over = (('over', self.snap(el, s2)),) if \
                            self.cfg.binders and kind_e == 'many' else ()
                        branches = [(s2, conds + over + tuple(
                            c for c in econds if c[0] != 'over'), True)]
                        for test in g.ifs:
                            nb = []
                            for s3, cs, ok in branches:
                                if not ok:
                                    nb.append((s3, cs, ok))
                                    continue
                                for c, s4 in self.ev(test, s3, fr):
                                    d = self.decide(c, s4)
                                    if d is True:
                                        nb.append((s4, cs, True))
                                    elif d is False:
                                        nb.append((s4, cs, False))
                                    elif ismany:
                                        # the condition guards the element
                                        s4.facts[self.canon(c, s4)[0]] = \
                                            self.canon(c, s4)[1]
                                        nb.append((s4, cs + (self.snap(c, s4),), True))
                                    else:
                                        for truth, s5 in self.branch(c, s4):
                                            nb.append((s5, cs, truth))
                            branches = nb
                        for s3, cs, ok in branches:
                            if not ok:
                                nxt.append((a, s3))
                                continue
                            keep = dict(s3.facts) if not ismany else None
                            base = None
                            if ismany:
                                base = s1.facts
                            for items, s4, _ in self._comp_gen(
                                    node, i + 1, list(a), s3, fr, kind,
                                    ismany, cs):
                                nxt.append((items, s4))
                cur = nxt
                if len(cur) > 256:
                    raise Budget("comprehension too wide")
            out += [(a, s2, many) for a, s2 in cur]
        return out

    # ------------------------------------------------------------------
    # calls
    # ------------------------------------------------------------------

    def ev_Call(self, node, st, fr):
        # super()
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and \
                self.lookup('super', st, fr) == ('ext', 'builtins.super'):
            f = fr
            while f is not None and f.cls is None:
                f = f.parent
            if f is not None and not node.args:
                selfterm = f.selfterm
                mc = self.types_of(selfterm, st) if selfterm else []
                if selfterm and selfterm[0] == 'class':
                    mc = [selfterm[1]]
                if selfterm and selfterm[0] == 'typeof':
                    mc = self.types_of(selfterm[1], st)
                return [(('super', f.cls, selfterm or ('sym', 'self'),
                          mc[0] if mc else f.cls), st)]
        out = []
        for fv, s in self.ev(node.func, st, fr):
            nodes = [a.value if isinstance(a, ast.Starred) else a for a in node.args]
            nodes += [k.value for k in node.keywords]
            for vals, s2 in self.evs(nodes, s, fr):
                args = []
                for a, v in zip(node.args, vals):
                    if isinstance(a, ast.Starred):
                        args += self.spread(v, s2)
                    else:
                        args.append(v)
                kwargs = {}
                for k, v in zip(node.keywords, vals[len(node.args):]):
                    if k.arg is None:
                        pairs = self.pairs_of(v, s2)
                        if pairs is not None and all(
                                isk(q, str) for q, _ in pairs):
                            for q, x in pairs:
                                kwargs[q[2]] = x
                        elif pairs is not None:
                            for q, x in pairs:
                                if isk(q, str):
                                    kwargs[q[2]] = x
                                else:
                                    kwargs['**'] = self.snap(v, s2)
                        else:
                            kwargs['**'] = self.snap(v, s2)
                    else:
                        kwargs[k.arg] = v
                out += self.call(fv, args, kwargs, s2, node, fr)
        return out

    def call(self, f, args, kwargs, st, node, fr):
        """Call any term."""
        model = self.cfg.models.get(f)
        if model is None and f[0] in ('func', 'bound', 'ext', 'class'):
            model = self.cfg.models.get(f[-1])
        if model is None and f[0] == 'attr':
            model = self.cfg.models.get(('.', f[2]))
        if model:
            r = model(self, f, args, kwargs, st, node, fr)
            if r is not None:
                return r
        if f[0] == 'func':
            return self.call_func(self.p.funcs[f[1]], args, kwargs, st, node, fr)
        if f[0] == 'rawfunc':
            return self.call_func(self.p.funcs[f[1]], args, kwargs, st, node, fr, raw=True)
        if f[0] == 'bound':
            fn = self.p.funcs[f[2]]
            return self.call_func(fn, [f[1], *args], kwargs, st, node, fr)
        if f[0] == 'boundfn':
            return self.call(f[2], [f[1], *args], kwargs, st, node, fr)
        if f[0] == 'fn':
            return self.call_closure(f, args, kwargs, st, node, fr)
        if f[0] == 'partial':
            kw = dict(f[3])
            kw.update(kwargs)
            return self.call(f[1], [*f[2], *args], kw, st, node, fr)
        if f[0] == 'class':
            return self.construct(f, args, kwargs, st, node, fr)
        if f[0] == 'typeof':
            ts = self.types_of(f[1], st)
            if ts and ts[0] in self.cfg.instantiate:
                return self.construct(('class', ts[0]), args, kwargs, st, node, fr)
            return self.opaque(f, args, kwargs, st, node, fr)
        if f[0] == 'ext':
            r = self.call_ext(f, args, kwargs, st, node, fr)
            if r is not None:
                return r
        if f[0] == 'meth':
            return self.call_meth(f, args, kwargs, st, node, fr)
        # instances with __call__
        for c in self.types_of(f, st):
            found = self.p.lookup(c, '__call__')
            if found and found[1][0] == 'func':
                return self.call_func(found[1][1], [f, *args], kwargs, st, node, fr)
        return self.opaque(f, args, kwargs, st, node, fr)

    def opaque(self, f, args, kwargs, st, node, fr):
        args = tuple(self.snap(a, st) for a in args)
        kw = tuple(sorted((k, self.snap(v, st)) for k, v in kwargs.items()))
        f = self.snap(f, st)
        t = ('call', f, args, kw)
        self.event('call', t, node, st, fr)
        return [(t, st)]

    def event(self, kind, data, node, st, fr):
        if self.cfg.trace and fr is not None:
            st.trace = st.trace + (Event(
                kind, data, node, fr.module.path,
                fr.func.qual if fr.func else None),)

    def decorated(self, f, st, fr):
        """The callable bound to a decorated function's name, or None."""
        todo = []
        for d in f.decorators():
            text = dotted(d.func if isinstance(d, ast.Call) else d) or ''
            last = text.split('.')[-1]
            if last in ('property', 'staticmethod', 'classmethod', 'overload',
                        'abstractmethod', 'wraps', 'lru_cache', 'cache',
                        'setter', 'contextmanager', 'runtime_checkable',
                        'abstractproperty', 'classproperty', 'autostr'):
                continue
            todo.append(d)
        if not todo:
            return None
        frame = Frame(f"mod:{f.module.name}", f.module)
        cur = [(('rawfunc', f.qual), st)]
        for d in reversed(todo):
            nxt = []
            for v, s in cur:
                for dv, s2 in self.ev(d, s, frame):
                    nxt += self.call(dv, [v], {}, s2, d, frame)
            cur = nxt
        if len(cur) != 1:
            return None
        return cur[0]

    def call_func(self, f, args, kwargs, st, node, fr, raw=False):
        if not self.cfg.inline(f) or len(self.stack) >= self.cfg.maxdepth or \
                self.stack.count(f.qual) >= 2 or self.p.isabstract(f):
            return self.opaque_func(f, args, kwargs, st, node, fr)
        if not raw and f.decorators():
            saved = st.trace
            d = self.decorated(f, st, fr)
            if d is not None:
                v, st = d
                st.trace = saved
                if v[0] == 'fn':
                    return self.call_closure(v, args, kwargs, st, node, fr)
                if v[0] == 'partial':
                    return self.call(v, args, kwargs, st, node, fr)
                if v != ('rawfunc', f.qual) and v != ('func', f.qual):
                    return self.opaque_func(f, args, kwargs, st, node, fr)
        new = self._frame(f.module, f, f.cls)
        bound = self.bindargs(f.node, args, kwargs, st, f, new)
        if bound is None:
            return self.opaque_func(f, args, kwargs, st, node, fr)
        names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        for k, v in bound.items():
            st.vars[(new.fid, k)] = v
        if f.cls and names and not self.p.isstatic(f):
            new.selfterm = bound.get(names[0])
        return self._finish(self._body(f.node, st, new, f))

    def opaque_func(self, f, args, kwargs, st, node, fr):
        """A canonical opaque call: positional arguments become keyed by
        parameter name so that call spelling does not matter."""
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if f.cls and not self.p.isstatic(f) and args:
            recv = self.snap(args[0], st)
            if self.p.isclassmethod(f) or recv[0] in ('typeof',):
                pass
            target = ('attr', recv, f.name)
            rest = args[1:]
            names = names[1:]
        else:
            target = ('func', f.qual)
            rest = args
        pos, kw = [], dict(kwargs)
        if not any(x[0] in ('star', 'many') for x in rest) and '**' not in kw:
            for n in names[len(rest):]:
                if n in kw and len(rest) + len(pos) == names.index(n):
                    pos.append(kw.pop(n))
                else:
                    break
        return self.opaque(target, [*rest, *pos], kw, st, node, fr)

    def call_closure(self, v, args, kwargs, st, node, fr):
        n, outer, module = self.closures[v[1]]
        if len(self.stack) >= self.cfg.maxdepth:
            return self.opaque(v, args, kwargs, st, node, fr)
        new = self._frame(module, outer.func, outer.cls, outer)
        new.cls = None
        bound = self.bindargs(n, args, kwargs, st, None, new)
        if bound is None:
            return self.opaque(v, args, kwargs, st, node, fr)
        for k, x in bound.items():
            st.vars[(new.fid, k)] = x
        return self._finish(self._body(n, st, new, None))

    def _finish(self, outs):
        res = []
        for o in outs:
            if o.kind == 'return':
                res.append((o.value, o.st))
            elif o.kind == 'raise':
                self.sinks[-1].append(o)
        return res

    def bindargs(self, node, args, kwargs, st, f, new):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        rest = list(args)
        kwargs = dict(kwargs)
        extra_kw = kwargs.pop('**', None)
        i = 0
        while rest and i < len(pos):
            v = rest[0]
            if v[0] == 'star':
                # spread an unknown sequence over the remaining parameters
                j = 0
                while i < len(pos) and pos[i] not in kwargs:
                    out[pos[i]] = ('sub', v[1], K(j))
                    i += 1
                    j += 1
                rest = rest[1:] if not a.vararg else [
                    ('star', ('sub', v[1], ('slice', K(j), NONE, NONE)))
                    if j else v] + rest[1:]
                break
            if v[0] == 'many':
                out[pos[i]] = v[1]
                i += 1
                if i == len(pos):
                    rest = rest[1:]
                continue
            out[pos[i]] = v
            rest = rest[1:]
            i += 1
        if rest:
            if not a.vararg:
                return None
            if len(rest) == 1 and rest[0][0] == 'star':
                out[a.vararg.arg] = rest[0][1]
            else:
                out[a.vararg.arg] = ('tuple', tuple(rest))
        elif a.vararg:
            out[a.vararg.arg] = ('tuple', ())
        kwonly = [x.arg for x in a.kwonlyargs]
        posonly = [x.arg for x in a.posonlyargs]
        spill = []
        for k, v in kwargs.items():
            if k in pos and k not in out and k not in posonly or k in kwonly:
                out[k] = v
            elif a.kwarg:
                spill.append((K(k), v))
            else:
                return None
        # unknown ** may provide the rest
        if a.kwarg:
            if extra_kw is not None and not spill:
                out[a.kwarg.arg] = extra_kw
            else:
                pairs = tuple(spill)
                if extra_kw is not None:
                    pairs = ((('**', extra_kw), NONE),) + pairs
                out[a.kwarg.arg] = self.alloc('dict', pairs, st)
        defaults = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        defaults.update({k: d for k, d in zip(kwonly, a.kw_defaults)
                         if d is not None})
        for n in pos + kwonly:
            if n in out:
                continue
            if extra_kw is not None and n not in posonly:
                out[n] = ('sub', extra_kw, K(n))
                continue
            if n in defaults:
                dfr = Frame(f"mod:{new.module.name}", new.module)
                if new.parent is not None:
                    dfr = new.parent
                vals = self.ev(defaults[n], st, dfr)
                out[n] = vals[0][0]
                continue
            return None
        return out

    def construct(self, f, args, kwargs, st, node, fr):
        q = f[1]
        if q in self.cfg.instantiate and q in self.p.classes:
            self.nobj += 1
            o = ('obj', self.nobj)
            st.heap[o] = ('inst', q, tuple(self.snap(a, st) for a in args),
                          tuple(sorted((k, self.snap(v, st))
                                       for k, v in kwargs.items())))
            found = self.p.lookup(q, '__init__')
            if found and found[1][0] == 'func':
                res = []
                for _, s in self.call_func(found[1][1], [o, *args], kwargs,
                                           st, node, fr):
                    res.append((o, s))
                return res
            return [(o, st)]
        # keyed by the initializer's parameters
        found = self.p.lookup(q, '__init__') if q in self.p.classes else None
        if found and found[1][0] == 'func' and found[0] == q:
            a = found[1][1].node.args
            names = [x.arg for x in a.posonlyargs + a.args][1:]
            pos, kw = list(args), dict(kwargs)
            if not any(x[0] in ('star', 'many') for x in pos) and '**' not in kw:
                for n in names[len(pos):]:
                    if n in kw and len(pos) == names.index(n):
                        pos.append(kw.pop(n))
                    else:
                        break
            args, kwargs = pos, kw
        return self.opaque(f, args, kwargs, st, node, fr)

    # -- builtins and other externals ------------------------------------

    def call_ext(self, f, args, kwargs, st, node, fr):
        name = f[1]
        if name in OPERATOR_FUNCS:
            op = OPERATOR_FUNCS[name]
            if len(args) == 2:
                if op in PYCMP:
                    return [(self.compare(op, args[0], args[1], st, node, fr), st)]
                return self.binop(op, args[0], args[1], st, node, fr)
            if len(args) == 1:
                t = ('op', op, self.snap(args[0], st))
                return [(t, st)]
        if name == 'functools.partial' and args:
            return [(('partial', args[0], tuple(args[1:]),
                      tuple(kwargs.items())), st)]
        if name == 'functools.reduce' and len(args) > 1 and not kwargs:
            # the combination of two members stands for the function
            a, b = ('sym', '_first'), ('sym', '_second')
            if args[0][0] in ('fn', 'ext', 'func', 'bound'):
                out = self.call(args[0], [a, b], {}, st, node, fr)
                if len(out) == 1 and out[0][0][0] in ('op', 'call'):
                    t = tuple(self.snap(x, st) for x in (out[0][0], *args[1:]))
                    return [(('call', f, t, ()), st)]
            return None
        if not name.startswith('builtins.'):
            if name == 'functools.wraps':
                self.closures.append((IDENTITY, Frame('id', fr.module), fr.module))
                return [(('fn', len(self.closures) - 1), st)]
            if name in ('contextlib.suppress',):
                return None
            return None
        b = name[9:]
        if b == 'isinstance' and len(args) == 2:
            return self.isinstance_(args[0], args[1], st)
        if b in ('tuple', 'list', 'set', 'frozenset') and not kwargs:
            kind = 'set' if b == 'frozenset' else b
            if not args:
                items = ()
            elif len(args) == 1:
                src = args[0]
                items = self.items_of(src, st)
                if items is None:
                    els = self.iterate(src, st)
                    src2 = self.snap(src, st)
                    if els == [('many', ('iter', src2), ())]:
                        if b == 'list':
                            # a fresh, mutable copy of unknown content
                            return [(self.alloc('list', (('star', src2),), st), st)]
                        return None
                    items = [('many', e[1], e[2]) if e[0] == 'many' else e[1]
                             for e in els]
                items = tuple(items)
                if kind == 'set':
                    seen = []
                    for i in items:
                        if i not in seen:
                            seen.append(i)
                    items = tuple(seen)
            else:
                return None
            if kind == 'tuple':
                return [(('tuple', items), st)]
            return [(self.alloc(kind, items, st), st)]
        if b == 'dict':
            pairs = []
            if args:
                p = self.pairs_of(args[0], st)
                if p is None:
                    items = self.items_of(args[0], st)
                    if items is not None:
                        for i in items:
                            conds = ()
                            many = i[0] == 'many'
                            x = i[1] if many else i
                            kv = self.items_of(x, st)
                            if kv is None or len(kv) != 2:
                                return None
                            k = self.snap(kv[0], st)
                            if many and not ground(k):
                                k = ('many', k, i[2])
                            w = kv[1]
                            if w[0] in ('set', 'list', 'dict'):
                                w = self.alloc(w[0], w[1], st)
                            pairs = setpair(pairs, k, w)
                    else:
                        pairs = self.merge(pairs, args[0], st)
                else:
                    pairs = list(p)
            for k, v in kwargs.items():
                if k == '**':
                    pairs = self.merge(pairs, v, st)
                else:
                    pairs = setpair(pairs, K(k), v)
            return [(self.alloc('dict', tuple(pairs), st), st)]
        if b == 'getattr' and len(args) >= 2 and isk(args[1], str):
            return self.getattr(args[0], args[1][2], st, node, fr)
        if b == 'setattr' and len(args) == 3 and isk(args[1], str):
            self.store_attr(args[0], args[1][2], args[2], st, node, fr)
            return [(NONE, st)]
        if b == 'len' and len(args) == 1:
            items = self.items_of(args[0], st)
            if items is not None and not any(i[0] in ('many', 'star') for i in items):
                return [(K(len(items)), st)]
            return None
        if b in ('str', 'int', 'float', 'abs', 'round', 'complex', 'bool', 'repr') \
                and len(args) == 1 and not kwargs:
            if args[0][0] == 'k':
                try:
                    return [(K(getattr(builtins, b)(args[0][2])), st)]
                except Exception:
                    return None
            if b == 'str' and args[0][0] == 'fmt':
                return [(args[0], st)]
            if b == 'str':
                for c in self.types_of(args[0], st):
                    found = self.p.lookup(c, '__str__')
                    if found and found[1][0] == 'func' and \
                            self.cfg.inline_prop(found[1][1]):
                        return self.call_func(found[1][1], [args[0]], {}, st, node, fr)
            return None
        if b in ('min', 'max', 'sum') and len(args) == 1 and not kwargs:
            items = self.items_of(args[0], st)
            if items and all(i[0] == 'k' for i in items):
                try:
                    return [(K(getattr(builtins, b)([i[2] for i in items])), st)]
                except Exception:
                    return None
            return None
        if b in ('any', 'all') and len(args) == 1:
            items = self.items_of(args[0], st)
            if items is not None and not any(i[0] in ('many', 'star') for i in items):
                ds = [self.decide(i, st) for i in items]
                if b == 'all':
                    if any(d is False for d in ds):
                        return [(FALSE, st)]
                    if all(d is True for d in ds):
                        return [(TRUE, st)]
                    if len(ds) - ds.count(True) == 1:
                        return [(items[ds.index(None)], st)]
                else:
                    if any(d is True for d in ds):
                        return [(TRUE, st)]
                    if all(d is False for d in ds):
                        return [(FALSE, st)]
                    if len(ds) - ds.count(False) == 1:
                        return [(items[ds.index(None)], st)]
            return None
        if b == 'zip' and not kwargs:
            seqs = [self.items_of(a, st) for a in args]
            if all(s is not None for s in seqs) and seqs:
                if not any(i[0] in ('many', 'star') for s in seqs for i in s):
                    return [(self.alloc('list', tuple(
                        ('tuple', t) for t in zip(*seqs)), st), st)]
                if all(len(s) == 1 and s[0][0] == 'many' for s in seqs):
                    return [(self.alloc('list', (('many', ('tuple', tuple(
                        s[0][1] for s in seqs)), ()),), st), st)]
            els = [self.iterate(a, st) for a in args]
            if all(len(e) == 1 and e[0][0] == 'many' for e in els) and els:
                return [(self.alloc('list', (('many', ('tuple', tuple(
                    e[0][1] for e in els)), ()),), st), st)]
            return None
        if b == 'enumerate' and args:
            items = self.items_of(args[0], st)
            if items is not None and not any(i[0] in ('many', 'star') for i in items):
                start = args[1] if len(args) > 1 else kwargs.get('start', K(0))
                if isk(start, int):
                    return [(self.alloc('list', tuple(
                        ('tuple', (K(start[2] + n), i))
                        for n, i in enumerate(items)), st), st)]
            return None
        if b == 'range' and all(isk(a, int) for a in args):
            r = range(*[a[2] for a in args])
            if len(r) <= 64:
                return [(self.alloc('list', tuple(K(i) for i in r), st), st)]
            return None
        if b in ('sorted', 'reversed') and len(args) == 1:
            items = self.items_of(args[0], st)
            if items is not None:
                if b == 'sorted' and not kwargs and all(i[0] == 'k' for i in items):
                    try:
                        items = [K(x) for x in sorted(i[2] for i in items)]
                    except Exception:
                        pass
                elif b == 'reversed':
                    items = items[::-1]
                else:
                    return None
                return [(self.alloc('list', tuple(items), st), st)]
            return None
        if b in ('map', 'filter') and len(args) == 2:
            els = self.iterate(args[1], st)
            cur = [((), st)]
            for kind, el, conds in els:
                nxt = []
                for acc, s in cur:
                    for v, s2 in self.call(args[0], [el], {}, s, node, fr) \
                            if args[0] != NONE else [(el, s)]:
                        if b == 'map':
                            over = (('over', self.snap(el, s2)),) if self.cfg.binders \
                                else ()
                            item = ('many', self.snap(v, s2), conds + over) \
                                if kind == 'many' else v
                            nxt.append((acc + (item,), s2))
                        else:
                            if kind == 'many':
                                nxt.append((acc + (('many', el, conds + (
                                    self.snap(v, s2),)),), s2))
                            else:
                                for truth, s3 in self.branch(v, s2):
                                    nxt.append((acc + ((el,) if truth else ()), s3))
                cur = nxt
            return [(self.alloc('list', acc, s), s) for acc, s in cur]
        if b in ('iter',) and len(args) == 1:
            items = self.items_of(args[0], st)
            if items is not None:
                return [(args[0], st)]
            return None
        if b == 'next' and args:
            els = self.elements(args[0], st)
            if els:
                if els[0][0] == 'one':
                    return [(els[0][1], st)]
                res = [(els[0][1], st)]
                if len(args) > 1:
                    res.append((args[1], st.copy()))
                for c in els[0][2]:
                    self.assume(c, True, res[0][1])
                return res
            if els is not None:
                if len(args) > 1:
                    return [(args[1], st)]
                self.sinks[-1].append(Out(
                    'raise', ('call', ('ext', 'builtins.StopIteration'), (), ()),
                    st, node, fr.module.path))
                return []
            return None
        if b == 'type' and len(args) == 1:
            ts = self.types_of(args[0], st)
            if ts:
                return [(('typeof', args[0]), st)]
            return None
        if b == 'object' or b == 'print':
            return None
        if b == 'pow' and len(args) >= 2 and not kwargs:
            if len(args) == 2:
                return self.binop('pow', args[0], args[1], st, node, fr)
        return None

    def isinstance_(self, x, c, st):
        classes = self.classset(c, st)
        if classes is None:
            return [(('call', ('ext', 'builtins.isinstance'),
                      (self.snap(x, st), self.snap(c, st)), ()), st)]
        atom = ('isa', self.snap(x, st) if x[0] != 'obj' else x, classes)
        d = self._decide(atom, st)
        if d is not None:
            return [(K(d), st)]
        if x[0] == 'obj':
            atom = ('isa', self.snap(x, st), classes)
        return [(atom, st)]

    def classset(self, c, st):
        items = self.items_of(c, st)
        if items is not None:
            out = set()
            for i in items:
                s = self.classset(i, st)
                if s is None:
                    return None
                out |= s
            return frozenset(out)
        if c[0] in ('class', 'ext', 'glob', 'cattr'):
            return frozenset([c])
        if c[0] == 'sub' and c[1][0] in ('class', 'ext'):
            return frozenset([c[1]])
        return frozenset([self.snap(c, st)])

    def iscontainer(self, v, st):
        if v[0] in ('tuple', 'list', 'dict', 'set'):
            return True
        if v[0] == 'obj':
            return v in st.heap and st.heap[v][0] != 'inst'
        return v[0] == 'k' and isinstance(v[2], str)

    def call_meth(self, f, args, kwargs, st, node, fr):
        """Methods of known containers and of constant strings."""
        _, o, name = f
        r = self.call_bound_container(o, name, args, kwargs, st, node, fr)
        if r is not None:
            return r
        r = self.opaque(('attr', self.snap(o, st), name), args, kwargs, st,
                        node, fr)
        if o[0] == 'obj' and name in MUTATORS:
            for _, s in r:
                s.heap[o] = (s.heap[o][0], None)
        return r

    def plain_format(self, text, args, st):
        """Text with {} and {!r} as the f-string that it equals."""
        try:
            fields = list(string.Formatter().parse(text))
        except ValueError:
            return None
        parts, given = [], list(args)
        for literal, field, spec, conv in fields:
            if literal:
                parts.append(K(literal))
            if field is None:
                continue
            if field or spec or conv not in (None, 'r') or not given:
                return None
            v = given.pop(0)
            if conv == 'r':
                v = K(repr(v[2])) if v[0] == 'k' else (
                    'call', ('ext', 'builtins.repr'), (self.snap(v, st),), ())
            elif v[0] == 'k':
                v = K(str(v[2]))
            parts.append(self.snap(v, st))
        return None if given else fmt(parts)

    def call_bound_container(self, o, name, args, kwargs, st, node, fr):
        kind = o[0] if o[0] != 'obj' else st.heap[o][0]
        if kind == 'k' and isinstance(o[2], str):
            if name == 'format' and not kwargs and args:
                r = self.plain_format(o[2], args, st)
                if r is not None:
                    return [(r, st)]
            if name in STRMETHODS:
                pyargs = []
                for a in args:
                    if a[0] == 'k':
                        pyargs.append(a[2])
                    else:
                        items = self.items_of(a, st)
                        if items is None or any(i[0] != 'k' for i in items):
                            return None
                        pyargs.append([i[2] for i in items])
                if any(v[0] != 'k' for v in kwargs.values()):
                    return None
                try:
                    r = getattr(o[2], name)(*pyargs, **{
                        k: v[2] for k, v in kwargs.items()})
                except Exception:
                    return None
                if isinstance(r, list):
                    return [(self.alloc('list', tuple(K(x) for x in r), st), st)]
                if isinstance(r, tuple):
                    return [(('tuple', tuple(K(x) for x in r)), st)]
                return [(K(r), st)]
            return None
        if kind == 'dict':
            pairs = self.pairs_of(o, st)
            if pairs is None:
                return None
            if name == 'items' and not args:
                items = []
                for k, v in pairs:
                    if k[0] == 'many':
                        items.append(('many', ('tuple', (k[1], v)), k[2]))
                    elif k[0] == '**':
                        kk = ('iter', k[1])
                        items.append(('many', ('tuple', (kk, ('sub', k[1], kk))), ()))
                    else:
                        items.append(('tuple', (k, v)))
                return [(self.alloc('list', tuple(items), st), st)]
            if name == 'values' and not args:
                items = []
                for k, v in pairs:
                    if k[0] == 'many':
                        items.append(('many', self.snap(v, st), k[2]))
                    elif k[0] == '**':
                        items.append(('many', ('sub', k[1], ('iter', k[1])), ()))
                    else:
                        items.append(v)
                return [(self.alloc('list', tuple(items), st), st)]
            if name == 'keys' and not args:
                items = []
                for k, v in pairs:
                    if k[0] == '**':
                        items.append(('many', ('iter', k[1]), ()))
                    else:
                        items.append(k)
                return [(self.alloc('list', tuple(items), st), st)]
            if name in ('get', 'pop', 'setdefault') and args:
                key = self.snap(args[0], st)
                default = args[1] if len(args) > 1 else NONE
                hit = None
                unknown = False
                for k, v in reversed(pairs):
                    if k == key:
                        hit = v
                        break
                    if not (ground(k) and ground(key)):
                        unknown = True
                        break
                if hit is not None:
                    if name == 'pop' and o[0] == 'obj':
                        st.heap[o] = ('dict', tuple(p for p in pairs if p[0] != key))
                    return [(hit, st)]
                if not unknown:
                    if name == 'setdefault' and o[0] == 'obj':
                        st.heap[o] = ('dict', tuple(setpair(pairs, key, default)))
                    return [(default, st)]
                t = self.snap(o, st)
                hitv = ('sub', t, key)
                s2 = st.copy()
                a = ('op', 'in', key, t)
                res = []
                if self.assume(a, True, st):
                    if name == 'pop' and o[0] == 'obj':
                        st.heap[o] = ('dict', tuple(p for p in pairs if p[0] != key))
                    res.append((hitv, st))
                if (name != 'pop' or len(args) > 1) and self.assume(a, False, s2):
                    res.append((default, s2))
                return res
            if name == 'copy':
                return [(self.alloc('dict', tuple(pairs), st), st)]
            if name == 'update' and o[0] == 'obj':
                for a in args:
                    src = a
                    if self.pairs_of(a, st) is None and \
                            self.items_of(a, st) is not None:
                        r = self.call_ext(('ext', 'builtins.dict'), [a], {}, st, node, fr)
                        if r:
                            src = r[0][0]
                    if self.inloop(o, st) and self.pairs_of(src, st) is None:
                        pairs = self.merge(pairs, src, st)
                    else:
                        pairs = self.merge(pairs, src, st)
                for k, v in kwargs.items():
                    if k == '**':
                        pairs = self.merge(pairs, v, st)
                    else:
                        pairs = setpair(pairs, K(k), v)
                st.heap[o] = ('dict', tuple(pairs))
                return [(NONE, st)]
            if name == 'clear' and o[0] == 'obj':
                st.heap[o] = ('dict', ())
                return [(NONE, st)]
            return None
        if kind in ('list', 'set', 'tuple'):
            items = self.items_of(o, st)
            if items is None:
                return None
            if name in ('append', 'add') and len(args) == 1 and o[0] == 'obj':
                self.append(o, args[0], st)
                return [(NONE, st)]
            if name in ('extend', 'update') and len(args) == 1 and o[0] == 'obj':
                for e in self.iterate(args[0], st):
                    if e[0] == 'many':
                        v = ('many', self.snap(e[1], st), e[2])
                        if e[1][0] == 'iter' and e[1][1] == self.snap(args[0], st):
                            v = ('star', e[1][1])
                    else:
                        v = e[1]
                    self.append(o, v, st)
                return [(NONE, st)]
            if name == 'insert' and len(args) == 2 and o[0] == 'obj':
                if args[0] == K(0):
                    st.heap[o] = (kind, (args[1], *items))
                else:
                    st.heap[o] = (kind, None)
                return [(NONE, st)]
            if name == 'copy' and not args:
                if kind == 'tuple':
                    return [(o, st)]
                return [(self.alloc(kind, tuple(items), st), st)]
            if name == 'index' and len(args) == 1 and kind != 'set':
                if ground(args[0]) and all(ground(i) for i in items):
                    if args[0] in items:
                        return [(K(items.index(args[0])), st)]
                return None
            if name == 'pop' and o[0] == 'obj' and kind == 'list':
                if items and not any(i[0] in ('many', 'star') for i in items) \
                        and not self.inloop(o, st):
                    if not args:
                        v = items.pop()
                    elif isk(args[0], int) and -len(items) <= args[0][2] < len(items):
                        v = items.pop(args[0][2])
                    else:
                        return None
                    st.heap[o] = (kind, tuple(items))
                    return [(v, st)]
                return None
            if name in ('sort', 'reverse', 'remove', 'clear', 'discard',
                        'difference_update', 'pop') and o[0] == 'obj':
                t = self.opaque(('attr', o, name), args, kwargs, st, node, fr)
                if name == 'clear':
                    st.heap[o] = (kind, ())
                return t
            return None
        return None

    def inloop(self, o, st):
        return st.vars.get('<loop>', 0) > st.vars.get(('<born>', o), 0)

    # ------------------------------------------------------------------
    # stores
    # ------------------------------------------------------------------

    def store_attr(self, o, name, v, st, node, fr):
        self.event('setattr', (self.snap(o, st), name, self.snap(v, st)),
                   node, st, fr)
        st.attrs[(o, name)] = v
        if o[0] != 'obj':
            pass

    def bind(self, target, v, st, fr):
        """Assign a value to a target; returns the resulting states."""
        if isinstance(target, ast.Name):
            st.vars[(fr.fid, target.id)] = v
            return [st]
        if isinstance(target, ast.Starred):
            return self.bind(target.value, v, st, fr)
        if isinstance(target, (ast.Tuple, ast.List)):
            items = self.items_of(v, st) if v[0] != 'k' else None
            n = len(target.elts)
            stars = [i for i, e in enumerate(target.elts)
                     if isinstance(e, ast.Starred)]
            if items is not None and not any(
                    i[0] in ('many', 'star') for i in items):
                if not stars and len(items) == n:
                    pairs = list(zip(target.elts, items))
                elif stars and len(items) >= n - 1:
                    i = stars[0]
                    tail = n - i - 1
                    mid = items[i:len(items) - tail]
                    pairs = list(zip(target.elts[:i], items[:i]))
                    pairs.append((target.elts[i], self.alloc('list', tuple(mid), st)))
                    pairs += list(zip(target.elts[i + 1:], items[len(items) - tail:]))
                else:
                    pairs = [(e, ('top', 'unpack')) for e in target.elts]
            elif items is not None and len(items) == 1 and items[0][0] == 'many' \
                    and not stars:
                pairs = [(e, items[0][1]) for e in target.elts]
            else:
                t = self.snap(v, st)
                pairs = []
                for i, e in enumerate(target.elts):
                    if isinstance(e, ast.Starred):
                        pairs.append((e, ('sub', t, ('slice', K(i), NONE, NONE))))
                    else:
                        idx = i if not stars or i < stars[0] else i - n
                        pairs.append((e, ('sub', t, K(idx))))
            states = [st]
            for e, x in pairs:
                states = [s2 for s in states for s2 in self.bind(e, x, s, fr)]
            return states
        if isinstance(target, ast.Attribute):
            res = []
            for o, s in self.ev(target.value, st, fr):
                self.store_attr(o, target.attr, v, s, target, fr)
                res.append(s)
            return res
        if isinstance(target, ast.Subscript):
            res = []
            for (o, i), s in self.evs([target.value, target.slice], st, fr):
                self.store_item(o, i, v, s, target, fr)
                res.append(s)
            return res
        return [st]

    def store_item(self, o, i, v, st, node, fr):
        if o[0] == 'obj' and st.heap[o][0] == 'dict':
            pairs = st.heap[o][1]
            if pairs is not None:
                k = self.snap(i, st)
                if self.inloop(o, st) and not ground(k):
                    k = ('many', k, ())
                st.heap[o] = ('dict', tuple(setpair(pairs, k, v)))
            return
        if o[0] == 'obj' and st.heap[o][0] == 'list':
            items = st.heap[o][1]
            if items is not None and isk(i, int) and not any(
                    x[0] in ('many', 'star') for x in items):
                try:
                    new = list(items)
                    new[i[2]] = v
                    st.heap[o] = ('list', tuple(new))
                    return
                except IndexError:
                    pass
            st.heap[o] = ('list', None)
            return
        so, si, sv = self.snap(o, st), self.snap(i, st), self.snap(v, st)
        self.event('setitem', (so, si, sv), node, st, fr)
        st.attrs[('item', (so, si))] = v

    # ------------------------------------------------------------------
    # statements
    # ------------------------------------------------------------------

    def ex(self, stmts, st, fr):
        """Execute a statement list: list of Out."""
        states = [st]
        done = []
        for s in stmts:
            nxt = []
            for cur in states:
                for o in self.ex1(s, cur, fr):
                    if o.kind == 'fall':
                        nxt.append(o.st)
                    else:
                        done.append(o)
            states = nxt
            if len(states) > 8:
                states = self.mergestates(states)
            if len(states) > self.cfg.maxouts:
                raise Budget("too many abstract states")
            if not states:
                break
        return done + [Out('fall', NONE, s, None) for s in states]

    def mergestates(self, states):
        seen = {}
        for s in states:
            key = (tuple(sorted(((repr(k), v) for k, v in s.vars.items()), key=repr)),
                   frozenset(s.facts.items()), s.trace,
                   tuple(sorted(s.heap.items())),
                   )
            try:
                seen.setdefault(key, s)
            except TypeError:
                return states
        return list(seen.values())

    def ex1(self, s, st, fr):
        self.sinks.append([])
        m = getattr(self, 'ex_' + type(s).__name__, None)
        if m is None:
            outs = [Out('fall', NONE, st, s)]
        else:
            outs = m(s, st, fr)
        raised = self.sinks.pop()
        return list(outs) + raised

    def _fall(self, states, s):
        return [Out('fall', NONE, x, s) for x in states]

    def ex_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return [Out('fall', NONE, st, s)]
        return self._fall([x for _, x in self.ev(s.value, st, fr)], s)

    def ex_Assign(self, s, st, fr):
        res = []
        for v, x in self.ev(s.value, st, fr):
            if v[0] == 'obj' and ('<born>', v) not in x.vars:
                x.vars[('<born>', v)] = x.vars.get('<loop>', 0)
            states = [x]
            for t in s.targets:
                states = [y for z in states for y in self.bind(t, v, z, fr)]
            res += states
        return self._fall(res, s)

    def ex_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [Out('fall', NONE, st, s)]
        res = []
        for v, x in self.ev(s.value, st, fr):
            if v[0] == 'obj' and ('<born>', v) not in x.vars:
                x.vars[('<born>', v)] = x.vars.get('<loop>', 0)
            res += self.bind(s.target, v, x, fr)
        return self._fall(res, s)

    def ex_AugAssign(self, s, st, fr):
        res = []
        load = ast.copy_location(_load(s.target), s)
        for (a, b), x in self.evs([load, s.value], st, fr):
            op = BIN[type(s.op)]
            if a[0] == 'obj' and op == 'add' and x.heap[a][0] == 'list':
                self.call_bound_container(a, 'extend', [b], {}, x, s, fr)
                res.append(x)
                continue
            if a[0] == 'obj' and op == 'or_' and x.heap[a][0] in ('dict', 'set'):
                self.call_bound_container(a, 'update', [b], {}, x, s, fr)
                res.append(x)
                continue
            for v, y in self.binop(op, a, b, x, s, fr):
                res += self.bind(s.target, v, y, fr)
        return self._fall(res, s)

    def ex_Return(self, s, st, fr):
        if s.value is None:
            return [Out('return', NONE, st, s, fr.module.path)]
        return [Out('return', v, x, s, fr.module.path)
                for v, x in self.ev(s.value, st, fr)]

    def ex_Raise(self, s, st, fr):
        if s.exc is None:
            cur = st.vars.get((fr.fid, '<exc>'), ('exc', 'reraised'))
            return [Out('raise', cur, st, s, fr.module.path)]
        return [Out('raise', self.snap(v, x), x, s, fr.module.path)
                for v, x in self.ev(s.exc, st, fr)]

    def ex_If(self, s, st, fr):
        res = []
        for c, x in self.ev(s.test, st, fr):
            for truth, y in self.branch(c, x):
                res += self.ex(s.body if truth else s.orelse, y, fr)
        return res

    def ex_Pass(self, s, st, fr):
        return [Out('fall', NONE, st, s)]

    def ex_Break(self, s, st, fr):
        return [Out('break', NONE, st, s)]

    def ex_Continue(self, s, st, fr):
        return [Out('continue', NONE, st, s)]

    def ex_Assert(self, s, st, fr):
        res = []
        for c, x in self.ev(s.test, st, fr):
            for truth, y in self.branch(c, x):
                if truth:
                    res.append(Out('fall', NONE, y, s))
                else:
                    res.append(Out('raise', ('ext', 'builtins.AssertionError'),
                                   y, s, fr.module.path))
        return res

    def ex_Delete(self, s, st, fr):
        states = [st]
        for t in s.targets:
            nxt = []
            for x in states:
                if isinstance(t, ast.Subscript):
                    for (o, i), y in self.evs([t.value, t.slice], x, fr):
                        if o[0] == 'obj' and y.heap[o][0] == 'dict' and \
                                y.heap[o][1] is not None:
                            k = self.snap(i, y)
                            y.heap[o] = ('dict', tuple(
                                p for p in y.heap[o][1] if p[0] != k))
                        else:
                            self.event('delitem', (self.snap(o, y), self.snap(i, y)),
                                       t, y, fr)
                        nxt.append(y)
                elif isinstance(t, ast.Attribute):
                    for o, y in self.ev(t.value, x, fr):
                        self.event('delattr', (self.snap(o, y), t.attr), t, y, fr)
                        nxt.append(y)
                else:
                    if isinstance(t, ast.Name):
                        x.vars.pop((fr.fid, t.id), None)
                    nxt.append(x)
            states = nxt
        return self._fall(states, s)

    def ex_FunctionDef(self, s, st, fr):
        if fr.fid == f"mod:{fr.module.name}":
            if any(isinstance(d, ast.AST) for d in s.decorator_list):
                f = self.p.funcs.get(f"{fr.module.name}:{s.name}")
                if f is not None and f.node is s:
                    d = self.decorated(f, st, fr)
                    if d is not None:
                        v, st = d
                        if v[0] == 'rawfunc':
                            v = ('func', f.qual)
                        st.vars[(fr.fid, s.name)] = v
            return [Out('fall', NONE, st, s)]
        self.closures.append((s, fr, fr.module))
        v = ('fn', len(self.closures) - 1)
        cur = [(v, st)]
        for d in reversed(s.decorator_list):
            text = dotted(d.func if isinstance(d, ast.Call) else d) or ''
            if text.split('.')[-1] in ('wraps', 'staticmethod'):
                continue
            nxt = []
            for x, y in cur:
                for dv, z in self.ev(d, y, fr):
                    nxt += self.call(dv, [x], {}, z, d, fr)
            cur = nxt
        res = []
        for x, y in cur:
            y.vars[(fr.fid, s.name)] = x
            res.append(y)
        return self._fall(res, s)

    def ex_ClassDef(self, s, st, fr):
        return [Out('fall', NONE, st, s)]

    def ex_For(self, s, st, fr):
        res = []
        for it, x in self.ev(s.iter, st, fr):
            res += self._loop(s, self.iterate(it, x), x, fr)
        return res

    def _loop(self, s, els, st, fr):
        done = []
        states = [st]
        broke = []
        for kind, el, conds in els:
            nxt = []
            for x in states:
                if kind == 'many':
                    nxt.append(x.copy())    # zero iterations
                    depth = x.vars.get('<loop>', 0)
                    x.vars['<loop>'] = depth + 1
                    if self.cfg.binders:
                        x.vars['<over>'] = x.vars.get('<over>', ())[:depth] + (
                            self.snap(el, x),)
                    for c in conds:
                        self.assume(c, True, x)
                    for y in self.bind(s.target, el, x, fr):
                        for o in self.ex(s.body, y, fr):
                            if o.kind in ('fall', 'continue'):
                                o.st.vars['<loop>'] = depth
                                nxt.append(o.st)
                            elif o.kind == 'break':
                                o.st.vars['<loop>'] = depth
                                if self.cfg.breaks:
                                    o.st.facts[('exc', 'broke', s.lineno)] = True
                                broke.append(o.st)
                            else:
                                o.st.vars['<loop>'] = depth
                                done.append(o)
                else:
                    for y in self.bind(s.target, el, x, fr):
                        for o in self.ex(s.body, y, fr):
                            if o.kind in ('fall', 'continue'):
                                nxt.append(o.st)
                            elif o.kind == 'break':
                                broke.append(o.st)
                            else:
                                done.append(o)
            states = self.mergestates(nxt) if len(nxt) > 8 else nxt
            if len(states) > self.cfg.maxouts:
                raise Budget("loop too wide")
            if not states:
                break
        for x in states:
            if s.orelse:
                done += self.ex(s.orelse, x, fr)
            else:
                done.append(Out('fall', NONE, x, s))
        done += [Out('fall', NONE, x, s) for x in broke]
        return done

    def ex_While(self, s, st, fr, unroll=16):
        done = []
        for c, x in self.ev(s.test, st, fr):
            for truth, y in self.branch(c, x):
                if not truth:
                    if s.orelse:
                        done += self.ex(s.orelse, y, fr)
                    else:
                        done.append(Out('fall', NONE, y, s))
                    continue
                if isk(c) and not isinstance(s.test, ast.Constant) and unroll:
                    # the test is decided: run the loop as it is written
                    for o in self.ex(s.body, y, fr):
                        if o.kind in ('fall', 'continue'):
                            done += self.ex_While(s, o.st, fr, unroll - 1)
                        elif o.kind == 'break':
                            done.append(Out('fall', NONE, o.st, s))
                        else:
                            done.append(o)
                    continue
                depth = y.vars.get('<loop>', 0)
                y.vars['<loop>'] = depth + 1
                for o in self.ex(s.body, y, fr):
                    o.st.vars['<loop>'] = depth
                    if o.kind in ('fall', 'continue', 'break'):
                        # loop exit after an iteration: the test's fact is void
                        at = self.canon(c, o.st)[0]
                        o.st.facts.pop(at, None)
                        done.append(Out('fall', NONE, o.st, s))
                    else:
                        done.append(o)
        return done

    def ex_With(self, s, st, fr):
        states = [st]
        suppress = None
        for i in s.items:
            nxt = []
            for x in states:
                for v, y in self.ev(i.context_expr, x, fr):
                    if v[0] == 'call' and v[1] == ('ext', 'contextlib.suppress'):
                        suppress = v[2]
                        nxt.append(y)
                        continue
                    if i.optional_vars is not None:
                        ctx = ('call', ('attr', self.snap(v, y), '__enter__'), (), ())
                        nxt += self.bind(i.optional_vars, ctx, y, fr)
                    else:
                        nxt.append(y)
            states = nxt
        res = []
        for x in states:
            start = x.copy() if suppress is not None else None
            outs = self.ex(s.body, x, fr)
            if suppress is not None:
                kept = []
                for o in outs:
                    if o.kind == 'raise' and self.catches(o.value, suppress) is not False:
                        kept.append(Out('fall', NONE, o.st, s))
                        if self.catches(o.value, suppress) is None:
                            kept.append(o)
                    else:
                        kept.append(o)
                outs = kept
                if self.cfg.implicit_exceptions:
                    start.facts[('exc', 'suppressed', s.lineno)] = True
                    outs.append(Out('fall', NONE, start, s))
            else:
                for o in outs:
                    pass
            res += outs
        return res

    ex_AsyncWith = ex_With

    def ex_Try(self, s, st, fr):
        start = st.copy()
        outs = self.ex(s.body, st, fr)
        res = []
        raised = [o for o in outs if o.kind == 'raise']
        for o in outs:
            if o.kind == 'raise':
                continue
            if o.kind == 'fall' and s.orelse:
                res += self.ex(s.orelse, o.st, fr)
            else:
                res.append(o)
        entries = {id(h): [] for h in s.handlers}
        for o in raised:
            caught = False
            for h in s.handlers:
                types = self.handler_types(h, o.st, fr)
                c = self.catches(o.value, types)
                if c is not False:
                    entries[id(h)].append((o.st.copy() if c is None else o.st, o.value))
                    if c:
                        caught = True
                        break
            if not caught:
                res.append(o)
        for h in s.handlers:
            if self.cfg.implicit_exceptions:
                x = start.copy()
                x.facts[('exc', 'caught', s.lineno, h.lineno)] = True
                types = self.handler_types(h, x, fr)
                entries[id(h)].append((x, ('exc', types)))
            for x, val in entries[id(h)]:
                if h.name:
                    x.vars[(fr.fid, h.name)] = val
                x.vars[(fr.fid, '<exc>')] = val
                res += self.ex(h.body, x, fr)
        if s.finalbody:
            fin = []
            for o in res:
                for f in self.ex(s.finalbody, o.st, fr):
                    if f.kind == 'fall':
                        fin.append(Out(o.kind, o.value, f.st, o.node, o.where))
                    else:
                        fin.append(f)
            res = fin
        return res

    def handler_types(self, h, st, fr):
        if h.type is None:
            return (('ext', 'builtins.BaseException'),)
        v = self.ev(h.type, st, fr)[0][0]
        items = self.items_of(v, st)
        return tuple(items) if items is not None else (v,)

    def exc_class(self, v):
        if v[0] in ('ext', 'class'):
            return v
        if v[0] == 'call' and v[1][0] in ('ext', 'class'):
            return v[1]
        if v[0] == 'new':
            return ('class', v[1])
        return None

    def exc_ancestors(self, c):
        if c[0] == 'ext':
            nm = c[1].split('.')[-1]
            py = getattr(builtins, nm, None)
            if isinstance(py, type) and issubclass(py, BaseException):
                return {('ext', f"builtins.{k.__name__}") for k in py.__mro__}
            return None
        out = set()
        for q in self.p.mro(c[1]):
            out.add(('class', q))
        for e in self.p.extbases(c[1]):
            a = self.exc_ancestors(('ext', e))
            if a is None:
                return None
            out |= a
        return out

    def catches(self, v, types):
        c = self.exc_class(v)
        if c is None:
            return None
        anc = self.exc_ancestors(c)
        if anc is None:
            return None
        norm = set()
        for t in types:
            if t[0] == 'ext' and not t[1].startswith('builtins.'):
                return None
            if t[0] not in ('ext', 'class'):
                return None
            norm.add(t)
        return bool(anc & norm)


# ----------------------------------------------------------------------
# helpers
# ----------------------------------------------------------------------

IDENTITY = ast.parse('lambda x: x').body[0].value


def _load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
    if isinstance(t, ast.Subscript):
        return ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
    return t


def ground(t):
    """True for terms whose identity is settled (constants and references)."""
    if t[0] in ('k', 'func', 'class', 'ext', 'mod', 'fn'):
        return True
    if t[0] == 'tuple':
        return all(ground(x) for x in t[1])
    return False


def setpair(pairs, k, v):
    pairs = list(pairs)
    for i, (q, _) in enumerate(pairs):
        if q == k:
            pairs[i] = (k, v)
            return pairs
    pairs.append((k, v))
    return pairs


def formatted(v, spec):
    """A value formatted with a format specification."""
    vals = spec.values if isinstance(spec, ast.JoinedStr) else [spec]
    if not all(isinstance(x, ast.Constant) for x in vals):
        return ('call', ('ext', 'builtins.format'), (v,), ())
    text = ''.join(str(x.value) for x in vals)
    if v[0] == 'k':
        try:
            return K(format(v[2], text))
        except (TypeError, ValueError):
            pass
    return ('call', ('ext', 'builtins.format'), (v, K(text)), ())


def fmt(parts):
    out = []
    for p in parts:
        if p[0] == 'fmt':
            out += list(p[1])
        else:
            out.append(p)
    merged = []
    for p in out:
        if merged and p[0] == 'k' and merged[-1][0] == 'k':
            merged[-1] = K(str(merged[-1][2]) + str(p[2]))
        elif p[0] == 'k':
            merged.append(K(str(p[2])))
        else:
            merged.append(p)
    merged = [p for p in merged if not (p[0] == 'k' and p[2] == '')]
    if all(p[0] == 'k' for p in merged):
        return K(''.join(p[2] for p in merged))
    return ('fmt', tuple(merged))


def is_generator(node):
    for n in walk_own(node):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def walk_own(node):
    """Nodes of a function body, not those of nested functions."""
    stack = list(node.body) if isinstance(node.body, list) else [node.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def immutable_expr(e):
    if isinstance(e, ast.Constant):
        return True
    if isinstance(e, ast.Tuple):
        return all(immutable_expr(x) for x in e.elts)
    if isinstance(e, ast.UnaryOp):
        return immutable_expr(e.operand)
    if isinstance(e, ast.BinOp):
        return immutable_expr(e.left) and immutable_expr(e.right)
    if isinstance(e, ast.Attribute):
        return immutable_expr(e.value)
    if isinstance(e, ast.Name):
        return True
    if isinstance(e, ast.Call):
        return False
    return False


def foldable(e):
    for n in ast.walk(e):
        if isinstance(n, (ast.Lambda, ast.Yield, ast.Await)):
            return False
        if isinstance(n, ast.Call):
            f = dotted(n.func)
            if f in ('tuple', 'list', 'dict', 'set', 'frozenset', 'zip', 'range',
                     'str', 'int', 'float', 'sorted', 'len'):
                continue
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'items', 'keys', 'values', 'copy', 'lower', 'upper',
                    'replace', 'split', 'strip', 'join', 'format'):
                continue
            return False
    return True


def mutated(tree, name):
    """True if module code stores into a module-level container."""
    for n in ast.walk(tree):
        if isinstance(n, (ast.Subscript, ast.Attribute)) and isinstance(
                n.ctx, (ast.Store, ast.Del)):
            if isinstance(n.value, ast.Name) and n.value.id == name:
                return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                isinstance(n.func.value, ast.Name) and n.func.value.id == name \
                and n.func.attr in ('append', 'extend', 'update', 'pop', 'add',
                                    'setdefault', 'clear', 'insert', 'remove',
                                    'popitem', 'discard', 'sort'):
            return True
        if isinstance(n, ast.Global) and name in n.names:
            return True
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and \
                n.target.id == name:
            return True
    return False


def contains(t, tag):
    if isinstance(t, tuple):
        if t and t[0] == tag:
            return True
        return any(contains(x, tag) for x in t)
    return False


def subterms(t):
    """All sub-terms of a term, itself included."""
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            yield t
        for x in t:
            if isinstance(x, tuple):
                yield from subterms(x)


def show(t, depth=0):
    """Readable rendering of a term."""
    if not isinstance(t, tuple) or not t:
        return str(t)
    tag = t[0]
    if depth > 8:
        return '...'
    s = lambda x: show(x, depth + 1)
    try:
        if tag == 'k':
            return repr(t[2])
        if tag == 'sym':
            return t[1]
        if tag in ('func', 'class', 'glob', 'rawfunc'):
            return t[1].split(':')[-1]
        if tag in ('mod', 'ext'):
            return t[1].replace('builtins.', '')
        if tag == 'cattr':
            return f"{t[1].split(':')[-1]}.{t[2]}"
        if tag == 'attr':
            return f"{s(t[1])}.{t[2]}"
        if tag == 'sub':
            return f"{s(t[1])}[{s(t[2])}]"
        if tag == 'iter':
            return f"each({s(t[1])})"
        if tag == 'isa':
            return f"isinstance({s(t[1])}, {'|'.join(sorted(s(c) for c in t[2]))})"
        if tag == 'op':
            if len(t) == 3:
                return f"{t[1]}({s(t[2])})"
            return f"({s(t[2])} {t[1]} {s(t[3])})"
        if tag == 'call':
            a = [s(x) for x in t[2]] + [f"{k}={s(v)}" for k, v in t[3]]
            return f"{s(t[1])}({', '.join(a)})"
        if tag == 'new':
            a = [s(x) for x in t[2]] + [f"{k}={s(v)}" for k, v in t[3]]
            return f"{t[1].split(':')[-1]}({', '.join(a)})"
        if tag in ('tuple', 'list', 'set'):
            return f"{tag}({', '.join(s(x) for x in t[1])})"
        if tag == 'dict':
            return '{' + ', '.join(f"{s(k)}: {s(v)}" for k, v in t[1]) + '}'
        if tag == 'many':
            return f"{s(t[1])}*"
        if tag == 'star':
            return f"*{s(t[1])}"
        if tag == 'fmt':
            return 'f"' + ''.join(
                x[2] if x[0] == 'k' else '{' + s(x) + '}' for x in t[1]) + '"'
        if tag == 'bound':
            return f"{s(t[1])}.{t[2].split('.')[-1]}"
        if tag == 'slice':
            return ':'.join(s(x) for x in t[1:])
    except Exception:
        pass
    return str(t)[:200]
