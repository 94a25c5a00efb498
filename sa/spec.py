"""Decision tables: what a function may return, raise or do, and under what conditions.

A table lists, for a function, disjoint and exhaustive cases.  Each case names its
conditions, its result as a pattern over value terms, and the calls it must make.  Every
path that the interpreter finds is compared with all cases that its conditions do not
rule out.

Patterns are written as Python expressions.  ``_`` matches anything, ``_X`` (one capital)
matches anything but the same thing throughout a case, other names are the parameters
given with the table, or the last part of the name of a function, class or module value.
``each(x)`` is an item of x, ``many(x)`` stands for repeated items of a display,
``either(a, b)`` matches any of its arguments, ``star(x)`` an unpacked argument,
``has(x)`` any term with a part that matches x, ``both(a, b)`` what matches all.
"""

import ast

from .absint import Interp, Config, State, Out, K, show, isk, subterms

OPS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv',
       ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow', ast.BitOr: 'or_',
       ast.BitAnd: 'and_', ast.BitXor: 'xor', ast.MatMult: 'matmul',
       ast.LShift: 'lshift', ast.RShift: 'rshift'}
CMP = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt',
       ast.GtE: 'ge', ast.Is: 'is', ast.In: 'in', ast.IsNot: 'isnot',
       ast.NotIn: 'notin'}
UNARY = {ast.USub: 'neg', ast.UAdd: 'pos', ast.Invert: 'invert', ast.Not: 'not'}
SYMMETRIC = {'eq', 'ne', 'is', 'mul'}
FAMILIES = (
    {'add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'neg'},
    {'eq', 'ne', 'lt', 'le', 'gt', 'ge'},
    {'or_', 'and_', 'xor'},
    {'in', 'notin', 'is', 'isnot'},
)
MIRROR = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}


def unordered(t):
    """True of sets and of numbers, whose unions and intersections commute."""
    if t[0] == 'op' and t[1] in ('and_', 'or_', 'xor', 'sub'):
        return unordered(t[2])
    return t[0] in ('set', 'k', 'op') or t[0] == 'call' and last(
        show(t[1])) in ('set', 'frozenset', 'keys')


def last(name):
    return name.replace(':', '.').rpartition('.')[2]


class Pattern:
    """One expression to compare terms with."""

    def __init__(self, text, names=()):
        self.text = text
        self.names = set(names)
        self.node = ast.parse(text.strip(), mode='eval').body

    def __repr__(self):
        return self.text

    def matches(self, t, binds=None):
        return match(self.node, t, {} if binds is None else binds, self.names)

    def vocabulary(self):
        out = set()
        for n in ast.walk(self.node):
            if isinstance(n, ast.Name):
                out.add(n.id)
            elif isinstance(n, ast.Attribute):
                out.add(n.attr)
            elif isinstance(n, ast.BinOp):
                out.add(OPS.get(type(n.op)))
            elif isinstance(n, ast.UnaryOp):
                out.add(UNARY.get(type(n.op)))
            elif isinstance(n, ast.Compare):
                for o in n.ops:
                    out.add(CMP.get(type(o)))
                    out.add(MIRROR.get(CMP.get(type(o))))
        return out


def match(n, t, b, names):
    """Match a pattern node with a term, extending the bindings."""
    if isinstance(n, ast.Name):
        if n.id == '_':
            return True
        if len(n.id) == 2 and n.id[0] == '_' and n.id[1].isupper():
            if n.id in b:
                return b[n.id] == t
            b[n.id] = t
            return True
        if n.id == 'Ellipsis' and isk(t):
            return t[2] is Ellipsis
        if n.id in names:
            return t == ('sym', n.id) or t in (('sym', '*' + n.id), ('sym', '**' + n.id))
        if t[0] in ('func', 'class', 'glob', 'rawfunc', 'ext', 'mod'):
            return last(t[1]) == n.id
        if t[0] in ('cattr',):
            return t[2] == n.id
        if t[0] == 'sym':
            return t[1].lstrip('*') == n.id
        return False
    if isinstance(n, ast.Constant):
        if '<loose>' in b and n.value is not None:
            return isk(t)
        return isk(t) and type(t[2]) is type(n.value) and t[2] == n.value
    if isinstance(n, ast.Attribute):
        if t[0] == 'attr':
            return t[2] == n.attr and match(n.value, t[1], b, names)
        if t[0] == 'cattr':
            return t[2] == n.attr and (isinstance(n.value, ast.Name))
        if t[0] == 'bound':
            return last(t[2]) == n.attr and match(n.value, t[1], b, names)
        if t[0] in ('ext', 'func', 'class', 'glob'):
            return last(t[1]) == n.attr
        return False
    if isinstance(n, ast.Starred):
        if t[0] == 'star':
            return match(n.value, t[1], b, names)
        return t[0] == 'sym' and t[1].startswith('*') and match(n.value, t, b, names)
    if isinstance(n, ast.Call):
        f = n.func.id if isinstance(n.func, ast.Name) else None
        if f == 'each':
            return t[0] == 'iter' and match(n.args[0], t[1], b, names)
        if f == 'many':
            return t[0] in ('many', 'star') and match(n.args[0], t[1], b, names)
        if f == 'star':
            return t[0] == 'star' and match(n.args[0], t[1], b, names)
        if f == 'either':
            for a in n.args:
                c = dict(b)
                if match(a, t, c, names):
                    b.update(c)
                    return True
            return False
        if f == 'set' and not n.args and t == ('set', ()):
            return True
        if f == 'both':
            return all(match(a, t, b, names) for a in n.args)
        if f == 'has':
            return within(n.args[0], t, b, names)
        if f == 'isa':
            want = {getattr(a, 'id', getattr(a, 'attr', None)) for a in n.args[1:]}
            if t[0] != 'isa' or not match(n.args[0], t[1], b, names):
                return False
            if len(n.args) == 2 and not isinstance(n.args[1], (ast.Name, ast.Attribute)):
                return len(t[2]) == 1 and match(n.args[1], next(iter(t[2])), b, names)
            for a in n.args[1:]:
                if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and not any(
                        placed(a.value.id, c) for c in t[2]
                        if isinstance(c[1], str) and last(c[1]) == a.attr):
                    return False
            return want == {'_'} or {last(c[1]) if isinstance(c[1], str) else None
                                     for c in t[2]} == want
        if f == 'position' and t[0] == 'idx' and len(n.args) == 1:
            return match(n.args[0], t[1], b, names)
        if f == 'type' and t[0] == 'typeof' and len(n.args) == 1:
            return match(n.args[0], t[1], b, names)
        if t[0] not in ('call', 'new'):
            return False
        fn = t[1] if t[0] == 'call' else ('class', t[1])
        if not match(n.func, fn, b, names):
            return False
        pos, kw = list(t[2]), dict(t[3])
        want_kw = {k.arg: k.value for k in n.keywords}
        if len(n.args) == 1 and isinstance(n.args[0], ast.Constant) and \
                n.args[0].value is Ellipsis:
            pass
        else:
            stars = [i for i, a in enumerate(n.args)
                     if isinstance(a, ast.Constant) and a.value is Ellipsis]
            args = n.args
            if stars:
                args = n.args[:stars[0]]
                pos = pos[:len(args)]
            if any(repeated(a) for a in args):
                if not align([(a, None) for a in args], [(x, None) for x in pos], b, names):
                    return False
            elif len(args) != len(pos) or not all(
                    match(a, x, b, names) for a, x in zip(args, pos)):
                return False
            if stars:
                kw = {k: v for k, v in kw.items() if k in want_kw}
            if None in want_kw:
                v = want_kw.pop(None)
                x = kw.pop('**', None)
                if x is None or not match(v, x, b, names):
                    return False
            if set(want_kw) != set(kw):
                return False
        return all(k in kw and match(v, kw[k], b, names) for k, v in want_kw.items())
    if isinstance(n, ast.Subscript):
        return t[0] == 'sub' and match(n.value, t[1], b, names) and \
            match(n.slice, t[2], b, names)
    if isinstance(n, ast.Slice):
        if t[0] == 'call' and t[1] == ('ext', 'builtins.slice') and not t[3]:
            t = ('slice', *t[2]) if len(t[2]) > 1 else ('slice', K(None), *t[2])
        if t[0] != 'slice':
            return False
        parts = [x if x is not None else ast.Constant(None)
                 for x in (n.lower, n.upper, n.step)]
        got = list(t[1:]) + [K(None)] * (3 - len(t[1:]))
        if n.lower is None and n.step is None and got[0] == K(0):
            got[0] = K(None)
        return all(match(a, x, b, names) for a, x in zip(parts, got))
    if isinstance(n, ast.UnaryOp):
        op = UNARY[type(n.op)]
        if op == 'neg' and isinstance(n.operand, ast.Constant):
            return isk(t) and t[2] == -n.operand.value
        return t[:2] == ('op', op) and len(t) == 3 and match(n.operand, t[2], b, names)
    if isinstance(n, (ast.BinOp, ast.Compare)):
        if isinstance(n, ast.BinOp):
            op, left, right = OPS[type(n.op)], n.left, n.right
        else:
            op, left, right = CMP[type(n.ops[0])], n.left, n.comparators[0]
        if '<loose>' in b and op in ('eq', 'ne'):
            for x, y in rivals(t, right):
                for u, v in ((x, y), (y, x)):
                    c = dict(b)
                    if u is not None and match(left, u, c, names) and (v is None or match(
                            right, v, c, names)):
                        b.update(c)
                        return True
        if t[0] != 'op' or len(t) != 4:
            return False
        if '<loose>' in b and t[1] == op:
            for x, y, u, v in ((t[2], t[3], left, right), (t[3], t[2], right, left)):
                if extra(y, v) and match(u, x, dict(b), names):
                    return True
        tries = []
        if t[1] == op or '<loose>' in b and any(
                op in f and t[1] in f for f in FAMILIES):
            tries.append((t[2], t[3]))
            if op in SYMMETRIC or '<loose>' in b or op in ('and_', 'or_') and (
                    unordered(t[2]) or unordered(t[3])):
                tries.append((t[3], t[2]))
        elif MIRROR.get(op) == t[1]:
            tries.append((t[3], t[2]))
        for x, y in tries:
            c = dict(b)
            if match(left, x, c, names) and match(right, y, c, names):
                b.update(c)
                return True
        return False
    if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
        tag = type(n).__name__.lower()
        if t[0] != tag:
            return False
        return align([(e, None) for e in n.elts], [(x, None) for x in t[1]], b, names)
    if isinstance(n, ast.Dict):
        if t[0] != 'dict':
            return False
        return align(list(zip(n.keys, n.values)), list(t[1]), b, names)
    if isinstance(n, ast.JoinedStr):
        if t[0] != 'fmt' or len(t[1]) != len(n.values):
            return False
        return all(match(v.value if isinstance(v, ast.FormattedValue) else v, x, b,
                         names) for v, x in zip(n.values, t[1]))
    raise ValueError(f"bad pattern {ast.dump(n)[:80]}")


def placed(module, c):
    """Whether a class may be in a module of this name."""
    if c[0] == 'class':
        return module in c[1].partition(':')[0].split('.')
    return c[0] != 'ext' or module in c[1].split('.') or module in (
        'typing', 'abc', 'collections', 'np')


def extra(t, n):
    """Whether an operand depends on things that the pattern does not mention."""
    told = {('sym', x.id) for x in ast.walk(n) if isinstance(x, ast.Name)} | {
        ('attr', x.attr.lstrip('_')) for x in ast.walk(n) if isinstance(x, ast.Attribute)}
    return bool(set(atoms(t)) - told)


def atoms(t):
    """The parameters and the attributes of self in a term."""
    if isinstance(t, tuple) and t:
        if t[0] == 'sym':
            if t[1] not in ('self', 'cls'):
                yield 'sym', t[1].lstrip('*')
        elif t[0] == 'attr' and t[1] == ('sym', 'self'):
            yield 'attr', t[2].lstrip('_')
        else:
            for x in t:
                yield from atoms(x)


def rivals(t, right):
    """The operands of a condition that is no equality but is about the same things."""
    if t[0] == 'call' and len(t[2]) == 1 and t[1][0] == 'attr' and t[1][2] in (
            'startswith', 'endswith'):
        yield t[1][1], t[2][0]
    if t[:2] == ('op', 'in'):
        yield t[2], t[3]
    if t[:2] == ('op', 'is') and K(None) in t[2:] and isinstance(
            right, ast.Constant) and right.value is not None:
        yield (t[2] if t[3] == K(None) else t[3]), None


def align(wanted, got, b, names):
    """Match the parts of a display in order; repeated parts may be missing."""
    i = 0
    for k, v in wanted:
        c = dict(b)
        if i < len(got):
            x, y = got[i]
            if k is None:
                ok = x[0] in ('star', '**') and match(v, x[1], c, names)
            else:
                ok = match(k, x, c, names) and (v is None or match(v, y, c, names))
            if ok:
                b.update(c)
                i += 1
                continue
        if k is None or not repeated(k):
            return False
        b['<none>'] = True
    return i == len(got)


def repeated(n):
    """Whether a part of a display may be repeated any number of times, or none."""
    return isinstance(n, ast.Call) and getattr(n.func, 'id', None) == 'many'


def within(n, t, b, names):
    c = dict(b)
    if isinstance(t, tuple) and t and isinstance(t[0], str):
        try:
            if match(n, t, c, names):
                b.update(c)
                return True
        except (IndexError, TypeError):
            pass
    return isinstance(t, tuple) and any(
        within(n, x, b, names) for x in t if isinstance(x, tuple))


def known(t, words):
    """Whether a term is made of things the table speaks about."""
    if not isinstance(t, tuple) or not t:
        return True
    tag = t[0]
    if tag == 'k':
        return True
    if tag == 'sym':
        return True
    if tag == 'isa':
        return 'isa' in words and known(t[1], words)
    if tag in ('func', 'class', 'glob', 'rawfunc', 'ext', 'mod'):
        return last(t[1]) in words
    if tag in ('attr', 'cattr'):
        return t[2] in words and (tag == 'cattr' or known(t[1], words))
    if tag == 'bound':
        return last(t[2]) in words and known(t[1], words)
    if tag == 'op':
        return t[1] in words and all(known(x, words) for x in t[2:])
    if tag in ('call', 'new'):
        return known(t[1] if tag == 'call' else ('class', t[1]), words) and all(
            known(x, words) for x in t[2]) and all(known(v, words) for _, v in t[3])
    if tag in ('tuple', 'list', 'set', 'fmt'):
        return all(known(x, words) for x in t[1])
    if tag == 'dict':
        return all(known(x, words) for kv in t[1] for x in kv)
    if tag in ('many', '**', 'typeof', 'idx'):
        return known(t[1], words)
    if tag == 'fn':
        return 'fn' in words
    if tag in ('sub', 'slice', 'iter', 'star'):
        return all(known(x, words) for x in t[1:] if isinstance(x, tuple))
    if tag == 'exc':
        return True
    return False


def facts_of(st):
    """The conditions of a path, without those that follow from others."""
    out = {}
    f = st.facts
    for a, v in f.items():
        if a[0] == 'exc':
            continue
        if a[:2] == ('op', 'is') and v is False and K(None) in a[2:]:
            x = a[2] if a[3] == K(None) else a[3]
            if f.get(x) is True:
                continue
        out[a] = v
    return out


class Case:
    """One row of a table."""

    def __init__(self, result, when=None, does=None, never=None, name=None,
                 stores=None, choice=False, sure=False, some=False):
        self.sure = sure            # applies only if (these of) its conditions are decided
        self.some = some            # repeated parts must be there
        self.kind, _, self.result = result.partition(' ')
        self.when = when or {}
        self.does = does or []
        self.never = never or []
        self.name = name or result
        self.stores = stores or {}
        self.choice = choice        # one of several possible results

    def compile(self, names):
        p = lambda s: Pattern(s, names)
        r = self.result.strip()
        self.pat = p(r) if r else None
        self.conds = [(None if k == 'except' else p(k), v)
                      for k, v in self.when.items()]
        self.acts = [p(s) for s in self.does]
        self.bans = [p(s) for s in self.never]
        self.sets = {k: p(v) if v else None for k, v in self.stores.items()}
        return self

    def words(self):
        out = set()
        for p in [self.pat] * (self.pat is not None) + self.acts + self.bans + list(
                filter(None, self.sets.values())) + [
                c for c, _ in self.conds if c is not None]:
            out |= p.vocabulary()
        return out


def calls(o, items=False):
    """The calls of a path, and the items that it sets, in order."""
    out = []
    for e in o.st.trace or ():
        if e.kind == 'call':
            out.append(e.data)
        elif e.kind == 'setitem' and items:
            out.append(('call', ('ext', 'setitem'), tuple(e.data), ()))
    return out


def performed(case, o, binds):
    """The first required call that a path does not make, in order."""
    done = calls(o, any('setitem' in p.vocabulary() for p in case.acts + case.bans))
    i = 0
    for p in case.acts:
        while i < len(done):
            b = dict(binds)
            i += 1
            if p.matches(done[i - 1], b):
                binds.update(b)
                break
        else:
            return f"does not call {p.text}"
    for p in case.bans:
        for c in done:
            if p.matches(c, dict(binds)):
                return f"calls {show(c)[:80]}"
    return ''


def owner(name, o):
    """The key of an attribute of self, or of the result if so named."""
    who, _, attr = name.rpartition('.')
    return (o.value if who == 'return' else ('sym', 'self')), attr


def kept(case, o, binds, it):
    """The first attribute that a path does not set as required."""
    for n, p in case.sets.items():
        x = o.st.attrs.get(owner(n, o))
        x = it.snap(x, o.st) if x is not None else None
        if p is None:
            who, attr = owner(n, o)
            if x is not None and x != ('attr', who, attr):
                return f"sets {n}"
            continue
        if x is None:
            return f"does not set {n}"
        if not p.matches(x, binds):
            return f"sets {n} to {show(x)[:80]}"
    return ''


def table(P, rep, rule, qual, params, cases, cls=None, inline=None, state=None,
          facts=None, words=(), ignore=(), name=None, models=None, absent=None,
          breaks=True, maybe=(), implicit=True, missing=None, decide=None, literal=None,
          impossible=(), zero=None, stores=None, wrong=(), props=None, defaults=None,
          bad=()):
    """Compare every path of a function with a table of cases."""
    label = name or qual.rpartition(':')[2]
    fn = P.funcs.get(qual)
    if fn is None and '.' in qual.partition(':')[2]:
        q, _, m = qual.rpartition('.')
        f = P.lookup(q, m) if q in P.classes else None
        if f and f[1][0] == 'func':
            fn = f[1][1]
        cls = cls or q
    elif fn is not None and fn.cls:
        cls = cls or str(fn.cls)
    if fn is None:
        rep.ob(rule, label, missing, 'is not defined')
        return
    a = fn.node.args
    own = [x.arg for x in (*a.posonlyargs, *a.args, *a.kwonlyargs)]
    first = 1 if fn.cls and not P.isstatic(fn) else 0
    want = params.split() if isinstance(params, str) else list(params)
    names = {w.lstrip('*') for w in want} | {'self', 'cls'}
    want = [w for w in want if w[:1] != '*']
    given = {}
    kwonly = {x.arg for x in a.kwonlyargs}
    pos = [x for x in own[first:] if x not in kwonly]
    for i, n in enumerate([w for w in want if w not in kwonly]):
        if i < len(pos):
            given[pos[i]] = ('sym', n)
    for n in kwonly:
        given[n] = ('sym', n)
    if first and not P.isclassmethod(fn) and own[0] != 'self':
        given[own[0]] = ('sym', 'self')
    for n, v in (literal or {}).items():
        given[pos[want.index(n)]] = v
    for n, v in (defaults or {}).items():
        d = default(a, pos[want.index(n)] if n not in kwonly else n)
        rep.ob(rule, f"{label}({n}=)", None if d is None else d == (v,),
               'has no constant default' if d is None else f"is {d} by default",
               fn.where)
    for c in cases:
        c.stores = {**(stores or {}), **c.stores}
        c.compile(names)
    gone = P.gone and any(P.gone & c.words() for c in cases)
    never = [[(Pattern(k, names), v) for k, v in d.items()] for d in impossible]
    zero = Pattern(zero, names) if zero else None
    wrong = [Pattern(x, names) for x in wrong]
    bad = [Pattern(x, names) for x in bad]
    vocabulary = set(words)
    for c in cases:
        vocabulary |= c.words()
    for f in FAMILIES:
        if f & vocabulary:
            vocabulary |= f
    if vocabulary & {'eq', 'is', 'in', 'lt', 'le', 'isinstance', 'bool'}:
        vocabulary.add('not')
    skip = [Pattern(x, names) for x in ignore]
    helper = inline or (lambda g: g is not fn and g.module is fn.module
                        and g.name[:1] == '_' and g.name[:2] != '__'
                        and g.name not in vocabulary and not P.isproperty(g))
    if props:
        base = helper
        helper = lambda g: props(g) or base(g)
    it = Interp(P, Config(inline=helper, models=models, props=props,
                          breaks=breaks, implicit=implicit, decide=decide))
    hit = set()
    open_ = False
    outs = list(it.run(fn, selfclass=cls, args=given,
                       state=state.copy() if state else None, facts=facts))
    loops = searches(it, outs)
    for o in outs:
        if contrary(o.st, never):
            continue
        rep.count('paths')
        for a in facts or ():
            o.st.facts.pop(a, None)
        if zero and o.kind == 'return' and not facts_of(o.st) and zero.matches(
                it.snap(o.value, o.st)):
            continue
        ok, why = judge(it, o, cases, vocabulary, skip, hit, wrong, never)
        if ok is not True and id(o) in loops:
            # a loop that looks for a member is all(...) or any(...)
            for x in loops[id(o)]:
                some = set()
                if judge(it, x, cases, vocabulary, skip, some, wrong, never)[0]:
                    hit |= some
                    ok, why = True, ''
                    break
        if ok is None and o.kind == 'return' and any(
                p.matches(it.snap(o.value, o.st)) for p in bad):
            ok = False
        if ok is False and gone:
            ok = None               # a function that the rows name may be part of this one
        if ok is None:
            open_ = True
        rep.ob(rule, label, ok, why, fn.where)
    for i, c in enumerate(cases):
        if i not in hit and i not in maybe and c.name not in maybe:
            rep.ob(rule, f"{label}: {c.name}"[:120], None if open_ else False,
                   'never happens', fn.where)


def default(a, name):
    """The constant default value of a parameter, in a tuple."""
    pos = [*a.posonlyargs, *a.args]
    pairs = list(zip([x.arg for x in pos][::-1], a.defaults[::-1])) + [
        (x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    for n, d in pairs:
        if n == name:
            return (d.value,) if isinstance(d, ast.Constant) else None
    return ()


BOOLEAN = {'eq': 'ne', 'is': 'isnot', 'in': 'notin', 'lt': 'ge', 'le': 'gt',
           'ne': 'eq', 'isnot': 'is', 'notin': 'in', 'ge': 'lt', 'gt': 'le', 'not': None}


def boolean(t):
    """Whether a term is true or false and nothing else."""
    return t[0] == 'isa' or t[0] == 'op' and t[1] in BOOLEAN or (
        t[0] == 'call' and t[1][0] == 'ext' and last(t[1][1]) in (
            'bool', 'issubclass', 'hasattr', 'callable', 'any', 'all'))


def judge(it, o, cases, words, skip, hit, wrong=(), never=()):
    """Judge a path, also as if it returned its last condition or branched on it."""
    first = set()
    ok, why = judge1(it, o, cases, words, skip, first, wrong)
    if ok is True or o.kind != 'return' or o.value is None:
        hit |= first
        return ok, why
    value = it.snap(o.value, o.st)
    if isk(value) and isinstance(value[2], bool):
        for a, v in facts_of(o.st).items():
            if v == value[2] and not boolean(a):
                continue
            forms = [a] if v == value[2] else [('op', 'not', a)]
            if v != value[2] and a[0] == 'op' and BOOLEAN.get(a[1]):
                forms.append(('op', BOOLEAN[a[1]], *a[2:]))
            for t in forms:
                some = set()
                if judge1(it, variant(o, t), cases, words, skip, some, wrong, True)[0]:
                    hit |= some
                    return True, ''
    elif boolean(value):
        atom, pol = it.canon(value, o.st)
        some, told = set(), []
        for v in (True, False):
            if o.st.facts.get(atom, v == pol) == (v == pol):
                x = variant(o, K(v))
                x.st.facts[atom] = v == pol
                if contrary(x.st, never):
                    continue
                told.append(judge1(it, x, cases, words, skip, some, wrong, True))
        if told and all(x is True for x, _ in told):
            hit |= some
            return True, ''
    hit |= first
    return ok, why


def contrary(st, never):
    """Whether the conditions of a path exclude each other."""
    return any(all(any(v == x and p.matches(a) for a, x in st.facts.items())
                   for p, v in d) for d in never)


def searches(it, outs):
    """Paths of loops that return early, as if they returned all(...) or any(...)."""
    found = {}
    flags = [(o, o.value[2], facts_of(o.st)) for o in outs
             if o.kind == 'return' and o.value is not None and isk(o.value)
             and isinstance(o.value[2], bool) and o.node is not None]
    for o, e, fs in flags:
        for a, v in fs.items():
            if not boolean(a) or not any(x[0] == 'iter' for x in subterms(a)):
                continue
            rest = {k: x for k, x in fs.items() if k != a}
            other = [x for x, y, f in flags if y is not e and f == {**rest, a: not v}
                     and x.node is not o.node]
            none = [x for x, y, f in flags if y is not e and f == rest
                    and any(x.node is z.node for z in other)]
            other = [x for x in other if none and x.node is none[0].node]
            if not none:
                continue
            no = [('op', 'not', a)]
            if a[0] == 'op' and BOOLEAN.get(a[1]):
                no.append(('op', BOOLEAN[a[1]], *a[2:]))
            yes, no = ([a], no) if v else (no, [a])
            forms = []
            for name, items, flip in (('any', yes, not e), ('all', no, e)):
                for x in items:
                    t = ('call', ('ext', 'builtins.' + name),
                         (('list', (('many', x, ()),)),), ())
                    forms.append(('op', 'not', t) if flip else t)
            for x in (o, none[0], other[0]):
                for t in forms:
                    y = variant(none[0], t)
                    found.setdefault(id(x), []).append(y)
    return found


def variant(o, value):
    return Out(o.kind, value, o.st.copy(), o.node, o.where)


def judge1(it, o, cases, words, skip, hit, wrong=(), strict=False):
    value = it.snap(o.value, o.st) if o.value is not None else K(None)
    if any(a[:2] == ('exc', 'broke') for a in o.st.facts) and not any(
            'broke' in c.when for c in cases):
        return (False if cases and all(known(a, words) for a in facts_of(o.st))
                else None), 'leaves a loop before its end'
    caught = any(a[0] == 'exc' and a[1] in ('caught', 'suppressed') and v
                 for a, v in o.st.facts.items())
    fs = {a: v for a, v in facts_of(o.st).items()
          if not any(p.matches(a) for p in skip)}
    memberships(fs, cases)
    applicable, recognised, derived = [], set(), set()
    for i, c in enumerate(cases):
        state, binds = True, {}
        unknown = False
        for p, v in c.conds:
            if p is None:
                if caught != v:
                    state = False
                continue
            found = None
            for a, x in fs.items():
                b = dict(binds)
                if p.matches(a, b):
                    recognised.add(a)
                    found = x
                    binds.update(b)
                    break
            if found is None:
                found = instance(p, fs, derived)
            if found is None:
                unknown = True
                if c.sure and c.sure is not True and p.text in c.sure:
                    state = False
            elif found != v:
                state = False
        if state and not (unknown and (c.sure is True or strict and c.choice)):
            applicable.append((i, c, binds, unknown))
    text = f"{o.kind}s {show(value)[:100]}"
    shapes = [p for c in cases for p, _ in c.conds if p is not None]
    foreign = [a for a in fs if a not in recognised and not any(
        p.matches(a, {'<loose>': True}) for p in shapes)]
    if any(p.matches(a) for a in fs if a not in recognised and a not in derived
           for p in wrong):
        # conditions that must not decide this
        foreign = [a for a in foreign if not any(p.matches(a) for p in wrong)]
        if not foreign and len(applicable) > 1:
            conds = ', '.join(f"{show(a)[:60]}={v}" for a, v in fs.items())
            return False, f"{text} when {conds}"
    good, full, bad = [], [], ''
    for i, c, binds, unknown in applicable:
        b = dict(binds)
        if c.kind != o.kind or c.pat is not None and not result(c, value, b):
            bad = bad or text
            continue
        act = performed(c, o, b) or kept(c, o, b, it) or (
            'has no items' if c.some and '<none>' in b else '')
        if act:
            bad = bad or act
            continue
        good.append(i)
        if '<none>' not in b:
            full.append(i)
    if good and all(i in good or c.choice for i, c, _, _ in applicable):
        hit.update(full)
        return True, ''
    hit.update(full)
    if not applicable:
        return None, f"conditions not understood: {text}"
    conds = ', '.join(f"{show(a)[:60]}={v}" for a, v in fs.items())
    detail = f"{bad} when {conds}" if conds else bad
    told = value
    if o.kind == 'raise' and value[0] in ('call', 'new'):
        told = value[1] if value[0] == 'call' else ('class', value[1])
    clear = known(told, words | {last(told[1])} if told is not value and told[0] in (
        'class', 'glob', 'ext', 'func') else words)
    if clear and any(c.acts or c.bans for c in cases):
        spoken = words | {'print', 'str', 'repr', 'not', 'items', 'keys', 'values',
                          'startswith', 'endswith'}
        clear = all(known(c, spoken) for c in calls(o) if o.kind != 'raise'
                    or c != value)
    if clear and any(c.sets for c in cases):
        clear = all(known(it.snap(v, o.st), words) for (x, n), v in o.st.attrs.items()
                    if any((x, n) == owner(k, o) for c in cases for k in c.sets))
    if not clear:
        return None, detail
    if foreign:
        for c in cases:
            b = {}
            if c.kind == o.kind and result(c, value, b) and not (
                    performed(c, o, b) or kept(c, o, b, it)):
                return None, detail
    return False, detail


def memberships(fs, cases):
    """Express comparisons with each of some constants as memberships."""
    for c in cases:
        for p, _ in c.conds:
            n = p and p.node
            if not (isinstance(n, ast.Compare) and isinstance(n.ops[0], ast.In) and isinstance(
                    n.comparators[0], (ast.Tuple, ast.List, ast.Set)) and all(
                    isinstance(e, ast.Constant) for e in n.comparators[0].elts)):
                continue
            want = [K(e.value) for e in n.comparators[0].elts]
            if any(p.matches(a, {}) for a in fs):
                continue
            seen = {}
            for a, v in fs.items():
                if a[:2] in (('op', 'eq'), ('op', 'is')):
                    for k, x in ((a[2], a[3]), (a[3], a[2])):
                        if k in want:
                            seen.setdefault(x, {})[k] = (a, v)
            for x, ks in seen.items():
                v = True if any(v for _, v in ks.values()) else (
                    False if len(ks) == len(want) else None)
                t = [t for kind in ('set', 'tuple', 'list')
                     for t in [('op', 'in', x, (kind, tuple(want)))] if p.matches(t, {})]
                if v is not None and t:
                    for a, _ in ks.values():
                        fs.pop(a, None)
                    fs[t[0]] = v
                    break


def instance(p, fs, used_):
    """What tests for some of several types say about the test for all of them."""
    nodes = [p.node]
    while nodes:
        n = nodes.pop()
        if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name)):
            continue
        if n.func.id == 'either':
            nodes += n.args
            continue
        if n.func.id != 'isa' or len(n.args) < 3:
            continue
        want = {}
        for a in n.args[1:]:
            want[getattr(a, 'id', getattr(a, 'attr', None))] = (
                a.value.id if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name)
                else None)
        neg, used, out = set(), [], None
        for a, v in fs.items():
            if a[0] != 'isa' or not match(n.args[0], a[1], {}, p.names):
                continue
            ids = {last(c[1]): c for c in a[2] if isinstance(c[1], str)}
            if len(ids) != len(a[2]) or not set(ids) <= set(want) or any(
                    want[i] and not placed(want[i], c) for i, c in ids.items()):
                continue
            used.append(a)
            if v:
                out = True
            else:
                neg |= set(ids)
        if out is None and neg == set(want):
            out = False
        if out is not None:
            used_.update(used)
            return out
    return None


def result(c, value, b):
    if c.pat is None:
        return True
    if c.kind == 'raise':
        # only the type of an exception matters
        t = value
        if t[0] == 'call' or t[0] == 'new':
            t = t[1] if t[0] == 'call' else ('class', t[1])
            if c.pat.matches(t, b):
                return True
    return c.pat.matches(value, b)
