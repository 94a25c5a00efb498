"""Split a function at one of its loops into functions of their own.

A loop is judged by what it starts with, by what one pass does to any state that it
may be in, and by what follows it. `split` makes one function of each:

head   the statements before the loop; returns (items of the loop, *state)
step   one pass; its parameters are the loop's targets, the state, and the parameters
       of the function; returns ('next', *state), ('stop', *state) at a break, or
       whatever the loop returns; the test of a while loop decides between a pass and
       ('end', *state)
tail   the statements after the loop; its parameters are the state and the
       parameters of the function

The state are the local variables that a pass or the tail reads and that the head or a
pass sets, in order of first assignment. Only loops at the top level of a function are
split.
"""

import ast
import copy
import itertools

from .model import Func


def assigned(nodes):
    """Names bound in statements, in order, without those of comprehensions."""
    out = []

    def walk(n):
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp,
                          ast.Lambda, ast.FunctionDef)):
            return
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)) and n.value is not None:
            walk(n.value)
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                walk(t)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
            out.append(n.id)
        for c in ast.iter_child_nodes(n):
            walk(c)
    for n in nodes:
        walk(n)
    return out


def read(nodes):
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load):
                out.add(x.id)
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                out.add(x.target.id)
    return out


def carried(body):
    """Names that a pass may read before it sets them."""
    out = set()

    def expr(nodes, sure):
        for n in nodes:
            out.update(read([n]) - sure)
            sure |= {x.target.id for x in ast.walk(n) if isinstance(x, ast.NamedExpr)}

    def block(stmts, sure):
        """Names surely set after statements, or None when they do not finish."""
        for s in stmts:
            if isinstance(s, ast.If):
                expr([s.test], sure)
                ends = [e for e in (block(b, set(sure)) for b in (s.body, s.orelse))
                        if e is not None]
                if not ends:
                    return None
                sure = set.intersection(*ends)
            elif isinstance(s, ast.Assign):
                expr([s.value], sure)
                expr([t for t in s.targets if not isinstance(t, ast.Name)], sure)
                sure |= set(assigned(s.targets))
            elif isinstance(s, (ast.Return, ast.Raise, ast.Break, ast.Continue)):
                expr([s], sure)
                return None
            elif isinstance(s, ast.With):
                expr(s.items, sure)
                done = block(s.body, sure)
                if done is None:
                    return None
                sure = done
            elif isinstance(s, (ast.For, ast.While, ast.Try)):
                inner = set(sure) | set(assigned([s.target]) if isinstance(s, ast.For)
                                        else ())
                expr([s.iter] if isinstance(s, ast.For) else
                     [s.test] if isinstance(s, ast.While) else [], inner)
                done = block(s.body, set(inner))
                for part in getattr(s, 'handlers', []):
                    block(part.body, set(sure))
                for part in (s.orelse, getattr(s, 'finalbody', [])):
                    block(part, set(sure if done is None else done))
            else:
                expr([s], sure)
        return sure
    block(body, set())
    return out


class Exits(ast.NodeTransformer):
    """Turn break and continue of one loop into returns of its state."""

    def __init__(self, result):
        self.result = result

    def visit_Break(self, node):
        return ast.copy_location(self.result('stop'), node)

    def visit_Continue(self, node):
        return ast.copy_location(self.result('next'), node)

    def skip(self, node):
        return node

    visit_For = visit_While = visit_FunctionDef = visit_Lambda = skip


def collects(loop):
    """True if a loop only fills a new collection, as a comprehension does."""
    body = loop.body
    while len(body) == 1 and isinstance(body[0], (ast.If, ast.For)) and not body[0].orelse:
        body = body[0].body
    if isinstance(loop, ast.While) or len(body) != 1:
        return False
    s = body[0]
    if isinstance(s, ast.Assign):
        return len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript)
    return (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)
            and isinstance(s.value.func, ast.Attribute)
            and s.value.func.attr in ('append', 'add', 'extend'))


class Recorder:
    """Takes the obligations of a check, to be reported later."""

    def __init__(self, rep):
        self.rep, self.calls = rep, []

    def ob(self, *a, **k):
        self.calls.append(('ob', a, k))

    def count(self, *a, **k):
        self.calls.append(('count', a, k))

    def failures(self):
        oks = [a[2] for n, a, _ in self.calls if n == 'ob']
        return len(oks) - oks.count(True)

    def replay(self):
        for n, a, k in self.calls:
            getattr(self.rep, n)(*a, **k)


def arranged(P, rep, qual, size, check, index=0):
    """Check the parts of a loop, whatever the order of its variables in the source."""
    best = None
    for order in itertools.permutations(range(size)):
        loop = split(P, qual, index, order)
        if loop is None or len(loop[3]) != size:
            return False
        r = Recorder(rep)
        check(r, loop)
        if best is None or r.failures() < best.failures():
            best = r
        if not best.failures():
            break
    best.replay()
    return True


def itemised(loop):
    """for k in d: v = d[k] ... as for k, v in d.items(): ..."""
    first = loop.body[0]
    if not (isinstance(loop, ast.For) and isinstance(loop.target, ast.Name)
            and isinstance(first, ast.Assign) and len(first.targets) == 1
            and isinstance(first.targets[0], ast.Name) and isinstance(
                first.value, ast.Subscript) and len(loop.body) > 1
            and ast.dump(first.value.value) == ast.dump(loop.iter)
            and isinstance(first.value.slice, ast.Name)
            and first.value.slice.id == loop.target.id):
        return loop
    items = ast.Call(ast.Attribute(copy.deepcopy(loop.iter), 'items', ast.Load()), [], [])
    pair = ast.Tuple([loop.target, first.targets[0]], ast.Store())
    return ast.fix_missing_locations(ast.copy_location(
        ast.For(pair, ast.copy_location(items, loop.iter), loop.body[1:], []), loop))


def split(P, qual, index=0, order=None):
    """(head, step, tail, state names) as names of functions, or None."""
    fn = P.funcs.get(qual)
    if fn is None:
        return None
    body = fn.node.body
    loops = [i for i, s in enumerate(body) if isinstance(s, (ast.For, ast.While))
             and not collects(s)]
    if index >= len(loops) or body[loops[index]].orelse:
        return None
    at = loops[index]
    loop, before, after = itemised(body[at]), body[:at], body[at + 1:]
    a = fn.node.args
    params = [x.arg for x in (*a.posonlyargs, *a.args, *a.kwonlyargs)]
    params += [x.arg for x in (a.vararg, a.kwarg) if x]
    first = params[:1] if fn.cls and not P.isstatic(fn) else []
    targets = assigned([loop.target]) if isinstance(loop, ast.For) else []
    local = assigned(before) + [n for n in assigned(loop.body) if n not in targets]
    test = [loop.test] if isinstance(loop, ast.While) else []
    use = carried(loop.body) | read(test) | carried(after)
    # a local used only after having been set in the same pass is not state
    state = [n for n in dict.fromkeys(local) if n in use and n not in params]
    state += [n for n in params if n in assigned(before) + assigned(loop.body)]
    if order is not None and len(order) == len(state):
        state = [state[i] for i in order]
    rest = [n for n in params if n not in state and n not in first]

    def result(kind, extra=None, names=state):
        elts = [ast.Constant(kind)] if kind else []
        elts += [extra] if extra is not None else []
        elts += [ast.Name(n, ast.Load()) for n in names]
        return ast.Return(ast.Tuple(elts, ast.Load()))

    started = [n for n in state if n in assigned(before) or n in params]

    def make(kind, args, stmts):
        node = copy.deepcopy(fn.node)
        node.decorator_list = [d for d in fn.node.decorator_list
                               if isinstance(d, ast.Name) and d.id in ('staticmethod',
                                                                       'classmethod')]
        node.args = ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in args],
                                  vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None,
                                  defaults=[])
        node.body = stmts or [ast.Pass()]
        node.returns = None
        ast.copy_location(node, loop)
        for x in ast.walk(node):
            for f in ('lineno', 'end_lineno', 'col_offset', 'end_col_offset'):
                if 'lineno' in x._attributes and not hasattr(x, f):
                    setattr(x, f, getattr(loop, f))
        name = f"{fn.qual}<{kind}{index}>"
        P.funcs[name] = Func(fn.module, name, node, fn.cls)
        return name
    items = copy.deepcopy(loop.iter) if isinstance(loop, ast.For) else None
    head = make('head', first + [p for p in params if p not in first],
                copy.deepcopy(before) + [result(None, items, started)])
    inner = [Exits(result).visit(copy.deepcopy(s)) for s in loop.body] + [result('next')]
    if test:
        inner = [ast.If(copy.deepcopy(loop.test), inner, [result('end')])]
    step = make('step', first + targets + state + rest, inner)
    tail = make('tail', first + state + rest, copy.deepcopy(after))
    return head, step, tail, state
