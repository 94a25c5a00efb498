"""More behaviour-preserving rewrites (loops, helpers, order); used by refactor.py."""

import ast
import copy

L, S = ast.Load(), ast.Store()


def name(x, store=False):
    return ast.Name(x, ast.Store() if store else ast.Load())


def isgen(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(fn))


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant)) or isinstance(
        e, ast.Attribute) and simple(e.value)


def stored(nodes):
    return {x.id for s in nodes for x in ast.walk(s)
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


class Blocks(ast.NodeTransformer):
    """Applies self.block to every list of statements in functions."""
    inside = 0

    def visit_FunctionDef(self, n):
        self.inside += 1
        self.fn = n
        self.generic_visit(n)
        self.inside -= 1
        self.fn = n
        n.body = self.block(n.body)
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if self.inside:
            n.body = self.block(n.body)
            if n.orelse:
                n.orelse = self.block(n.orelse)
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if self.inside:
            n.body = self.block(n.body)
        return n

    visit_While = visit_For

    def block(self, body):
        return body


class WhileIter(Blocks):
    """for x in seq: B -> i = 0; while i < len(seq): x = seq[i]; i += 1; B
    (only where the iterable is a comprehension or display or list(...)/sorted(...))"""
    n = 0

    def block(self, body):
        out = []
        for s in body:
            ok = isinstance(s, ast.For) and not s.orelse and (
                isinstance(s.iter, (ast.ListComp, ast.List, ast.Tuple)) or isinstance(
                    s.iter, ast.Call) and isinstance(s.iter.func, ast.Name)
                and s.iter.func.id in ('list', 'tuple', 'sorted'))
            if not ok:
                out.append(s)
                continue
            self.n += 1
            i, q = f"pos_{self.n}", f"seq_{self.n}"
            out += [ast.Assign([name(q, 1)], s.iter), ast.Assign([name(i, 1)], ast.Constant(0)),
                    ast.While(ast.Compare(name(i), [ast.Lt()], [
                        ast.Call(name('len'), [name(q)], [])]),
                        [ast.Assign([s.target], ast.Subscript(name(q), name(i), L)),
                         ast.AugAssign(name(i, 1), ast.Add(), ast.Constant(1)), *s.body], [])]
        return out


class ItemsKey(ast.NodeTransformer):
    """for k, v in d.items(): B -> for k in d: v = d[k]; B   (d a plain name)"""

    def visit_For(self, n):
        self.generic_visit(n)
        c = n.iter
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == \
                'items' and isinstance(c.func.value, ast.Name) and isinstance(
                n.target, ast.Tuple) and len(n.target.elts) == 2 and isinstance(
                n.target.elts[0], ast.Name) and c.func.value.id not in ('self', 'kwargs'):
            d = c.func.value
            k, v = n.target.elts
            if d.id in stored(n.body):
                return n
            n.iter = d
            n.target = k
            n.body = [ast.Assign([v], ast.Subscript(d, name(k.id), L)), *n.body]
        return n


class TryMove(ast.NodeTransformer):
    """try: return e / except: A -> try: x = e / except: A / else: return x"""

    def visit_Try(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and isinstance(n.body[0], ast.Return) and not n.orelse and \
                n.body[0].value is not None and not n.finalbody:
            e = n.body[0].value
            n.body = [ast.Assign([name('attempt_', 1)], e)]
            n.orelse = [ast.Return(name('attempt_'))]
        return n


class TryTail(Blocks):
    """try: x = e / except: return|raise; rest -> try: x = e / except ... / else: rest"""

    def block(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.Try) and not s.orelse and not s.finalbody and \
                    i + 1 < len(body) and all(isinstance(
                        h.body[-1], (ast.Return, ast.Raise)) for h in s.handlers) \
                    and not isinstance(s.body[-1], (ast.Return, ast.Raise)):
                s.orelse = self.block(body[i + 1:])
                return body[:i + 1]
        return body


class InOr(ast.NodeTransformer):
    """x in (a, b) -> x == a or x == b"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and isinstance(
                n.comparators[0], (ast.Tuple, ast.List, ast.Set)) and simple(n.left) and \
                n.comparators[0].elts and all(
                    isinstance(e, ast.Constant) for e in n.comparators[0].elts):
            no = isinstance(n.ops[0], ast.NotIn)
            xs = [ast.Compare(copy.deepcopy(n.left), [ast.NotEq() if no else ast.Eq()], [e])
                  for e in n.comparators[0].elts]
            return xs[0] if len(xs) == 1 else ast.BoolOp(ast.And() if no else ast.Or(), xs)
        return n


class GenList(ast.NodeTransformer):
    """tuple(e for ...) -> tuple([e for ...])"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in (
                'tuple', 'set', 'sorted', 'sum', 'list', 'dict', 'max', 'min') and n.args \
                and isinstance(n.args[0], ast.GeneratorExp):
            n.args[0] = ast.ListComp(n.args[0].elt, n.args[0].generators)
        return n


class CompList(ast.NodeTransformer):
    """[e for ...] -> list(e for ...); {k: v for ...} -> dict((k, v) for ...)"""

    def visit_ListComp(self, n):
        self.generic_visit(n)
        return ast.Call(name('list'), [ast.GeneratorExp(n.elt, n.generators)], [])

    def visit_DictComp(self, n):
        self.generic_visit(n)
        return ast.Call(name('dict'), [ast.GeneratorExp(
            ast.Tuple([n.key, n.value], L), n.generators)], [])


class Hoist(Blocks):
    """A comprehension in any statement becomes a loop before it (one per statement).
    Only where nothing before it in the statement has effects: it is the first call."""
    n = 0

    def block(self, body):
        out = []
        for s in body:
            target = None
            if isinstance(s, (ast.Return, ast.Assign)) and s.value is not None:
                target = self.find(s.value)
            if target is None:
                out.append(s)
                continue
            node, field, index = target
            c = getattr(node, field)
            c = c[index] if index is not None else c
            self.n += 1
            x = f"gathered_{self.n}"
            g = c.generators[0]
            leaf = [ast.Expr(ast.Call(ast.Attribute(name(x), 'append', L), [c.elt], []))]
            for t in reversed(g.ifs):
                leaf = [ast.If(t, leaf, [])]
            out += [ast.Assign([name(x, 1)], ast.List([], L)),
                    ast.For(g.target, g.iter, leaf, [])]
            if index is None:
                setattr(node, field, name(x))
            else:
                getattr(node, field)[index] = name(x)
            out.append(s)
        return out

    def find(self, v):
        # f(comp, ...) with f a name: tuple/list/set/sorted/sum/dict or any plain name
        if isinstance(v, ast.Call) and isinstance(v.func, (ast.Name, ast.Attribute)) and \
                simple(v.func) and v.args:
            for i, a in enumerate(v.args):
                if isinstance(a, ast.ListComp) or isinstance(a, ast.GeneratorExp) and \
                        isinstance(v.func, ast.Name) and v.func.id in (
                            'tuple', 'list', 'set', 'sorted', 'sum', 'dict'):
                    if len(a.generators) == 1 and not any(
                            isinstance(y, (ast.NamedExpr, ast.Lambda)) for y in ast.walk(a)) \
                            and not self.clash(a):
                        return v, 'args', i
                if not simple(a):
                    return None
        return None

    def clash(self, c):
        """Names of the comprehension that the function also uses."""
        mine = {x.id for g in c.generators for x in ast.walk(g.target)
                if isinstance(x, ast.Name)}
        if isinstance(c.elt, ast.Name) and c.elt.id not in mine:
            pass
        inner = {id(x) for x in ast.walk(c)}
        a = self.fn.args
        params = {x.arg for x in ast.walk(a) if isinstance(x, ast.arg)}
        return bool(mine & params) or any(
            isinstance(x, ast.Name) and x.id in mine and id(x) not in inner
            for s in self.fn.body for x in ast.walk(s))


class Extract(ast.NodeTransformer):
    """Base of transforms that move code of a function into a new module function."""

    def __init__(self):
        self.new = []
        self.n = 0

    def visit_Module(self, m):
        out = []
        for s in m.body:
            before = len(self.new)
            s = self.visit(s)
            out += self.new[before:] + [s]
        m.body = out
        return m

    def visit_ClassDef(self, n):
        n.body = [self.visit(s) for s in n.body]
        return n

    def visit_FunctionDef(self, n):
        if isgen(n) or any(isinstance(x, (ast.Import, ast.ImportFrom, ast.FunctionDef,
                                          ast.Lambda, ast.Global, ast.Nonlocal))
                           for s in n.body for x in ast.walk(s)):
            return n
        if any(ast.unparse(d).endswith('overload') for d in n.decorator_list):
            return n
        self.local = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)} | stored(
            n.body) | {x.name for s in n.body for x in ast.walk(s)
                       if isinstance(x, ast.ExceptHandler) and x.name}
        self.fname = n.name.strip('_')
        self.work(n)
        return n

    def movable(self, nodes):
        for s in nodes:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id in ('super', '__class__'):
                    return False
                if isinstance(x, (ast.NamedExpr, ast.Await, ast.Delete)):
                    return False
                if isinstance(x, ast.Raise) and x.exc is None:
                    return False
                if isinstance(x, ast.Attribute) and x.attr.startswith('__') and not \
                        x.attr.endswith('__'):
                    return False
        return True

    def used(self, nodes):
        out = []
        for s in nodes:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id in self.local and x.id not in out:
                    out.append(x.id)
        return out

    def make(self, stem, args, body):
        f = f"_{stem}_{self.fname}_{self.n}"
        self.n += 1
        self.new.append(ast.FunctionDef(
            f, ast.arguments([], [ast.arg(u) for u in args], None, [], [], None, []),
            body, [], None, None, type_params=[]))
        return ast.Call(name(f), [name(u) for u in args], [])


class Predicate(Extract):
    """Every compound condition of an if becomes a function."""

    def work(self, n):
        for x in ast.walk(n):
            if isinstance(x, ast.If) and not simple(x.test) and self.movable([x.test]) \
                    and not stored([x.test]):
                x.test = self.make('is', self.used([x.test]), [ast.Return(x.test)])


class BranchHelper(Extract):
    """The body of an if that ends the function becomes a function."""

    def work(self, n):
        for x in ast.walk(n):
            if not isinstance(x, ast.If):
                continue
            for part in (x.body, x.orelse):
                if len(part) < 1 or not isinstance(part[-1], ast.Return) or \
                        part[-1].value is None or not self.movable(part):
                    continue
                if len(part) == 1 and simple(part[0].value):
                    continue
                if any(isinstance(y, (ast.Break, ast.Continue)) for s in part
                       for y in ast.walk(s)):
                    continue
                mine = stored(part)
                args = [u for u in self.used(part) if u not in mine]
                # names assigned before and here
                if any(u in mine and not self.first(part, u) for u in self.used(part)):
                    continue
                part[:] = [ast.Return(self.make('when', args, list(part)))]

    def first(self, part, u):
        for s in part:
            if isinstance(s, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == u for t in s.targets):
                return not any(isinstance(y, ast.Name) and y.id == u
                               for y in ast.walk(s.value))
            if any(isinstance(y, ast.Name) and y.id == u for y in ast.walk(s)):
                return False
        return False


class LoopHelper(Extract):
    """x = []; for ...: x.append(e)  ->  x = helper(...)"""

    def work(self, n):
        self.go(n.body)

    def go(self, body):
        for i in range(len(body) - 1, 0, -1):
            a, f = body[i - 1], body[i]
            if not (isinstance(f, ast.For) and isinstance(a, ast.Assign) and len(a.targets)
                    == 1 and isinstance(a.targets[0], ast.Name) and isinstance(
                    a.value, (ast.List, ast.Dict, ast.Constant)) and self.movable([f])):
                continue
            x = a.targets[0].id
            if any(isinstance(y, (ast.Return,)) for y in ast.walk(f)):
                continue
            inside = stored([f])
            later = {y.id for s in body[i + 1:] for y in ast.walk(s)
                     if isinstance(y, ast.Name)}
            if (inside - {x}) & later:
                continue
            used = self.used([f])
            if any(u in inside and u != x and not self.own(f, u) for u in used):
                continue
            args = [u for u in used if u not in inside and u != x]
            call = self.make('loop', args, [a, f, ast.Return(name(x))])
            body[i - 1:i + 1] = [ast.Assign([name(x, 1)], call)]
            return

    def own(self, f, u):
        """Whether the loop sets a name before it uses it."""
        if any(isinstance(y, ast.Name) and y.id == u for y in ast.walk(f.target)):
            return not any(isinstance(y, ast.Name) and y.id == u for y in ast.walk(f.iter))
        for s in f.body:
            if isinstance(s, ast.Assign) and any(
                    isinstance(t, ast.Name) and t.id == u for t in s.targets):
                return not any(isinstance(y, ast.Name) and y.id == u
                               for y in ast.walk(s.value))
            if any(isinstance(y, ast.Name) and y.id == u for y in ast.walk(s)):
                return False
        return False


class Args(Extract):
    """The first compound argument of the last return's call becomes a function."""

    def work(self, n):
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Return) and isinstance(x.value, ast.Call) and \
                        simple(x.value.func) and x.value.args:
                    a = x.value.args[0]
                    if simple(a) or isinstance(a, ast.Starred) or any(
                            isinstance(y, (ast.ListComp, ast.GeneratorExp, ast.DictComp,
                                           ast.SetComp)) for y in ast.walk(a)):
                        continue
                    if self.movable([a]):
                        x.value.args[0] = self.make('arg', self.used([a]), [ast.Return(a)])


class NestIf(Blocks):
    """if c: return x; if d: return y; return z -> x if c else (y if d else z)
    written as if/else with one result variable"""

    def block(self, body):
        if len(body) < 2 or not isinstance(body[-1], ast.Return) or body[-1].value is None:
            return body
        i = len(body) - 1
        while i and isinstance(body[i - 1], ast.If) and not body[i - 1].orelse and len(
                body[i - 1].body) == 1 and isinstance(body[i - 1].body[0], ast.Return) \
                and body[i - 1].body[0].value is not None and not any(isinstance(
                    y, ast.NamedExpr) for y in ast.walk(body[i - 1].test)):
            i -= 1
        if i == len(body) - 1:
            return body
        node = [ast.Assign([name('found_', 1)], body[-1].value)]
        for s in reversed(body[i:-1]):
            node = [ast.If(s.test, [ast.Assign([name('found_', 1)], s.body[0].value)], node)]
        return body[:i] + node + [ast.Return(name('found_'))]


class Enum(ast.NodeTransformer):
    """for i, x in enumerate(y): B -> i = -1; for x in y: i += 1; B is not the same if y is
    empty and i is used after; so: for i, x in zip(range(len(y)), y) with y a name"""

    def visit_For(self, n):
        self.generic_visit(n)
        c = n.iter
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == \
                'enumerate' and len(c.args) == 1 and isinstance(c.args[0], ast.Name):
            y = c.args[0].id
            n.iter = ast.Call(name('zip'), [ast.Call(name('range'), [ast.Call(
                name('len'), [name(y)], [])], []), name(y)], [])
        return n


class Unpack(Blocks):
    """a, b = e -> pair_ = e; a = pair_[0]; b = pair_[1]  (e a call on names)"""
    n = 0

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
                    s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(
                    s.value.elts) == len(s.targets[0].elts) and all(
                    isinstance(t, ast.Name) for t in s.targets[0].elts) and not (
                    {t.id for t in s.targets[0].elts} & {
                        y.id for y in ast.walk(s.value) if isinstance(y, ast.Name)}):
                out += [ast.Assign([t], v) for t, v in zip(s.targets[0].elts, s.value.elts)]
            else:
                out.append(s)
        return out


class KwPos(ast.NodeTransformer):
    """A docstring-free rewrite: f(x, key=v) keeps; 'a if c else b' args to variables is
    TempArgs; here: not (a == b) -> a != b and back"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1:
            o = n.ops[0]
            if isinstance(o, ast.IsNot):
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Is()], n.comparators))
            if isinstance(o, ast.NotIn):
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In()], n.comparators))
            if isinstance(o, ast.Lt):
                return ast.Compare(n.comparators[0], [ast.Gt()], [n.left]) if simple(
                    n.left) and simple(n.comparators[0]) else n
        return n


class SwapAnd(ast.NodeTransformer):
    """isinstance(x, A) and y -> same order; a is None or b is None with simple names swap"""

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        ok = all(isinstance(v, ast.Compare) and simple(v.left) and all(
            simple(c) for c in v.comparators) and all(isinstance(
                o, (ast.Is, ast.IsNot)) for o in v.ops) for v in n.values)
        if ok:
            n.values = n.values[::-1]
        return n


class LambdaDef(Blocks):
    """return f(lambda ...: e) -> def local_(...): return e; return f(local_)"""
    n = 0

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Lambda) and isinstance(
                    s.targets[0], ast.Name):
                out.append(ast.FunctionDef(s.targets[0].id, s.value.args, [
                    ast.Return(s.value.body)], [], None, None, type_params=[]))
            else:
                out.append(s)
        return out


ALL = (WhileIter, ItemsKey, TryMove, TryTail, InOr, GenList, CompList, Hoist, Predicate,
       BranchHelper, LoopHelper, Args, NestIf, Enum, Unpack, KwPos, SwapAnd, LambdaDef)


class Private(ast.NodeTransformer):
    """Rename the first private function of every scope (everywhere in the package)."""
    table = None

    def __init__(self):
        if Private.table is None:
            import refactor
            all_, first = {}, []
            for p, rel in refactor.files():
                with open(p) as fp:
                    tree = ast.parse(fp.read())
                stack = [tree]
                while stack:
                    n = stack.pop()
                    fs = [s.name for s in n.body if isinstance(s, ast.FunctionDef)]
                    stack += [s for s in n.body if isinstance(s, ast.ClassDef)]
                    for f in fs:
                        all_[f] = all_.get(f, 0) + 1
                    mine = [f for f in fs if f[0] == '_' and f[:2] != '__']
                    if mine and len(set(fs)) == len(fs):
                        first.append(mine[0])
            Private.table = {f: f + '_impl' for f in first if all_[f] == 1}

    def generic_visit(self, n):
        for f in ('id', 'attr', 'name', 'arg'):
            if isinstance(getattr(n, f, None), str) and not isinstance(
                    n, ast.arg) and getattr(n, f) in self.table:
                setattr(n, f, self.table[getattr(n, f)])
        return super().generic_visit(n)


ALL += (Private,)


class MethodHelper(ast.NodeTransformer):
    """The last return's expression becomes a new method of the class."""

    def visit_ClassDef(self, n):
        out, k = [], 0
        for s in n.body:
            if isinstance(s, ast.FunctionDef) and s.args.args and s.args.args[0].arg == \
                    'self' and not isgen(s) and isinstance(s.body[-1], ast.Return) and \
                    s.body[-1].value is not None and not simple(s.body[-1].value) and not any(
                        ast.unparse(d).endswith('overload') for d in s.decorator_list):
                e = Extract()
                v = s.body[-1].value
                bad = (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
                inner = any(isinstance(x, (ast.FunctionDef, ast.Import, ast.ImportFrom))
                            for b in s.body for x in ast.walk(b))
                if e.movable([v]) and not inner and not any(
                        isinstance(x, bad) for x in ast.walk(v)):
                    e.local = {a.arg for a in ast.walk(s.args) if isinstance(
                        a, ast.arg)} | stored(s.body)
                    e.local |= {x.name for b in s.body for x in ast.walk(b)
                                if isinstance(x, ast.ExceptHandler) and x.name}
                    args = [u for u in e.used([v]) if u != 'self']
                    f = f"_tail_of_{s.name.strip('_')}_{k}_{n.name.strip('_')}"
                    k += 1
                    s.body[-1].value = ast.Call(ast.Attribute(name('self'), f, L), [
                        name(u) for u in args], [])
                    out.append(ast.FunctionDef(f, ast.arguments([], [ast.arg('self')] + [
                        ast.arg(u) for u in args], None, [], [], None, []),
                        [ast.Return(v)], [], None, None, type_params=[]))
            elif isinstance(s, ast.ClassDef):
                s = self.visit_ClassDef(s)
            out.append(s)
        n.body = out
        return n


class LoopBody(Extract):
    """The body of a for loop that only calls (or appends) becomes a function."""

    def work(self, n):
        for x in ast.walk(n):
            if not (isinstance(x, ast.For) and self.movable(x.body)):
                continue
            if any(isinstance(y, (ast.Return, ast.Break, ast.Continue)) for s in x.body
                   for y in ast.walk(s)):
                continue
            inside = stored(x.body)
            if inside:
                continue
            x.body = [ast.Expr(self.make('each', self.used(x.body), list(x.body)))]


class MergeIf(ast.NodeTransformer):
    """if a: if b: B -> if a and b: B"""

    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and len(n.body) == 1 and isinstance(n.body[0], ast.If) and not \
                n.body[0].orelse:
            n.test = ast.BoolOp(ast.And(), [n.test, n.body[0].test])
            n.body = n.body[0].body
        return n


class Continue(ast.NodeTransformer):
    """for ...: if c: B -> for ...: if not c: continue; B"""

    def visit_For(self, n):
        self.generic_visit(n)
        last = n.body[-1]
        if isinstance(last, ast.If) and not last.orelse and not any(
                isinstance(y, ast.NamedExpr) for y in ast.walk(last.test)):
            n.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), last.test), [ast.Continue()], []),
                           *last.body]
        return n


class TernaryFlip(ast.NodeTransformer):
    """a if c else b -> b if not c else a"""

    def visit_IfExp(self, n):
        self.generic_visit(n)
        if any(isinstance(y, ast.NamedExpr) for y in ast.walk(n)):
            return n
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class ReturnTernary(Blocks):
    """if c: return a; return b -> return a if c else b"""

    def block(self, body):
        while len(body) >= 2 and isinstance(body[-1], ast.Return) and isinstance(
                body[-2], ast.If) and not body[-2].orelse and len(body[-2].body) == 1 and \
                isinstance(body[-2].body[0], ast.Return) and body[-1].value is not None and \
                body[-2].body[0].value is not None:
            body = body[:-2] + [ast.Return(ast.IfExp(
                body[-2].test, body[-2].body[0].value, body[-1].value))]
        return body


class SelfLocal(ast.NodeTransformer):
    """Read self._x once into a local name where a function reads it more than once."""

    def visit_FunctionDef(self, n):
        if isgen(n) or not n.args.args or n.args.args[0].arg != 'self' or any(
                isinstance(x, (ast.FunctionDef, ast.Lambda)) for s in n.body
                for x in ast.walk(s)):
            return n
        count = {}
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and \
                        x.value.id == 'self' and x.attr[0] == '_' and x.attr[:2] != '__':
                    count.setdefault(x.attr, []).append(x)
        called = {x.func.attr for s in n.body for x in ast.walk(s) if isinstance(
            x, ast.Call) and isinstance(x.func, ast.Attribute)}
        for a, xs in count.items():
            if len(xs) < 2 or a in called or any(isinstance(x.ctx, ast.Store) for x in xs):
                continue
            first = n.body[0]
            at = 1 if isinstance(first, ast.Expr) and isinstance(
                first.value, ast.Constant) else 0
            if at >= len(n.body) or not any(x in list(ast.walk(n.body[at])) for x in xs) or \
                    isinstance(n.body[at], ast.Try):
                continue
            if isinstance(n.body[at], ast.If) and not any(
                    x in list(ast.walk(n.body[at].test)) for x in xs):
                continue
            new = f"own{a}"
            for x in xs:
                x.__class__ = ast.Name
                x._fields = ast.Name._fields
                x.id, x.ctx = new, ast.Load()
            n.body.insert(at, ast.Assign([name(new, 1)], ast.Attribute(
                name('self'), a, L)))
        return n


class MapLambda(ast.NodeTransformer):
    """[e for x in it] -> list(map(lambda x: e, it)) (one plain name, no condition)"""

    def visit_ListComp(self, n):
        self.generic_visit(n)
        g = n.generators[0]
        if len(n.generators) == 1 and not g.ifs and isinstance(g.target, ast.Name):
            return ast.Call(name('list'), [ast.Call(name('map'), [ast.Lambda(
                ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), n.elt),
                g.iter], [])], [])
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s
                  for s in n.body]
        return n


class RaiseVar(Blocks):
    """raise X(...) -> error_ = X(...); raise error_"""

    def block(self, body):
        out = []
        for s in body:
            if isinstance(s, ast.Raise) and isinstance(s.exc, ast.Call):
                out.append(ast.Assign([name('error_', 1)], s.exc))
                s.exc = name('error_')
            out.append(s)
        return out


class ConstName(ast.NodeTransformer):
    """Text constants in comparisons become constants of the module."""

    def __init__(self):
        self.new = {}

    def visit_Module(self, m):
        self.generic_visit(m)
        at = 0
        for i, s in enumerate(m.body):
            if isinstance(s, (ast.Import, ast.ImportFrom)) or i == 0 and isinstance(
                    s, ast.Expr):
                at = i + 1
            else:
                break
        m.body[at:at] = [ast.Assign([name(n, 1)], ast.Constant(v))
                         for v, n in self.new.items()]
        return m

    def visit_Compare(self, n):
        self.generic_visit(n)
        for i, c in enumerate(n.comparators):
            if isinstance(c, ast.Constant) and isinstance(c.value, str):
                k = self.new.setdefault(c.value, f"_TEXT_{len(self.new)}")
                n.comparators[i] = name(k)
        return n


class TableName(ConstName):
    """Displays of constants that are iterated or searched become module constants."""

    def visit_Module(self, m):
        self.generic_visit(m)
        at = 0
        for i, s in enumerate(m.body):
            if isinstance(s, (ast.Import, ast.ImportFrom)) or i == 0 and isinstance(
                    s, ast.Expr):
                at = i + 1
            else:
                break
        m.body[at:at] = [ast.Assign([name(n, 1)], ast.parse(v, mode='eval').body)
                         for v, n in self.new.items()]
        return m

    def const(self, c):
        if isinstance(c, (ast.Tuple, ast.List, ast.Set)) and c.elts and all(
                isinstance(e, ast.Constant) for e in c.elts):
            return name(self.new.setdefault(ast.unparse(c), f"_TABLE_{len(self.new)}"))
        return c

    def visit_Compare(self, n):
        self.generic_visit(n)
        if isinstance(n.ops[0], (ast.In, ast.NotIn)):
            n.comparators[0] = self.const(n.comparators[0])
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = self.const(n.iter)
        return n

    def visit_comprehension(self, n):
        self.generic_visit(n)
        n.iter = self.const(n.iter)
        return n


class InlineFn(ast.NodeTransformer):
    """Calls of private functions 'return e' become e; the functions are removed."""

    def visit_Module(self, m):
        fs = {s.name: s for s in m.body if isinstance(s, ast.FunctionDef)
              and s.name[0] == '_' and s.name[:2] != '__' and not s.decorator_list}
        for f, d in fs.items():
            body = [s for s in d.body if not (isinstance(s, ast.Expr) and isinstance(
                s.value, ast.Constant))]
            a = d.args
            if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None \
                    or a.vararg or a.kwarg or a.kwonlyargs or a.defaults or a.posonlyargs:
                continue
            v = body[0].value
            if any(isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                                  ast.GeneratorExp, ast.NamedExpr)) for x in ast.walk(v)):
                continue
            params = [x.arg for x in a.args]
            uses = [x for x in ast.walk(m) if isinstance(x, ast.Name) and x.id == f]
            calls = [x for x in ast.walk(m) if isinstance(x, ast.Call) and isinstance(
                x.func, ast.Name) and x.func.id == f and len(x.args) == len(params)
                and not x.keywords and all(simple(y) for y in x.args)]
            other = any(f in t for t in self.others(m))
            if not calls or len(uses) != len(calls) or other:
                continue
            for c in calls:
                e = copy.deepcopy(v)
                env = dict(zip(params, c.args))

                class Put(ast.NodeTransformer):
                    def visit_Name(self, n):
                        return copy.deepcopy(env[n.id]) if n.id in env else n
                e = Put().visit(e)
                for k in list(c.__dict__):
                    if k not in ('lineno', 'col_offset', 'end_lineno', 'end_col_offset'):
                        delattr(c, k)
                c.__class__ = e.__class__
                c.__dict__.update({k: w for k, w in e.__dict__.items()})
            m.body.remove(d)
        return m

    cache = None

    def others(self, m):
        if InlineFn.cache is None:
            import refactor
            InlineFn.cache = []
            for p, rel in refactor.files():
                with open(p) as fp:
                    InlineFn.cache.append(fp.read())
        me = {s.name for s in m.body if isinstance(s, (ast.FunctionDef, ast.ClassDef))}
        for t in InlineFn.cache:
            names = {x.name for x in ast.parse(t).body if isinstance(
                x, (ast.FunctionDef, ast.ClassDef))}
            if names != me:
                yield t


class SwapTuple(ast.NodeTransformer):
    """isinstance(x, (A, B)) -> isinstance(x, (B, A))"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'issubclass') and \
                isinstance(n.args[1], ast.Tuple):
            n.args[1].elts = n.args[1].elts[::-1]
        return n


class Default(ast.NodeTransformer):
    """x or y (plain names) -> x if x else y"""

    def visit_BoolOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Or) and len(n.values) == 2 and simple(n.values[0]):
            return ast.IfExp(copy.deepcopy(n.values[0]), n.values[0], n.values[1])
        return n


ALL += (MethodHelper, LoopBody, MergeIf, Continue, TernaryFlip, ReturnTernary, SelfLocal,
        MapLambda, RaiseVar, ConstName, TableName, InlineFn, SwapTuple, Default)


class SplitTail(Extract):
    """The second half of a function becomes a function."""

    def work(self, n):
        body = n.body
        at = 1 if isinstance(body[0], ast.Expr) and isinstance(
            body[0].value, ast.Constant) else 0
        mid = (at + len(body) + 1) // 2
        tail = body[mid:]
        if mid <= at or not tail or not isinstance(tail[-1], ast.Return) or \
                tail[-1].value is None or not self.movable(tail) or simple(tail[0]):
            return
        if len(tail) == 1 and simple(tail[0].value):
            return
        before = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)} | self.sure(
            body[:mid])
        maybe = stored(body[:mid]) - before
        used = self.used(tail)
        if set(used) & maybe:
            return
        args = [u for u in used if u in before]
        n.body = body[:mid] + [ast.Return(self.make('rest', args, list(tail)))]

    def sure(self, body):
        return {t.id for s in body if isinstance(s, ast.Assign) for x in s.targets
                for t in ast.walk(x) if isinstance(t, ast.Name)}


class SplitHead(Extract):
    """The assignments at the start of a function become a function that returns them."""

    def work(self, n):
        body = n.body
        at = 1 if isinstance(body[0], ast.Expr) and isinstance(
            body[0].value, ast.Constant) else 0
        end = at
        while end < len(body) and isinstance(body[end], ast.Assign) and len(
                body[end].targets) == 1 and isinstance(body[end].targets[0], ast.Name):
            end += 1
        part = body[at:end]
        if not part or end == len(body) or not self.movable(part):
            return
        outs = list(dict.fromkeys(s.targets[0].id for s in part))
        params = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
        used = [u for u in self.used(part)]
        args = [u for u in used if u in params]
        call = self.make('start', args, part + [ast.Return(
            name(outs[0]) if len(outs) == 1 else ast.Tuple([name(o) for o in outs], L))])
        target = name(outs[0], 1) if len(outs) == 1 else ast.Tuple(
            [name(o, 1) for o in outs], S)
        n.body = body[:at] + [ast.Assign([target], call)] + body[end:]


class InlineMethod(ast.NodeTransformer):
    """self._f(names) becomes the expression that _f returns, within a class."""

    def visit_ClassDef(self, n):
        fs = {s.name: s for s in n.body if isinstance(s, ast.FunctionDef)
              and s.name[0] == '_' and s.name[:2] != '__' and not s.decorator_list}
        for f, d in fs.items():
            body = [s for s in d.body if not (isinstance(s, ast.Expr) and isinstance(
                s.value, ast.Constant))]
            a = d.args
            if len(body) != 1 or not isinstance(body[0], ast.Return) or body[0].value is None \
                    or a.vararg or a.kwarg or a.kwonlyargs or a.defaults or a.posonlyargs:
                continue
            v = body[0].value
            if any(isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                                  ast.GeneratorExp, ast.NamedExpr)) or isinstance(
                    x, ast.Name) and x.id == 'super' for x in ast.walk(v)):
                continue
            if self.elsewhere(f) > 1:
                continue
            params = [x.arg for x in a.args][1:]
            calls = [x for x in ast.walk(n) if isinstance(x, ast.Call) and isinstance(
                x.func, ast.Attribute) and x.func.attr == f and isinstance(
                    x.func.value, ast.Name) and x.func.value.id == 'self' and len(
                    x.args) == len(params) and not x.keywords and all(
                        simple(y) for y in x.args)]
            for c in calls:
                e = copy.deepcopy(v)
                env = dict(zip(params, c.args))

                class Put(ast.NodeTransformer):
                    def visit_Name(self, n):
                        return copy.deepcopy(env[n.id]) if n.id in env else n
                e = Put().visit(e)
                for k in list(c.__dict__):
                    if k not in ('lineno', 'col_offset', 'end_lineno', 'end_col_offset'):
                        delattr(c, k)
                c.__class__ = e.__class__
                c.__dict__.update(e.__dict__)
        return n

    counts = None

    def elsewhere(self, f):
        if InlineMethod.counts is None:
            import refactor
            InlineMethod.counts = {}
            for p, rel in refactor.files():
                with open(p) as fp:
                    for x in ast.walk(ast.parse(fp.read())):
                        if isinstance(x, ast.FunctionDef):
                            InlineMethod.counts[x.name] = InlineMethod.counts.get(x.name, 0) + 1
        return self.counts.get(f, 0)


class Sink(Blocks):
    """a = e (no effects: a name, attribute or constant); S; use a -> S; a = e; use a"""

    def block(self, body):
        out = list(body)
        for i in range(len(out) - 2):
            a, s = out[i], out[i + 1]
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(
                    a.targets[0], ast.Name) and isinstance(a.value, (ast.Name, ast.Constant)) \
                    and isinstance(s, (ast.Assign, ast.If)):
                names = {a.targets[0].id} | {x.id for x in ast.walk(a.value)
                                             if isinstance(x, ast.Name)}
                if not any(isinstance(x, ast.Name) and x.id in names and (
                        x.id == a.targets[0].id or isinstance(x.ctx, ast.Store))
                        for x in ast.walk(s)):
                    out[i], out[i + 1] = s, a
        return out


class Zip(ast.NodeTransformer):
    """f(*(e for x in it)) -> f(*[e for x in it]); sum/any/all of lists to generators"""

    def visit_Call(self, n):
        self.generic_visit(n)
        for i, a in enumerate(n.args):
            if isinstance(a, ast.Starred) and isinstance(a.value, ast.GeneratorExp):
                a.value = ast.ListComp(a.value.elt, a.value.generators)
        if isinstance(n.func, ast.Name) and n.func.id in ('any', 'all', 'sum', 'max', 'min',
                                                          'tuple', 'set', 'sorted', 'dict') \
                and len(n.args) == 1 and isinstance(n.args[0], ast.ListComp):
            n.args[0] = ast.GeneratorExp(n.args[0].elt, n.args[0].generators)
        return n


ALL += (SplitTail, SplitHead, InlineMethod, Sink, Zip)
