"""Behaviour-preserving rewrites of the whole package; every check must stay quiet.

usage: dev/refactor.py [CHECK ...] [--only TRANSFORM] [--per-module]
"""

import ast
import copy
import os
import sys
from multiprocessing import Pool

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common       # noqa: E402
import refactor2    # noqa: E402

SRC = '/repo/src/eprempy'


def isgen(fn):
    for n in ast.walk(fn):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


class TempReturn(ast.NodeTransformer):
    """return e  ->  outcome_ = e; return outcome_"""

    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign([ast.Name('outcome_', ast.Store())], n.value),
                ast.Return(ast.Name('outcome_', ast.Load()))]


class SwapIf(ast.NodeTransformer):
    """if c: A else: B  ->  if not c: B else: A"""

    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse:
            return n
        for x in ast.walk(n.test):
            if isinstance(x, ast.NamedExpr):
                return n
        if len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If):
            pass
        return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


class ElseAfterReturn(ast.NodeTransformer):
    """if c: return x; rest  ->  if c: return x else: rest"""

    def block(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.If) and not s.orelse and i + 1 < len(body) and \
                    isinstance(s.body[-1], (ast.Return, ast.Raise)):
                s.orelse = self.block(body[i + 1:])
                return body[:i + 1]
        return body

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body)
        return n


class IfExp(ast.NodeTransformer):
    """x = a if c else b -> statement form; return likewise"""

    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp):
            v = n.value
            return ast.If(v.test, [ast.Assign(copy.deepcopy(n.targets), v.body)],
                          [ast.Assign(copy.deepcopy(n.targets), v.orelse)])
        return n

    def visit_Return(self, n):
        if isinstance(n.value, ast.IfExp):
            v = n.value
            return ast.If(v.test, [ast.Return(v.body)], [ast.Return(v.orelse)])
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef))
                  else s for s in n.body]
        return n

    def visit_Module(self, n):
        n.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef))
                  else s for s in n.body]
        return n


class Rename(ast.NodeTransformer):
    """Rename the local variables of functions."""

    def visit_FunctionDef(self, n):
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                                  ast.Global, ast.Nonlocal, ast.Import,
                                  ast.ImportFrom, ast.ListComp, ast.SetComp,
                                  ast.DictComp, ast.GeneratorExp)):
                    return n
        args = {a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)}
        names = {x.id for s in n.body for x in ast.walk(s)
                 if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and x.id in names:
                    x.id += '_local'
        return n


class FString(ast.NodeTransformer):
    """f'..{x}..' -> format call"""

    def visit_JoinedStr(self, n):
        text, args = '', []
        for v in n.values:
            if isinstance(v, ast.Constant):
                text += v.value.replace('{', '{{').replace('}', '}}')
            else:
                if v.format_spec is not None or v.conversion not in (-1, 114):
                    return n
                text += '{!r}' if v.conversion == 114 else '{}'
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(text), 'format', ast.Load()),
                        args, [])


class Loop(ast.NodeTransformer):
    """x = [e for v in it if c] -> loop with append"""

    def comp(self, c, name):
        g = c.generators[0]
        if isinstance(c, ast.DictComp):
            init = ast.Dict([], [])
            leaf = ast.Assign([ast.Subscript(ast.Name(name, ast.Load()), c.key,
                                             ast.Store())], c.value)
        else:
            init = ast.List([], ast.Load())
            leaf = ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()),
                                                   'append', ast.Load()),
                                     [c.elt], []))
        body = [leaf]
        for t in reversed(g.ifs):
            body = [ast.If(t, body, [])]
        return [ast.Assign([ast.Name(name, ast.Store())], init),
                ast.For(g.target, g.iter, body, [])]

    def ok(self, v):
        return isinstance(v, (ast.ListComp, ast.DictComp)) and \
            len(v.generators) == 1 and not v.generators[0].is_async

    def visit_Assign(self, n):
        if self.ok(n.value) and len(n.targets) == 1 and \
                isinstance(n.targets[0], ast.Name) and not any(
                    isinstance(x, ast.Name) and x.id == n.targets[0].id
                    for x in ast.walk(n.value)):
            return self.comp(n.value, n.targets[0].id)
        return n

    def visit_Return(self, n):
        if self.ok(n.value):
            return self.comp(n.value, 'items_') + [
                ast.Return(ast.Name('items_', ast.Load()))]
        return n

    def visit_ClassDef(self, n):
        n.body = flat([self.visit(s) if isinstance(s, (ast.FunctionDef,
                                                       ast.ClassDef))
                       else s for s in n.body])
        return n

    visit_Module = visit_ClassDef


def flat(xs):
    out = []
    for x in xs:
        out += x if isinstance(x, list) else [x]
    return out


class TempCond(ast.NodeTransformer):
    """if c: -> flag_ = c; if flag_:"""

    def visit_FunctionDef(self, n):
        n.body = self.block(n.body)
        return n

    def block(self, body):
        out = []
        for s in body:
            for f in ('body', 'orelse', 'finalbody'):
                if isinstance(getattr(s, f, None), list) and not (
                        f == 'orelse' and isinstance(s, ast.If)
                        and len(s.orelse) == 1
                        and isinstance(s.orelse[0], ast.If)):
                    setattr(s, f, self.block(getattr(s, f)))
            for h in getattr(s, 'handlers', ()):
                h.body = self.block(h.body)
            if isinstance(s, ast.If) and not any(isinstance(x, ast.NamedExpr)
                                                 for x in ast.walk(s.test)):
                out.append(ast.Assign([ast.Name('flag_', ast.Store())], s.test))
                s.test = ast.Name('flag_', ast.Load())
            out.append(s)
        return out


class TempArgs(ast.NodeTransformer):
    """return f(g(x), y) -> part_0 = g(x); return f(part_0, y)"""

    def visit_Return(self, n):
        v = n.value
        if not isinstance(v, ast.Call) or not isinstance(
                v.func, (ast.Name, ast.Attribute)):
            return n
        if any(isinstance(a, ast.Starred) for a in v.args):
            return n
        pre = []
        for i, a in enumerate(v.args):
            if isinstance(a, (ast.Call, ast.BinOp, ast.Attribute)):
                pre.append(ast.Assign([ast.Name(f'part_{i}', ast.Store())], a))
                v.args[i] = ast.Name(f'part_{i}', ast.Load())
        return pre + [n]


class Helper(ast.NodeTransformer):
    """Extract the expression of a function's last return into a module function."""

    def __init__(self):
        self.new = []
        self.n = 0

    def visit_Module(self, m):
        bodies = []
        for s in m.body:
            before = len(self.new)
            s = self.visit(s)
            bodies += self.new[before:] + [s]
        fut = [s for s in bodies if isinstance(s, ast.ImportFrom)
               and s.module == '__future__']
        m.body = bodies
        return m

    def visit_ClassDef(self, n):
        n.body = [self.visit(s) for s in n.body]
        return n

    def visit_FunctionDef(self, n):
        if not n.body or isgen(n):
            return n
        last = n.body[-1]
        if not isinstance(last, ast.Return) or last.value is None:
            return n
        v = last.value
        if isinstance(v, (ast.Name, ast.Constant)):
            return n
        for x in ast.walk(v):
            if isinstance(x, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp,
                              ast.GeneratorExp, ast.NamedExpr, ast.Await)):
                return n
            if isinstance(x, ast.Name) and x.id in ('super', '__class__'):
                return n
            if isinstance(x, ast.Attribute) and x.attr.startswith('__') and not \
                    x.attr.endswith('__'):
                return n
        args = [a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg)]
        local = set(args) | {x.id for s in n.body for x in ast.walk(s)
                             if isinstance(x, ast.Name)
                             and isinstance(x.ctx, ast.Store)}
        for s in n.body:
            for x in ast.walk(s):
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    local.add(x.name)
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    return n
                if isinstance(x, ast.ExceptHandler) and x.name:
                    local.add(x.name)
        used = []
        for x in ast.walk(v):
            if isinstance(x, ast.Name) and x.id in local and x.id not in used:
                used.append(x.id)
        name = f"_extracted_{n.name.strip('_')}_{self.n}"
        self.n += 1
        self.new.append(ast.FunctionDef(
            name, ast.arguments([], [ast.arg(u) for u in used], None, [], [], None,
                                []),
            [ast.Return(v)], [], None, None, type_params=[]))
        last.value = ast.Call(ast.Name(name, ast.Load()),
                              [ast.Name(u, ast.Load()) for u in used], [])
        return n


class SplitAnd(ast.NodeTransformer):
    """if a and b: X (no else) -> if a: if b: X"""

    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(
                n.test.op, ast.And):
            body = n.body
            for t in reversed(n.test.values[1:]):
                body = [ast.If(t, body, [])]
            return ast.If(n.test.values[0], body, [])
        return n


class Demorgan(ast.NodeTransformer):
    """a and b -> not (not a or not b) in tests"""

    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.BoolOp) and not any(
                isinstance(x, ast.NamedExpr) for x in ast.walk(t)):
            op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(
                op, [ast.UnaryOp(ast.Not(), v) for v in t.values]))
        return n


class KwOrder(ast.NodeTransformer):
    """reverse keyword arguments"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if all(k.arg for k in n.keywords):
            n.keywords = n.keywords[::-1]
        return n


class NoOp(ast.NodeTransformer):
    """a do-nothing statement at the start and end of functions"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        i = 1 if n.body and isinstance(n.body[0], ast.Expr) and isinstance(
            n.body[0].value, ast.Constant) else 0
        n.body.insert(i, ast.Pass())
        n.body.insert(i, ast.Assign([ast.Name('_unused', ast.Store())],
                                    ast.Constant(None)))
        return n


class Walrus(ast.NodeTransformer):
    """if x := e: -> x = e; if x:"""

    def visit_FunctionDef(self, n):
        n.body = self.block(n.body)
        return n

    def block(self, body):
        out = []
        for s in body:
            for f in ('body', 'orelse', 'finalbody'):
                if isinstance(getattr(s, f, None), list) and not (
                        f == 'orelse' and isinstance(s, ast.If)
                        and len(s.orelse) == 1
                        and isinstance(s.orelse[0], ast.If)):
                    setattr(s, f, self.block(getattr(s, f)))
            for h in getattr(s, 'handlers', ()):
                h.body = self.block(h.body)
            if isinstance(s, ast.If) and isinstance(s.test, ast.NamedExpr):
                t = s.test
                out.append(ast.Assign([ast.Name(t.target.id, ast.Store())], t.value))
                s.test = ast.Name(t.target.id, ast.Load())
            out.append(s)
        return out


class ReorderDefs(ast.NodeTransformer):
    """methods in reverse order where no class-level statement refers to them"""

    def visit_ClassDef(self, n):
        self.generic_visit(n)
        names = [s.name for s in n.body if isinstance(s, ast.FunctionDef)]
        if len(names) != len(set(names)):
            return n
        if any(isinstance(x, ast.Name) and x.id in names
               for s in n.body for d in (
                   s.decorator_list if isinstance(s, ast.FunctionDef) else [s])
               for x in ast.walk(d)):
            return n
        idx = [i for i, s in enumerate(n.body) if isinstance(s, ast.FunctionDef)]
        fs = [n.body[i] for i in idx][::-1]
        for i, f in zip(idx, fs):
            n.body[i] = f
        return n


class YodaEq(ast.NodeTransformer):
    """x == constant -> constant == x"""

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Eq, ast.NotEq)) and \
                isinstance(n.comparators[0], ast.Constant):
            return ast.Compare(n.comparators[0], n.ops, [n.left])
        return n


class InstanceSplit(ast.NodeTransformer):
    """isinstance(x, (A, B)) -> isinstance(x, A) or isinstance(x, B)"""

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and \
                len(n.args) == 2 and isinstance(n.args[1], ast.Tuple) and \
                isinstance(n.args[0], (ast.Name, ast.Attribute)) and \
                len(n.args[1].elts) > 1:
            return ast.BoolOp(ast.Or(), [
                ast.Call(ast.Name('isinstance', ast.Load()),
                         [copy.deepcopy(n.args[0]), e], [])
                for e in n.args[1].elts])
        return n


class AugAssign(ast.NodeTransformer):
    """x += e -> x = x + e for names of numbers or strings (int literals only)"""

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name) and isinstance(n.value, ast.Constant):
            return ast.Assign([n.target], ast.BinOp(
                ast.Name(n.target.id, ast.Load()), n.op, n.value))
        return n


class Branch(ast.NodeTransformer):
    """return condition -> if condition: return True; return False"""

    def visit_Return(self, n):
        v = n.value
        if isinstance(v, ast.Compare) and len(v.ops) == 1 or (
                isinstance(v, ast.Call) and isinstance(v.func, ast.Name)
                and v.func.id in ('isinstance', 'issubclass', 'any', 'all')) or (
                isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not)):
            return [ast.If(v, [ast.Return(ast.Constant(True))], []),
                    ast.Return(ast.Constant(False))]
        return n


class Unbranch(ast.NodeTransformer):
    """if condition: return True; return False -> return condition"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if len(n.body) >= 2 and isinstance(n.body[-2], ast.If):
            i, last = n.body[-2:]
            if isinstance(last, ast.Return) and isinstance(last.value, ast.Constant) \
                    and isinstance(last.value.value, bool) and not i.orelse \
                    and len(i.body) == 1 and isinstance(i.body[0], ast.Return) \
                    and isinstance(i.body[0].value, ast.Constant) \
                    and i.body[0].value.value is (not last.value.value) \
                    and isinstance(i.test, (ast.Compare, ast.Call)):
                t = i.test if last.value.value is False else ast.UnaryOp(ast.Not(), i.test)
                n.body[-2:] = [ast.Return(t)]
        return n


class Inline(ast.NodeTransformer):
    """x = e; return/assign f(x) -> f(e), if x is used only there"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        for i in range(len(n.body) - 1):
            a, b = n.body[i:i + 2]
            if not (isinstance(a, ast.Assign) and len(a.targets) == 1
                    and isinstance(a.targets[0], ast.Name)
                    and isinstance(b, (ast.Return, ast.Assign)) and b.value):
                continue
            x = a.targets[0].id
            uses = [y for s in n.body for y in ast.walk(s)
                    if isinstance(y, ast.Name) and y.id == x]
            here = [y for y in ast.walk(b.value) if isinstance(y, ast.Name) and y.id == x]
            if len(uses) != 2 or len(here) != 1 or any(
                    isinstance(y, (ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.DictComp,
                                   ast.SetComp, ast.NamedExpr, ast.Await))
                    for y in ast.walk(b.value)):
                continue
            # the value must be the first thing that is evaluated
            first = b.value
            while True:
                if isinstance(first, ast.Call):
                    first = first.func if not isinstance(first.func, ast.Name) else (
                        first.args[0] if first.args else first.func)
                elif isinstance(first, (ast.Attribute, ast.Subscript)):
                    first = first.value
                elif isinstance(first, ast.BinOp):
                    first = first.left
                else:
                    break
            if first is not here[0]:
                continue

            class Put(ast.NodeTransformer):
                def visit_Name(self, y):
                    return a.value if y is here[0] else y
            n.body[i + 1] = Put().visit(b)
            n.body[i] = ast.Pass()
        return n


class SwapAssign(ast.NodeTransformer):
    """x = e; y = f -> y = f; x = e, where that makes no difference"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        i = 0
        while i < len(n.body) - 1:
            a, b = n.body[i:i + 2]
            if self.plain(a) and self.plain(b):
                x, y = a.targets[0].id, b.targets[0].id
                if x != y and not self.uses(a.value, y) and not self.uses(b.value, x):
                    n.body[i:i + 2] = [b, a]
                    i += 1
            i += 1
        return n

    def plain(self, s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
            s.targets[0], ast.Name) and not any(isinstance(
                y, (ast.NamedExpr, ast.Yield, ast.Await)) for y in ast.walk(s))

    def uses(self, e, x):
        return any(isinstance(y, ast.Name) and y.id == x for y in ast.walk(e))


class AllLoop(ast.NodeTransformer):
    """return all(c for x in it) -> loop that returns False"""

    def visit_Return(self, n):
        v = n.value
        if not (isinstance(v, ast.Call) and isinstance(v.func, ast.Name)
                and v.func.id in ('all', 'any') and len(v.args) == 1
                and isinstance(v.args[0], ast.GeneratorExp)
                and len(v.args[0].generators) == 1):
            return n
        g = v.args[0].generators[0]
        test = v.args[0].elt
        if v.func.id == 'all':
            test = ast.UnaryOp(ast.Not(), test)
        for t in reversed(g.ifs):
            test = ast.BoolOp(ast.And(), [t, test])
        return [ast.For(g.target, g.iter, [ast.If(test, [
            ast.Return(ast.Constant(v.func.id == 'any'))], [])], []),
            ast.Return(ast.Constant(v.func.id == 'all'))]


class CompLoop(ast.NodeTransformer):
    """out = []; for x in it: out.append(e) -> out = [e for x in it]"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.body = self.block(n.body)
        return n

    def block(self, body):
        out = list(body)
        for i in range(len(out) - 1):
            a, f = out[i:i + 2]
            if not (isinstance(a, ast.Assign) and isinstance(a.targets[0], ast.Name)
                    and isinstance(f, ast.For) and not f.orelse and len(f.body) == 1):
                continue
            x, leaf, ifs = a.targets[0].id, f.body[0], []
            while isinstance(leaf, ast.If) and not leaf.orelse and len(leaf.body) == 1:
                ifs.append(leaf.test)
                leaf = leaf.body[0]
            if any(isinstance(y, ast.Name) and y.id == x for e in (f.iter, *ifs)
                   for y in ast.walk(e)):
                continue
            g = ast.comprehension(f.target, f.iter, ifs, 0)
            if isinstance(a.value, ast.List) and not a.value.elts and isinstance(
                    leaf, ast.Expr) and isinstance(leaf.value, ast.Call) and isinstance(
                    leaf.value.func, ast.Attribute) and leaf.value.func.attr == 'append' \
                    and isinstance(leaf.value.func.value, ast.Name) \
                    and leaf.value.func.value.id == x:
                new = ast.ListComp(leaf.value.args[0], [g])
            elif isinstance(a.value, ast.Dict) and not a.value.keys and isinstance(
                    leaf, ast.Assign) and isinstance(leaf.targets[0], ast.Subscript) \
                    and isinstance(leaf.targets[0].value, ast.Name) \
                    and leaf.targets[0].value.id == x:
                new = ast.DictComp(leaf.targets[0].slice, leaf.value, [g])
            else:
                continue
            if any(isinstance(y, ast.Name) and y.id == x for y in ast.walk(new)):
                continue
            out[i:i + 2] = [ast.Pass(), ast.Assign(a.targets, new)]
        return out


class NextLoop(ast.NodeTransformer):
    """for x in it: if c: return e; return d -> next((e for x in it if c), d)"""

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if len(n.body) >= 2 and isinstance(n.body[-2], ast.For) and isinstance(
                n.body[-1], ast.Return) and isinstance(n.body[-1].value, ast.Constant):
            f, r = n.body[-2:]
            if len(f.body) == 1 and isinstance(f.body[0], ast.If) and not f.orelse \
                    and not f.body[0].orelse and len(f.body[0].body) == 1 \
                    and isinstance(f.body[0].body[0], ast.Return) \
                    and f.body[0].body[0].value is not None and not any(
                        isinstance(y, ast.NamedExpr) for y in ast.walk(f)):
                e = f.body[0].body[0].value
                n.body[-2:] = [ast.Return(ast.Call(ast.Name('next', ast.Load()), [
                    ast.GeneratorExp(e, [ast.comprehension(
                        f.target, f.iter, [f.body[0].test], 0)]), r.value], []))]
        return n


TRANSFORMS = {c.__name__: c for c in (
    TempReturn, SwapIf, ElseAfterReturn, IfExp, Rename, FString, Loop, TempCond,
    TempArgs, Helper, SplitAnd, Demorgan, KwOrder, NoOp, Walrus, ReorderDefs, YodaEq,
    InstanceSplit, AugAssign, Branch, Unbranch, Inline,
    SwapAssign, AllLoop, CompLoop, NextLoop, *refactor2.ALL)}


def files():
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                yield p, os.path.relpath(p, '/repo')


def overlay(names):
    out = {}
    for p, rel in files():
        with open(p) as fp:
            tree = ast.parse(fp.read())
        for n in names:
            tree = TRANSFORMS[n]().visit(tree)
        out[rel] = ast.unparse(ast.fix_missing_locations(tree)) + '\n'
    return out


def job(x):
    pids, names = x
    return names, common.run(pids, overlay(names))


def main(argv):
    only = None
    if '--only' in argv:
        i = argv.index('--only')
        only = argv[i + 1].split(',')
        argv = argv[:i] + argv[i + 2:]
    if '--write' in argv:
        i = argv.index('--write')
        dest, names = argv[i + 1], argv[i + 2].split(',')
        for rel, text in overlay(names).items():
            with open(os.path.join(dest, rel), 'w') as fp:
                fp.write(text)
        return
    pids = [a for a in argv if not a.startswith('-')] or common.all_checks()
    base = common.run(pids)
    names = only or list(TRANSFORMS)
    combos = [(n,) for n in names]
    if not only:
        combos += [('ElseAfterReturn', 'SwapIf'), ('TempReturn', 'Rename', 'TempCond'),
                   ('Helper', 'TempArgs', 'Walrus'), ('Loop', 'IfExp', 'Demorgan')]
    with Pool(8) as pool:
        for ns, res in pool.imap(job, [(pids, c) for c in combos]):
            for pid, (s, d) in res.items():
                if s != 'ok':
                    print('+'.join(ns), pid, s, d)
                elif base[pid][0] == 'ok' and d[1] > base[pid][1][1]:
                    print('+'.join(ns), pid, 'undecided', base[pid][1], '->', d)
            print('done', '+'.join(ns), flush=True)


if __name__ == '__main__':
    main(sys.argv[1:])
