"""Mutants of chosen functions, and which checks notice them (development aid).

usage: dev/mutate.py MODULE_PREFIX[:FUNC] ... [--checks A,B] [--max N] [--survivors]
"""

import ast
import copy
import os
import random
import sys
from multiprocessing import Pool

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common       # noqa: E402

CMPS = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt,
        ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
        ast.In: ast.NotIn, ast.NotIn: ast.In}
BINS = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult,
        ast.Mod: ast.Mult, ast.FloorDiv: ast.Div, ast.Pow: ast.Mult,
        ast.BitOr: ast.BitAnd, ast.BitAnd: ast.BitOr}


def sites(fn):
    """(description, mutate(copy)) pairs; node positions by walk index."""
    nodes = list(ast.walk(fn))
    out = []
    for i, n in enumerate(nodes):
        ln = getattr(n, 'lineno', 0)

        def add(desc, f, i=i, ln=ln):
            out.append((f"L{ln} {desc}", i, f))
        if isinstance(n, ast.Compare):
            for j, op in enumerate(n.ops):
                if type(op) in CMPS:
                    add(f"cmp {ast.unparse(n)[:50]}", lambda m, j=j: m.ops.__setitem__(
                        j, CMPS[type(m.ops[j])]()))
        if isinstance(n, ast.BinOp) and type(n.op) in BINS:
            add(f"bin {ast.unparse(n)[:50]}",
                lambda m: setattr(m, 'op', BINS[type(m.op)]()))
            add(f"swap {ast.unparse(n)[:50]}", swapbin)
        if isinstance(n, ast.BoolOp):
            add(f"bool {ast.unparse(n)[:50]}", lambda m: setattr(
                m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            add(f"drop1 {ast.unparse(n)[:50]}", lambda m: m.values.pop(0)
                if len(m.values) > 1 else None)
            add(f"drop2 {ast.unparse(n)[:50]}", lambda m: m.values.pop()
                if len(m.values) > 1 else None)
        if isinstance(n, (ast.If, ast.IfExp, ast.While)) and not isinstance(
                n.test, ast.Compare):
            add(f"negate {ast.unparse(n.test)[:50]}", lambda m: setattr(
                m, 'test', ast.UnaryOp(ast.Not(), m.test)))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            add(f"unop {ast.unparse(n)[:50]}", dropunary)
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                add(f"const {n.value}", lambda m: setattr(m, 'value', not m.value))
            elif isinstance(n.value, (int, float)):
                add(f"const {n.value}", lambda m: setattr(m, 'value', m.value + 1))
            elif isinstance(n.value, str) and isconst(nodes, n):
                add(f"const {n.value[:20]!r}",
                    lambda m: setattr(m, 'value', m.value + 'x'))
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred)
                                            for a in n.args[:2]) and not (
                    isinstance(n.func, ast.Name) and n.func.id in (
                        'isinstance', 'issubclass', 'hasattr', 'getattr')):
                add(f"argswap {ast.unparse(n)[:50]}", swapargs)
            for j, k in enumerate(n.keywords):
                add(f"dropkw {ast.unparse(n)[:40]} {k.arg}",
                    lambda m, j=j: m.keywords.pop(j))
        if isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.With, ast.Try,
                          ast.While)):
            for attr in ('body', 'orelse'):
                for j, s in enumerate(getattr(n, attr, None) or ()):
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                        continue
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.If,
                                      ast.Raise, ast.Return, ast.For)):
                        out.append((f"L{s.lineno} del {ast.unparse(s)[:50]!r}", i,
                                    lambda m, j=j, a=attr: getattr(m, a).__setitem__(
                                        j, ast.Pass())))
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(f"slice {ast.unparse(n)[:40]}", lambda m: setattr(
                m, 'slice', ast.Slice(m.slice.upper, m.slice.lower, m.slice.step)))
    return out


def isconst(nodes, n):
    for x in nodes:
        if isinstance(x, ast.Expr) and x.value is n:
            return False
        if isinstance(x, ast.JoinedStr) and n in x.values:
            return False
        if isinstance(x, ast.Raise) and n in list(ast.walk(x)):
            return False
    return True


def dropunary(m):
    if isinstance(m.op, ast.USub):
        m.op = ast.UAdd()
    else:
        inner = m.operand
        m.op, m.operand = ast.Not(), ast.UnaryOp(ast.Not(), inner)


def swapbin(m):
    m.left, m.right = m.right, m.left


def swapargs(m):
    m.args[0], m.args[1] = m.args[1], m.args[0]


def isoverload(f):
    return any('overload' in ast.unparse(d) for d in f.decorator_list)


def mutants(spec, root='/repo'):
    mod, _, want = spec.partition(':')
    base = os.path.join(root, 'src', *mod.split('.'))
    paths = []
    if os.path.isdir(base):
        for f in sorted(os.listdir(base)):
            if f.endswith('.py'):
                paths.append(os.path.join(base, f))
    else:
        paths = [base + '.py']
    for p in paths:
        with open(p) as fp:
            text = fp.read()
        tree = ast.parse(text)
        rel = os.path.relpath(p, root)

        def visit(node, prefix):
            for s in node.body:
                if isinstance(s, ast.ClassDef):
                    yield from visit(s, prefix + s.name + '.')
                elif isinstance(s, ast.FunctionDef) and not isoverload(s):
                    yield prefix + s.name, s
        for name, fn in visit(tree, ''):
            if want and want not in name:
                continue
            for desc, i, f in sites(fn):
                if desc.startswith('L0'):
                    continue
                yield rel, name, desc, text, fn.lineno, i, f
        if not want or want == '<module>':
            top = ast.Module([s for s in tree.body if not isinstance(
                s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom))], [])


def apply(text, lineno, i, f):
    tree = ast.parse(text)
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef) and n.lineno == lineno:
            node = list(ast.walk(n))[i]
            f(node)
            return ast.unparse(ast.fix_missing_locations(tree)) + '\n'
    raise KeyError(lineno)


def job(x):
    import resource
    import signal
    pids, rel, name, desc, new = x
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))

    def late(*a):
        raise TimeoutError
    signal.signal(signal.SIGALRM, late)
    signal.alarm(40)
    try:
        res = common.run(pids, {rel: new})
    except (TimeoutError, MemoryError) as err:
        res = {'?': ('broken', repr(err))}
    signal.alarm(0)
    return rel, name, desc, res


def survives(x):
    """Whether the test suite passes with the mutant, in a private copy."""
    import shutil
    import subprocess
    rel, new = x
    d = f'/tmp/mut.{os.getpid()}'
    if not os.path.isdir(d):
        subprocess.run(['cp', '-a', '/repo', d])
    p = os.path.join(d, rel)
    old = open(p).read()
    try:
        open(p, 'w').write(new)
        rc = subprocess.run(['bash', os.path.join(os.path.dirname(
            os.path.abspath(__file__)), 'runtests.sh'), d],
            capture_output=True).returncode
    finally:
        open(p, 'w').write(old)
    return rc == 0


def main(argv):
    pids = None
    limit = None
    if '--checks' in argv:
        i = argv.index('--checks')
        pids = argv[i + 1].split(',')
        argv = argv[:i] + argv[i + 2:]
    if '--max' in argv:
        i = argv.index('--max')
        limit = int(argv[i + 1])
        argv = argv[:i] + argv[i + 2:]
    pids = pids or common.all_checks()
    jobs = []
    for spec in [a for a in argv if not a.startswith('-')]:
        for rel, name, desc, text, ln, i, f in mutants(spec):
            try:
                new = apply(text, ln, i, f)
                ast.parse(new)
            except Exception:
                continue
            jobs.append((pids, rel, name, desc, new))
    if limit and len(jobs) > limit:
        random.Random(1).shuffle(jobs)
        jobs = jobs[:limit]
    caught = broken = 0
    rows = []
    with Pool(8, maxtasksperchild=4) as pool:
        for rel, name, desc, res in pool.imap_unordered(job, jobs, chunksize=1):
            v = [p for p, (s, d) in res.items() if s == 'violation']
            b = [p for p, (s, d) in res.items() if s == 'broken']
            if v:
                caught += 1
                if '--caught' in argv:
                    rows.append((rel, name, desc, 'caught ' + ','.join(v)))
            elif b:
                broken += 1
                rows.append((rel, name, desc, 'BROKEN ' + ' '.join(b) + ' ' +
                             str(res[b[0]][1])[:80]))
            else:
                rows.append((rel, name, desc, ''))
    if '--tests' in argv:
        texts = {(j[1], j[2], j[3]): j[4] for j in jobs}
        with Pool(8) as pool:
            todo = [(r[0], texts[r[:3]]) for r in rows]
            ok = pool.map(survives, todo, chunksize=1)
        rows = [r for r, k in zip(rows, ok) if k]
        import glob
        import shutil
        for d in glob.glob('/tmp/mut.[0-9]*'):
            shutil.rmtree(d, ignore_errors=True)
        print(f"{len(todo)} escaped the checks, {len(rows)} of them the tests too")
    for r in sorted(rows):
        print(r[0].replace('src/eprempy/', ''), r[1], r[2], r[3])
    print(f"{len(jobs)} mutants, {caught} caught, {broken} broken")


if __name__ == '__main__':
    main(sys.argv[1:])
