"""The thorough tier: how the verdicts of a check stand up to edits of the tree.

The check is repeated in memory on rewrites of the whole package that keep its
behaviour, where it should say nothing new, and on single-edit mutants of the
functions that its obligations lie in, where it should object unless the mutant is
equivalent or keeps the property.  The numbers go into the evidence; the verdict on the
tree itself is that of the quick tier.
"""

import ast
import os
import random
import time
from multiprocessing import Pool

import common
import mutate
import refactor

LIMIT = 400         # mutants
SECONDS = 420


def functions(rep, root):
    """{(path, name)} of the functions that obligations of the report lie in."""
    lines = {}
    for _, _, _, _, where in rep.obs:
        path, _, line = str(where).partition(':')
        line = line.split(':')[0]
        if path.endswith('.py') and line.isdigit():
            lines.setdefault(path, set()).add(int(line))
    out = set()
    for path, ls in lines.items():
        full = next((p for p in (path, os.path.join(root, path), os.path.join(
            root, 'src', path), os.path.join(root, 'src', 'eprempy', path))
            if os.path.isfile(p)), None)
        if full is None:
            continue
        tree = ast.parse(open(full).read())

        def visit(node, prefix):
            for s in node.body:
                if isinstance(s, ast.ClassDef):
                    visit(s, prefix + s.name + '.')
                elif isinstance(s, ast.FunctionDef):
                    if any(s.lineno <= n <= s.end_lineno for n in ls):
                        out.add((full, prefix + s.name))
        visit(tree, '')
    return sorted(out)


def rewritten(names):
    try:
        return refactor.overlay(names)
    except Exception:
        return None


def job(x):
    kind, pid, rel, name, desc, payload = x
    if kind == 'rewrite':
        over = rewritten(payload)
        if over is None:
            return kind, None
        return kind, common.run([pid], over)[pid][0]
    *_, res = mutate.job(([pid], rel, name, desc, payload))
    return kind, res.get(pid, ('broken',))[0]


def run(rep, root='/repo'):
    """A dictionary for the evidence."""
    start = time.time()
    jobs = [('rewrite', rep.pid, '', '', '', (n,)) for n in refactor.TRANSFORMS]
    muts = []
    src = os.path.join(root, 'src')
    for path, name in functions(rep, root):
        mod = os.path.relpath(path, src)[:-3].replace(os.sep, '.')
        for rel, got, desc, text, ln, i, f in mutate.mutants(f"{mod}:{name}", root):
            if got != name:
                continue
            try:
                new = mutate.apply(text, ln, i, f)
                ast.parse(new)
            except Exception:
                continue
            muts.append(('mutant', rep.pid, rel, got, desc, new))
    total = len(muts)
    random.Random(int(os.environ.get('VERIF_SEED', '1') or 1)).shuffle(muts)
    jobs += muts[:LIMIT]
    seen = {}
    with Pool(8, maxtasksperchild=16) as pool:
        for kind, status in pool.imap_unordered(job, jobs):
            seen[(kind, status)] = seen.get((kind, status), 0) + 1
            if time.time() - start > SECONDS:
                pool.terminate()
                break
    return {'robustness': {
        'behaviour-preserving rewrites of the package': sum(
            n for (k, s), n in seen.items() if k == 'rewrite' and s),
        'rewrites with a new verdict': sum(
            n for (k, s), n in seen.items() if k == 'rewrite' and s and s != 'ok'),
        'single-edit mutants of the anchored functions': total,
        'mutants analysed': sum(n for (k, s), n in seen.items() if k == 'mutant'),
        'mutants reported': seen.get(('mutant', 'violation'), 0),
        'seconds': round(time.time() - start, 1),
    }}
