"""Create and validate a planted bug.

seed(id, property, edits=[(path, old, new)], demo=python source, needs, breaks)
"""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
ENV = {**os.environ, 'PYTHONDONTWRITEBYTECODE': '1'}


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True,
                          env=ENV, **kw)


def clean():
    return not sh(f'git -C {REPO} status --porcelain --untracked-files=no').stdout.strip()


def demo_rc(d):
    return sh(f'bash {d}/demo.sh', cwd=REPO, timeout=300)


def seed(id, prop, edits, demo, needs, breaks, check=True, tests=True):
    assert clean(), 'repo not clean'
    d = os.path.join(HERE, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, 'demo.py'), 'w') as fp:
        fp.write(demo.lstrip('\n'))
    with open(os.path.join(d, 'demo.sh'), 'w') as fp:
        fp.write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\n'
                 'here=$(cd "$(dirname "$0")" && pwd)\n'
                 'exec /opt/venv/bin/python "$here/demo.py"\n')
    with open(os.path.join(d, 'meta.json'), 'w') as fp:
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                  fp, indent=1)
        fp.write('\n')
    r = demo_rc(d)
    if r.returncode:
        print(id, 'DEMO FAILS ON CLEAN TREE', r.stdout[-600:], r.stderr[-1200:])
        return
    try:
        for path, old, new in edits:
            p = os.path.join(REPO, 'src/eprempy', path)
            s = open(p).read()
            assert s.count(old) == 1, (path, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        with open(os.path.join(d, 'patch.diff'), 'w') as fp:
            fp.write(sh(f'git -C {REPO} diff').stdout)
        r = demo_rc(d)
        if not r.returncode:
            print(id, 'DEMO PASSES WITH PATCH')
        out = f'demo={r.returncode} '
        if tests:
            b = sh('bash /opt/vp/build.sh')
            t = sh('bash /opt/vp/test.sh /tmp/seed.json')
            got = json.load(open('/tmp/seed.json'))
            base = json.load(open('/opt/vp/BASELINE.json'))['stable']
            failed = stable_failures(got, base)
            out += f'build={b.returncode} failed={failed[:5]} '
        if check:
            c = sh(f'python3 {HERE}/check.py {prop}')
            out += f'check={c.returncode} ' + next(
                (x for x in c.stdout.splitlines() if 'violated by' in x),
                c.stdout[-300:] + c.stderr[-300:])
        print(id, out)
    finally:
        sh(f'git -C {REPO} checkout -- .')


def stable_failures(got, base):
    passed = set(got.get('passed', ())) if isinstance(got, dict) else set()
    return [t for t in base if t not in passed]
