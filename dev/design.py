#!/usr/bin/env python3
"""Compose DESIGN.md: dev/design_head.md, then one section per property from
dev/proplist.py, then the tables of seeded changes and of defects."""

import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(name):
    with open(os.path.join(HERE, name)) as fp:
        return fp.read()


def main():
    props = {p['id']: p for p in map(json.loads, load('properties.jsonl').splitlines())}
    manifest = json.loads(load('MANIFEST.json'))
    known = json.loads(load('known-findings.json'))
    out = [load('dev/design_head.md').rstrip(), '', '## Properties', '']
    checks = {c['property']: c for c in manifest['checks']}
    detail = dict(re.findall(r'^@(\w+)\n(.*?)(?=^@|\Z)', load('dev/design_notes.md'), re.M | re.S))
    for pid, p in props.items():
        out += [f"### {pid} — {p['title']}", '', p['statement'], '']
        if pid in checks:
            c = checks[pid]
            out += [f"- Technique: {c['technique']}.",
                    f"- Bounds: {c['level_note']}.",
                    f"- Over: {p['quantifier']['text']}.",
                    f"- Beyond the tests: {p['why_tests_cant']}.",
                    "- Anchored in: " + ', '.join(f'`{f}`' for f in p['anchors']['files']) + '.']
        else:
            why = next(n['reason'] for n in manifest['not_applicable'] if n['property'] == pid)
            out += [f"- **Not applicable**: {why}"]
        if pid in detail:
            out += ['', detail[pid].strip()]
        out.append('')
    out += ['## Planted changes', '',
            'Each is kept in `seeded/<id>/` with a demonstration; all keep the stable tests '
            'passing. "Caught" is by the quick check of the property named.', '',
            '| id | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
    for path in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        m = json.load(open(path))
        sid = os.path.basename(os.path.dirname(path))
        cell = lambda s: str(s).replace('|', '\\|').replace('\n', ' ')
        out.append(f"| {sid} | {m['property']} | {cell(m['what_it_breaks'])} | {cell(m['needs'])} "
                   f"| {m.get('caught_by', m['property'])} |")
    out += ['', '## Defects found in the repository', '', 'Repaired (one `fix:` commit each):', '']
    for f in known['fixed']:
        out.append('- ' + (f if isinstance(f, str) else json.dumps(f)))
    out += ['', 'Recorded, not repaired (each check prints them as KNOWN-FINDING):', '']
    for f in known['findings']:
        out.append('- ' + (f if isinstance(f, str) else ', '.join(f"{k}: {v}" for k, v in f.items())))
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as fp:
        fp.write('\n'.join(out) + '\n')


if __name__ == '__main__':
    main()
