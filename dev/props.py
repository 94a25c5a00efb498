#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: run to regenerate both."""

import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, CHECKS, NA = [], [], []
PKG = 'src/eprempy/'


def prop(id, title, statement, over, text, why, files, mechanism, technique=None,
         note=None, na=None, level='other'):
    PROPS.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': [PKG + f for f in files],
            'mechanism': [{'name': n, 'where': PKG + w} for n, w in mechanism],
        },
    })
    if na:
        NA.append({'property': id, 'reason': na})
    else:
        CHECKS.append({
            'property': id,
            'quick_cmd': f"python3 check.py {id}",
            'thorough_cmd': f"python3 check.py {id} --thorough",
            'technique': technique,
            'level': level,
            'level_note': note,
        })


exec(open(os.path.join(HERE, 'dev', 'proplist.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fp:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            fp.write(json.dumps(p) + '\n')
    manifest = {
        'version': 1, 'setup_cmd': 'true', 'checks': CHECKS,
        'not_applicable': NA,
        'notes': (
            "Every check parses /repo/src on each run and decides its obligations "
            "by abstract interpretation of the source; nothing of the package is "
            "imported or executed. No hooks are needed in /repo."
        ),
    }
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
        json.dump(manifest, fp, indent=1)
        fp.write('\n')


if __name__ == '__main__':
    main()
