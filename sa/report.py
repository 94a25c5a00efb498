"""Obligations, known findings, evidence and exit status of one check."""

import json
import os
import time

from .model import AnalysisError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    """The obligations one check discharged on the current source."""

    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.obs = []               # (rule, construct, ok, detail, where)
        self.rules = {}             # rule -> text
        self.floors = {}
        self.notes = []
        self.analysed = {}
        self.start = time.time()

    def rule(self, name, text, floor=1):
        """Declare a rule; `floor` is the least number of decided instances."""
        self.rules[name] = text
        self.floors[name] = floor

    def ob(self, rule, construct, ok, detail='', where=''):
        """Record an obligation: True (holds), False (violated), None (undecided)."""
        if rule not in self.rules:
            raise AnalysisError(f"undeclared rule {rule}")
        self.obs.append((rule, str(construct), ok, detail, where))
        return ok

    def count(self, what, n=1):
        self.analysed[what] = self.analysed.get(what, 0) + n

    def note(self, text):
        self.notes.append(text)

    # ------------------------------------------------------------------

    def violations(self):
        out = []
        seen = set()
        for rule, construct, ok, detail, where in self.obs:
            if ok is False and (rule, construct) not in seen:
                seen.add((rule, construct))
                out.append((rule, construct, detail, where))
        return out

    def check_floors(self):
        for rule, n in self.floors.items():
            got = sum(1 for o in self.obs if o[0] == rule and o[2] is not None)
            if got < n:
                raise AnalysisError(
                    f"rule {rule}: {got} decided instances, at least {n} expected"
                )


def known_findings(pid):
    """[(rule, construct, text)] listed for a property."""
    path = os.path.join(HERE, 'known-findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as fp:
        data = json.load(fp)
    return [
        (x['rule'], x['construct'], x['what'])
        for x in data.get('findings', []) if x['property'] == pid
    ]


def finish(rep, level, level_text, assumptions, seed, extra=None):
    """Print the verdict, write the evidence; returns the exit status."""
    viols = rep.violations()
    if not viols:
        rep.check_floors()
    known = known_findings(rep.pid)
    listed = {(r, c): t for r, c, t in known}
    fresh = [v for v in viols if (v[0], v[1]) not in listed]
    old = [v for v in viols if (v[0], v[1]) in listed]
    byrule = {}
    for rule, construct, ok, detail, where in rep.obs:
        d = byrule.setdefault(rule, {'holds': 0, 'violated': 0, 'undecided': 0})
        d['holds' if ok else 'violated' if ok is False else 'undecided'] += 1
    total = len(rep.obs)
    held = sum(1 for o in rep.obs if o[2])
    undecided = [o for o in rep.obs if o[2] is None]
    samples = [
        {'rule': o[0], 'construct': o[1], 'where': o[4]}
        for o in rep.obs if o[2]
    ][:12]
    coverage = {
        'explanation': level_text,
        'rules': {
            r: {'text': t, **byrule.get(r, {'holds': 0, 'violated': 0,
                                            'undecided': 0})}
            for r, t in rep.rules.items()
        },
        'obligations': total,
        'discharged': held,
        'undecided': len(undecided),
        'undecided_constructs': [
            {'rule': o[0], 'construct': o[1], 'why': o[3]} for o in undecided
        ][:40],
        'known_findings': len(old),
        'analysed': rep.analysed,
        'samples': samples,
    }
    if rep.notes:
        coverage['notes'] = rep.notes
    if extra:
        coverage.update(extra)
    evidence = {
        'property': rep.pid,
        'tier': rep.tier,
        'seed': seed,
        'level': level,
        'coverage': coverage,
        'assumptions': assumptions,
        'wall_s': round(time.time() - rep.start, 3),
        'violations': [
            {'rule': r, 'construct': c, 'detail': d, 'where': w}
            for r, c, d, w in fresh
        ] if False else len(fresh),
    }
    outdir = os.path.join(HERE, 'evidence')
    os.makedirs(outdir, exist_ok=True)
    replay = os.path.join(outdir, f"{rep.pid}.violations.txt")
    with open(replay, 'w') as fp:
        for r, c, d, w in fresh:
            fp.write(f"rule {r}: {rep.rules[r]}\n  construct: {c}\n"
                     f"  at: {w}\n  {d}\n\n")
    with open(os.path.join(outdir, f"{rep.pid}.json"), 'w') as fp:
        json.dump(evidence, fp, indent=1, default=str)
        fp.write('\n')
    for r, c, d, w in old:
        print(f"KNOWN-FINDING: property={rep.pid} [{r}] {listed[(r, c)]}")
    for r, c, d, w in fresh:
        print(f"{w}: rule {r} violated by {c}: {d}")
    print(f"{rep.pid}: {total} obligations, {held} hold, {len(fresh)} violated, "
          f"{len(old)} known, {len(undecided)} undecided, "
          f"{evidence['wall_s']} s")
    for o in undecided[:10]:
        print(f"  undecided: [{o[0]}] {o[1]}: {o[3]}")
    if fresh:
        print(f"VIOLATION property={rep.pid} replay={replay}")
        return 1
    return 0
