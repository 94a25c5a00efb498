#!/usr/bin/env python3
"""Run one static check: ``check.py ID [--thorough] [--repo PATH]``.

Exit status: 0 the property's obligations hold, 1 a violation was found (a line
``VIOLATION property=ID replay=PATH`` names it), 2 the analysis could not run.
"""

import importlib
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa.model import Program, AnalysisError     # noqa: E402
from sa.report import Report, finish            # noqa: E402


def main(argv):
    pid = argv[0]
    tier = 'thorough' if '--thorough' in argv else 'quick'
    repo = '/repo'
    if '--repo' in argv:
        repo = argv[argv.index('--repo') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        mod = importlib.import_module(f"sa.checks.{pid.lower()}")
        rep = Report(pid, tier)
        program = Program(repo)
        rep.analysed['modules parsed'] = len(program.modules)
        rep.analysed['functions indexed'] = len(program.funcs)
        rep.analysed['classes indexed'] = len(program.classes)
        try:
            mod.run(program, rep)
        except (AnalysisError, MemoryError, RecursionError) as err:
            # what was found before the analysis got stuck still counts
            if not rep.violations():
                raise
            rep.note(f"analysis incomplete: {err!r}")
        extra = None
        if tier == 'thorough' and not rep.violations():
            sys.path.insert(0, os.path.join(HERE, 'dev'))
            import deep
            extra = deep.run(rep, repo)
        return finish(rep, mod.LEVEL, mod.EXPLANATION, mod.ASSUMPTIONS, seed, extra)
    except AnalysisError as err:
        print(f"{pid}: ANALYSIS BROKEN: {err}")
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
