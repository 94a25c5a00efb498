"""Run checks in-process against an overlaid source tree (development aid)."""

import contextlib
import importlib
import io
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from sa.model import Program, AnalysisError     # noqa: E402
from sa.report import Report, known_findings    # noqa: E402


def all_checks():
    d = os.path.join(HERE, 'sa', 'checks')
    return sorted(f[:-3].upper() for f in os.listdir(d)
                  if f.endswith('.py') and not f.startswith('_'))


def run(pids, overlay=None, root='/repo'):
    """{pid: ('ok'|'violation'|'broken', details)} on an overlaid tree."""
    out = {}
    program = Program(root, overlay=overlay)
    for pid in pids:
        mod = importlib.import_module(f"sa.checks.{pid.lower()}")
        rep = Report(pid, 'quick')
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                mod.run(program, rep)
            viols = rep.violations()
            if not viols:
                rep.check_floors()
        except AnalysisError as err:
            out[pid] = ('broken', str(err))
            continue
        except (TimeoutError, MemoryError) as err:
            import traceback
            out[pid] = ('broken', repr(err) + traceback.format_exc()[-300:])
            continue
        except RecursionError as err:
            out[pid] = ('broken', repr(err))
            continue
        except Exception as err:
            import traceback
            out[pid] = ('broken', traceback.format_exc()[-600:])
            continue
        listed = {(r, c) for r, c, t in known_findings(pid)}
        fresh = [v for v in viols if (v[0], v[1]) not in listed]
        if fresh:
            out[pid] = ('violation', [(v[0], v[1], v[2][:200]) for v in fresh[:4]])
        else:
            und = sum(1 for o in rep.obs if o[2] is None)
            out[pid] = ('ok', (len(rep.obs), und))
    return out
