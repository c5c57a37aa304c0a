#!/usr/bin/env python3
"""check.py ID: decide one property. Exit 0: held on everything explored; 1: violated (a
VIOLATION line names a replay); 2: the check itself failed."""
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rv import core, props  # noqa: E402


def main():
    pid = sys.argv[1]
    if pid == '--setup':
        for m in [m for ms in core.MODELS.values() for m in ms]:
            core.check_compiled(m)
        core.build()
        return 0
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    r = core.Runner(pid, tier, seed)
    try:
        props.CHECKS[pid](r)
    except core.Violation as v:
        r.evidence(1)
        print('%s: %s' % (pid, v.what))
        print('VIOLATION property=%s replay=%s' % (pid, v.replay))
        r.finish()
        return 1
    except core.ToolError as e:
        print('%s: the check failed: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    r.evidence(0)
    c = r.cov
    print('%s holds (%s): %d model states, %d episodes, %d events, %d observations judged, '
          '%d/1000 of the tolerance used, %.0f s' % (
              pid, tier, c['states'], c['episodes'], c['events_recorded'], c['observations_judged'],
              c['tolerance_used_permille'], core.time.time() - r.t0))
    r.finish()
    return 0


sys.exit(main())
