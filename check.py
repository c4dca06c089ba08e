#!/usr/bin/env python3-vt
"""check.py <property> [quick|thorough]"""
import atexit
import multiprocessing
import os
import signal
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from pgvsym import registry, runner

    def late(*_):
        raise TimeoutError('time budget of the check used up')
    if tier == 'quick':
        signal.signal(signal.SIGALRM, late)
        signal.alarm(820)       # a quick check answers within 900 s, with what it has explored
    try:
        rc = registry.run(prop, tier, seed)
    except Exception as e:      # the machinery gave up: no verdict on the rest, and no alarm
        traceback.print_exc()
        res = runner.CURRENT or runner.Result(prop, tier, seed)
        res.inconclusive.append('the check stopped early: %s: %s' % (type(e).__name__, str(e)[:300]))
        rc = res.finish()
        sys.stdout.flush()
        sys.stderr.flush()
        for p in multiprocessing.active_children():
            p.kill()
        atexit._run_exitfuncs()     # scratch directories
        os._exit(rc)
    sys.exit(rc)


if __name__ == '__main__':
    main()
