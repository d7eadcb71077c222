#!/usr/bin/env python3
"""check.py <property> [tier]: decides one property from /repo's current sources."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'engine'))
sys.dont_write_bytecode = True
sys.setrecursionlimit(60000)
import threading
def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2: os.environ['VERIF_TIER'] = sys.argv[2]
    import checks
    checks.run(pid)
LIMIT = float(os.environ.get('VERIF_LIMIT', '780'))       # seconds; a check that is stopped from outside gives no answer
rc = [3]
def broken(why):
    """the analysis could not be finished: what was decided is reported, nothing is established"""
    import report
    if report.Check.current is None: return 3
    try: report.Check.current.broken_off(why)
    except SystemExit as e: return e.code if isinstance(e.code, int) else 3
    return 3
def guard():
    try: main(); rc[0] = 0
    except SystemExit as e: rc[0] = e.code if isinstance(e.code, int) else 3
    except BaseException as e:
        import traceback; traceback.print_exc(); rc[0] = broken('the analysis failed: %r' % (e,))
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=guard, daemon=True); t.start(); t.join(LIMIT)
if t.is_alive():
    try: rc[0] = broken('stopped after %d s' % LIMIT)
    except BaseException: rc[0] = 3
sys.stdout.flush(); os._exit(rc[0])
