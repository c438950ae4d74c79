#!/opt/venv/bin/python
"""check.py <property> [quick|thorough]"""
import os
import sys
import time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(100000)
import resource                                            # noqa: E402
import threading                                           # noqa: E402
from checks import core, registry                          # noqa: E402


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    c = registry.CHECKS[pid]
    units = c.units(pid, tier, seed)
    reports = core.run_units(units, limit=250 if tier == "quick" else 700, total=780 if tier == "quick" else 10800)
    sys.exit(core.finish(pid, tier, seed, c.technique, reports, t0, c.explanation, c.assumptions))


if __name__ == '__main__':
    threading.stack_size(512 * 1024 * 1024)
    code = []

    def run():
        try:
            main()
        except SystemExit as e:
            code.append(e.code)
        except BaseException:
            import traceback
            traceback.print_exc()
            code.append(3)
    # signals need the main thread: units run in worker processes
    resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY)) if False else None
    run()
    sys.stdout.flush()
    os._exit(code[0] if code else 3)
