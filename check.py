#!/usr/bin/env python3
"""check.py <property id> [--replay FILE]: decides one property on /repo's current working tree."""
import importlib, json, os, sys, traceback

os.environ.setdefault('PYTHONHASHSEED', '0')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    args = sys.argv[1:]
    if not args:
        print(__doc__)
        return 2
    pid = args[0]
    only = None
    if '--replay' in args:
        with open(args[args.index('--replay') + 1]) as f:
            r = json.load(f)
        os.environ['VERIF_SEED'], os.environ['VERIF_TIER'] = str(r['seed']), r['tier']
        only = r
    from lib import build, report
    from lib.checks import CHECKS
    modname, fn = CHECKS[pid]
    chk = report.Check(pid)
    if only:
        chk.replaying = only['replay']
        chk.minimum = 0
    try:
        getattr(importlib.import_module('lib.checks.' + modname), fn)(chk)
        return chk.finish()
    except build.HarnessError as e:
        print('check could not run: ' + str(e))
        return 2
    except Exception:
        traceback.print_exc(file=sys.stdout)
        return 2


sys.exit(main())
