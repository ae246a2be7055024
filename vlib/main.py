import sys, os, time, traceback, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import *
from registry import REG
def main():
    prop = sys.argv[1]; tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    mod, level = REG[prop]
    t = time.time(); cov = Cov()
    try:
        importlib.import_module(mod).check(prop, tier, cov)
    except Violation as v:
        log('FOUND: ' + v.msg)
        evidence(prop, tier, level, cov, time.time() - t, violations=[v.msg])
        log('VIOLATION property=%s replay=%s' % (prop, v.replay))
        return 1
    except Broken as b:
        log('BROKEN: ' + str(b)); return 2
    except Exception:
        traceback.print_exc(); return 2
    evidence(prop, tier, level, cov, time.time() - t, violations=[])
    log('OK property=%s %s: %d states, %d traces, %d events (%.1fs)' % (prop, tier, cov.states, cov.traces, cov.events, time.time() - t))
    return 0
sys.exit(main())
