"""Run a harness on concrete inputs, over the plain code of the repository: python replay.py FILE|-"""
import importlib
import json
import logging
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VX_REPO', '/repo')


def run(item):
    from vx.api import AssumptionFailed, Concrete
    mod = importlib.import_module('harness.%s' % item['property'].lower())
    h = [h for h in mod.HARNESSES if h.name == item['harness']][0]
    x = Concrete(item['inputs'])
    x.tier = item.get('tier', 'quick')
    error = None
    try:
        h.fn(x)
    except AssumptionFailed:
        error = 'assumption' if not x.failures else None
    except BaseException as e:
        error = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
    finally:
        x.cleanup()
    return {'failures': x.failures, 'error': error, 'checks': x.checks, 'reached': x.marks}


def main():
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(REPO, 'src'))
    sys.path.insert(0, VERIF)
    logging.disable(logging.CRITICAL)
    from vx import clock, sched
    clock.install()
    sched.install()
    items = json.load(sys.stdin if sys.argv[1] == '-' else open(sys.argv[1]))
    single = isinstance(items, dict)
    bad = False
    for item in [items] if single else items:
        r = run(item)
        bad = bad or bool(r['failures'])
        print('VXRESULT ' + json.dumps(r))
        sys.stdout.flush()
    os._exit(1 if bad and single else 0)


if __name__ == '__main__':
    main()
