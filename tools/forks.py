"""Where a harness forks: python3-vt tools/forks.py C08 texts [seconds]."""
import collections
import os
import sys
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
import vx.run as run  # noqa: E402

run.setup_symbolic()
import importlib  # noqa: E402
import logging  # noqa: E402

logging.disable(logging.CRITICAL)
from vx import core  # noqa: E402
from vx.api import X  # noqa: E402
from vx.explore import explore  # noqa: E402
from vx.instrument import ModuleState  # noqa: E402

pid, name, seconds = sys.argv[1], sys.argv[2], float(sys.argv[3]) if len(sys.argv) > 3 else 10
mod = importlib.import_module('harness.' + pid.lower())
h = [h for h in mod.HARNESSES if h.name == name][0]
counts = collections.Counter()


def where():
    stack = [f for f in traceback.extract_stack()[:-2] if '/vx/' not in f.filename or 'strings' in f.filename or 'runtime' in f.filename]
    return ' <- '.join('%s:%s:%s' % (os.path.basename(f.filename), f.lineno, f.name) for f in reversed(stack[-5:]))


def wrap(owner, attr):
    orig = getattr(owner, attr)

    def fn(*a, **k):
        n = core.ST.forks
        r = orig(*a, **k)
        if core.ST.forks > n:
            counts[where()] += core.ST.forks - n
        return r
    setattr(owner, attr, fn)


wrap(core.State, 'decide')
wrap(core, '_pick')
state = ModuleState(['deep', 'harness'])


def make():
    x = X()
    x.tier = 'quick'
    return x


r = explore(h.fn, [[]], make, state.restore, seconds, 10 ** 9)
print(r.paths, r.infeasible, r.aborted, r.incomplete, r.errors, len(r.pending))
for e in r.error_samples:
    print(e[0])
for k, v in counts.most_common(12):
    print(v, k)
