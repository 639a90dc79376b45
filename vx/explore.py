"""Depth first exploration of the paths of a harness."""
import sys
import time
import traceback

from .core import ST, PathAbort


class Result:
    def __init__(self):
        self.paths = self.aborted = self.infeasible = self.queries = self.checks = self.errors = self.forks = 0
        self.solver_time = 0.0
        self.violations = []
        self.samples = []
        self.reached = {}
        self.incomplete = {}
        self.error_samples = []
        self.functions = set()
        self.pending = []
        self.transitions = 0


def explore(harness, prefixes, make_x, before, seconds, max_paths, sample_every=0, functions=None):
    """Run paths until there are none left, or the budget is used; what is left is in pending."""
    res = Result()
    stack = list(prefixes)
    start = time.perf_counter()
    q0, t0 = ST.queries, ST.solver_time
    while stack:
        if res.paths + res.infeasible >= max_paths or time.perf_counter() - start > seconds:
            break
        prefix = stack.pop()
        before()
        ST.reset(prefix)
        x = make_x()
        ST.active = True
        err = None
        try:
            harness(x)
        except PathAbort:
            pass
        except BaseException as e:
            if ST.aborted is None:
                err = ''.join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
        finally:
            ST.active = False
            x.cleanup()
        stack.extend(reversed(ST.pending))
        res.transitions += len(ST.trail)
        res.forks += ST.forks
        res.checks += ST.checks
        for v in ST.violations:
            if len(res.violations) < 40:
                res.violations.append((v.msg, v.inputs, v.finding))
        for k in ST.incomplete:
            res.incomplete[k] = res.incomplete.get(k, 0) + 1
        for r in ST.reached:
            res.reached[r] = res.reached.get(r, 0) + 1
        if ST.aborted is not None:
            if ST.aborted in ('infeasible', 'assumption', 'violated'):
                res.infeasible += 1
            else:
                res.aborted += 1
            continue
        res.paths += 1
        if err is not None:
            res.errors += 1
            if len(res.error_samples) < 3:
                try:
                    inputs = ST.values(ST.get_model())
                except BaseException:
                    inputs = {}
                res.error_samples.append((err, inputs))
        elif sample_every and res.paths % sample_every == 1 and len(res.samples) < 3:
            try:
                res.samples.append((ST.values(ST.get_model()), ST.checks))
            except PathAbort:
                pass
    res.pending = stack
    res.queries, res.solver_time = ST.queries - q0, ST.solver_time - t0
    return res
