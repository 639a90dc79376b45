"""Run the check of a property: python3-vt vx/run.py C04 [--tier quick|thorough]."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
from multiprocessing.connection import wait

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VX_REPO', '/repo')
SITE = '/opt/venv/lib/python3.12/site-packages'
PLAIN = '/opt/venv/bin/python'


def setup_symbolic():
    sys.dont_write_bytecode = True
    sys.path.insert(0, VERIF)
    sys.path.append(SITE)
    os.environ.setdefault('GRPC_ENABLE_FORK_SUPPORT', '0')
    from vx import clock, instrument, protostub, sched
    clock.install()
    sched.install()
    protostub.install()
    sys.meta_path.insert(0, instrument.Finder({'deep': os.path.join(REPO, 'src', 'deep'),
                                               'harness': os.path.join(VERIF, 'harness')}))


COVERED = set()


def watch_functions():
    root = os.path.join(REPO, 'src') + os.sep
    mon = sys.monitoring
    mon.use_tool_id(mon.PROFILER_ID, 'vx-functions')

    def on_start(code, _):
        if code.co_filename.startswith(root):
            COVERED.add('%s:%s' % (code.co_filename[len(root):], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, on_start)
    mon.set_events(mon.PROFILER_ID, mon.events.PY_START)


class Timeout(BaseException):
    pass


def worker(conn, harnesses, tier, state):
    from vx.api import X
    from vx.core import ST
    from vx.explore import explore
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    watch_functions()

    def on_alarm(*_):
        ST.aborted = ST.aborted or 'timeout'
        raise Timeout()
    signal.signal(signal.SIGALRM, on_alarm)

    def make():
        x = X()
        x.tier = tier
        return x
    while True:
        task = conn.recv()
        if task is None:
            return
        hi, prefixes, seconds, max_paths, sample = task
        h = harnesses[hi]

        def timed(x, fn=h.fn):
            signal.setitimer(signal.ITIMER_REAL, h.path_seconds, 0.2)
            try:
                return fn(x)
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
        res = explore(timed, prefixes, make, state.restore, seconds, max_paths, sample)
        res.functions = set(COVERED)
        conn.send((hi, res))


class Total:
    def __init__(self):
        self.r = None
        self.paths = self.infeasible = self.aborted = self.errors = self.queries = self.checks = self.forks = 0
        self.transitions = 0
        self.solver_time = 0.0
        self.violations, self.samples, self.error_samples = [], [], []
        self.reached, self.incomplete = {}, {}
        self.seconds = 0.0
        self.exhausted = False
        self.left = 0

    def add(self, r):
        for k in ('paths', 'infeasible', 'aborted', 'errors', 'queries', 'checks', 'forks', 'solver_time', 'transitions'):
            setattr(self, k, getattr(self, k) + getattr(r, k))
        self.violations += r.violations
        if len(self.samples) < 40:
            self.samples += r.samples
        if len(self.error_samples) < 3:
            self.error_samples += r.error_samples
        for d, s in ((self.reached, r.reached), (self.incomplete, r.incomplete)):
            for k, v in s.items():
                d[k] = d.get(k, 0) + v


def run_replay(items, timeout):
    """Run the inputs on the plain code with the plain interpreter."""
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', VX_REPO=REPO)
    try:
        p = subprocess.run([PLAIN, '-B', os.path.join(VERIF, 'vx', 'replay.py'), '-'], input=json.dumps(items),
                           capture_output=True, text=True, timeout=timeout, env=env, cwd='/tmp')
    except subprocess.TimeoutExpired:
        return [{'failures': [], 'error': 'timeout', 'timeout': True}]
    out = []
    for line in p.stdout.splitlines():
        if line.startswith('VXRESULT '):
            out.append(json.loads(line[9:]))
    if not out:
        out = [{'failures': [], 'error': 'replay failed: %s' % p.stderr[-2000:]}]
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VX_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--budget', type=float)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--verbose', '-v', action='store_true')
    args = ap.parse_args()
    pid, tier = args.property, args.tier
    t_start = time.time()
    setup_symbolic()
    import logging
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module('harness.%s' % pid.lower())
    from vx.instrument import ModuleState
    harnesses = [h for h in mod.HARNESSES if tier in h.tiers and (not args.only or args.only in h.name)]
    budget = args.budget or (mod.BUDGET.get(tier, 25) if hasattr(mod, 'BUDGET') else (60 if tier == 'quick' else 300))
    state = ModuleState(['deep', 'harness'])
    ctx = mp.get_context('fork')
    procs = []

    stale = os.path.join(VERIF, 'evidence', '%s-violation.json' % pid)
    if os.path.exists(stale):
        os.remove(stale)

    def spawn():
        a, b = ctx.Pipe()
        p = ctx.Process(target=worker, args=(b, harnesses, tier, state), daemon=True)
        p.start()
        b.close()
        procs.append((p, a))
        return p, a
    totals = [Total() for _ in harnesses]
    queue = [[[]] for _ in harnesses]      # prefixes to run
    busy = {}
    idle = [spawn()[1] for _ in range(args.jobs)]
    deadline = time.time() + budget
    weights = [h.weight for h in harnesses]
    spent = [0.0] * len(harnesses)
    hung = []
    functions = set()
    confirmed, unconfirmed, tried, findings = [], [], set(), {}
    sampled = []
    known = load_known(pid)

    def on_violation(hi, msg, inputs, finding):
        key = (harnesses[hi].name, msg.split(':')[0] if len(msg) > 200 else msg, finding)
        n = sum(1 for k in tried if k[0] == key)
        if n >= 3 or len(tried) > 24:
            return
        tried.add((key, n))
        item = {'property': pid, 'harness': harnesses[hi].name, 'tier': tier, 'inputs': inputs, 'message': msg}
        r = run_replay([item], harnesses[hi].replay_seconds)[0]
        hang = r.get('timeout') and 'terminate' in msg
        if hang:
            r['failures'] = [[msg, None]]
        fresh = []
        for m, f in r['failures']:
            if f is not None and f in known:
                findings.setdefault(f, m)
            else:
                fresh.append([m, f])
        if fresh:
            item['confirmed'] = fresh
            confirmed.append(item)
        elif not r['failures']:
            unconfirmed.append((item, r))

    while (busy or any(queue)) and not confirmed:
        now = time.time()
        while idle and any(queue) and now < deadline:
            hi = min((i for i in range(len(harnesses)) if queue[i]), key=lambda i: spent[i] / weights[i])
            take = max(1, min(16, len(queue[hi]) // (2 * args.jobs)))
            prefixes = [queue[hi].pop(0) for _ in range(take)]
            c = idle.pop()
            slice_ = min(0.25 if totals[hi].paths < 40 else 1.5, max(0.2, deadline - now))
            spent[hi] += slice_ * 0.1
            sample = 1 if totals[hi].paths < 10 else (37 if totals[hi].paths < 2000 else 1009)
            c.send((hi, prefixes, slice_, 60 if totals[hi].paths < 40 else 100000, sample))
            busy[c] = (hi, now, prefixes)
        if not busy:
            break
        for c in wait(list(busy), timeout=0.5):
            hi, t0, _ = busy.pop(c)
            try:
                _, res = c.recv()
            except EOFError:
                hung.append((hi, 'worker died'))
                idle.append(spawn()[1])
                continue
            spent[hi] += time.time() - t0
            totals[hi].seconds += time.time() - t0
            totals[hi].add(res)
            functions |= res.functions
            # alternate the ends, so all parts are visited when the budget is not enough
            queue[hi] += res.pending
            idle.append(c)
            for msg, inputs, finding in res.violations:
                on_violation(hi, msg, inputs, finding)
        for c, (hi, t0, prefixes) in list(busy.items()):
            if time.time() - t0 > harnesses[hi].path_seconds + 30:
                busy.pop(c)
                for p, a in procs:
                    if a is c:
                        p.kill()
                hung.append((hi, 'path does not end'))
                idle.append(spawn()[1])
    for i, t in enumerate(totals):
        t.left = len(queue[i])
        t.exhausted = not queue[i] and not any(h == i for h, _ in hung) and not confirmed
    for p, a in procs:
        p.kill()
    # replay passing paths on the plain code: the encoding has to agree with it
    items, diverged, validated = [], [], 0
    if not confirmed:
        for i, t in enumerate(totals):
            n = 4 if tier == 'quick' else 12
            step = max(1, len(t.samples) // n)
            for inputs, checks in t.samples[::step][:n]:
                items.append({'property': pid, 'harness': harnesses[i].name, 'tier': tier, 'inputs': inputs,
                              'checks': checks})
            for err, inputs in t.error_samples[:1]:
                items.append({'property': pid, 'harness': harnesses[i].name, 'tier': tier, 'inputs': inputs,
                              'checks': None})
        if items:
            results = run_replay(items, 120)
            for item, r in zip(items, results):
                fresh = [f for f in r['failures'] if f[1] is None or f[1] not in known]
                for m, f in r['failures']:
                    if f is not None and f in known:
                        findings.setdefault(f, m)
                if fresh:
                    item['confirmed'] = fresh
                    confirmed.append(item)
                elif r.get('error'):
                    diverged.append((item['harness'], r['error'][-600:]))
                elif item['checks'] is not None and r['checks'] != item['checks'] and not r['failures']:
                    diverged.append((item['harness'], 'checks %s / %s' % (item['checks'], r['checks'])))
                else:
                    validated += 1
    rc = finish(pid, tier, mod, harnesses, totals, functions, confirmed, unconfirmed, hung, diverged, validated, findings,
                known, time.time() - t_start, budget, items, args.verbose)
    sys.stdout.flush()
    os._exit(rc)


def load_known(pid):
    out = {}
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property=%s ' % pid):
                    rest = line.split(' ', 2)[2]
                    key, _, text = rest.partition(' ')
                    out[key.replace('key=', '')] = text
    except FileNotFoundError:
        pass
    return out


def finish(pid, tier, mod, harnesses, totals, functions, confirmed, unconfirmed, hung, diverged, validated, findings, known,
           wall, budget, items, verbose):
    for key in sorted(findings):
        print('KNOWN-FINDING: property=%s %s' % (pid, known[key]))
    rc = 0
    if confirmed:
        rc = 1
        path = os.path.join(VERIF, 'evidence', '%s-violation.json' % pid)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            json.dump(confirmed[0], f, indent=1)
        for m, _ in confirmed[0]['confirmed'][:5]:
            print('  %s: %s' % (confirmed[0]['harness'], m[:500]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    paths = sum(t.paths for t in totals)
    problems = []
    per = []
    for h, t in zip(harnesses, totals):
        missing = [m for m in h.reach if not t.reached.get(m)]
        if missing and not confirmed:
            problems.append('%s: never reached %s' % (h.name, ','.join(missing)))
        if t.errors:
            problems.append('%s: %d paths raised in the harness: %s' % (h.name, t.errors, t.error_samples[0][0][-700:]))
        per.append({'harness': h.name, 'bounds': h.bounds, 'paths': t.paths, 'infeasible': t.infeasible,
                    'queries': t.queries, 'solver_seconds': round(t.solver_time, 2), 'asserts_discharged': t.checks,
                    'exhausted': t.exhausted, 'prefixes_left': t.left, 'reached': t.reached,
                    'incomplete': t.incomplete, 'aborted': t.aborted, 'raised': t.errors})
    if unconfirmed and verbose:
        with open(os.path.join(VERIF, 'evidence', '%s-unconfirmed.json' % pid), 'w') as f:
            json.dump(unconfirmed[0][0], f, indent=1)
    for item, r in unconfirmed:
        problems.append('unconfirmed counterexample: %s %s %s' % (item['harness'], item['message'][:200],
                                                                   (r.get('error') or '')[-300:]))
    for hi, why in hung:
        problems.append('%s: %s' % (harnesses[hi].name, why))
    for h, why in diverged:
        problems.append('divergence: %s: %s' % (h, why))
    decided = all(t.exhausted and not t.incomplete and not t.errors for t in totals) and not problems
    transitions = sum(t.transitions for t in totals)
    samples = [{'harness': i['harness'], 'inputs': i['inputs']} for i in items[:3]]
    ev = {
        'property': pid, 'tier': tier, 'level': 'model_checking', 'technique': mod.TECHNIQUE,
        'result': 'violated' if confirmed else ('holds within the bounds' if decided else
                                                'no violation found; not exhausted or partly inconclusive'),
        'states': max(paths, 1), 'transitions': max(transitions, 1), 'traces_validated_against_impl': validated,
        'samples': samples,
        'explanation': mod.__doc__.strip() if mod.__doc__ else '',
        'harnesses': per, 'functions_encoded': sorted(functions)[:250], 'functions_encoded_count': len(functions),
        'queries': sum(t.queries for t in totals), 'solver_seconds': round(sum(t.solver_time for t in totals), 2),
        'wall_seconds': round(wall, 2), 'budget_seconds': budget,
        'solver_unknown': sum(t.incomplete.get('unknown', 0) + t.incomplete.get('unknown check', 0) for t in totals),
        'inconclusive': problems[:20], 'known_findings': sorted(findings),
        'stubs': getattr(mod, 'STUBS', ''), 'outside': getattr(mod, 'OUTSIDE', ''),
    }
    while len(json.dumps(ev)) > 60000 and ev['functions_encoded']:
        ev['functions_encoded'] = ev['functions_encoded'][:len(ev['functions_encoded']) // 2]
        ev['samples'] = ev['samples'][:1]
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', '%s.json' % pid), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d paths, %d queries, %.1fs solver, %.1fs wall, %d validated, %s' % (
        pid, tier, paths, ev['queries'], ev['solver_seconds'], wall, validated, ev['result']))
    for p in per:
        if verbose or not p['exhausted']:
            print('   %s' % {k: p[k] for k in ('harness', 'paths', 'infeasible', 'queries', 'asserts_discharged',
                                               'exhausted', 'prefixes_left', 'incomplete', 'reached')})
    for p in problems:
        print('   INCONCLUSIVE %s' % p)
    if rc == 0 and paths == 0:
        print('   nothing was decided')
        return 2
    return rc


if __name__ == '__main__':
    main()
