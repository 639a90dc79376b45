"""Delivery: the task handler and the push service are executed with their worker threads, over symbolic schedules and faults.

Which tasks fail, block or take long is symbolic, and so are the points where the threads are preempted. Each task reports
the thread that runs it and when it ends, what is sent is recorded by the channel.
"""
import threading

from deep.push.push_service import PushService
from deep.task import IllegalStateException, TaskHandler
from deep.api.tracepoint.eventsnapshot import EventSnapshot
from deep.api.attributes import BoundedAttributes
from deep.api.resource import Resource
from harness.agent import Agent, Channel
from harness.common import Frame, tp
from vx.sched import Sched
from vx.spec import H

TECHNIQUE = 'symbolic execution of the real source with z3 (path exploration, solver-decided branches and schedules, replayed models)'
STUBS = 'gRPC channel, paused frames, plugins record, virtual time'
OUTSIDE = 'tasks that never end (a flush waits for them); tasks that are cancelled by the caller; end of the interpreter; ' \
          'preemptions beyond the bound'

MANY = {'fire_count': '-1', 'fire_period': '0'}
PARTS = ('deep/task/', 'deep/push/push_service.py', 'deep/api/deep.py')
KINDS = ['ok', 'error', 'exit', 'slow', 'slow error', 'long']


class Tasks:
    """Tasks that report."""

    def __init__(self):
        self.runs, self.ended, self.gate = [], [], threading.Event()

    def task(self, i, kind, *args):
        self.runs.append((i, threading.current_thread()))
        if kind.startswith('slow'):
            # until another thread continues it
            self.gate.wait()
        elif kind == 'long':
            # longer than any wait
            threading.Event().wait(1000)
        self.ended.append(i)
        if kind.endswith('error'):
            raise ValueError('the task failed')
        if kind == 'exit':
            raise SystemExit('the task exits')
        return i


def check_runs(x, tasks, accepted, callers, what):
    x.check(sorted(i for i, _ in tasks.runs) == sorted(accepted), '%s: each accepted task runs once' % what)
    x.check(all(t not in callers for _, t in tasks.runs), '%s: the tasks run in the background' % what)


def submit(x, handler, tasks, i, kind, accepted, refused):
    try:
        handler.submit_task(tasks.task, i, kind)
        accepted.append(i)
    except Exception as e:
        refused.append((i, type(e)))


def drain(x):
    """A flush waits for all that was accepted."""
    n = 4 if x.tier == 'thorough' else 3
    chosen = x.combine({i: KINDS for i in range(n)}, 2)
    kinds = [chosen[i] for i in range(n)]
    x.assume(kinds.count("slow error") < n)
    accepted, refused, at_end = [], [], []
    with Sched(x, preemptions=1, only=PARTS, choices=1 if x.tier == 'thorough' else 0, start=10 ** 18, max_timeouts=40) as s:
        handler, tasks = TaskHandler(), Tasks()
        callers = [s.main.thread]

        def release():
            tasks.gate.set()
        for i, k in enumerate(kinds):
            submit(x, handler, tasks, i, k, accepted, refused)
        s.spawn(release)
        s.open = True
        with x.no_raise('flush'):
            handler.flush()
        at_end = list(tasks.ended)
        submit(x, handler, tasks, 'late', 'ok', accepted, refused)
        with x.no_raise('flush'):
            handler.flush()
        s.go()
    x.check(not s.deadlock, 'the flush returns')
    x.check(accepted == list(range(n)), 'the tasks are accepted')
    x.check([i for i, _ in refused] == ['late'], 'a task is refused after the flush')
    x.check(sorted(at_end) == accepted, 'all of the tasks have ended when the flush returns')
    check_runs(x, tasks, accepted, callers, 'drain')
    x.reached('end')


def race(x):
    """A flush at the same time as tasks are submitted, and complete."""
    n = 2
    kinds = x.pick('kinds', [('ok', 'ok'), ('error', 'ok'), ('ok', 'error'), ('error', 'error'), ('long', 'ok'), ('ok', 'long')])
    accepted, refused, at_end, before = [], [], [], []
    with Sched(x, preemptions=2 if x.tier == 'thorough' else 1, only=PARTS, choices=None if x.tier == 'thorough' else 1,
               locks='code', start=10 ** 18, max_timeouts=40) as s:
        handler, tasks = TaskHandler(), Tasks()

        def app():
            for i in range(n):
                submit(x, handler, tasks, i, kinds[i], accepted, refused)

        def other():
            submit(x, handler, tasks, 'other', 'ok', accepted, refused)

        def flush():
            before.extend(accepted)
            with x.no_raise('flush'):
                handler.flush()
            # nothing is accepted after this
            before.extend(accepted)
            at_end.append(list(tasks.ended))
            submit(x, handler, tasks, 'late', 'ok', accepted, refused)
        callers = [s.spawn(app), s.spawn(other), s.spawn(flush), s.main.thread]
        s.go()
        # all of what was accepted gets to run
        threading.Event().wait(5000)
    x.check(not s.deadlock and len(at_end) == 1, 'the flush returns')
    for ended in at_end:
        x.check(set(before) <= set(ended), 'all of the tasks have ended when the flush returns')
    x.check('late' not in accepted, 'a task is refused after the flush')
    x.check(sorted(map(str, accepted + [i for i, _ in refused])) == sorted(['0', '1', 'other', 'late']), 'each task is accepted or refused')
    x.check(sorted(map(str, [i for i, _ in tasks.runs])) == sorted(map(str, accepted)), 'each accepted task runs once')
    x.check(all(t not in callers for _, t in tasks.runs), 'the tasks run in the background')
    x.reached('end')


def settled(x):
    """Tasks that are added when the ones before have ended, and others still run."""
    n = 5 if x.tier == 'thorough' else 4
    kinds = [x.pick('kind%d' % i, ['ok', 'long', 'error'] if x.tier == 'thorough' or i % 2 else ['ok', 'long']) for i in range(n)]
    settle = [x.flag('settle%d' % i) for i in range(n)]
    accepted, refused = [], []
    with Sched(x, preemptions=0, choices=0, start=10 ** 18, max_timeouts=40) as s:
        handler, tasks = TaskHandler(), Tasks()
        for i, k in enumerate(kinds):
            submit(x, handler, tasks, i, k, accepted, refused)
            if settle[i]:
                threading.Event().wait(1)
        with x.no_raise('flush'):
            handler.flush()
        at_end = list(tasks.ended)
    x.check(not s.deadlock, 'the flush returns')
    x.check(accepted == list(range(n)), 'the tasks are accepted')
    x.check(sorted(at_end) == accepted, 'all of the tasks have ended when the flush returns')
    check_runs(x, tasks, accepted, [s.main.thread], 'settled')
    x.reached('end')


COUNTS = [5, 17, 33, 65, 130, 300]


def backlog(x):
    """Many tasks that wait for the workers, and more of them after these."""
    n = x.pick('tasks', COUNTS)
    kind, rest = x.pick('kind', ['ok', 'error', 'exit', 'long']), x.pick('rest', ['ok', 'error'])
    which = x.pick('which', [0, 1, n // 2, n - 1])
    more = x.pick('more', [0, n])
    accepted, refused = [], []
    with Sched(x, preemptions=0, choices=0, start=10 ** 18, max_timeouts=100) as s:
        handler, tasks = TaskHandler(), Tasks()
        for i in range(3):
            submit(x, handler, tasks, i, 'slow', accepted, refused)
        for i in range(3, n):
            submit(x, handler, tasks, i, kind if i == which else rest, accepted, refused)
        if more:
            tasks.gate.set()
            threading.Event().wait(1)
            tasks.gate = threading.Event()
            for i in range(n, n + more):
                submit(x, handler, tasks, i, 'slow' if i - n in (0, 1, which) else rest, accepted, refused)

        def release():
            # the flush waits for this
            threading.Event().wait(5)
            tasks.gate.set()
        s.spawn(release)
        s.open = True
        with x.no_raise('flush'):
            handler.flush()
        at_end = list(tasks.ended)
        submit(x, handler, tasks, 'late', 'ok', accepted, refused)
        s.go()
    x.check(not s.deadlock, 'the flush returns')
    x.check(accepted == list(range(n + more)), 'the tasks are accepted')
    x.check([i for i, _ in refused] == ['late'], 'a task is refused after the flush')
    x.check(sorted(at_end) == accepted, 'all of the tasks have ended when the flush returns')
    check_runs(x, tasks, accepted, [s.main.thread], 'backlog')
    x.reached('end')


OPS = ['ok', 'error', 'exit', 'flush', 'open', 'nested', 'same']


def histories(x):
    """Sequences of tasks, flushes and openings."""
    ops = [x.pick('op%d' % i, OPS) for i in range(5 if x.tier == 'thorough' else 4)]
    accepted, refused, want, want_refused = [], [], [], []
    is_open, checks = True, []
    with Sched(x, preemptions=0, choices=1 if x.tier == 'thorough' else 0, start=10 ** 18, max_timeouts=40) as s:
        handler, tasks = TaskHandler(), Tasks()
        for i, op in enumerate(ops):
            if op == 'flush':
                with x.no_raise('flush'):
                    handler.flush()
                is_open = False
                checks.append((sorted(map(str, tasks.ended)), sorted(map(str, want))))
            elif op == 'open':
                with x.no_raise('open'):
                    handler.open()
                is_open = True
            else:
                if op == 'nested':
                    def nested(j):
                        # a task that adds another one
                        submit(x, handler, tasks, j + '-inner', 'ok', accepted, refused)
                    try:
                        handler.submit_task(nested, str(i))
                    except Exception as e:
                        refused.append((str(i), type(e)))
                        want_refused.append(str(i))
                        continue
                    # it is accepted, or refused when a flush was before it
                    threading.Event().wait(1)
                    if is_open:
                        want.append(str(i) + '-inner')
                    continue
                submit(x, handler, tasks, 'same' if op == 'same' else str(i), 'ok' if op == 'same' else op, accepted, refused)
                (want if is_open else want_refused).append('same' if op == 'same' else str(i))
        with x.no_raise('flush'):
            handler.flush()
    x.check(not s.deadlock, 'the flush returns')
    for got, expected in checks:
        x.check(got == expected, 'all of the tasks have ended when the flush returns')
    x.check(sorted(accepted) == sorted(want), 'what is accepted')
    x.check(sorted(i for i, _ in refused) == sorted(want_refused), 'what is refused')
    check_runs(x, tasks, want, [s.main.thread], 'history')
    x.reached('end')


class Observed(EventSnapshot):
    """Snapshot that reports the thread that reads its content, and can fail to convert."""

    def __init__(self, *args):
        self.read_by, self.error = [], None
        super().__init__(*args)

    @property
    def frames(self):
        self.read_by.append(threading.current_thread())
        if self.error is not None:
            raise self.error('cannot be converted')
        return super().frames


def snapshot(i):
    from deep.api.tracepoint.tracepoint_config import TracePointConfig
    trigger = TracePointConfig('tp%d' % i, 'app.py', 10, {}, [], [])
    return Observed(trigger, 10 ** 18, Resource({'service.name': 'app'}), [], {})


FAULTS = ['none', 'convert', 'send', 'send exit', 'slow send']


class Exit(SystemExit):
    pass


def pushes(x):
    """Snapshots that are handed over by two threads, with failures."""
    n = 3
    chosen = x.combine({i: FAULTS for i in range(n)}, None if x.tier == 'thorough' else 1)
    faults = [chosen[i] for i in range(n)]
    sent, metadata = [], []
    channel = Channel(x)
    gate = threading.Event()
    snapshots = [snapshot(i) for i in range(n)]
    by_id = {}

    def send(message):
        i = by_id[message.ID]
        sent.append((i, threading.current_thread()))
        if faults[i] == 'send':
            raise ConnectionError('unavailable')
        if faults[i] == 'send exit':
            raise Exit('exit')
        if faults[i] == 'slow send':
            threading.Event().wait(60)
    channel.on_send = send

    class Grpc:
        def __init__(self):
            self.channel = channel

        def metadata(self):
            metadata.append(1)
            return [('key', 'value')]
    for i, snap in enumerate(snapshots):
        by_id[bytes(snap.id.to_bytes(16, 'big'))] = i
        if faults[i] == 'convert':
            snap.error = ValueError
        del snap.read_by[:]
    with Sched(x, preemptions=1, only=PARTS, choices=1 if x.tier == 'thorough' else 0, start=10 ** 18, max_timeouts=40) as s:
        handler = TaskHandler()
        push = PushService(Grpc(), handler)

        def app(items):
            for i in items:
                with x.no_raise('push'):
                    push.push_snapshot(snapshots[i])
        threads = [s.spawn(app, [0, 2]), s.spawn(app, [1]), s.main.thread]
        s.go()
        with x.no_raise('flush'):
            handler.flush()
        done = sorted(i for i, _ in sent)
        late = snapshot(9)
        by_id[bytes(late.id.to_bytes(16, 'big'))] = 9
        faults.extend(['none'] * 7)
        del late.read_by[:]
        try:
            push.push_snapshot(late)
            refused = False
        except Exception:
            refused = True
    x.check(not s.deadlock, 'the flush returns')
    x.check(refused and not late.read_by and len(done) == len(sent), 'a snapshot is refused after the flush')
    x.check(set(done) == {i for i in range(n) if faults[i] != 'convert'}, 'each snapshot is sent')
    for i in range(n):
        times = [1 for j, _ in sent if j == i]
        x.check(len(times) == (faults[i] != 'convert'), 'each snapshot is sent once')
        x.check(all(t not in threads for t in snapshots[i].read_by) and snapshots[i].read_by, 'the snapshot is converted in the background')
    x.check(all(t not in threads for _, t in sent), 'the snapshot is sent in the background')
    x.reached('end')


def hits(x):
    """Tracepoints that are hit by threads of the application, the agent is shut down at the end."""
    n = 3
    chosen = x.combine({i: ['none', 'send', 'slow send'] for i in range(n)}, None if x.tier == 'thorough' else 1)
    faults = [chosen[i] for i in range(n)]
    sent = []

    def send(message):
        i = int(message.tracepoint.ID)
        sent.append((i, threading.current_thread()))
        if faults[i] == 'send':
            raise ConnectionError('unavailable')
        if faults[i] == 'slow send':
            threading.Event().wait(60)
    agent = Agent(x, inline=False, config={'NO_TRACE': True, 'POLL_TIMER': 3600}, channel=Channel(x, send=send))
    with Sched(x, preemptions=1, only=PARTS, choices=1 if x.tier == 'thorough' else 0, start=10 ** 18, max_timeouts=60) as s:
        plugins, resource = agent.config.plugins, agent.config.resource
        with x.no_raise('start'):
            agent.deep.start()
        agent.config.plugins, agent.config.resource = plugins, resource
        agent.handler.new_config([tp(str(i), 'app.py', 10 + i, MANY) for i in range(n)])

        def app(lines):
            for i in lines:
                with x.no_raise('trace'):
                    agent.handler.trace_call(Frame('/app/app.py', 'f', 10 + i, {'v': i}), 'line', None)
        threads = [s.spawn(app, [0, 1]), s.spawn(app, [2]), s.main.thread]
        s.go()
        with x.no_raise('shutdown'):
            agent.deep.shutdown()
        done = [i for i, _ in sent]
        with x.no_raise('trace'):
            agent.handler.trace_call(Frame('/app/app.py', 'f', 10, {'v': 1}), 'line', None)
        threading.Event().wait(1)
    x.check(not s.deadlock, 'the shutdown returns')
    x.check(sorted(done) == [0, 1, 2], 'each snapshot is sent once')
    x.check(len(sent) == len(done), 'nothing is sent after the shutdown')
    x.check(all(t not in threads for _, t in sent), 'the snapshot is sent in the background')
    x.reached('end')


HARNESSES = [
    H(drain, '3 (thorough 4) tasks that end, fail, exit, block or take 1000 s, a flush; 1 preemption at any line or lock operation of '
             'deep/task, 1 choice (quick: none) of the next thread', weight=2),
    H(race, '3 tasks on 2 threads that end, fail or take 1000 s, a flush on a third one; 1 (thorough 2) preemptions, 1 (thorough any) choices', weight=2),
    H(settled, '4 (thorough 5) tasks that end, fail or take 1000 s, each added at once or 1 s after the one before'),
    H(backlog, 'one of %d numbers of tasks up to %d, most of which wait for the ones before, and as many again or none' % (len(COUNTS), COUNTS[-1])),
    H(histories, 'every sequence of 4 (thorough 5) of %d operations' % len(OPS)),
    H(pushes, '3 snapshots on 2 threads, 5 faults, 1 (thorough any number) of them with a fault; 1 preemption', weight=2),
    H(hits, '3 hits on 2 threads, 3 faults, 1 (thorough any number) of them with a fault, start and shutdown; 1 preemption', weight=2),
]
BUDGET = {'quick': 60, 'thorough': 600}
