"""Lifecycle: the agent is started and shut down over symbolic histories, configurations and faults, and its hooks are compared.

The trace hooks of sys are a variable of each thread, as those of the interpreter are, so that they can be read at each
step; one of the harnesses uses the real ones. The timer, the workers and the application are threads of the scheduler.
"""
import sys
import threading

import grpc

from deep.api.deep import Deep
from deep.api.plugin import Plugin, ResourceProvider, SnapshotDecorator
from deep.api.attributes import BoundedAttributes
from deep.api.resource import Resource
from deep.config import ConfigService
from deep.config.tracepoint_config import ConfigUpdateListener
from deepproto.proto.poll.v1.poll_pb2 import PollResponse
from deepproto.proto.tracepoint.v1.tracepoint_pb2 import TracePointConfig
from harness.agent import Channel
from harness.common import Frame, Logger, Metrics, Recorder, Spans, line_of, load, tp
from vx.sched import Sched
from vx.spec import H

TECHNIQUE = 'symbolic execution of the real source with z3 (path exploration, solver-decided branches and schedules, replayed models)'
STUBS = 'gRPC channel, trace hooks of sys (in place: the real ones), paused frames, plugins record and fail, virtual time'
OUTSIDE = 'calls of the service that never return; shutdown on another thread than start, from a plugin, or by two threads at a ' \
          'time; an agent that does not start; events that are processed while the agent is shut down; preemptions beyond the bound'

MANY = {'fire_count': '-1', 'fire_period': '0'}
PARTS = ('deep/task/', 'deep/push/push_service.py', 'deep/api/deep.py', 'deep/poll/', 'deep/utils.py', 'deep/processor/trigger_handler.py')


class Hooks:
    """The trace hooks of the threads."""

    def __init__(self, x):
        self.current, self.calls = {}, 0
        x.patch(sys, 'settrace', self.set)
        x.patch(sys, 'gettrace', self.get)
        x.patch(sys, 'setprofile', self.other)
        if hasattr(sys, '_settraceallthreads'):
            x.patch(sys, '_settraceallthreads', self.set_all)
        old = threading.gettrace()
        x.defer(lambda: setattr(threading, '_trace_hook', old))
        threading._trace_hook = None

    def set(self, fn):
        self.calls += 1
        self.current[threading.current_thread()] = fn

    def get(self):
        return self.current.get(threading.current_thread())

    def set_all(self, fn):
        for t in list(self.current):
            self.current[t] = fn

    def other(self, fn):
        self.calls += 1


def hook_a(frame, event, arg):
    return None


def hook_b(frame, event, arg):
    return None


class Control:
    """What the plugins do, and did."""

    def __init__(self):
        self.fail, self.closed, self.made = {}, [], []


CONTROL = Control()


class Recording(Plugin):
    """Plugin that records that it is shut down."""

    def __init__(self, config=None):
        super().__init__(config=config)
        self.control = CONTROL
        self.control.made.append(self)

    def shutdown(self):
        self.control.closed.append(self.name)
        error = self.control.fail.get(self.name)
        if error is not None:
            raise error('the plugin fails')


class First(Recording):
    def order(self):
        return -2


class Second(Recording, ResourceProvider):
    def resource(self):
        return Resource({'second': 'yes'})


class Third(Recording, SnapshotDecorator):
    def order(self):
        return 7

    def decorate(self, snapshot_id, context):
        return BoundedAttributes(attributes={'third': 'yes'})


NAMES = ['First', 'Second', 'Third']
OFF = {'PLUGIN_OTELPLUGIN': False, 'PLUGIN_PROMETHEUSPLUGIN': 'false', 'PLUGIN_OTELMETRICS': 'False'}


def make(x, config=None, poll=None, send=None):
    global CONTROL
    CONTROL = Control()
    channel = Channel(x, poll=poll, send=send).connect()
    settings = {'APP_ROOT': '/app', 'SERVICE_SECURE': 'False', 'POLL_TIMER': 10, 'SERVICE_URL': 'host:1',
                'PLUGINS': ['harness.c14.' + n for n in NAMES]}
    settings.update(OFF)
    settings.update(config or {})
    service = ConfigService(settings)
    deep = Deep(service)
    return deep, channel, CONTROL


def fire(hook, line=10, value=1):
    """What python does with the hook."""
    if hook is None:
        return
    frame = Frame('/app/app.py', 'f', line, {'v': value})
    frame.f_lineno = 9
    local = hook(frame, 'call', None)
    if local is not None:
        frame.f_lineno = line
        local(frame, 'line', None)


def sleep(seconds):
    threading.Event().wait(seconds)


def update(request):
    return PollResponse(ts_nanos=1, response_type=1, current_hash='h', response=[
        TracePointConfig(ID='polled', path='app.py', line_number=10, args=MANY)])


OPS = ['start', 'shutdown', 'hit', 'time', 'hook']
NO_TRACE = [None, True, 'True', 'yes', 'False']
ALL_HOOKS = [(None, None), (hook_a, hook_b), (hook_a, None), (None, hook_b)]


def histories(x):
    """Sequences of starts and shutdowns, with other hooks."""
    no_trace = x.pick('no_trace', NO_TRACE)
    disabled = no_trace in (True, 'True', 'yes')
    old_sys, old_thread = x.pick('hooks', ALL_HOOKS if x.tier == 'thorough' else ALL_HOOKS[:3])
    ops = [x.pick('op%d' % i, OPS) for i in range(5 if x.tier == 'thorough' else 4)]
    hooks = Hooks(x)
    deep, channel, control = make(x, {} if no_trace is None else {'NO_TRACE': no_trace}, poll=update)
    with Sched(x, preemptions=0, choices=0, start=10 ** 18, max_timeouts=60) as s:
        sys.settrace(old_sys)
        threading.settrace(old_thread)
        want, sent, cycles, started, stale = (old_sys, old_thread), 0, 0, False, None
        for i, op in enumerate(ops):
            polls = len(channel.polls)
            if op == 'start':
                with x.no_raise('start'):
                    deep.start()
                started = True
            elif op == 'shutdown':
                with x.no_raise('shutdown'):
                    deep.shutdown()
                if started:
                    cycles += 1
                started = False
                polls = len(channel.polls)
                sleep(100)
                x.check(len(channel.polls) == polls and all(t is s.main or t.state == 'done' or not is_timer(t) for t in s.threads),
                        'polling stops')
            elif op == 'hit':
                # by this thread, a new one, and one that was started before
                current = threading.gettrace()
                for hook in (sys.gettrace(), current, stale):
                    if hook not in (None, hook_a, hook_b):
                        fire(hook)
                        if started:
                            sent += 1
                sleep(1)
            elif op == 'time':
                sleep(25)
                x.check(not started or len(channel.polls) > polls, 'polling continues')
                x.check(started or len(channel.polls) == polls, 'polling stops')
            else:
                # the application sets the other hooks, when the agent is not running
                if not started:
                    want = (want[1], want[0])
                    sys.settrace(want[0])
                    threading.settrace(want[1])
            now = (sys.gettrace(), threading.gettrace())
            if started and not disabled:
                x.check(now[0] is not None and now[1] is not None and now[0] not in want and now[1] not in want, 'the hooks are installed')
                stale = stale or now[1]
            else:
                x.check(now[0] is want[0] and now[1] is want[1], 'the hooks are those of before')
            x.check(bool(deep.started) == started, 'started')
            x.check(sorted(control.closed) == sorted(NAMES * cycles), 'each plugin is shut down')
            x.check(len(channel.snapshots) == sent, 'hits')
    x.check(not s.deadlock, 'the calls return')
    x.reached('end')


def is_timer(t):
    return t.thread is not None and t.thread.name.startswith('Tracepoint')


SEND = ['none', 'error', 'exit', 'slow', 'slow error']
POLL = ['none', 'error', 'exit', 'slow', 'update', 'slow update', 'slow error']
FAULTS = {'send0': SEND, 'send1': SEND, 'poll0': ['none', 'error', 'exit', 'update'], 'poll1': POLL,
          'First': [None, ValueError, SystemExit, KeyboardInterrupt], 'Second': [None, ValueError, GeneratorExit],
          'Third': [None, ValueError, SystemExit], 'channel': ['none', 'close']}


class ExitNow(SystemExit):
    pass


def act(kind, seconds):
    """Do what the fault is."""
    if kind.startswith('slow'):
        sleep(seconds)
    if kind.endswith('error'):
        raise ConnectionError('unavailable')
    if kind.endswith('exit'):
        raise ExitNow('exit')


def faults(x):
    """Failures of the deliveries, the service and the plugins."""
    chosen = x.combine(FAULTS, 3 if x.tier == 'thorough' else 2)
    disabled = x.flag('disabled')
    twice = x.flag('twice')
    hooks = Hooks(x)
    sent, ended = [], []

    def send(message):
        i = len(sent)
        sent.append(i)
        if i < 2:
            act(chosen['send%d' % i], 60)
        ended.append(i)

    def poll(request):
        i = len(channel.polls) - 1
        kind = chosen['poll%d' % i] if i < 2 else 'none'
        act(kind, 40)
        return update(request) if kind.endswith('update') else PollResponse(response_type=0)
    deep, channel, control = make(x, {'NO_TRACE': 'True'} if disabled else {}, poll=poll, send=send)
    if chosen['channel'] == 'close':
        def close():
            raise ConnectionError('cannot close')
        channel.close = close
    control.fail = {n: chosen[n] for n in NAMES}
    with Sched(x, preemptions=0, choices=0, start=10 ** 18, max_timeouts=80) as s:
        sys.settrace(hook_a)
        threading.settrace(hook_b)
        with x.no_raise('start'):
            deep.start()
        hook = deep.trigger_handler.trace_call if disabled else sys.gettrace()
        deep.trigger_handler.new_config([tp('t', 'app.py', 10, MANY)])
        # the second poll is in progress when the agent is shut down
        sleep(12)
        deep.trigger_handler.new_config([tp('t', 'app.py', 10, MANY)])
        with x.no_raise('hit'):
            fire(hook)
            fire(hook)
        for _ in range(2 if twice else 1):
            with x.no_raise('shutdown'):
                deep.shutdown()
            x.check(sys.gettrace() is hook_a and threading.gettrace() is hook_b, 'the hooks are restored')
            x.check(sorted(control.closed) == NAMES, 'each plugin is shut down')
            x.check(not deep.started, 'the agent is not started')
            want = [i for i in range(2) if chosen['send%d' % i] in ('none', 'slow')]
            x.check(len(sent) == 2 and sorted(ended) == want, 'the deliveries are drained')
            x.check(not any(is_timer(t) and t.state != 'done' for t in s.threads), 'the timer is stopped')
        polls = len(channel.polls)
        with x.no_raise('hit'):
            fire(hook)
        sleep(100)
        x.check(len(channel.polls) == polls, 'polling stops')
        x.check(len(sent) == 2, 'nothing is sent after the shutdown')
        # and again, with the hooks of another tool
        control.fail = {}
        del control.closed[:]
        sys.settrace(hook_b)
        threading.settrace(hook_a)
        with x.no_raise('start'):
            deep.start()
        sleep(12)
        x.check(len(channel.polls) > polls + 1, 'polling starts again')
        x.check((sys.gettrace() is hook_b) == disabled and (threading.gettrace() is hook_a) == disabled, 'hooks of the second start')
        deep.trigger_handler.new_config([tp('t', 'app.py', 10, MANY)])
        with x.no_raise('hit'):
            fire(hook)
        with x.no_raise('shutdown'):
            deep.shutdown()
        x.check(len(sent) == 3, 'the delivery works again')
        x.check(sys.gettrace() is hook_b and threading.gettrace() is hook_a, 'the hooks of then are restored')
        x.check(sorted(control.closed) == NAMES, 'each plugin is shut down')
    x.check(not s.deadlock, 'the calls return')
    x.reached('end')


PENDING = {
    'method capture': dict(MANY, stage='method_capture', method_name='f'),
    'line capture': dict(MANY, stage='line_capture'),
    'method span': dict(MANY, span='method', method_name='f', snapshot='no_collect'),
    'line span': dict(MANY, span='line', snapshot='no_collect'),
    'line': dict(MANY),
    'log': dict(MANY, log_msg='hit', snapshot='no_collect'),
}


def pending(x):
    """The calls that are in progress when the agent is shut down: their later events, by the hooks they have, do nothing."""
    kinds = [x.pick('kind%d' % i, sorted(PENDING) + ([None] if i else [])) for i in range(2)]
    threads = x.pick('threads', ['this', 'another', 'both'])
    disabled, depth = x.flag('disabled'), x.index('depth', 2)
    faulty = x.pick('faulty', [None, 'poll', 'send', 'plugin'])
    Hooks(x)
    sent, logs, done = [], [], []

    def send(message):
        sent.append(message)
        if faulty == 'send':
            raise ExitNow('exit')

    def poll(request):
        act('exit' if faulty == 'poll' else 'none', 0)
        return PollResponse(response_type=0)
    deep, channel, control = make(x, {'NO_TRACE': disabled}, poll=poll, send=send)
    with Sched(x, preemptions=0, choices=0, start=10 ** 18, max_timeouts=60) as s:
        with x.no_raise('start'):
            deep.start()
        rec = Recorder()
        plugins = [cls(config=None) for cls in (Logger, Spans)]
        for p in plugins:
            p.rec = rec
        deep.config.plugins = list(deep.config.plugins) + plugins
        control.fail = {'First': ValueError} if faulty == 'plugin' else {}
        deep.trigger_handler.new_config([tp('t%d' % i, 'app.py', None if 'method' in k else 10, PENDING[k]) for i, k in enumerate(kinds) if k])
        hook = deep.trigger_handler.trace_call
        stopped = threading.Event()

        def began():
            frames = []
            for i in range(depth + 1):
                frame = Frame('/app/app.py', 'f', 8, {'v': i}, back=frames[-1][0] if frames else None)
                local = hook(frame, 'call', None)
                for line in (9, 10):
                    frame.f_lineno = line
                    local = local and local(frame, 'line', None)
                frames.append((frame, local))
            return frames

        def ends(frames):
            for frame, local in reversed(frames):
                frame.f_lineno = 11
                for event, arg in (('line', None), ('line', None), ('return', 3)):
                    # python calls what it has, and the global hook for new calls
                    (local or hook)(frame, event, arg)
                    other = Frame('/app/app.py', 'f', 8, {'v': 1}, back=frame)
                    new = hook(other, 'call', None)
                    other.f_lineno = 10
                    (new or hook)(other, 'line', None)
                    (new or hook)(other, 'return', None)

        def app():
            frames = began()
            done.append('began')
            stopped.wait()
            ends(frames)
            done.append('ended')
        with x.no_raise('hits'):
            others_ = [s.spawn(app) for _ in range(0 if threads == 'this' else 1)]
            s.open = True
            mine = began() if threads != 'another' else []
            sleep(1)
            deep.shutdown()
            x.check(len(done) == len(others_), 'hits')
            before = (len(sent), len(rec.logs), len(rec.spans), len(channel.polls))
            ends(mine)
            stopped.set()
            for t in others_:
                t.join()
            sleep(100)
            x.check(len(done) == 2 * len(others_), 'hits')
            x.check(before == (len(sent), len(rec.logs), len(rec.spans), len(channel.polls)), 'no actions after the shutdown')
            x.check(sorted(control.closed) == NAMES, 'each plugin is shut down')
            x.check(not deep.trigger_handler.trace_call(Frame('/app/app.py', 'f', 10), 'call', None) or len(sent) == before[0], 'no tracing')
    x.check(not s.deadlock, 'the calls return')
    x.reached('end')


def schedules(x):
    """A shutdown while other threads are traced, polls and deliveries are in progress."""
    hooks = Hooks(x)
    kind = x.pick('poll', ['none', 'update', 'error'])
    sent = []

    def poll(request):
        act(kind, 0)
        return update(request) if kind.endswith('update') else PollResponse(response_type=0)
    deep, channel, control = make(x, {}, poll=poll, send=sent.append)
    with Sched(x, preemptions=2 if x.tier == 'thorough' else 1, only=PARTS, choices=2, start=10 ** 18, max_timeouts=30) as s:
        sys.settrace(hook_a)
        threading.settrace(hook_b)
        with x.no_raise('start'):
            deep.start()
        hook = deep.trigger_handler.trace_call
        deep.trigger_handler.new_config([tp('t', 'app.py', 10, MANY)])

        def app():
            with x.no_raise('hit'):
                fire(hook)
                fire(hook)
        t = s.spawn(app)
        s.open = True
        with x.no_raise('shutdown'):
            deep.shutdown()
        done, polls = len(sent), len(channel.polls)
        x.check(sys.gettrace() is hook_a and threading.gettrace() is hook_b, 'the hooks are restored')
        x.check(sorted(control.closed) == NAMES, 'each plugin is shut down')
        x.check(not deep.started and not any(is_timer(t) and t.state != 'done' for t in s.threads), 'the timer is stopped')
        t.join()
        with x.no_raise('hit'):
            fire(hook)
        sleep(100)
    x.check(not s.deadlock, 'the calls return')
    x.check(len(channel.polls) == polls, 'polling stops')
    x.check(len(sent) == done, 'nothing is sent after the shutdown')
    x.reached('end')


PROGRAM = '''\
import threading


def work(n):
    v = n + 1
    return v  # A


def in_thread(n):
    out = []
    t = threading.Thread(target=lambda: out.append(work(n)))
    t.start()
    t.join()
    return out[0]
'''
MODULE = load(PROGRAM, '/app/work.py')


def in_place(x):
    """A program before, during and after the agent; the hooks are the real ones."""
    disabled, previous = x.flag('disabled'), x.flag('previous')
    n = x.index('n', 3)
    order = x.pick('order', ['start', 'start start', 'start shutdown start'])
    seen = []

    def other(frame, event, arg):
        if frame.f_code.co_filename == '/app/work.py':
            seen.append((frame.f_code.co_name, event))
        return other
    sent = []
    args = dict(MANY, watches='v')
    deep, channel, control = make(x, {'NO_TRACE': disabled, 'POLL_TIMER': 100000000}, send=sent.append, poll=lambda r: PollResponse(
        ts_nanos=1, response_type=1, current_hash='h', response=[
            TracePointConfig(ID='t', path='work.py', line_number=line_of(PROGRAM, '# A'), args=MANY, watches=['v'])]))
    installed = threading.Event()

    class Listener(ConfigUpdateListener):
        def config_change(self, ts, old_hash, current_hash, old_config, new_config):
            installed.set()
    deep.config.add_listener(Listener())
    before = (sys.gettrace(), threading.gettrace())
    try:
        sys.settrace(other if previous else None)
        threading.settrace(other if previous else None)
        base = (sys.gettrace(), threading.gettrace())
        first = [MODULE.work(n), MODULE.in_thread(n)]
        count = len(seen)
        del seen[:]
        for op in order.split():
            getattr(deep, op)()
        installed.wait(10)
        tracing = (sys.gettrace(), threading.gettrace())
        second = [MODULE.work(n), MODULE.in_thread(n)]
        deep.shutdown()
        after = (sys.gettrace(), threading.gettrace())
        del seen[:]
        third = [MODULE.work(n), MODULE.in_thread(n)]
    finally:
        sys.settrace(before[0])
        threading.settrace(before[1])
    x.check(first == second == third == [n + 1] * 2, 'the program is changed')
    x.check(after[0] is base[0] and after[1] is base[1], 'the hooks are restored')
    x.check(tracing[0] is base[0] and tracing[1] is base[1] if disabled else tracing[0] not in base and tracing[1] not in base,
            'the hooks are installed')
    x.check(len(seen) == count, 'the previous hooks are called again')
    x.check(len(sent) == (0 if disabled else 2), 'hits')
    x.reached('end')


HARNESSES = [
    H(histories, 'every sequence of 4 (thorough 5) of start, shutdown, hit, time and change of the hooks; 5 values of NO_TRACE, hooks of '
                 'sys and threading set or not (quick: 3 of the 4)', weight=2),
    H(faults, '2 deliveries with 5, 2 polls with 7, 3 plugins with 4 and the channel with 2 outcomes, at most 2 (thorough 3) faults; tracing '
              'disabled or not, shut down twice or not; a second start and shutdown', weight=2),
    H(pending, '2 of %d kinds of tracepoints, calls in progress on 2 threads and at 2 depths, 4 faults of the shutdown' % len(PENDING)),
    H(schedules, '2 hits on another thread, polls of 3 kinds; 1 (thorough 2) preemptions, 2 choices of the next thread', weight=2),
    H(in_place, 'real hooks: disabled or not, previous hooks or not, 3 orders of start, 3 arguments'),
]
BUDGET = {'quick': 60, 'thorough': 600}
