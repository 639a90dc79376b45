"""Convergence of the installed tracepoints: the poll, the config service, the task handler and the trigger handler are run.

The history of poll answers and registrations is symbolic, and so is the schedule of the threads that apply it. What is
installed is found by firing events, and compared with a model; the hashes are read from the poll requests.
"""
from deepproto.proto.poll.v1.poll_pb2 import PollResponse
from deepproto.proto.tracepoint.v1.tracepoint_pb2 import TracePointConfig
from harness.agent import Agent, Channel
from harness.common import Frame
from vx.sched import Sched
from vx.spec import H

TECHNIQUE = 'symbolic execution of the real source with z3 (path exploration, solver-decided branches and schedules, replayed models)'
STUBS = 'gRPC channel, paused frames, plugins record; histories: task handler runs tasks inline'
OUTSIDE = 'more than 2 worker threads; preemptions beyond the bound; failures of the network below the channel'

MANY = {'fire_count': '-1', 'fire_period': '0', 'snapshot': 'no_collect'}
LINES = [10, 11, 12]
# a thread can be preempted at each line of these, and at each lock operation
PARTS = ('deep/config/', 'deep/task/', 'deep/poll/', 'deep/api/deep.py', 'deep/processor/trigger_handler.py')


def proto(tp_id, line, **args):
    args.update(MANY)
    args['log_msg'] = tp_id
    return TracePointConfig(ID=tp_id, path='app.py', line_number=line, args=args)


# name of the config -> tracepoints (id, line, is valid)
CONFIGS = {
    'A': [('a1', 10, True)],
    'B': [('b1', 10, True), ('b2', 11, True)],
    'AB': [('a1', 10, True), ('bad', 10, False), ('b2', 11, True)],
    'empty': [],
}


class Bad:
    """An answer that cannot be read."""

    def __getattr__(self, name):
        raise ValueError('cannot read ' + name)


class BadIter:
    ts_nanos, response_type, current_hash = 1, 1, 'bad-hash'

    @property
    def response(self):
        def it():
            yield proto('a9', 10)
            raise ValueError('cannot read the response')
        return it()


def answer(name, new_hash=None, ts=5):
    return PollResponse(ts_nanos=ts, current_hash='hash-' + name if new_hash is None else new_hash, response_type=1,
                        response=[proto(i, line) if ok else proto(i, line, stage='unknown') for i, line, ok in CONFIGS[name]])


def installed(agent):
    """The messages of what acts, at all of the lines."""
    out = []
    for line in LINES:
        del agent.rec.logs[:]
        agent.handler.trace_call(Frame('/app/app.py', 'f', line), 'line', None)
        out += [(line, entry[0]) for entry in agent.rec.logs]
    return sorted(out)


def model(config, custom):
    return sorted([(line, '[deep] ' + i) for i, line, ok in CONFIGS.get(config, []) if ok]
                  + [(line, '[deep] ' + name) for name, line in custom])


class ExitNow(SystemExit):
    pass


FAIL = {
    'exit': lambda: (_ for _ in ()).throw(ExitNow('exit')),
    'error': lambda: (_ for _ in ()).throw(ConnectionError('unavailable')),
    'malformed': Bad,
    'partial': BadIter,
    'none': lambda: None,
    'unknown': lambda: PollResponse(ts_nanos=5, current_hash='hash-x', response_type=7, response=[proto('x1', 10)]),
}
OPS = ['A', 'B', 'AB', 'empty', 'same', 'same-hash'] + sorted(FAIL) + ['register', 'unregister', 'closed']


def poll(agent, value):
    """One poll with the answer; the request."""
    agent.channel.on_poll = lambda request: value()
    n = len(agent.channel.polls)
    try:
        agent.deep.poll.poll()
    except (Exception, ExitNow):
        # the timer continues
        pass
    return agent.channel.polls[n:]


def histories(x):
    """Any sequence of answers and registrations."""
    agent = Agent(x)
    config, config_hash, custom, handles = None, '', [], []
    for i in range(4 if x.tier == 'thorough' else 3):
        op = x.pick('op%d' % i, OPS)
        expect = config_hash
        requests = None
        if op in CONFIGS:
            new_hash = x.enum('hash%d' % i, ['h0', 'h1'])
            # the clock of the service does not matter
            ts = x.int('ts%d' % i, 0, (1 << 63) - 1)
            requests = poll(agent, lambda: answer(op, new_hash, ts))
            config, config_hash = op, new_hash
        elif op == 'same':
            requests = poll(agent, lambda: PollResponse(ts_nanos=5, current_hash='hash-x', response_type=0,
                                                        response=[proto('x1', 10)]))
        elif op == 'same-hash':
            # an update for the hash we have
            requests = poll(agent, lambda: answer('B', expect))
            config = 'B'
        elif op in FAIL:
            requests = poll(agent, FAIL[op])
        elif op == 'register':
            name, line = 'c%d' % i, 10 + i % 2
            with x.no_raise('register'):
                handles.append((agent.deep.register_tracepoint('app.py', line, dict(MANY, log_msg=name)), (name, line)))
            custom.append((name, line))
        elif op == 'unregister':
            x.assume(len(handles) > 0)
            handle, entry = handles.pop(x.index('which%d' % i, len(handles)))
            with x.no_raise('unregister'):
                handle.unregister()
            custom.remove(entry)
        elif op == 'closed':
            # the update is refused, so the config is not installed
            agent.tasks.flush()
            requests = poll(agent, lambda: answer('empty', 'hash-closed'))
            agent.tasks.open()
        if requests is not None:
            x.check(len(requests) == 1, 'one request for each poll')
            x.check(x.eq(requests[0].current_hash, expect), 'the hash of the request is of the last installed config')
        x.check(installed(agent) == model(config, custom), 'the latest config is installed after: %s' % op)
    last = poll(agent, FAIL['error'])
    x.check(x.eq(last[0].current_hash, config_hash), 'the hash of the next request is of the last installed config')
    x.reached('end')


def concurrent_updates(x):
    """Updates that are applied by the two workers in any order, while tracepoints are registered and removed."""
    agent = Agent(x, inline=False)
    seen = []
    with Sched(x, preemptions=2 if x.tier == 'thorough' else 1, only=PARTS, choices=None if x.tier == "thorough" else 1) as s:
        answers = [('A', 'h1'), (x.pick('second', ['B', 'empty'] if x.tier == 'thorough' else ['B']), 'h2')]
        if x.tier == 'thorough':
            answers.append(('AB', 'h3'))

        def service(request):
            seen.append(request.current_hash)
            name, h = answers[len(seen) - 1]
            return answer(name, h)
        agent.channel.on_poll = service
        app = x.pick('app', ['none', 'register', 'remove'])

        def polls():
            for _ in answers:
                agent.deep.poll.poll()

        def use():
            agent.deep.register_tracepoint('app.py', 10, dict(MANY, log_msg='c1'))
            if app == 'remove':
                agent.deep.register_tracepoint('app.py', 12, dict(MANY, log_msg='c2')).unregister()
        with x.no_raise('updates'):
            s.spawn(polls)
            if app != 'none':
                s.spawn(use)
            s.go()
            agent.deep.task_handler.flush()
    x.check(not s.deadlock, 'the updates complete')
    x.check(len(seen) == len(answers), 'each poll is sent')
    for i, h in enumerate(seen):
        x.check(h == ('' if i == 0 else 'h%d' % i), 'the hash of the request is of the last config')
    x.check(installed(agent) == model(answers[-1][0], [] if app == 'none' else [('c1', 10)]), 'the latest config is installed')
    x.reached('end')


def two_pollers(x):
    """A poll in progress when registrations change, on both threads of the application."""
    agent = Agent(x, inline=False)
    with Sched(x, preemptions=2 if x.tier == 'thorough' else 1, only=PARTS, choices=None if x.tier == "thorough" else 1) as s:
        first = agent.deep.register_tracepoint('app.py', 10, dict(MANY, log_msg='c1'))
        agent.channel.on_poll = lambda request: answer('B', 'h1')

        def one():
            first.unregister()

        def two():
            agent.deep.register_tracepoint('app.py', 10, dict(MANY, log_msg='c2'))
        with x.no_raise('updates'):
            s.spawn(one)
            s.spawn(two)
            s.spawn(agent.deep.poll.poll)
            s.go()
            agent.deep.task_handler.flush()
    x.check(not s.deadlock, 'the updates complete')
    x.check(installed(agent) == model('B', [('c2', 10)]), 'all of the changes are installed')
    x.reached('end')


def timer(x):
    """The polls of the timer continue whatever is the result of a poll."""
    size = 4 if x.tier == 'thorough' else 3
    kinds = [x.pick('poll%d' % i, ['A', 'B', 'same'] + sorted(FAIL)) for i in range(size)]
    agent = Agent(x, inline=True, config={'POLL_TIMER': 0.01})
    config, hashes, last = None, [''], ''
    for k in kinds:
        if k in CONFIGS:
            config, last = k, 'h-' + k
        hashes.append(last)
    with Sched(x, preemptions=0, start=10 ** 18, max_timeouts=40) as s:
        from threading import Event
        done = Event()

        def service(request):
            n = len(agent.channel.polls) - 1
            if n >= size:
                done.set()
                return PollResponse(response_type=0)
            k = kinds[n]
            return answer(k, 'h-' + k) if k in CONFIGS else PollResponse(response_type=0) if k == 'same' else FAIL[k]()
        agent.channel.on_poll = service
        with x.no_raise('start'):
            agent.deep.poll.start()
        done.wait(1000)
        with x.no_raise('shutdown'):
            agent.deep.poll.shutdown()
    x.check(not s.deadlock and len(agent.channel.polls) > size, 'polling continues')
    x.check([p.current_hash for p in agent.channel.polls][:size + 1] == hashes[:len(agent.channel.polls)],
            'the hash of the request is of the last config')
    x.check(installed(agent) == model(config, []), 'the last good config stays in force')
    x.reached('end')


HARNESSES = [
    H(histories, 'every sequence of 3 (thorough 4) of %d operations: updates of 4 configs with any of 2 hashes and any time, no change, updates '
                 'for the same hash, 6 kinds of failed polls, register, unregister, refused updates' % len(OPS), weight=2),
    H(concurrent_updates, '2 (thorough 3) updates and up to 3 registrations/removals on 2 threads and 2 workers, 1 (thorough 2) '
                          'preemptions at any lock operation or line of %s; quick: 1 choice of the next thread' % ', '.join(PARTS), weight=2),
    H(two_pollers, 'register, unregister and an update on 3 threads and 2 workers, 1 (thorough 2) preemptions', weight=1),
    H(timer, 'every sequence of 3 (thorough 4) of 9 results of the polls of the timer, virtual time'),
]
BUDGET = {'quick': 60, 'thorough': 600}
