"""Registrations in code: the public API and everything below it is run over symbolic histories of operations.

Each operation (register of one of several kinds on a symbolic line, unregister of any handle, update of the service) is
symbolic. After each of them the lines and the method are fired, and the effects are compared with a multiset model.
"""
from deep.api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition
from deepproto.proto.poll.v1.poll_pb2 import PollResponse
from deepproto.proto.tracepoint.v1.tracepoint_pb2 import TracePointConfig
from harness.agent import Agent
from harness.common import Frame
from vx.sched import Sched
from vx.spec import H

TECHNIQUE = 'symbolic execution of the real source with z3 (path exploration, solver-decided branches and schedules, replayed models)'
STUBS = 'gRPC channel, paused frames, plugins record, snapshot delivery records; histories: task handler runs tasks inline'
OUTSIDE = 'more operations than the bound; registrations while the agent is shut down'

MANY = {'fire_count': '-1', 'fire_period': '0'}
LOG = dict(MANY, snapshot='no_collect')


def shapes(name):
    """The arguments, watches and metrics of each kind, with the effect of one hit."""
    return [
        (dict(LOG, log_msg='x' + name), None, None, [('log', '[deep] x' + name)]),
        # the same as the others of this kind
        (dict(LOG, log_msg='same'), [], [], [('log', '[deep] same')]),
        (dict(MANY), ['n', '"%s"' % name], None, [('snapshot', ('n', '"%s"' % name))]),
        (dict(LOG), None, [MetricDefinition('m' + name, 'COUNTER', [LabelExpression('k', name, None)], 'n')],
         [('metric', 'm' + name, name, 7.0)]),
        (dict(MANY, log_msg='d' + name, span='line'), ['n'], [],
         [('log', '[deep] d' + name), ('snapshot', ('n', 'd' + name)), ('span',)]),
        (dict(LOG, log_msg='m' + name, method_name='f'), None, None, [('log', '[deep] m' + name)]),
        (None, None, None, [('snapshot', ())]),
    ]


METHOD = 5
DEFAULT = 6


def effects(agent, lines):
    """What happens at each of the lines, and on entry of the method."""
    rec = agent.rec
    out = {}
    ts = effects.ts = effects.ts + 10 ** 12
    from vx import clock
    clock.override = lambda: ts
    for at in lines + ['call']:
        for part in (rec.logs, rec.metrics, rec.spans, rec.snapshots):
            del part[:]
        frame = Frame('/app/app.py', 'f', 50 if at == 'call' else at, {'n': 7})
        agent.handler.trace_call(frame, 'call' if at == 'call' else 'line', None)
        got = [('log', m) for m, _, _ in rec.logs]
        got += [('metric', m[1], m[2].get('k'), m[6]) for m in rec.metrics]
        got += [('span',) for _ in rec.spans]
        # the log message adds watches for its fields, there are none
        got += [('snapshot', tuple([w.expression for w in s.watches] + (
            [s.log_msg.replace('[deep] ', '')] if s.log_msg else []))) for s in rec.snapshots]
        out[at] = sorted(got)
        agent.handler.trace_call(frame, 'return', None)
    return out


effects.ts = 0


def model(x, lines, custom, service):
    out = {}
    for at in lines + ['call']:
        got = []
        for line, kind, effect, used in custom:
            if (at == 'call') == (kind == METHOD) and (at == 'call' or line == at):
                got += effect
        for line, name in service:
            if at == line:
                got.append(('log', '[deep] ' + name))
        out[at] = sorted(got)
    return out


def make_agent(x, inline=True):
    agent = Agent(x, inline=inline)

    class Push:
        def push_snapshot(self, snapshot):
            agent.rec.snapshots.append(snapshot)
    x.patch(agent.deep.push, 'push_snapshot', Push().push_snapshot)

    def close():
        from vx import clock
        clock.override = None
    x.defer(close)
    return agent


def register(x, agent, kind, line, name):
    args, watches, metrics, effect = shapes(name)[kind]
    given = {}
    if args is not None:
        given['args'] = args
    if watches is not None:
        given['watches'] = watches
    if metrics is not None:
        given['metrics'] = metrics
    handle = None
    with x.no_raise('register'):
        handle = agent.deep.register_tracepoint('app.py', line, **given)
    # the lists are of the caller
    if args:
        args['log_msg'] = 'changed'
        args['condition'] = 'False'
    if watches:
        watches.append('changed')
    return handle, effect


def histories(x):
    """Any sequence of operations; the model is compared after each of them."""
    agent = make_agent(x)
    lines = [10, 11]
    custom, handles, service = [], [], []
    updates = [[], [(10, 's1'), (11, 's2')], [(10, 's3')]]
    wide = x.tier == 'thorough'
    for i in range(5 if wide else 4):
        op = x.pick('op%d' % i, ['register', 'unregister', 'update'])
        if op == 'register':
            kind = x.pick('kind%d' % i, range(7 if i == 0 or wide and i < 2 else 2))
            if kind == DEFAULT:
                # fires once, so it is not used after this
                x.assume(i == 0)
            line = 10 if kind == METHOD else x.pick('line%d' % i, lines)
            handle, effect = register(x, agent, kind, line, str(i))
            custom.append([line, kind, effect, False])
            handles.append((handle, custom[-1]))
        elif op == 'unregister':
            x.assume(len(handles) > 0)
            handle, entry = handles[x.index('which%d' % i, len(handles))]
            with x.no_raise('unregister'):
                handle.unregister()
            custom = [c for c in custom if c is not entry]
        else:
            service = x.pick('update%d' % i, updates)
            response = PollResponse(ts_nanos=1, current_hash='h%d' % i, response_type=1, response=[TracePointConfig(
                ID=n, path='app.py', line_number=line, args=dict(LOG, log_msg=n)) for line, n in service])
            agent.channel.on_poll = lambda request: response
            with x.no_raise('poll'):
                agent.deep.poll.poll()
        expected = model(x, lines, custom, service)
        x.check(effects(agent, lines) == expected, 'the tracepoints after: %s' % op)
        for c in custom:
            if c[1] == DEFAULT:
                # the default fire count is used
                c[2] = []
    x.reached('end')


def any_line(x):
    """Registrations on any line, so they can be on the same or on different lines, as the solver decides."""
    agent = make_agent(x)
    lines = [x.int('line%d' % i, 100, 999) for i in range(3)]
    handles = [register(x, agent, 0, lines[i], str(i))[0] for i in range(3)]
    gone = [x.index('gone%d' % i, 3) for i in range(2)]
    for g in gone:
        with x.no_raise('unregister'):
            handles[g].unregister()
    at = x.int('at', 100, 999)
    agent.handler.trace_call(Frame('/app/app.py', 'f', at, {'n': 1}), 'line', None)
    got = [m for m, _, _ in agent.rec.logs]
    for i in range(3):
        here = '[deep] x%d' % i in got
        expect = x.conj([i not in gone, lines[i] == at])
        x.check(expect if here else x.neg(expect), 'exactly the ones that are removed are gone')
    x.check(len(got) == len(set(got)), 'once for each')
    x.reached('end')


def threads(x):
    """Registrations and removals by different threads."""
    agent = make_agent(x, inline=False)
    with Sched(x, preemptions=2 if x.tier == 'thorough' else 1, choices=None if x.tier == 'thorough' else 1,
               only=('deep/config/', 'deep/task/', 'deep/api/deep.py', 'deep/processor/trigger_handler.py')) as s:
        first, _ = register(x, agent, 1, 10, 'a')
        second, _ = register(x, agent, 1, 10, 'b')

        def one():
            first.unregister()
            first.unregister()

        def two():
            register(x, agent, 0, 10, 'c')
        with x.no_raise('operations'):
            s.spawn(one)
            s.spawn(two)
            s.go()
            agent.deep.task_handler.flush()
    x.check(not s.deadlock, 'the operations complete')
    x.check(effects(agent, [10])[10] == [('log', '[deep] same'), ('log', '[deep] xc')], 'the tracepoints that are left')
    x.reached('end')


HARNESSES = [
    H(histories, 'every sequence of 4 (thorough 5) operations: register of 7 kinds (the 2nd and later of 2 kinds) on 2 lines or a '
                 'method, unregister of any handle (also twice), 3 updates of the service', weight=2),
    H(any_line, '3 registrations on any lines 100..999, 2 removals (also of the same), event at any line'),
    H(threads, '2 registrations, then a double removal and a registration on 2 threads with 2 workers, 1 (thorough 2) '
               'preemptions, quick: 1 choice of the next thread'),
]
