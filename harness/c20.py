"""Plugins: loading, starting, triggering and shutting down are executed with symbolic orders and symbolic faults of the plugins.

Each callback of each plugin can fail at each call; what the other plugins contribute is compared with what they would
contribute without it.
"""
import sys

from deep.api.attributes import BoundedAttributes
from deep.api.plugin import DidNotEnable, Plugin, ResourceProvider, SnapshotDecorator, TracepointLogger, load_plugins
from deep.api.plugin.metric import MetricProcessor
from deep.api.plugin.span import SpanProcessor
from deep.api.resource import Resource
from deep.api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition
from deep.config import ConfigService
from deep.api.deep import Deep
from harness.agent import Channel
from harness.common import Frame, Metrics, RecSpan, Recorder, Rig, line_of, load, tp, traced
from vx.sched import Sched
from vx.spec import H

TECHNIQUE = 'symbolic execution of the real source with z3 (path exploration, solver-decided branches, replayed models)'
STUBS = 'gRPC channel, paused frames (in place: real frames), delivery and plugins record and fail, missing dependencies of the plugins'
OUTSIDE = 'the sequence of plugins of the same order; what is logged; plugins that never return, or that use the agent; more than one logger'

MANY = {'fire_count': '-1', 'fire_period': '0'}
ERRORS = [None, ValueError, SystemExit]


class Control:
    def __init__(self):
        self.kind, self.order, self.error, self.calls = {}, {}, {}, []


CONTROL = Control()


class Configured(Plugin):
    """Plugin of the application, it is as the control says."""

    def __init__(self, config=None):
        self.control = CONTROL
        self.key = type(self).__name__
        if self.kind == 'construct':
            raise ValueError('cannot be constructed')
        if self.kind == 'construct exit':
            raise SystemExit('cannot be constructed')
        if self.kind == 'not enabled':
            raise DidNotEnable('missing dependency')
        super().__init__(config=config)

    @property
    def kind(self):
        return self.control.kind.get(self.key)

    def is_active(self):
        if self.kind == 'inactive':
            return False
        if self.kind == 'active fails':
            raise ValueError('cannot tell')
        return super().is_active()

    def order(self):
        if self.kind == 'order fails':
            raise ValueError('no order')
        if self.kind == 'order none':
            return None
        return self.control.order.get(self.key, 0)


class PlugA(Configured):
    pass


class PlugB(Configured):
    pass


class PlugC(Configured):
    pass


class PlugD(Configured):
    pass


def function(config):
    raise ValueError('not a class')


NOT_A_PLUGIN = 5
KINDS = ['good', 'construct', 'construct exit', 'not enabled', 'inactive', 'active fails', 'off', 'off text', 'off env', 'on', 'order fails', 'order none',
         'twice']
LOADED = ['good', 'on', 'twice', 'order fails', 'order none']
NAMES = ['harness.c20.missing', 'harness.nothing.Plugin', 'nothing', 'harness.c20.function', 'harness.c20.NOT_A_PLUGIN', '', 'harness.c20.',
         '.PlugA', None, 5]
BUILT_IN = {'OTelPlugin': ('deep.api.plugin.otel', 'opentelemetry.sdk.trace'), 'PythonPlugin': None,
            'PrometheusPlugin': ('deep.api.plugin.metric.prometheus_metrics', 'prometheus_client'),
            'OTelMetrics': ('deep.api.plugin.metric.otel_metrics', 'opentelemetry.metrics')}


def missing(x, plugin, dependency):
    """The dependency is not installed, for the time of this path."""
    for name, value in ((plugin, 'pop'), (dependency, None)):
        old = sys.modules.get(name)

        def undo(name=name, old=old):
            if old is None:
                sys.modules.pop(name, None)
            else:
                sys.modules[name] = old
        x.defer(undo)
        if value == 'pop':
            sys.modules.pop(name, None)
        else:
            sys.modules[name] = None


def loading(x):
    """Which plugins are loaded, and their order."""
    global CONTROL
    CONTROL = Control()
    keys = ['PlugA', 'PlugB', 'PlugC']
    options = {k: KINDS for k in keys}
    options['name'] = [False] + NAMES
    options.update({k: ['on', 'off', 'missing'] if v else ['on', 'off'] for k, v in BUILT_IN.items()})
    chosen = x.combine(options, 3 if x.tier == 'thorough' else 2)
    kinds, built_in, bad = {k: chosen[k] for k in keys}, {k: chosen[k] for k in BUILT_IN}, chosen['name']
    position = x.index('position', 2) if bad is not False else 0
    settings, custom = {'APP_ROOT': '/app'}, []
    import os
    for k in keys:
        CONTROL.kind[k] = kinds[k]
        CONTROL.order[k] = x.int('order of ' + k, -3, 3)
        custom.append('harness.c20.' + k)
        setting = 'PLUGIN_' + k.upper()
        if kinds[k] in ('off', 'off text'):
            settings[setting] = False if kinds[k] == 'off' else 'false'
        elif kinds[k] == 'on':
            settings[setting] = True
        elif kinds[k] == 'off env':
            os.environ['DEEP_' + setting] = 'False'
            x.defer(lambda setting=setting: os.environ.pop('DEEP_' + setting, None))
        elif kinds[k] == 'twice':
            custom.append('harness.c20.' + k)
    if bad is not False:
        custom.insert([0, len(custom)][position], bad)
    for k, state in built_in.items():
        if state == 'off':
            settings['PLUGIN_' + k.upper()] = 'False'
        elif state == 'missing':
            missing(x, *BUILT_IN[k])
    config = ConfigService(settings)
    loaded = []
    with x.no_raise('load'):
        loaded = load_plugins(config, custom)
    names = [type(p).__name__ for p in loaded]
    want = {k: 1 for k, v in built_in.items() if v == 'on'}
    want.update({k: 2 if v == 'twice' else 1 for k, v in kinds.items() if v in LOADED})
    for k in set(names) | set(want):
        x.check(names.count(k) == want.get(k, 0), 'the plugins that are loaded')
    orders = [CONTROL.order[n] if kinds.get(n) in ('good', 'on', 'twice') else 0 for n in names]
    for a, b in zip(orders, orders[1:]):
        x.check(a <= b, 'the order of the plugins')
    x.check(all(p.config is config for p in loaded), 'the config of the plugins')
    x.reached('end')


class Faulty:
    """A part of the plugins of a hit; each call can fail."""
    faults = rec = key = None

    def call(self, what):
        calls = self.rec.events
        calls.append((self.key, what))
        error = self.faults.get('%s.%s%d' % (self.key, what, calls.count((self.key, what))))
        if error is not None:
            raise error('%s fails' % what)


class Decorator(Faulty, SnapshotDecorator):
    def decorate(self, snapshot_id, context):
        self.call('decorate')
        return BoundedAttributes(attributes={self.key: snapshot_id, 'last': self.key})


class Log(Faulty, TracepointLogger):
    def log_tracepoint(self, log_msg, tp_id, ctx_id):
        self.call('log')
        self.rec.logs.append((log_msg, tp_id))


class Measure(Faulty, MetricProcessor):
    def _call(self, kind, name, labels, value):
        self.call('metric')
        self.rec.metrics.append((self.key, kind, name, dict(labels), value))

    def counter(self, name, labels, namespace, help_string, unit, value):
        self._call('counter', name, labels, value)

    def gauge(self, name, labels, namespace, help_string, unit, value):
        self._call('gauge', name, labels, value)

    def histogram(self, name, labels, namespace, help_string, unit, value):
        self._call('histogram', name, labels, value)

    def summary(self, name, labels, namespace, help_string, unit, value):
        self._call('summary', name, labels, value)


class FaultySpan(RecSpan):
    plugin = None

    def close(self):
        self.plugin.call('close')
        super().close()


class Trace(Faulty, SpanProcessor):
    def create_span(self, name, context_id, tracepoint_id):
        self.call('span')
        span = FaultySpan(self.rec, name, context_id, tracepoint_id)
        span.plugin = self
        self.rec.spans.append((self.key, name, tracepoint_id, span))
        return span

    def current_span(self):
        return None


class Everything(Decorator, Measure, Trace):
    pass


PLUGINS = [('d1', Decorator), ('m1', Measure), ('s1', Trace), ('all', Everything), ('log', Log), ('d2', Decorator), ('m2', Measure), ('s2', Trace)]
# the calls of the two hits
CALLS = ['d1.decorate1', 'd1.decorate2', 'd2.decorate1', 'all.decorate1', 'log.log1', 'log.log2', 'm1.metric1', 'm1.metric2', 'm2.metric3',
         'all.metric1', 's1.span1', 's1.span2', 's2.span1', 'all.span1', 's1.close1', 's1.close2', 's2.close1', 'all.close1', 'd2.decorate2',
         'm2.metric1', 's2.close2']


def setup(x, faults, args, metrics, only=None):
    rig = Rig(x, plugins=[])
    plugins = []
    for key, cls in PLUGINS:
        if only is None or key in only:
            plugins.append(rig.plugin(cls, key=key, faults=faults))
    rig.config.plugins = plugins
    defs = [MetricDefinition('metric%d' % i, t, [LabelExpression('k', 'v', None)], None, None, None, None)
            for i, t in enumerate(['COUNTER', 'HISTOGRAM'][:metrics])]
    rig.install(tp('t', 'app.py', 10, dict(MANY, **args), [], defs), tp('u', 'app.py', 10, dict(MANY, log_msg='other', snapshot='no_collect')))
    return rig


def expected(rig, faults, hits, metrics, span, snapshot, present, collected='t'):
    """Check what is contributed."""
    x, rec = rig.x, rig.rec

    def fails(key, what, n):
        return faults.get('%s.%s%d' % (key, what, n)) is not None
    decorators = [k for k in ('d1', 'all', 'd2') if k in present]
    measures = [k for k in ('m1', 'all', 'm2') if k in present]
    traces = [k for k in ('s1', 'all', 's2') if k in present]
    x.check(len(rec.snapshots) == (hits if snapshot else 0), 'the snapshot is delivered')
    for n, s in enumerate(rec.snapshots, 1):
        for k in decorators:
            if fails(k, 'decorate', n):
                x.check(k not in s.attributes, 'decoration of the failed plugin')
            else:
                x.check(k in s.attributes and s.attributes[k] == s.id_str, 'the remaining decorations')
        x.check('context' in s.attributes and s.attributes['tracepoint'] == collected, 'the decorations of the agent')
    for k in measures:
        got = [m[1:] for m in rec.metrics if m[0] == k]
        want = []
        for n in range(1, hits * metrics + 1):
            i = (n - 1) % metrics
            if not fails(k, 'metric', n):
                want.append((['counter', 'histogram'][i], 'metric%d' % i, {'k': 'v'}, 1))
        x.check(got == want, 'the metrics of each processor')
    for k in traces:
        made = [s[3] for s in rec.spans if s[0] == k]
        ok = [n for n in range(1, hits + 1) if not fails(k, 'span', n)] if span else []
        x.check(len(made) == len(ok), 'the spans of each processor')
        closed = [s for s in made if s in rec.closed]
        x.check(len(closed) == len([1 for n in range(1, len(ok) + 1) if not fails(k, 'close', n)]), 'the spans are closed')
        x.check(rec.events.count((k, 'close')) == len(ok), 'each span is closed once')


def faulty(x):
    """Two of the calls that fail."""
    faults = {}
    first = x.index('first', len(CALLS) + 1)
    second = x.index('second', len(CALLS) + 1)
    x.assume(x.disj([first < second, x.conj([first == 0, second == 0])]))
    for i, name in ((first, 'error'), (second, 'other error')):
        if i:
            faults[CALLS[i - 1]] = x.pick(name, ERRORS[1:])
    return faults


def line_hits(x):
    """Tracepoints at a line, hit twice, with two failing calls."""
    faults = faulty(x)
    kind = x.pick('kind', [{}, {'stage': 'line_capture'}, {'log_msg': 'hello'}, {'snapshot': 'no_collect'}])
    rig = setup(x, faults, dict(kind, span='line'), 2)
    frame = Frame('/app/app.py', 'f', 10, {'n': 1})
    with x.no_raise('trace'):
        for i in range(2):
            frame.f_lineno = 10
            rig.fire(frame)
            frame.f_lineno = 11
            rig.fire(frame)
        rig.fire(frame, 'return')
    present = [k for k, _ in PLUGINS]
    # a span is attached to the line too
    expected(rig, faults, 2, 2, True, 'snapshot' not in kind, present)
    check_logs(x, rig, faults, 2, 'log_msg' in kind)
    x.reached('end')


def check_logs(x, rig, faults, hits, both):
    per_hit = 2 if both else 1
    want = hits * per_hit - len([1 for n in range(1, hits * per_hit + 1) if faults.get('log.log%d' % n) is not None])
    x.check(len(rig.rec.logs) == want, 'the messages')
    x.check(rig.rec.events.count(('log', 'log')) == hits * per_hit, 'the messages are sent to the logger')


def subsets(x):
    """Any of the plugins, of which some fail at every call."""
    chosen = x.combine({k: ['good', 'error', 'absent', 'exit'] for k, _ in PLUGINS}, 4 if x.tier == 'thorough' else 3)
    present = [k for k, v in chosen.items() if v != 'absent']
    faults = {}
    for k, v in chosen.items():
        if v in ('error', 'exit'):
            for what in ('decorate', 'log', 'metric', 'span', 'close'):
                for n in range(1, 9):
                    faults['%s.%s%d' % (k, what, n)] = ValueError if v == 'error' else SystemExit
    rig = setup(x, faults, {'method_name': 'f', 'span': 'method', 'stage': x.pick('stage', ['method_capture', 'method_start'])}, 1, present)
    with x.no_raise('trace'):
        for i in range(2):
            frame = Frame('/app/app.py', 'f', 5, {'n': 1})
            rig.fire(frame, 'call')
            frame.f_lineno = 10
            rig.fire(frame)
            rig.fire(frame, 'return', 4)
    expected(rig, faults, 2, 1, True, True, present)
    if 'log' in present:
        check_logs(x, rig, faults, 2, False)
    x.reached('end')


def replaced(x):
    """The plugins are replaced by others, as they are when an agent is started again."""
    chosen = x.combine({k: ['both', 'first', 'second', 'neither'] for k, _ in PLUGINS}, 4 if x.tier == 'thorough' else 3)
    rig = setup(x, {}, {'span': 'line'}, 1, [k for k, v in chosen.items() if v in ('both', 'first')])
    rec, spans = rig.rec, []
    for step in ('first', 'second'):
        present = [k for k, _ in PLUGINS if chosen[k] in ('both', step)]
        if step == 'second':
            rig.config.plugins = [rig.plugin(cls, key=key, faults={}) for key, cls in PLUGINS if key in present]
        del rec.snapshots[:], rec.metrics[:], rec.spans[:], rec.logs[:]
        with x.no_raise('trace'):
            frame = Frame('/app/app.py', 'f', 10, {'n': 1})
            rig.fire(frame)
            frame.f_lineno = 11
            rig.fire(frame)
        x.check(len(rec.snapshots) == 1, 'the snapshot is delivered')
        for s in rec.snapshots:
            x.check([k for k in ('d1', 'all', 'd2') if k in s.attributes] == [k for k in ('d1', 'all', 'd2') if k in present], 'the decorations')
        x.check([m[0] for m in rec.metrics] == [k for k in ('m1', 'all', 'm2') if k in present], 'the metrics of each processor')
        x.check([m[0] for m in rec.spans] == [k for k in ('s1', 'all', 's2') if k in present], 'the spans of each processor')
        x.check(len(rec.logs) == ('log' in present), 'the messages')
        spans += [m[3] for m in rec.spans]
        x.check(sorted(map(id, spans)) == sorted(map(id, rec.closed)), 'the spans are closed')
    x.reached('end')


class Starting(Configured, ResourceProvider, SnapshotDecorator):
    """Plugin of an agent that is started."""

    def fails(self, what):
        self.control.calls.append((self.key, what))
        error = self.control.error.get((self.key, what))
        if error is not None:
            raise error('%s of %s fails' % (what, self.key))

    def resource(self):
        self.fails('resource')
        kind = self.control.kind.get(self.key)
        if kind == 'none':
            return None
        if kind == 'wrong':
            return 'not a resource'
        return Resource({self.key: 'yes', 'last': self.key})

    def decorate(self, snapshot_id, context):
        self.fails('decorate')
        kind = self.control.kind.get(self.key)
        if kind == 'none':
            return None
        if kind == 'wrong':
            return 5
        return BoundedAttributes(attributes={self.key: 'yes'})

    def shutdown(self):
        self.fails('shutdown')


class StartA(Starting):
    pass


class StartB(Starting):
    pass


class StartC(Starting):
    pass


def lifecycle(x):
    """An agent is started, hit, and shut down."""
    global CONTROL
    CONTROL = control = Control()
    keys = ['StartA', 'StartB', 'StartC']
    options = {}
    for k in keys:
        options[k] = ['good', 'none', 'wrong', 'construct', 'inactive']
        for what in ('resource', 'decorate', 'shutdown'):
            options['%s %s' % (k, what)] = ERRORS
    chosen = x.combine(options, 3 if x.tier == 'thorough' else 2)
    wrap = x.pick('base', ['Exception', 'KeyboardInterrupt'])
    control.kind = {k: chosen[k] for k in keys}
    for k in keys:
        for what in ('resource', 'decorate', 'shutdown'):
            error = chosen['%s %s' % (k, what)]
            control.error[k, what] = KeyboardInterrupt if error is SystemExit and wrap == 'KeyboardInterrupt' else error
    channel = Channel(x).connect()
    settings = {'APP_ROOT': '/app', 'SERVICE_SECURE': 'False', 'POLL_TIMER': 3600, 'NO_TRACE': True, 'SERVICE_URL': 'host:1',
                'PLUGINS': ['harness.c20.' + k for k in keys]}
    with Sched(x, preemptions=0, choices=0, start=10 ** 18) as s:
        deep = Deep(ConfigService(settings))
        with x.no_raise('start'):
            deep.start()
        x.check(deep.started, 'the agent starts')
        deep.trigger_handler.new_config([tp('t', 'app.py', 10, MANY)])
        with x.no_raise('trace'):
            deep.trigger_handler.trace_call(Frame('/app/app.py', 'f', 10, {'n': 1}), 'line', None)
        with x.no_raise('shutdown'):
            deep.shutdown()
        x.check(not deep.started, 'the agent is shut down')
    x.check(not s.deadlock, 'the calls return')
    loaded = [k for k in keys if chosen[k] not in ('construct', 'inactive')]
    for what in ('resource', 'decorate', 'shutdown'):
        got = [k for k, w in control.calls if w == what]
        x.check(sorted(got) == loaded, 'the plugins that are asked to %s' % what)
    x.check(len(channel.polls) == 1 and len(channel.snapshots) == 1, 'the agent works')
    working = [k for k in loaded if chosen[k] == 'good' and control.error[k, 'resource'] is None]
    for p in channel.polls:
        attributes = {kv.key: kv.value.string_value for kv in p.resource.attributes}
        x.check([k for k in keys if k in attributes] == working, 'the resource')
        x.check('python_version' in attributes and 'telemetry.sdk.name' in attributes and attributes.get('service.name'), 'the resource of the agent')
        if working:
            x.check(attributes['last'] == working[-1], 'the order of the resources')
    decorated = [k for k in loaded if chosen[k] == 'good' and control.error[k, 'decorate'] is None]
    for p in channel.snapshots:
        attributes = {kv.key: kv.value.string_value for kv in p.attributes}
        x.check([k for k in keys if k in attributes] == decorated, 'the remaining decorations')
        x.check(attributes.get('tracepoint') == 't' and 'context' in attributes and 'thread_name' in attributes, 'the decorations of the agent')
    x.reached('end')


PROGRAM = '''\
def work(n):
    total = 0
    for i in range(n):
        total += i  # A
    return total  # B


def boom(n):
    raise KeyError(n)  # C
'''
MODULE = load(PROGRAM, '/app/app.py')


def in_place(x):
    """A program that runs with failing plugins."""
    fail = x.pick('plugin', [k for k, _ in PLUGINS])
    error = x.pick('error', ERRORS[1:] + [KeyboardInterrupt, GeneratorExit])
    n = x.index('n', 3)
    faults = {'%s.%s%d' % (fail, what, i): error for what in ('decorate', 'log', 'metric', 'span', 'close') for i in range(1, 9)}
    rig = setup(x, faults, {}, 1)
    d = MetricDefinition('metric0', 'COUNTER', [LabelExpression('k', 'v', None)], None, None, None, None)
    rig.install(tp('t', 'app.py', line_of(PROGRAM, '# B'), dict(MANY, span='line', log_msg='hit'), [], [d]),
                tp('u', 'app.py', None, dict(MANY, method_name='boom', span='method', snapshot='no_collect')))
    with traced(rig.handler):
        r = MODULE.work(n)
        try:
            MODULE.boom(7)
            e = None
        except KeyError as error:
            e = error.args
    x.check(r == sum(range(n)) and e == (7,), 'the program is changed')
    present = [k for k, _ in PLUGINS]
    rec = rig.rec
    x.check(len(rec.snapshots) == 1, 'the snapshot is delivered')
    for s in rec.snapshots:
        x.check([k for k in ('d1', 'all', 'd2') if k in s.attributes] == [k for k in ('d1', 'all', 'd2') if k != fail], 'the remaining decorations')
    x.check(len(rec.logs) == (0 if fail == 'log' else 1), 'the messages')
    x.check([m[0] for m in rec.metrics] == [k for k in ('m1', 'all', 'm2') if k != fail], 'the metrics of each processor')
    traces = [k for k in ('s1', 'all', 's2') if k != fail]
    x.check([s[0] for s in rec.spans] == traces * 2, 'the spans of each processor')
    x.check(sorted(id(s[3]) for s in rec.spans) == sorted(id(s) for s in rec.closed), 'the spans are closed')
    x.reached('end')


HARNESSES = [
    H(loading, '3 plugins of %d kinds with any order of -3..3, %d names that cannot be loaded at the start or the end, built-in plugins that are '
               'off or without the dependency; at most 2 (thorough 3) of these not the default' % (len(KINDS), len(NAMES)), weight=2),
    H(line_hits, '8 plugins, 2 hits of 2 tracepoints of 4 kinds, any two of %d calls fail with 2 errors' % len(CALLS), weight=2),
    H(subsets, '8 plugins, at most 3 (thorough 4) of them absent or failing at every call; 2 stages'),
    H(replaced, '8 plugins, of which at most 3 (thorough 4) are there only before, only after, or not at all; a hit before and after'),
    H(lifecycle, '3 plugins of 5 kinds, each of 3 callbacks can fail with 3 errors, at most 2 (thorough 3) faults'),
    H(in_place, 'a program with each of 8 plugins failing at every call with 4 errors, 3 arguments'),
]
BUDGET = {'quick': 60, 'thorough': 600}
