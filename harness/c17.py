"""Metric tracepoints: what each processor receives is compared with the definitions, over symbolic values and definitions.

The definitions are symbolic in their type, texts, labels and expressions, the values that the expressions see are symbolic
numbers, or values of every other type. The metrics arrive in code or in a message of the service.
"""
from deep.api.plugin.metric.otel_metrics import OTelMetrics
from deep.api.plugin.metric.prometheus_metrics import PrometheusPlugin
from deep.api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition
from deep.grpc import convert_response
from deepproto.proto.common.v1.common_pb2 import AnyValue
from deepproto.proto.tracepoint.v1.tracepoint_pb2 import LabelExpression as LabelMessage
from deepproto.proto.tracepoint.v1.tracepoint_pb2 import Metric, TracePointConfig
from harness.agent import Agent
from harness.common import Frame, Logger, Metrics, Recorder, Rig, line_of, load, tp, traced
from vx.spec import H

TECHNIQUE = 'symbolic execution of the real source with z3 (path exploration, solver-decided branches, replayed models)'
STUBS = 'paused frames (in place: real frames), processors record (providers: the real processors with the real registries), clock'
OUTSIDE = 'the label of an expression that fails; labels with both a static value and an expression; order of the metrics; ' \
          'expressions whose number does not fit a float; what a provider does with negative or repeated values'

MANY = {'fire_count': '-1', 'fire_period': '0', 'snapshot': 'no_collect'}
TYPES = ['COUNTER', 'GAUGE', 'HISTOGRAM', 'SUMMARY']


class Number:
    """A number of the application."""

    def __float__(self):
        return 2.5

    def __str__(self):
        return 'a number'


class NotNumber:
    """Not a number."""

    def __float__(self):
        raise ValueError('not a number')


def number(v):
    """The value to report."""
    try:
        return float(v)
    except Exception:
        return 1


EXPRESSIONS = [None, '', 'n', 'n + 1', '-n', 'r', 'missing', '1/0', 'text', 'none', 'flag', 'zero', 'obj', 'bad', 'items', 'len(items)', 'd["k"]',
               '"12.5"', '" 7 "', 'big', 'G * 2', 'n if n > 0 else r', 'sum(items)', 'inf', 'lambda: 1', 'n +', 'obj.missing']
LABELS = [None, ('static', 'value'), ('static', ''), ('static', 5), ('static', False), ('expression', 'text'), ('expression', 'n'),
          ('expression', 'none'), ('expression', 'zero'), ('expression', 'obj'), ('expression', 'missing'), ('expression', 'd["k"]'),
          ('expression', 'G')]


def scope(x):
    f_locals = {'n': x.int('n', 100, 999) - 550, 'r': x.real('r', -100, 100), 'text': 'some text', 'none': None, 'flag': True, 'zero': 0,
                'obj': Number(), 'bad': NotNumber(), 'items': [1, 2, 3], 'd': {'k': '8'}, 'big': 10 ** 15, 'inf': float('inf')}
    return f_locals, {'__name__': 'app', '__builtins__': __builtins__, 'G': 21}


def evaluated(expression, f_locals, f_globals):
    return eval(expression, dict(f_globals, **f_locals))


def expected_value(d, f_locals, f_globals):
    if not d['expression']:
        return 1
    try:
        return number(evaluated(d['expression'], f_locals, f_globals))
    except Exception:
        return 1


def check_metric(x, got, d, f_locals, f_globals, what):
    kind, name, labels, namespace, help_string, unit, value = got
    x.check(kind == d['type'].lower(), '%s: type' % what)
    x.check(name == d['name'], '%s: name' % what)
    x.check(namespace == (d['namespace'] or 'deep'), '%s: namespace' % what)
    x.check((help_string or '') == (d['help'] or '') and (unit or '') == (d['unit'] or ''), '%s: help and unit' % what)
    x.check(x.eq(value, expected_value(d, f_locals, f_globals)), '%s: value' % what)
    x.check(set(labels) <= {k for k, _ in d['labels']}, '%s: labels' % what)
    for k, (how, v) in d['labels']:
        if how == 'static':
            x.check(k in labels and (labels[k] == v and type(labels[k]) is type(v) or labels[k] == str(v)), '%s: static label' % what)
        else:
            try:
                v = str(evaluated(v, f_locals, f_globals))
            except Exception:
                continue
            x.check(k in labels and x.eq(labels[k], v), '%s: label of an expression' % what)


def definition(d):
    labels = [LabelExpression(k, v if how == 'static' else None, v if how == 'expression' else None) for k, (how, v) in d['labels']]
    return MetricDefinition(d['name'], d['type'], labels, d['expression'], d['namespace'], d['help'], d['unit'])


def simple(i, **values):
    return dict({'name': 'metric%d' % i, 'type': TYPES[i % 4], 'expression': 'n', 'namespace': None, 'help': None, 'unit': None,
                 'labels': [('k', ('static', 'v%d' % i))]}, **values)


def one_metric(x):
    """One metric of any definition."""
    f_locals, f_globals = scope(x)
    chosen = x.combine({'type': TYPES + ['counter', 'Gauge'], 'expression': EXPRESSIONS, 'label': LABELS, 'second': LABELS,
                        'namespace': [None, '', 'ns'], 'help': [None, 'help text'], 'unit': [None, 'ms']},
                       3 if x.tier == 'thorough' else 2)
    labels = [(k, v) for k, v in (('a', chosen.pop('label')), ('b', chosen.pop('second'))) if v is not None]
    d = dict(chosen, name='requests', labels=labels)
    rig = Rig(x)
    rig.install(tp('t', 'app.py', 10, MANY, [], [definition(d)]))
    before = sorted(f_locals)
    with x.no_raise('trace'):
        rig.fire(Frame('/app/app.py', 'f', 10, f_locals, f_globals))
    x.check(len(rig.rec.metrics) == 1, 'the metric is reported once')
    for got in rig.rec.metrics:
        check_metric(x, got, d, f_locals, f_globals, 'metric')
    x.check(sorted(f_locals) == before and not rig.rec.snapshots and not rig.rec.logs, 'nothing else')
    x.reached('end')


class Failing(Metrics):
    """A processor that fails."""

    def _add(self, kind, *args):
        super()._add(kind, *args)
        # the labels are its own
        args[1].clear()
        raise self.error('failed')


class Second(Metrics):
    pass


def processors(x):
    """Several definitions and processors, in one or two tracepoints."""
    f_locals, f_globals = scope(x)
    n = 1 + x.index('metrics', 3)
    same = x.flag('same name')
    defs = [simple(i, name='m' if same else 'm%d' % i, type=TYPES[(i + x.index('shift', 4)) % 4] if i == 0 else TYPES[i],
                   expression=['n', 'missing', 'r'][i]) for i in range(n)]
    split = x.flag('two tracepoints')
    kinds = [x.pick('processor%d' % i, [None, 'good', 'error', 'interrupt']) for i in range(3)]
    rig = Rig(x, plugins=[])
    recs, plugins = [], [rig.plugin(Logger)]
    for k in kinds:
        if k is None:
            continue
        recs.append(Recorder())
        cls = Second if k == 'good' else Failing
        plugins.append(rig.plugin(cls, rec=recs[-1], error=ValueError if k == 'error' else SystemExit))
    rig.config.plugins = plugins
    first, second = (defs[:1], defs[1:]) if split else (defs, [])
    rig.install(tp('t', 'app.py', 10, MANY, [], [definition(d) for d in first]),
                tp('u', 'app.py', 10, dict(MANY, log_msg='hit'), [], [definition(d) for d in second]))
    with x.no_raise('trace'):
        rig.fire(Frame('/app/app.py', 'f', 10, f_locals, f_globals))
    for rec in recs:
        x.check(len(rec.metrics) == n, 'each metric is reported once to each processor')
    for rec, k in zip(recs, [k for k in kinds if k]):
        if k != 'good':
            continue
        left = list(rec.metrics)
        for d in defs:
            match = [m for m in left if m[1] == d['name'] and m[0] == d['type'].lower()]
            x.check(len(match) > 0, 'the metric is reported')
            if len(match) == 1:
                left.remove(match[0])
                check_metric(x, match[0], d, f_locals, f_globals, 'metric')
    x.check(len(rig.rec.logs) == 1, 'the other actions')
    x.reached('end')


def budget(x):
    """Hits with and without an active processor."""
    count = x.int('fire_count', 1, 3)
    period = x.pick('fire_period', [0, 1000])
    condition = x.pick('condition', ['', 'n > 0'])
    extra = x.pick('args', [{}, {'method_name': 'f'}, {'log_msg': 'hit'}])
    rig = Rig(x)
    args = dict(MANY, fire_count=count, fire_period=period, condition=condition, **extra)
    rig.install(tp('t', 'app.py', 10, args, [], [definition(simple(0)), definition(simple(1))]))
    metrics, others = rig.plugin(Metrics), [rig.plugin(Logger)]
    used, last, ts = 0, None, 10 ** 15
    for i in range(4):
        active = x.flag('active%d' % i)
        rig.config.plugins = others + ([metrics] if active else [])
        n = x.int('n%d' % i, -5, 5)
        ts += x.pick('gap%d' % i, [10 ** 7, 10 ** 10]) if period else 10 ** 7
        rig.at(ts)
        rig.rec.metrics = []
        frame = Frame('/app/app.py', 'f', 10, {'n': n})
        with x.no_raise('trace'):
            for event in ('call', 'line', 'return'):
                rig.fire(frame, event)
        due = active and used < count and (last is None or ts - last >= period * 10 ** 6) and (not condition or n > 0)
        x.check(len(rig.rec.metrics) == (2 if due else 0), 'metrics are reported when a hit is permitted')
        if due:
            used, last = used + 1, ts
            for m in rig.rec.metrics:
                x.check(x.eq(m[6], n), 'value')
    x.reached('end')


STATIC = [None, {'string_value': 'text'}, {'string_value': ''}, {'int_value': 7}, {'int_value': 0}, {'bool_value': True},
          {'bool_value': False}, {'double_value': 1.5}]


def messages(x):
    """Metrics that are defined by the service."""
    f_locals, f_globals = scope(x)
    kind = x.index('type', 4)
    static, expression = x.pick('static', STATIC), x.pick('label expression', ['', 'text', 'n'])
    value = x.pick('expression', ['', 'n', 'd["k"]', 'missing'])
    texts = {k: v for k, v in (('namespace', 'ns'), ('help', 'help text'), ('unit', 's')) if x.flag(k)}
    x.assume(static is None or not expression)
    labels = [LabelMessage(key='first', static=AnyValue(string_value='other'))]
    expected = [('first', ('static', 'other'))]
    if static is not None:
        labels.append(LabelMessage(key='second', static=AnyValue(**static)))
        expected.append(('second', ('static', list(static.values())[0])))
    elif expression:
        labels.append(LabelMessage(key='second', expression=expression))
        expected.append(('second', ('expression', expression)))
    defs = [dict({'namespace': None, 'help': None, 'unit': None}, name='requests', type=TYPES[kind], expression=value, labels=expected, **texts),
            simple(1, labels=[])]
    metrics = [Metric(name='requests', type=kind, labelExpressions=labels, expression=value, **texts),
               Metric(name='metric1', type=1, expression='n')]
    rig = Rig(x)
    with x.no_raise('convert'):
        rig.handler.new_config(convert_response([TracePointConfig(ID='t', path='app.py', line_number=10, args=MANY, metrics=metrics)]))
    with x.no_raise('trace'):
        rig.fire(Frame('/app/app.py', 'f', 10, f_locals, f_globals))
    x.check(sorted(m[1] for m in rig.rec.metrics) == ['metric1', 'requests'], 'each metric is reported once')
    for m in rig.rec.metrics:
        check_metric(x, m, [d for d in defs if d['name'] == m[1]][0], f_locals, f_globals, 'metric')
    x.reached('end')


def providers(x):
    """The processors for prometheus and opentelemetry, with their libraries."""
    kind, value = x.pick('type', TYPES), x.pick('expression', ['', 'k', 'k * 2.5', 'missing', '2 - k * i'])
    # the others cannot be less than 0
    x.assume('-' not in value or kind == 'GAUGE')
    namespace, unit = x.pick('namespace', [None, 'ns']), x.pick('unit', [None, '', 'ms'])
    labels = x.pick('labels', [[], [('a', ('static', 'b'))], [('a', ('expression', 'k')), ('c', ('static', 'd'))]])
    k, hits = 1 + x.index('k', 3), 1 + x.index('hits', 2)
    d = simple(0, name='vx_metric', type=kind, expression=value, namespace=namespace, unit=unit, labels=labels, help='about it')
    import opentelemetry.metrics._internal as internal
    from opentelemetry.sdk.metrics import MeterProvider
    from opentelemetry.sdk.metrics.export import InMemoryMetricReader
    from prometheus_client import REGISTRY
    reader = InMemoryMetricReader()
    provider = MeterProvider([reader])
    x.patch(internal, '_METER_PROVIDER', provider)
    rig = Rig(x, plugins=[])
    prometheus, otel = PrometheusPlugin(rig.config), OTelMetrics(rig.config)
    x.defer(prometheus.clear)
    rig.config.plugins = [prometheus, otel, rig.plugin(Metrics)]
    rig.install(tp('t', 'app.py', 10, MANY, [], [definition(d)]))
    for i in range(hits):
        with x.no_raise('trace'):
            rig.fire(Frame('/app/app.py', 'f', 10, {'k': k, 'i': i + 1}))
    total = sum({'': 1, 'k': k, 'k * 2.5': k * 2.5, 'missing': 1, '2 - k * i': 2 - k * (i + 1)}[value] for i in range(hits))
    tags = {key: str(k if how == 'expression' else v) for key, (how, v) in labels}
    name = '%s_vx_metric%s' % (namespace or 'deep', '_' + unit if unit else '')
    sums, counts = {'COUNTER': ('_total', None), 'GAUGE': ('', None), 'HISTOGRAM': ('_sum', '_count'), 'SUMMARY': ('_sum', '_count')}[kind]
    x.check(REGISTRY.get_sample_value(name + sums, tags) == total, 'the value of prometheus')
    if counts:
        x.check(REGISTRY.get_sample_value(name + counts, tags) == hits, 'the count of prometheus')
    data = reader.get_metrics_data()
    found = [m for r in data.resource_metrics for s in r.scope_metrics for m in s.metrics] if data else []
    x.check([m.name for m in found] == ['%s_vx_metric' % (namespace or 'deep')], 'the metric of opentelemetry')
    for m in found:
        x.check(m.description == 'about it' and m.unit == (unit or ''), 'the texts of opentelemetry')
        for p in m.data.data_points:
            x.check({a: str(b) for a, b in p.attributes.items()} == tags, 'the labels of opentelemetry')
            x.check(p.sum == total and p.count == hits if hasattr(p, 'count') else p.value == total, 'the value of opentelemetry')
        x.check(len(list(m.data.data_points)) == 1, 'the points of opentelemetry')
    with x.no_raise('shutdown'):
        prometheus.shutdown()
        otel.shutdown()
    x.check(REGISTRY.get_sample_value(name + sums, tags) is None, 'the registration is removed')
    provider.shutdown()
    x.reached('end')


def shared(x):
    """Two definitions that have the name, or the type, or the labels in common: the processors do not mix them."""
    import opentelemetry.metrics._internal as internal
    from opentelemetry.sdk.metrics import MeterProvider
    from opentelemetry.sdk.metrics.export import InMemoryMetricReader
    from prometheus_client import REGISTRY
    types = [x.pick('type%d' % i, TYPES) for i in range(2)]
    names = ['vx_one', x.pick('name', ['vx_one', 'vx_two', 'vx_onems'])]
    units = ['ms' if names[1] == 'vx_onems' else None, None]
    spaces = ['ns', x.pick('namespace', ['ns', 'other', None])]
    form = x.pick('labels', ['none', 'same', 'order', 'values'])
    labels = {'none': [[], []], 'same': [[('a', ('static', 'x'))]] * 2,
              'order': [[('a', ('static', 'x')), ('b', ('static', 'y'))], [('b', ('static', 'y')), ('a', ('static', 'x'))]],
              'values': [[('a', ('static', 'x'))], [('a', ('expression', 'k'))]]}[form]
    defs = [simple(i, name=names[i], type=types[i], namespace=spaces[i], expression=['3', 'k'][i], labels=labels[i], unit=units[i])
            for i in range(2)]
    spaces = [s or 'deep' for s in spaces]
    same = names[0] == names[1] and spaces[0] == spaces[1]
    # a provider has one type for each name
    x.assume(not same or types[0] == types[1] or form == 'none')
    provider, reader = None, InMemoryMetricReader()
    provider = MeterProvider([reader])
    x.patch(internal, '_METER_PROVIDER', provider)
    rig = Rig(x, plugins=[])
    prometheus, otel = PrometheusPlugin(rig.config), OTelMetrics(rig.config)
    x.defer(prometheus.clear)
    rig.config.plugins = [prometheus, otel]
    one = x.flag('one tracepoint')
    if one:
        rig.install(tp('t', 'app.py', 10, MANY, [], [definition(d) for d in defs]))
    else:
        rig.install(*[tp('t%d' % i, 'app.py', 10, MANY, [], [definition(d)]) for i, d in enumerate(defs)])
    for i in range(2):
        with x.no_raise('trace'):
            rig.fire(Frame('/app/app.py', 'f', 10, {'k': 5}))
    tags = [{k: '5' if how == 'expression' else v for k, (how, v) in lab} for lab in labels]
    sums = {'COUNTER': '_total', 'GAUGE': '', 'HISTOGRAM': '_sum', 'SUMMARY': '_sum'}
    merged = same and types[0] == types[1] and tags[0] == tags[1]
    for i in range(2):
        want = 16 if merged else [6, 10][i]
        if i == 1 and same and types[0] != types[1]:
            continue
        got = REGISTRY.get_sample_value('%s_%s%s%s' % (spaces[i], names[i], '_' + units[i] if units[i] else '', sums[types[i]]), tags[i])
        x.check(got == want, 'the value of prometheus')
    data = reader.get_metrics_data()
    points = {}
    for r in data.resource_metrics:
        for s in r.scope_metrics:
            for m in s.metrics:
                for p in m.data.data_points:
                    key = m.name, tuple(sorted((a, str(b)) for a, b in p.attributes.items())), type(m.data).__name__, \
                        getattr(m.data, 'is_monotonic', None)
                    points[key] = points.get(key, 0) + (p.sum if hasattr(p, 'count') else p.value)
    wanted = {}
    for i in range(2):
        kind = {'COUNTER': ('Sum', True), 'GAUGE': ('Sum', False)}.get(types[i], ('Histogram', None))
        key = ('%s_%s' % (spaces[i], names[i]), tuple(sorted(tags[i].items()))) + kind
        wanted[key] = wanted.get(key, 0) + [6, 10][i]
    x.check(points == wanted, 'the values of opentelemetry: %s' % sorted(set(points) ^ set(wanted), key=str)[:1])
    with x.no_raise('shutdown'):
        prometheus.shutdown()
        otel.shutdown()
    provider.shutdown()
    x.reached('end')


PROGRAM = '''\
FACTOR = 3


def work(items, name):
    total = 0
    for item in items:
        total += item  # A
    return total  # B


class Job:
    limit = 4

    def run(self, size=2):
        done = size * FACTOR
        return done  # C
'''
MODULE = load(PROGRAM, '/app/metrics.py')


def in_place(x):
    """Metrics at the lines of a program that runs."""
    mark = x.pick('place', ['# A', '# B', '# C'])
    kind = x.pick('type', TYPES)
    items = [x.index('i%d' % i, 3) for i in range(3)]
    expression, label = {'# A': ('item + total', 'name'), '# B': ('sum(items) * FACTOR', 'len(items)'), '# C': ('done', 'self.limit')}[mark]
    d = simple(0, type=kind, expression=expression, labels=[('l', ('expression', label)), ('s', ('static', 'v'))])
    rig = Rig(x)
    rig.install(tp('t', 'metrics.py', line_of(PROGRAM, mark), MANY, [], [definition(d)]))
    with traced(rig.handler):
        r = [MODULE.work(items, 'job'), MODULE.Job().run()]
    x.check(r == [sum(items), 6], 'the program is changed')
    label = {'# A': 'job', '# B': '3', '# C': '4'}[mark]
    values = {'# A': [sum(items[:i + 1]) for i in range(3)], '# B': [sum(items) * 3], '# C': [6]}[mark]
    x.check([m[6] for m in rig.rec.metrics] == values, 'the values')
    for m in rig.rec.metrics:
        x.check(m[0] == kind.lower() and m[2] == {'l': label, 's': 'v'} and m[3] == 'deep', 'the metric')
    x.reached('end')


HARNESSES = [
    H(one_metric, 'one definition: 6 types, %d expressions, 2 labels of %d, 3 namespaces, 2 helps, 2 units, at most 2 (thorough 3) not the '
                  'default; any integer -450..449 and any real -100..100' % (len(EXPRESSIONS), len(LABELS)), weight=3),
    H(processors, '1..3 metrics in 1 or 2 tracepoints, 0..3 processors that work, fail or exit', weight=2),
    H(budget, '4 hits each with and without a processor, fire count 1..3, 2 periods, 2 conditions, 3 kinds, any number', weight=2),
    H(messages, '4 types, 8 static values, 3 label expressions, 4 expressions, texts set or not'),
    H(providers, '4 types, 4 expressions, 2 namespaces, 3 units, 3 labels, values 1..3, 1..2 hits'),
    H(shared, '2 definitions with the same name, namespace, type or labels, or not, in one tracepoint or in two; 2 hits'),
    H(in_place, '3 places of a program, 4 types, 27 arguments'),
]
