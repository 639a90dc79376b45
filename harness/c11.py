"""Interpretation of the tracepoint arguments: the conversion and everything after it is executed over symbolic arguments.

The presence and value of every argument is symbolic. A real program is run under the real trace hook with the tracepoint
installed, as a response of the service or registered in code, and the effects are compared with a reference
interpretation of the arguments.
"""
from deep.api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition
from deep.config.tracepoint_config import TracepointConfigService
from deep.grpc import convert_response
from deepproto.proto.tracepoint.v1.tracepoint_pb2 import LabelExpression as ProtoLabel, Metric, TracePointConfig
from harness.common import Rig, line_of, load, traced
from vx.spec import H

TECHNIQUE = 'symbolic execution of the real source with z3 (path exploration, solver-decided branches, replayed models)'
STUBS = 'clock, snapshot delivery, plugins record, task handler runs tasks inline'
OUTSIDE = 'what an unknown value of span or frame_type means for the span, or the variables; other empty values than condition, ' \
          'limits and frame_type'

PROGRAM = '''\
def g(a):
    return a


def f(a):
    first = a + 1
    x = first + 1  # T
    y = g(x)
    return y  # U


def run():
    for a in (4, 5, 6):
        f(a)
'''
T, U = line_of(PROGRAM, '# T'), line_of(PROGRAM, '# U')
MODULE = load(PROGRAM, '/app/app.py')
LINE_STAGES = ['line_start', 'line_end', 'line_capture']
METHOD_STAGES = ['method_start', 'method_end', 'method_capture']
TYPES = ['COUNTER', 'GAUGE', 'HISTOGRAM', 'SUMMARY']


class Inline:
    """Task handler that completes each task before it returns."""

    def submit_task(self, task, *args):
        task(*args)
        return self

    def add_done_callback(self, fn):
        fn(self)


class Spec:
    """A tracepoint."""

    def __init__(self, tp_id, args, line=T, watches=(), metrics=(), path='app.py'):
        self.id, self.args, self.line, self.watches, self.metrics, self.path = tp_id, args, line, list(watches), list(metrics), path


def install(x, rig, specs, source):
    """Install the tracepoints; returns the ids they have."""
    service = rig.config.tracepoints
    service.set_task_handler(Inline())
    if source == 'service':
        response = []
        for s in specs:
            metrics = [Metric(name=n, type=TYPES.index(t) if t in TYPES else 99, expression=e, namespace='ns', help='h', unit='u',
                              labelExpressions=[ProtoLabel(key='k', expression='a')]) for n, t, e in s.metrics]
            response.append(TracePointConfig(ID=s.id, path=s.path, line_number=s.line, args=s.args, watches=s.watches,
                                             metrics=metrics))
        with x.no_raise('convert response'):
            service.update_new_config(1, 'hash', convert_response(response))
        return [s.id for s in specs]
    ids = []
    for s in specs:
        with x.no_raise('add custom'):
            ids.append(service.add_custom(s.path, s.line, dict(s.args), list(s.watches), [
                MetricDefinition(n, t, [LabelExpression('k', None, 'a')], e, 'ns', 'h', 'u') for n, t, e in s.metrics]))
    return ids


def place(s):
    """Where the tracepoint has to act: line, method or nowhere."""
    stage = s.args.get('stage')
    if stage is None:
        return 'method' if 'method_name' in s.args or s.args.get('span') == 'method' else 'line'
    if stage in LINE_STAGES:
        return 'line'
    return 'method' if stage in METHOD_STAGES else None


def run(x, rig):
    rig.at(5000000)
    with traced(rig.handler):
        MODULE.run()


def expected(s, values=(4, 5, 6)):
    """The hits as (function, line, locals)."""
    kind = place(s)
    if kind is None or s.path != 'app.py' or any(t not in TYPES for _, t, _ in s.metrics):
        return []
    if kind == 'line':
        hits = {T: [('f', T, {'a': a, 'first': a + 1}) for a in values],
                U: [('f', U, {'a': a, 'first': a + 1, 'x': a + 2, 'y': a + 2}) for a in values]}.get(s.line, [])
    else:
        name = s.args.get('method_name', 'f')
        hits = []
        for a in values:
            if name == 'f':
                hits.append(('f', None, {'a': a}))
            if name == 'g':
                hits.append(('g', None, {'a': a + 2}))
    condition = s.args.get('condition')
    if condition:
        hits = [h for h in hits if holds(condition, h[2])]
    return hits


def holds(condition, values):
    try:
        return bool(eval(condition, {}, dict(values)))
    except Exception:
        return False


def limit(x, s, hits):
    """The hits that are allowed by the limits, when there is no time between the hits."""
    period = s.args.get('fire_period', '1000')
    try:
        period = int(period)
    except ValueError:
        period = 1000
    if period > 0:
        hits = hits[:1]
    if not int(s.args.get('window_start', 0)) <= 5 <= int(s.args.get('window_end', 5)):
        hits = []
    count = s.args.get('fire_count', '1')
    try:
        count = int(count)
    except ValueError:
        count = 1
    return hits if count == -1 else hits[:count] if count > 0 else []


def verify(x, rig, specs, ids):
    """Compare the effects of each tracepoint."""
    rec = rig.rec
    for s, tp_id in zip(specs, ids):
        hits = limit(x, s, expected(s))
        collect = s.args.get('snapshot') != 'no_collect'
        snapshots = [n for n in rec.snapshots if n.tracepoint.id == tp_id]
        x.check(len(snapshots) == (len(hits) if collect else 0), 'a snapshot unless collection is switched off: %s' % s.args)
        stage = s.args.get('stage')
        for snapshot, hit in zip(snapshots, hits):
            verify_snapshot(x, s, snapshot, hit)
        logs = [e for e in rec.logs if e[1] == tp_id]
        x.check(len(logs) == (len(hits) if 'log_msg' in s.args else 0), 'a log line when a log message is given: %s' % s.args)
        for log, hit in zip(logs, hits):
            x.check(log[0] == '[deep] at %s' % hit[2]['a'], 'the log line has the message of the tracepoint')
        values = [hit[2] for hit in hits]
        metrics = [m for m in rec.metrics if m[1].startswith(s.id)]
        wanted = []
        for v in values:
            for name, kind, expression in s.metrics:
                wanted.append((kind.lower(), name, {'k': str(v['a'])}, 'ns', 'h', 'u', float(eval(expression, {}, v)) if expression else 1.0))
        x.check([(k, n, {a: str(b) for a, b in lab.items()}, ns, h, u, v) for k, n, lab, ns, h, u, v in metrics] == wanted,
                'one metric for each definition: %s' % s.args)
        spans = [p for p in rec.spans if p.tp_id == tp_id]
        if s.args.get('span', 'line') in ('line', 'method'):
            x.check(len(spans) == (len(hits) if 'span' in s.args else 0), 'a span when it is requested: %s' % s.args)
        else:
            x.check(len(spans) in (0, len(hits)), 'no other spans than requested: %s' % s.args)
        x.check(all(rec.closed.count(p) == 1 for p in spans), 'each span is completed')
    known = set(ids)
    x.check(all(n.tracepoint.id in known for n in rec.snapshots) and all(e[1] in known for e in rec.logs)
            and all(p.tp_id in known for p in rec.spans), 'only the tracepoints act')


def verify_snapshot(x, s, snapshot, hit):
    frames = snapshot.frames
    x.check(frames[0].method_name == hit[0] and (hit[1] is None or frames[0].line_number == hit[1]),
            'collected at the line, or the method')
    kind = s.args.get('frame_type', 'single_frame')
    names = [{v.name: snapshot.var_lookup[v.vid].value for v in f.variables} for f in frames[:2]]
    top = {k: str(v) for k, v in hit[2].items()}
    if kind not in ('single_frame', 'all_frame', 'no_frame'):
        kind = {(False, False): 'no_frame', (True, True): 'all_frame'}.get((bool(names[0]), bool(names[1])), 'single_frame')
    x.check(names[0] == ({} if kind == 'no_frame' else top), 'variables of the frame: %s' % kind)
    x.check(bool(names[1]) == (kind == 'all_frame'), 'variables of the callers: %s' % kind)
    watches = [w for w in snapshot.watches if w.source == 'WATCH']
    x.check([w.expression for w in watches] == s.watches, 'the watches of the tracepoint')
    for w in watches:
        value = None if w.result is None else snapshot.var_lookup[w.result.vid].value
        try:
            wanted = str(eval(w.expression, {}, dict(hit[2])))
        except Exception:
            wanted = None
        x.check(value == wanted, 'the value of the watch')
    x.check((snapshot.log_msg is None) == ('log_msg' not in s.args), 'log message of the snapshot')
    captured = [w.expression for w in snapshot.watches if w.source == 'CAPTURE']
    ends = s.args.get('stage') == 'method_capture' or s.args.get('stage') == 'line_capture' and hit[1] == U
    x.check(captured == (['return'] if ends else []), 'captures of the snapshot')


def optional(x, args, key, options):
    """Set the argument to one of the options; None is absent. Returns 1 if it is not absent."""
    value = x.pick(key, options)
    if value is not None:
        args[key] = value
    return 0 if value is None else 1


def placement(x):
    """Where the actions are: stage, method name and span."""
    args = {'fire_count': '-1', 'fire_period': '0'}
    optional(x, args, 'stage', [None] + LINE_STAGES + METHOD_STAGES + ['bad', 'LINE_START', 'capture'])
    optional(x, args, 'method_name', [None, 'f', 'g', 'T'])
    optional(x, args, 'span', [None, 'line', 'method', 'other'])
    optional(x, args, 'snapshot', [None, 'no_collect'])
    args['log_msg'] = 'at {a}'
    rig = Rig(x)
    spec = Spec('tp-0', args, x.pick('line', [T, U]), ['a'], [('tp-0-m', 'COUNTER', 'a')])
    ids = install(x, rig, [spec], x.pick('source', ['service', 'code']))
    run(x, rig)
    verify(x, rig, [spec], ids)
    x.reached('end')


ACTIONS = {
    'snapshot': [None, 'no_collect', 'collect', 'other'],
    'log_msg': [None, 'at {a}'],
    'metrics': [(), (('tp-0-m', 'COUNTER', 'a'),), (('tp-0-n', 'GAUGE', ''), ('tp-0-o', 'HISTOGRAM', 'a * 2')),
                (('tp-0-m', 'COUNTER', 'a'), ('tp-0-m', 'COUNTER', 'a'), ('tp-0-m', 'SUMMARY', ''))],
    'span': [None, 'line', 'method', 'other'],
}
DETAILS = {
    'condition': [None, 'a > 4', 'missing', ''],
    'frame_type': [None, 'single_frame', 'all_frame', 'no_frame', 'other', ''],
    'watches': [(), ('a',), ('a + 1', 'missing', 'a'), ('a', 'a')],
    'fire_period': ['0', None, 'bad', '5000', '-1', ''],
    'fire_count': ['-1', None, '2', 'bad', '0', ''],
    'stack_type': [None, 'stack', 'frame', 'other'],
    'window_start': [None, '900', '2'],
    'window_end': [None, '2', '900'],
}


def actions(x):
    """Which actions there are, and with which condition, limits, frames and watches."""
    source = x.pick('source', ['service', 'code'])
    wide = x.tier == 'thorough'
    stages = [None, 'method_capture', 'line_capture', 'method_start', 'line_end']
    stage = x.pick('stage', stages if wide or source == 'service' else stages[:2])
    args = x.combine(ACTIONS, None if wide else 2)
    args.update(x.combine(DETAILS, 2 if wide else 1))
    if stage is not None:
        args['stage'] = stage
    metrics, watches = args.pop('metrics'), args.pop('watches')
    args = {k: v for k, v in args.items() if v is not None}
    rig = Rig(x)
    spec = Spec('tp-0', args, T, watches, metrics)
    ids = install(x, rig, [spec], source)
    run(x, rig)
    verify(x, rig, [spec], ids)
    x.reached('end')


MANY = {'fire_count': '-1', 'fire_period': '0'}
LOG = dict(MANY, snapshot='no_collect', log_msg='at {a}')
SPECS = [
    lambda i: Spec(i, dict(LOG)),
    lambda i: Spec(i, dict(MANY), watches=['a']),
    lambda i: Spec(i, dict(MANY, stage='line_capture', frame_type='no_frame', log_msg='at {a}')),
    lambda i: Spec(i, dict(MANY, snapshot='no_collect', span='line', fire_count='2')),
    lambda i: Spec(i, dict(MANY, condition='a > 4'), metrics=[(i + '-m', 'COUNTER', 'a')]),
    lambda i: Spec(i, dict(LOG, stage='method_start', method_name='f')),
    lambda i: Spec(i, dict(MANY, stage='method_capture', method_name='f', condition='a == 5'), watches=['missing']),
    lambda i: Spec(i, dict(LOG, stage='bad')),
    lambda i: Spec(i, dict(LOG), metrics=[(i + '-m', 'OTHER', 'a')]),
    lambda i: Spec(i, dict(LOG, span='method', method_name='g')),
    lambda i: Spec(i, dict(LOG), line=U),
    lambda i: Spec(i, dict(LOG), path='other.py'),
]


def responses(x):
    """Lists of tracepoints, on shared locations, some of which cannot be interpreted."""
    source = x.pick('source', ['service', 'code'])
    size = 3 if x.tier == 'thorough' else 2
    picks = [x.index('kind%d' % i, len(SPECS)) for i in range(size)]
    if x.tier == 'quick':
        # the last is one that shares the location with most of the others
        picks.append(x.pick('last', [0, 6]))
    specs = [SPECS[k]('tp-%d' % i) for i, k in enumerate(picks)]
    if source == 'code':
        # in code there are only the known types
        x.assume(not any(k == 8 for k in picks))
    rig = Rig(x)
    ids = install(x, rig, specs, source)
    x.check(len(set(ids)) == len(ids), 'each registration has its own id')
    run(x, rig)
    verify(x, rig, specs, ids)
    x.reached('end')


HARNESSES = [
    H(placement, 'any of 10 stages (or none), 4 method names (or none), span line/method/other/absent, collected or not, 2 lines, from '
                 'the service or from code; 3 hits'),
    H(actions, 'snapshot (4) x log x metrics (4) x span (4) x condition (4) x frame_type (6) x watches (4) x fire_period (6) x '
               'fire_count (6) x stack_type (4) x windows (3 x 3) x stage (5; quick: 2 when it is from code), from the service or code; quick: at most 2 of the actions and 1 of the '
               'others are not the default (thorough: all and 2); 3 hits', weight=2),
    H(responses, 'every list of 3 (quick: the last one of 2) of 12 tracepoints, in any order, from the service or code; 3 hits',
      weight=2),
]
BUDGET = {'quick': 75, 'thorough': 600}
