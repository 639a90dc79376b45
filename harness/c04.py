"""Rate limits: the whole trace_call -> can_trigger -> record_triggered path is executed symbolically.

Timestamps, fire count, fire period, window and the truth of the condition are symbolic, a reference model of the limits
is asserted for each hit: what is collected is allowed, and what is allowed (and whose condition holds) is collected.
"""
import threading

from deep.api.tracepoint.tracepoint_config import MetricDefinition
from harness.common import Frame, Rig, tp
from vx import clock
from vx.sched import Sched
from vx.spec import H

TECHNIQUE = 'symbolic execution of the real source with z3 (path exploration, solver-decided branches, replayed models)'
STUBS = 'clock (symbolic readings, constant during a trace event), paused frames, snapshot delivery and plugins record'
OUTSIDE = 'more hits or threads than stated; limits that are not numbers are covered for the listed texts only'

MS = 1000000
FAR = 10 ** 18
KINDS = ['snapshot', 'log', 'metric', 'span']


def args_of(kind):
    if kind == 'log':
        return {'log_msg': 'hit', 'snapshot': 'no_collect'}, []
    if kind == 'metric':
        return {'snapshot': 'no_collect'}, [MetricDefinition('m', 'COUNTER')]
    if kind == 'span':
        return {'snapshot': 'no_collect', 'span': 'line'}, []
    return {}, []


def collected(rec, kind):
    return {'snapshot': rec.snapshots, 'log': rec.logs, 'metric': rec.metrics, 'span': rec.spans}[kind]


def number(x, name, lo, hi, form):
    v = x.int(name, lo, hi)
    return str(v) if form == 'text' else v


class Model:
    """The documented limits."""

    def __init__(self, x, count, period, start, end):
        self.x, self.count, self.period, self.start, self.end = x, count, period, start, end
        self.fired, self.compared = [], 10

    def in_window(self, ts, slack):
        x = self.x
        after = x.disj([self.start <= 0, ts >= self.start * MS])
        before = x.disj([self.end <= 0, ts < (self.end + 1) * MS if slack else ts <= self.end * MS])
        return x.conj([after, before])

    def hit(self, ts, collected, due):
        x = self.x
        limits = [x.disj([self.count == -1, self.count > len(self.fired)])]
        if self.fired:
            limits.append(ts - self.fired[-1] >= self.period * MS)
        if collected:
            x.check(limits[0], 'more collections than the fire count')
            for other in self.fired[-self.compared:]:
                x.check(ts - other >= self.period * MS, 'collections closer than the fire period')
            x.check(self.in_window(ts, True), 'collected outside of the window')
            x.check(due, 'collected when the condition does not hold')
            self.fired.append(ts)
        else:
            x.check(x.neg(x.conj(limits + [self.in_window(ts, False), due])), 'a permitted hit is not collected')


def setup(x, kind, form, window=True, condition=False):
    args, metrics = args_of(kind)
    count = x.int('fire_count', -3, 3)
    period = x.int('fire_period', -5, FAR)
    args['fire_count'] = str(count) if form == 'text' else count
    args['fire_period'] = str(period) if form == 'text' else period
    start = end = 0
    if window:
        start, end = x.int('window_start', -5, FAR), x.int('window_end', -5, FAR)
        args['window_start'] = str(start) if form == 'text' else start
        args['window_end'] = str(end) if form == 'text' else end
    if condition:
        args['condition'] = 'due'
    return args, metrics, Model(x, count, period, start, end)


def sequence(x):
    """Hits at any times, with a resend of the config between them."""
    kind = x.pick('kind', KINDS)
    rig = Rig(x)
    args, metrics, model = setup(x, kind, x.pick('form', ['text', 'number']), condition=True)
    build = lambda: tp('tp-1', args=args, metrics=metrics)
    rig.install(build())
    last = 1
    n = 3 if x.tier == 'quick' else 4
    out = collected(rig.rec, kind)
    for i in range(n):
        ts = x.int('ts%d' % i, 1, 1 << 62)
        x.assume(ts >= last)
        last = ts
        due = x.bool('due%d' % i)
        before = len(out)
        rig.at(ts)
        rig.fire(Frame('/app/app.py', 'f', 10, {'due': due}))
        x.check(len(out) - before <= 1, 'one hit gives more than one collection')
        model.hit(ts, len(out) > before, due)
        if i == 0 and x.flag('resent'):
            # the same tracepoint in a new response, that also has another one
            rig.install(tp('tp-2', line=20), build())
    x.reached('end')


LONG = 40


def long(x):
    """Many hits, at equal distances: the limits do not wear off."""
    kind = x.pick('kind', KINDS)
    rig = Rig(x)
    args, metrics = args_of(kind)
    count = x.int('fire_count', -1, LONG)
    period, distance = x.int('fire_period', 0, FAR), x.int('distance', 0, 1 << 56)
    # the period is as short as one, two, or all of the distances
    span = x.pick('distances', [0, 1, 2, LONG])
    x.assume(period * MS <= distance * span)
    if span:
        x.assume(period * MS > distance * (span // 2))
    args.update(fire_count=str(count), fire_period=str(period), condition='due')
    model = Model(x, count, period, 0, 0)
    model.compared = 1
    rig.install(tp('tp-1', args=args, metrics=metrics))
    out = collected(rig.rec, kind)
    rejected = x.pick('rejected', [0, 20]) if x.tier == 'thorough' or kind == 'snapshot' else 0
    ts = x.int('ts', 1, 1 << 61)
    for i in range(rejected + LONG):
        before = len(out)
        rig.at(ts)
        rig.fire(Frame('/app/app.py', 'f', 10, {'due': i >= rejected}))
        x.check(len(out) - before <= 1, 'one hit gives more than one collection')
        model.hit(ts, len(out) > before, i >= rejected)
        ts = ts + distance
    x.reached('end')


def clock_steps(x):
    """The clock can go backwards: the limits are still not exceeded."""
    rig = Rig(x)
    args, metrics, model = setup(x, 'snapshot', 'text')
    rig.install(tp('tp-1', args=args))
    fired = []
    for i in range(3):
        ts = x.int('ts%d' % i, 1, 1 << 62)
        before = len(rig.rec.snapshots)
        rig.at(ts)
        rig.fire(Frame('/app/app.py', 'f', 10))
        if len(rig.rec.snapshots) > before:
            x.check(x.disj([model.count == -1, model.count > len(fired)]), 'more collections than the fire count')
            for other in fired:
                x.check(x.disj([ts - other >= model.period * MS, other - ts >= model.period * MS]),
                        'collections closer than the fire period')
            x.check(model.in_window(ts, True), 'collected outside of the window')
            fired.append(ts)
    x.reached('end')


def independent(x):
    """Tracepoints on one location, and the actions of one tracepoint, each have their own limits."""
    rig = Rig(x)
    counts = [x.int('count%d' % i, -1, 2) for i in range(2)]
    periods = [x.int('period%d' % i, 0, 50) for i in range(2)]
    ids = ['tp-1', 'tp-2']
    # the config is sent again before one of the hits, in any order
    again, order = x.index('again', 3), x.flag('reversed')

    def install(reverse=False):
        triggers = [tp(i, args={'fire_count': str(c), 'fire_period': str(p)}, metrics=[MetricDefinition(i, 'GAUGE')])
                    for i, c, p in zip(ids, counts, periods)]
        if reverse:
            triggers.reverse()
        triggers[0].merge_actions(triggers[1].actions)
        rig.install(triggers[0])
    x.assume(again > 0 or not order)
    install()
    snap = [Model(x, c, p, 0, 0) for c, p in zip(counts, periods)]
    metric = [Model(x, c, p, 0, 0) for c, p in zip(counts, periods)]
    last = 1
    for i in range(3):
        ts = x.int('ts%d' % i, 1, 1 << 50)
        x.assume(ts >= last)
        last = ts
        del rig.rec.snapshots[:], rig.rec.metrics[:]
        if i > 0 and i == again:
            install(order)
        rig.at(ts)
        rig.fire(Frame('/app/app.py', 'f', 10))
        for k, tp_id in enumerate(ids):
            snap[k].hit(ts, sum(s.tracepoint.id == tp_id for s in rig.rec.snapshots) == 1, True)
            metric[k].hit(ts, sum(m[1] == tp_id for m in rig.rec.metrics) == 1, True)
    x.reached('end')


DEFAULTS = [({}, 1, 1000), ({'fire_count': 'abc'}, 1, 1000), ({'fire_count': ''}, 1, 1000),
            ({'fire_count': '-1', 'fire_period': 'soon'}, -1, 1000), ({'fire_count': '2', 'fire_period': ''}, 2, 1000),
            ({'fire_count': None, 'fire_period': '0'}, 1, 0), ({'fire_count': '0'}, 0, 1000),
            ({'fire_count': ' 2 ', 'fire_period': '0'}, 2, 0), ({'fire_count': '-1', 'fire_period': '-5'}, -1, -5),
            ({'window_start': 'x', 'window_end': None, 'fire_count': '2', 'fire_period': '0'}, 2, 0)]


def defaults(x):
    """Limits that are not given, or are not numbers, are the defaults."""
    args, count, period = x.pick('args', DEFAULTS)
    rig = Rig(x)
    rig.install(tp('tp-1', args=dict(args)))
    model = Model(x, count, period, 0, 0)
    model.compared = 1
    last = 1
    for i in range(3):
        ts = x.int('ts%d' % i, 1, 1 << 62)
        x.assume(ts >= last)
        last = ts
        before = len(rig.rec.snapshots)
        rig.at(ts)
        rig.fire(Frame('/app/app.py', 'f', 10))
        model.hit(ts, len(rig.rec.snapshots) > before, True)
    x.reached('end')


class Stamped(list):
    """What is collected, with the time of the hit that collects it."""

    def __init__(self):
        super().__init__()
        self.times = []

    def append(self, value):
        super().append(value)
        self.times.append(clock.override())


def threaded(rig):
    rec, stamps = rig.rec, {}
    rec.snapshots, rec.logs, rec.metrics, rec.spans = Stamped(), Stamped(), Stamped(), Stamped()
    clock.override = lambda: stamps.get(threading.get_ident(), 1)

    def hit(*times):
        for ts in times:
            stamps[threading.get_ident()] = ts
            rig.fire(Frame('/app/app.py', 'f', 10))
    return hit


def check_threads(x, out, count, period, window, times):
    """What has to be true of any order of the hits."""
    fired = out.times
    x.check(x.disj([count == -1, count >= len(fired)]), 'more collections than the fire count')
    for i, a in enumerate(fired):
        for b in fired[i + 1:]:
            x.check(x.disj([a - b >= period * MS, b - a >= period * MS]), 'collections closer than the fire period')
        x.check(window.in_window(a, True), 'collected outside of the window')
    inside = [window.in_window(ts, False) for ts in times]
    if not fired:
        x.check(x.disj([count == 0, x.conj([x.neg(w) for w in inside])]), 'no thread collects')
    if len(fired) < len(times):
        x.check(x.disj([x.conj([count != -1, count <= len(fired)]), period > 0, x.neg(x.conj(inside))]),
                'a permitted hit is not collected')


def threads(x):
    """Threads reach the location at the same time, in any interleaving."""
    kind = x.pick('kind', ['log'] if x.tier == 'quick' else KINDS)
    n = 2 if x.tier == 'quick' else 3
    rig = Rig(x)
    args, metrics = args_of(kind)
    count, period, start, end = x.int('fire_count', -1, 2), 0, 0, 0
    if x.tier == 'thorough' and x.flag('window'):
        start, end = x.int('window_start', 0, 20000), x.int('window_end', 0, 20000)
    else:
        period = x.int('fire_period', 0, 1000)
    args.update(fire_count=str(count), fire_period=str(period), window_start=str(start), window_end=str(end))
    rig.install(tp('tp-1', args=args, metrics=metrics))
    hit = threaded(rig)
    times = [x.int('ts%d' % i, 1, 1 << 50) for i in range(n)]
    with Sched(x, preemptions=1 if x.tier == 'quick' else 2) as s:
        for ts in times:
            s.spawn(hit, ts)
        s.go()
    x.check(not s.deadlock, 'the threads do not terminate')
    check_threads(x, collected(rig.rec, kind), count, period, Model(x, count, period, start, end), times)
    x.reached('end')


def resend(x):
    """The same tracepoint arrives in a new response while a thread is at the location."""
    kind = x.pick('kind', ['log'] if x.tier == 'quick' else KINDS)
    rig = Rig(x)
    args, metrics = args_of(kind)
    count, period = x.int('fire_count', -1, 2), x.int('fire_period', 0, 1000)
    args.update(fire_count=str(count), fire_period=str(period))
    build = lambda: tp('tp-1', args=dict(args), metrics=metrics)
    rig.install(build())
    hit = threaded(rig)
    times = [x.int('ts%d' % i, 1, 1 << 50) for i in range(2)]
    x.assume(times[0] <= times[1])
    before = x.flag('hit before')
    if before:
        hit(times[0])
    with Sched(x, preemptions=1 if x.tier == 'quick' else 2) as s:
        s.spawn(hit, *times[1 if before else 0:])
        s.spawn(rig.install, build(), tp('tp-2', line=20))
        s.go()
    x.check(not s.deadlock, 'the threads do not terminate')
    check_threads(x, collected(rig.rec, kind), count, period, Model(x, count, period, 0, 0), times)
    x.reached('end')


HARNESSES = [
    H(sequence, '3 hits (thorough 4) at any non-decreasing times < 2^62 ns, fire_count -3..3, fire_period -5..10^18 ms, '
                'window bounds -5..10^18 ms, any condition results, one resend of the config, 4 action types', weight=3),
    H(long, '%d hits at any equal distances (after 20 that the condition rejects, or none), any fire_count -1..%d, the fire_period is 0, '
            'or of 1, 2 or all of the distances' % (LONG, LONG)),
    H(clock_steps, '3 hits at any times in any order'),
    H(independent, '2 tracepoints with 2 actions each on one line, 3 hits, fire_count -1..2, fire_period 0..50 ms'),
    H(threads, '2 threads (thorough 3) hit the location at any times, 1 preemption (thorough 2) at any line or lock operation, '
               'fire_count -1..2, fire_period 0..1000 ms (thorough also window bounds 0..20000 ms), log actions (thorough all)', weight=3),
    H(resend, 'one thread hits the location twice at any times while another installs a response that has the tracepoint '
              'again, 1 preemption (thorough 2) at any line or lock operation, fire_count -1..2, fire_period 0..1000 ms, log '
              'actions (thorough all)', weight=2),
    H(defaults, '%d argument sets, 3 hits at any non-decreasing times' % len(DEFAULTS)),
]
