"""Trigger placement: the location matching is executed symbolically.

With events that have symbolic files, lines, functions and kinds, and with real programs that run under the real trace
hook while the location of the tracepoint is symbolic. The hits are compared with the events of a reference recording.
"""
import sys

from deep.api.plugin import TracepointLogger
from deep.grpc import convert_response
from deepproto.proto.tracepoint.v1.tracepoint_pb2 import TracePointConfig
from harness.common import Code, Frame, Rig, load, tp, traced
from harness.programs import PROGRAMS, app_frame, reference
from vx.spec import H

TECHNIQUE = 'symbolic execution of the real source with z3 (path exploration, solver-decided branches, replayed models)'
STUBS = 'paused frames (events harnesses only), snapshot delivery and plugins record'
OUTSIDE = 'programs other than those listed; source paths with directories in the tracepoint'

EVENTS = ['line', 'call', 'return', 'exception', 'opcode']
LOG = {'log_msg': 'hit', 'snapshot': 'no_collect', 'fire_count': '-1', 'fire_period': '0'}


class Where(TracepointLogger):
    """Record where the program is at each action."""

    def __init__(self, config=None):
        super().__init__(config=config)
        self.hits = []

    def log_tracepoint(self, log_msg, tp_id, ctx_id):
        frame = app_frame()
        self.hits.append((tp_id, frame.f_lineno, frame.f_code.co_name) if frame else (tp_id, None, None))


def ids(rec):
    return sorted(entry[1] for entry in rec.logs)


def line_events(x):
    """Any event, for any line of any file, with three tracepoints on any lines."""
    rig = Rig(x)
    names = ['tp-%d' % i for i in range(3)]
    lines = [x.int('tp_line%d' % i, -1, 100000) for i in range(3)]
    paths = ['a.py', x.enum('tp_path', ['a.py', 'b.py', 'aa.py', 'A.py']), x.str('tp_name', 4, alphabet='ab./py')]
    rig.install(*[tp(n, path=p, line=line, args=dict(LOG)) for n, p, line in zip(names, paths, lines)])
    folder = x.pick('folder', ['/app/', '/lib/a.py/', ''])
    name = x.pick('file', ['a.py', 'b.py', 'aa.py', 'a.pyc', '<string>', 'b\\a.py', 'a.py ', 'A.PY'])
    for i in range(2 if x.tier == 'thorough' else 1):
        event = x.enum('event%d' % i, EVENTS)
        line = x.int('line%d' % i, 0, 100000)
        del rig.rec.logs[:]
        with x.no_raise('trace function'):
            rig.fire(Frame(folder + name, 'a.py', line), event, None)
        got = ids(rig.rec)
        for n, p, at in zip(names, paths, lines):
            expect = x.conj([event == 'line', p == name, at == line])
            x.check(x.eq(n in got, True) if expect is True else (x.disj([expect]) if n in got else x.neg(expect)),
                    'line tracepoint acts exactly at its line: %s' % n)
        x.check(len(got) == len(set(got)), 'acts once for one event')
    x.reached('end')


def method_events(x):
    """Any event of any function, with tracepoints on named methods."""
    rig = Rig(x)
    names = ['tp-%d' % i for i in range(2)]
    methods = [x.enum('method0', ['run', 'ru', 'runs', '<module>', 'a.py']), x.str('method1', 3, alphabet='runRU_')]
    lines = [x.int('tp_line%d' % i, -1, 1000) for i in range(2)]
    triggers = []
    for n, m, line, form in zip(names, methods, lines, x.pick('form', [(0, 1), (1, 2), (2, 0)])):
        args = dict(LOG, method_name=m)
        if form:
            args['stage'] = ['method_start', 'method_end'][form - 1]
        triggers.append(tp(n, path='a.py', line=line, args=args))
    rig.install(*triggers)
    event = x.enum('event', EVENTS)
    name = x.pick('file', ['a.py', 'b.py'])
    if x.flag('any function'):
        function = x.str('function', 4, alphabet='_runsRU01<> ')
    else:
        function = x.enum('listed function', ['run', 'ru', 'rur', 'RUN', '<module>', '<lambda>', '_run', 'run_', 'run__'])
    with x.no_raise('trace function'):
        rig.fire(Frame('/app/' + name, function, x.int('line', 0, 1000)), event, None)
    got = ids(rig.rec)
    for n, m in zip(names, methods):
        expect = x.conj([event == 'call', name == 'a.py', m == function])
        x.check(expect if n in got else x.neg(expect), 'method tracepoint acts exactly on entry of its method: %s' % n)
    x.check(len(got) == len(set(got)), 'acts once for one event')
    x.reached('end')


def run_traced(rig, source, filename='/app/app.py'):
    with traced(rig.handler):
        load(source, filename)


def where_rig(x):
    rig = Rig(x, plugins=[])
    where = Where()
    rig.config.plugins = [where]
    return rig, where


def line_programs(x):
    """Real programs, with two tracepoints on any lines."""
    name = x.pick('program', sorted(PROGRAMS))
    source = PROGRAMS[name]
    events = reference(source)
    rig, where = where_rig(x)
    last = source.count('\n') + 1
    first = x.int('line0', 0, last + 1)
    tps = [('tp-0', 'app.py', first)]
    second = x.int('line1', 1, last)
    if x.tier == 'quick':
        x.assume(second == 6)
    tps.append(('tp-1', 'app.py', second))
    other = x.pick('other', [None, 'other.py'])
    if other:
        tps.append(('tp-2', other, first))
    rig.install(*[tp(i, path=p, line=line, args=dict(LOG)) for i, p, line in tps])
    run_traced(rig, source)
    check_hits(x, where.hits, events, lambda e: [i for i, p, line in tps if p == e.file and e.event == 'line' and line == e.line])
    x.reached(name)


def check_hits(x, hits, events, match):
    expected = []
    for e in events:
        expected += [(i, e.line, e.function) for i in match(e)]
    x.check(hits == expected, 'acts at %s, and not at %s' % (
        sorted(set(hits) - set(expected))[:3] or hits[:3], sorted(set(expected) - set(hits))[:3] or expected[:3]))


METHODS = ['fact', 'inner', '<lambda>', 'gen', 'guard', 'co', 'run', 'value', 'run_static', '<module>', 'Sub', 'fac', '<listcomp>', 'feed', 'use',
           '__await__', 'delegate', '<genexpr>', '__aexit__']


def method_programs(x):
    """Real programs, with tracepoints on any methods."""
    name = x.pick('program', sorted(PROGRAMS))
    source = PROGRAMS[name]
    events = reference(source)
    rig, where = where_rig(x)
    method, line = x.enum('method', METHODS), x.int('line', 1, source.count('\n') + 1)
    form = x.pick('form', [{}, {'stage': 'method_start'}, {'stage': 'method_end'}])
    if x.tier == 'quick':
        x.assume(line == 5)
    rig.install(tp('tp-0', line=x.int('tp_line', -1, 1000), args=dict(LOG, method_name=method, **form)),
                tp('tp-1', line=line, args=dict(LOG)),
                tp('tp-2', path='other.py', line=line, args=dict(LOG, method_name=method)))
    run_traced(rig, source)

    def match(e):
        out = []
        if e.entry and method == e.function:
            out.append('tp-0')
        if e.event == 'line' and line == e.line:
            out.append('tp-1')
        return out
    check_hits(x, where.hits, events, match)
    x.reached(name)


def same_location(x):
    """Tracepoints on one location do not depend on each other, whether they are merged or not."""
    rig = Rig(x)
    lines = [x.int('line%d' % i, 1, 3) for i in range(3)]
    due = [x.bool('due%d' % i) for i in range(3)]
    counts = [x.int('count%d' % i, 0, 2) for i in range(3)]
    method = x.flag('method')
    # of this one the condition cannot be evaluated
    bad = 2 if method else 1
    function = x.pick('function', ['f', 'F']) if method else 'f'
    tps = []
    for i in range(3):
        args = dict(LOG, fire_count=str(counts[i]), condition='due%d%s' % (i, ' and missing' if i == bad else ''))
        if method:
            args['method_name'] = ['f', 'F', 'f'][i]
        if x.symbolic or True:
            tps.append(TracePointConfig(ID='tp-%d' % i, path='app.py', line_number=lines[i], args=args))
    with x.no_raise('convert response'):
        rig.install(*convert_response(tps))
    fired = [0, 0, 0]
    at = x.int('at', 1, 3)
    for hit in range(2):
        del rig.rec.logs[:]
        rig.fire(Frame('/app/app.py', function, at, {'due%d' % i: due[i] for i in range(3)}), 'call' if method else 'line')
        got = ids(rig.rec)
        for i in range(3):
            here = ['f', 'F', 'f'][i] == function if method else (lines[i] == at)
            expect = x.conj([here, i != bad, due[i], counts[i] > fired[i]])
            n = 'tp-%d' % i
            x.check(expect if n in got else x.neg(expect), 'independent of the others at the location: %s' % n)
            fired[i] += n in got
    x.reached('end')


def threads(x):
    """Threads that are traced by the same agent: each is only at its own location."""
    rig = Rig(x)
    lines = [10, 20]
    at = [x.pick('at%d' % i, lines) for i in range(2)]
    rig.install(*[tp('tp-%d' % i, line=lines[i], args=dict(LOG)) for i in range(2)])
    from vx.sched import Sched
    with Sched(x, preemptions=1) as s:
        for i in range(2):
            s.spawn(rig.fire, Frame('/app/app.py', 'f', at[i]))
        s.go()
    x.check(not s.deadlock, 'the threads do not terminate')
    got = ids(rig.rec)
    for i in range(2):
        n = got.count('tp-%d' % i)
        x.check(at.count(lines[i]) == n, 'each thread acts at its own location')
    x.reached('end')


HARNESSES = [
    H(line_events, '3 tracepoints at any lines (-1..100000) of files with listed or any 4 character names (a b . / p y), any '
                   'event, any frame line, listed folders and files, 1 event (thorough 2)', weight=2),
    H(method_events, '2 tracepoints on any listed or 3 character methods, any event, listed files, any listed or 4 character functions'),
    H(line_programs, '%d programs run under the real trace hook, tracepoints on any line of the program (one of the two is fixed '
                     'in quick)' % len(PROGRAMS), reach=sorted(PROGRAMS), weight=2),
    H(method_programs, '%d programs run under the real trace hook, tracepoint on any of %d names' % (
        len(PROGRAMS), len(METHODS)), reach=sorted(PROGRAMS), weight=2),
    H(same_location, '3 tracepoints from one response on lines 1..3 or on methods, any conditions, fire counts 0..2, 2 hits'),
    H(threads, '2 threads, each at one of 2 tracepoints, 1 preemption at any line or lock operation'),
]
