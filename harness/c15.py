"""Deferred work: programs of symbolic shape are run by the interpreter with the agent as the trace function.

What the interpreter did (which invocation began, ended and with what) is observed with sys.monitoring, independent of the
trace function. Each span and each capture has to be completed once, within the time that it belongs to, and with the
result of its own invocation. The schedules of threads are explored with paused frames.
"""
import dis
import sys
import threading

from opentelemetry import trace
import opentelemetry.sdk.trace as otel_sdk

from deep.api.plugin.otel import OTelPlugin
from harness.common import Frame, Logger, Metrics, RecSpan, Recorder, Rig, Spans, line_of, load, tp, traced
from vx.sched import Sched
from vx.spec import H

TECHNIQUE = 'symbolic execution of the real source with z3 (path exploration, solver-decided branches and schedules, replayed models)'
STUBS = 'delivery and plugins record; schedules: paused frames, their events are called as the interpreter does'
OUTSIDE = 'loops of a single line; suspended generators that are closed while they are referenced; frames that are replaced by a ' \
          'debugger; preemptions beyond the bound; work that is left when a thread is killed'

MANY = {'fire_count': '-1', 'fire_period': '0'}
TOOL = 3
FILE = '/app/app.py'

# the bodies of the functions: {next} is the next function, {self} the function
BODIES = {
    'plain': '''
    v = n
    return v''',
    'raise': '''
    v = n
    raise ValueError('failed')''',
    'call': '''
    v = take({next}(n))
    return v''',
    'direct': '''
    return take({next}(n))''',
    'caught': '''
    try:
        v = take({next}(n))
    except ValueError:
        v = 'caught'
    return v''',
    'finally': '''
    v = 0
    try:
        v = take({next}(n))
    finally:
        w = v
    return w''',
    'reraise': '''
    try:
        v = take({next}(n))
    except Exception:
        raise
    return v''',
    'convert': '''
    try:
        v = take({next}(n))
    except ValueError as e:
        raise KeyError('other') from e
    return v''',
    'return in finally': '''
    try:
        return take({next}(n))
    finally:
        return 'finally\'''',
    'loop': '''
    v = 0
    for i in range(2):
        v = take({next}(n))
    return v''',
    'loop caught': '''
    v = 0
    for i in range(2):
        try:
            v = take({next}(n))
        except ValueError:
            continue
    return v''',
    'with': '''
    with manager():
        v = take({next}(n))
    return v''',
    'recursive': '''
    global DEPTH
    if DEPTH:
        DEPTH -= 1
        v = {self}(n)
    else:
        v = take({next}(n))
    return v''',
    'inner': '''
    def inner(m):
        w = take({next}(m))
        return w
    v = [inner(m) for m in (n, n)]
    return len(v)''',
    'twice': '''
    v = [take({next}(n)), take({next}(n))]
    return len(v)''',
    'no return': '''
    v = take({next}(n))''',
    'generator': '''
    yield n
    v = take({next}(n))
    yield v
    return 'done\'''',
    'generator none': '''
    v = yield
    v = take({next}(n))
    yield
    v = 1''',
    'generator caught': '''
    try:
        yield n
    except ValueError:
        yield 'caught'
    finally:
        v = take({next}(n))
    yield v''',
    'generator raises': '''
    yield n
    raise KeyError('other')''',
    'delegate': '''
    v = yield from as_iter({next}(n))
    return v''',
    'coroutine': '''
    v = await pause()
    v = take({next}(n))
    return v''',
    'coroutine caught': '''
    try:
        v = await pause()
    except ValueError:
        v = 'caught'
    return v''',
}
SUSPENDED = [k for k in BODIES if k.startswith(('generator', 'delegate', 'coroutine'))]
QUICK = ['plain', 'call', 'caught', 'finally', 'recursive', 'generator', 'generator caught', 'coroutine']
MODES = ['all', 'drop', 'close', 'throw', 'other']

HELPERS = '''\
import types


class manager:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return a[0] is ValueError


@types.coroutine
def pause():
    yield


def as_iter(v):
    return v if hasattr(v, '__next__') else iter([v])


def take(v):
    if not hasattr(v, 'send'):
        return v
    out = []
    try:
        out.append(v.send(None))
        if MODE == 'throw':
            out.append(v.throw(ValueError('thrown')))
        elif MODE == 'other':
            out.append(v.throw(IndexError('thrown')))
        elif MODE == 'close':
            v.close()
        elif MODE == 'all':
            while True:
                out.append(v.send(None))
    except StopIteration as e:
        out.append(e.value)
    return out


def main(n):
    try:
        r = take(f0(n))
    except Exception as e:
        r = e
    end = 1
    return r
'''


def program(kinds):
    """The source of the functions, with the lines of each of them."""
    source, lines = HELPERS, {}
    for i, kind in enumerate(kinds):
        start = source.count('\n') + 3
        body = BODIES[kind].format(next='f%d' % (i + 1), self='f%d' % i)
        head = 'async def' if kind.startswith('coroutine') else 'def'
        source += '\n\n%s f%d(n):%s\n' % (head, i, body)
        lines['f%d' % i] = [start + 1 + j for j, t in enumerate(body.strip('\n').splitlines())
                            if '[inner(' not in t and t.strip().split(' ')[0] not in ('try:', 'finally:', 'except', 'else:', 'global', 'def', 'for')]
    return source, lines


class Item:
    """A step of the program, or an act of the agent."""

    def __init__(self, kind, thread, inv=None, line=None, what=None, value=None, name=None):
        self.kind, self.thread, self.inv, self.line = kind, thread, inv, line
        self.what, self.value, self.name = what, value, name


def program_frame():
    frame = sys._getframe()
    while frame.f_code.co_filename != FILE:
        frame = frame.f_back
    return frame


class Truth:
    """What the interpreter does in the functions of the program."""

    def __init__(self):
        self.log, self.ids, self.count = [], {}, 0

    def inv(self, frame):
        return self.ids.get((threading.current_thread(), id(frame)))

    def add(self, kind, frame, value=None):
        self.log.append(Item(kind, threading.current_thread(), self.inv(frame), frame.f_lineno, None, value, frame.f_code.co_name))

    def act(self, what, value):
        """The agent acts."""
        self.log.append(Item('act', threading.current_thread(), what=what, value=value))

    def start(self, code, offset):
        if code.co_filename != FILE:
            return
        frame = program_frame()
        self.count += 1
        self.ids[threading.current_thread(), id(frame)] = self.count
        self.add('start', frame)

    def resume(self, code, offset):
        if code.co_filename == FILE:
            self.add('resume', program_frame())

    def throw(self, code, offset, error):
        if code.co_filename == FILE:
            self.add('resume', program_frame())

    def leave(self, code, offset, value):
        if code.co_filename == FILE:
            self.add('yield', program_frame())

    def end(self, code, offset, value):
        if code.co_filename == FILE:
            frame = program_frame()
            # do not keep generators
            self.add('return', frame, None if hasattr(value, 'send') else value)
            self.ids.pop((threading.current_thread(), id(frame)), None)

    def unwind(self, code, offset, error):
        if code.co_filename == FILE:
            frame = program_frame()
            # the traceback would keep the frames
            self.add('raise', frame, (type(error).__name__, str(error)))
            self.ids.pop((threading.current_thread(), id(frame)), None)

    def error(self, code, offset, error):
        if code.co_filename == FILE:
            self.add('error', program_frame())

    def line(self, code, line):
        if code.co_filename == FILE:
            self.add('line', program_frame())

    def __enter__(self):
        mon = sys.monitoring
        if mon.get_tool(TOOL) is None:
            mon.use_tool_id(TOOL, 'vx-truth')
        e = mon.events
        self.events = {e.PY_START: self.start, e.PY_RESUME: self.resume, e.PY_THROW: self.throw, e.PY_YIELD: self.leave,
                       e.PY_RETURN: self.end, e.PY_UNWIND: self.unwind, e.LINE: self.line, e.RAISE: self.error}
        for k, v in self.events.items():
            mon.register_callback(TOOL, k, v)
        mon.restart_events()
        mon.set_events(TOOL, sum(self.events))
        return self

    def __exit__(self, *a):
        sys.monitoring.set_events(TOOL, 0)
        for k in self.events:
            sys.monitoring.register_callback(TOOL, k, None)

    def steps(self):
        """The steps of the program with the acts of the agent in each of them: the trace function is called first."""
        out, acts = [], []
        for item in self.log:
            if item.kind == 'act':
                acts.append(item)
            else:
                out.append((item, acts))
                acts = []
        if out:
            out[-1][1].extend(acts)
        return out


class TruthSpan(RecSpan):
    truth = None

    def close(self):
        self.truth.act('close', self)


class TruthSpans(Spans):
    truth = None

    def create_span(self, name, context_id, tracepoint_id):
        span = TruthSpan(self.rec, name, context_id, tracepoint_id)
        span.truth = self.truth
        self.truth.act('open', span)
        return span


class TruthPush:
    def __init__(self, truth):
        self.truth = truth

    def push_snapshot(self, snapshot):
        self.truth.act('push', snapshot)


def captured(snapshot):
    """The result of a capture: kind, type and text."""
    for w in snapshot.watches:
        if w.source != 'CAPTURE' or w.result is None:
            continue
        v = snapshot.var_lookup[w.result.vid]
        if v.type == 'tuple' and len(v.children) == 3 and w.expression != 'return':
            v = snapshot.var_lookup[v.children[1].vid]
            return 'raise', v.type, v.value
        return 'return', v.type, v.value
    return None


def text_of(value):
    if isinstance(value, (list, tuple)):
        return 'Size: %d' % len(value)
    return str(value)


def is_result(x, got, step):
    """Is this the result of the step."""
    if got is None:
        return False
    kind, t, text = got
    value = step.value
    if kind != step.kind:
        return False
    if kind == 'raise':
        return (t, text) == value
    if kind == 'return' and not x.core_is(value) and t != type(value).__name__:
        return False
    return x.eq(text, text_of(value))


def core_is(x):
    if not x.symbolic:
        return lambda v: False
    return x.core.is_sym


def run(x, kinds, mode, plan, n, depth=2, threads=1, finding=False):
    """Run the program and check what was completed."""
    x.core_is = core_is(x)
    source, lines = program(kinds)
    truth = Truth()
    rig = Rig(x, plugins=[])
    rig.config.plugins = [rig.plugin(TruthSpans, truth=truth)]
    from deep.processor.trigger_handler import TriggerHandler
    rig.handler = TriggerHandler(rig.config, TruthPush(truth))
    triggers, methods, places = [], {}, {}
    for i, (where, what) in enumerate(plan(lines)):
        if isinstance(where, str):
            args = dict(MANY, method_name=where)
            args.update({'span': 'method', 'snapshot': 'no_collect'} if what == 'span' else {'stage': 'method_capture'})
            methods[str(i)] = (where, what)
            triggers.append(tp(str(i), 'app.py', None, args))
        else:
            args = dict(MANY)
            args.update({'span': 'line', 'snapshot': 'no_collect'} if what == 'span' else {'stage': 'line_capture'})
            places[str(i)] = (where, what)
            triggers.append(tp(str(i), 'app.py', where, args))
    rig.install(*triggers)
    module = load(source, FILE, MODE=mode, DEPTH=depth)
    out = []

    def work():
        with traced(rig.handler):
            out.append(module.main(n))
    if threads == 1:
        with truth:
            work()
    else:
        with truth:
            for _ in range(threads):
                module.DEPTH = depth
                t = threading.Thread(target=work)
                t.start()
                t.join()
        # a later thread, that has nothing of its own
        rig.install()
        truth.log, log = [], truth.log
        t = threading.Thread(target=work)
        t.start()
        t.join()
        truth.log, later = log, truth.log
        x.check(not later, 'a later thread completes the work of another one')
    check(x, truth, methods, places, finding)
    return out


def check(x, truth, methods, places, finding):
    steps = truth.steps()
    begin, end, name = {}, {}, {}
    for i, (s, acts) in enumerate(steps):
        if s.kind == 'start':
            begin[s.inv], name[s.inv] = i, s.name
        elif s.kind in ('return', 'raise'):
            end[s.inv] = i
    opened, closed, pushed = {}, {}, {}
    for i, (s, acts) in enumerate(steps):
        for a in acts:
            if a.what == 'open':
                opened[a.value] = (i, s, a)
            elif a.what == 'close':
                closed.setdefault(a.value, []).append((i, s, a))
            else:
                pushed.setdefault(a.value.tracepoint.id, []).append((i, s, a))


    # the spans
    for span, (at, step, act) in opened.items():
        ends = closed.get(span, [])
        x.check(len(ends) == 1, 'each span is closed once')
        if not ends:
            continue
        i, s, a = ends[0]
        x.check(a.thread == act.thread, 'the span is closed on its thread')
        inv = step.inv
        if inv not in end:
            # it is abandoned
            x.check(i > at, 'the span is closed later')
            continue
        if span.tp_id in methods:
            x.check(i == end[inv], 'the span is closed when the invocation ends')
        else:
            after = [j for j in range(at + 1, end[inv] + 1) if steps[j][0].inv == inv and steps[j][0].kind in ('line', 'return', 'raise')]
            x.check(after and after[0] <= i <= end[inv], 'the span of the line is closed in time')
    for tp_id, (where, what) in list(methods.items()):
        invs = [inv for inv in name if name[inv] == where]
        if what == 'span':
            got = [step.inv for span, (at, step, act) in opened.items() if span.tp_id == tp_id]
            x.check(sorted(got) == sorted(invs), 'each invocation opens one span')
            continue
        # the captures of the functions
        items = pushed.get(tp_id, [])
        x.check(len(items) == len(invs), 'each capture is completed once')
        for inv in invs:
            if inv not in end:
                continue
            mine = [a for i, s, a in items if i == end[inv]]
            x.check(len(mine) == 1, 'the capture is completed when the invocation ends')
            for a in mine:
                x.check(a.thread == steps[end[inv]][0].thread, 'the capture is completed on its thread')
                x.check(is_result(x, captured(a.value), steps[end[inv]][0]), 'the captured result', finding=finding or None)
    for tp_id, (where, what) in list(places.items()):
        hits = [(i, s.inv) for i, (s, acts) in enumerate(steps) if s.kind == 'line' and s.line == where]
        if what == 'span':
            x.check(len([1 for span in opened if span.tp_id == tp_id]) == len(hits), 'each hit opens one span')
            continue
        items = pushed.get(tp_id, [])
        x.check(len(items) == len(hits), 'each capture is completed once')
        for at, inv in hits:
            if inv not in end:
                continue
            after = [j for j in range(at + 1, end[inv] + 1) if steps[j][0].inv == inv and steps[j][0].kind in ('line', 'return', 'raise')]
            mine = [(i, a) for i, s, a in items if i == after[0]]
            x.check(len(mine) == 1, 'the capture of the line is completed in time')
            for i, a in mine:
                if i == end[inv]:
                    known = finding or in_handler(steps, at, i) and 'line-capture-starts-in-handler'
                    x.check(is_result(x, captured(a.value), steps[i][0]), 'the captured result of the line', finding=known or None)
                else:
                    # the invocation has no result
                    got = [w for w in a.value.watches if w.source == 'CAPTURE']
                    x.check(not got, 'the line has no result', finding=finding or None)


def in_handler(steps, at, end):
    """Is the line reached because an exception is raised, which is then raised again."""
    mine = [s for s, acts in steps if s.inv == steps[at][0].inv]
    i, j = mine.index(steps[at][0]), mine.index(steps[end][0])
    before = i - 1
    while mine[before].kind == 'line' and mine[before - 1].kind in ('error', 'line') and mine[before].line == mine[before - 1].line:
        before -= 1
    return mine[before].kind == 'error' and 'error' not in [s.kind for s in mine[i:j]] and mine[j].kind == 'raise'


def methods_plan(lines):
    for f in lines:
        yield f, 'span'
        yield f, 'capture'


def lines_plan(lines):
    for f in lines:
        for line in lines[f]:
            yield line, 'span'
            yield line, 'capture'


def all_plan(lines):
    yield from methods_plan(lines)
    yield from lines_plan(lines)


def mixed_plan(lines):
    yield 'f0', 'span'
    yield lines['f0'][-1], 'capture'
    yield 'f1', 'capture'
    yield lines['f1'][0], 'span'


PLANS = [methods_plan, lines_plan, all_plan, mixed_plan]


def programs(x):
    """Programs of three functions."""
    names = list(BODIES)
    deep = x.tier == 'thorough'
    k0 = x.pick('f0', names)
    k1 = x.pick('f1', names if deep else QUICK)
    k2 = x.pick('f2', names if deep else ['raise'])
    plan = x.pick('plan', PLANS if x.tier == 'thorough' else [methods_plan, lines_plan])
    mode = x.pick('mode', MODES) if k0 in SUSPENDED or k1 in SUSPENDED or k2 in SUSPENDED else 'all'
    n = x.int('n', 100, 999)
    run(x, [k0, k1, k2, 'plain'], mode, plan, n)
    x.reached('end')


def later(x):
    """Threads one after the other."""
    names = list(BODIES)
    k0 = x.pick('f0', names)
    k1 = x.pick('f1', ['plain', 'raise', 'recursive', 'generator'])
    mode = x.pick('mode', MODES) if k0 in SUSPENDED or k1 in SUSPENDED else 'all'
    run(x, [k0, k1, 'plain'], mode, x.pick('plan', PLANS), 5, threads=1 + x.index('threads', 2) * 2)
    x.reached('end')


GENERATORS = '''\
def plain(n):
    yield n
    v = n
    yield v
    return v


def nones(n):
    v = yield
    yield
    yield


def caught(n):
    for i in range(3):
        try:
            v = yield i
        except ValueError:
            v = 'caught'
    return n


def suppressed(n):
    try:
        yield n
    except ValueError:
        pass
    except GeneratorExit:
        w = 1
        raise
    yield n


def stubborn(n):
    try:
        yield n
    finally:
        v = 1
        w = 2


def keeps(n):
    while True:
        try:
            yield
        except (ValueError, IndexError, StopIteration):
            pass


async def pausing(n):
    try:
        await pause()
    except ValueError:
        v = n
    await pause()
    return n


async def agen(n):
    try:
        yield n
        await pause()
    except (ValueError, StopIteration):
        v = n
    yield n
    raise StopAsyncIteration('end')


def call(gens, which, op):
    try:
        if hasattr(gens[which], 'asend'):
            if op == 'next':
                return gens[which].asend(None).send(None)
            error = {'throw': ValueError, 'other': IndexError, 'stop': StopAsyncIteration}[op]
            return gens[which].athrow(error(op)).send(None)
        elif op == 'next':
            return gens[which].send(None)
        elif op == 'throw':
            return gens[which].throw(ValueError('thrown'))
        elif op == 'other':
            return gens[which].throw(IndexError('other'))
        elif op == 'stop':
            return gens[which].throw(StopIteration('stop'))
    except (StopIteration, StopAsyncIteration, ValueError, IndexError, RuntimeError) as e:
        return None


def close(gens, which):
    try:
        if hasattr(gens[which], 'aclose'):
            gens[which].aclose().send(None)
        else:
            gens[which].close()
    except (StopIteration, StopAsyncIteration, RuntimeError):
        pass


def end():
    v = 1
    return v


import types


@types.coroutine
def pause():
    yield
'''
GEN_KINDS = ['plain', 'nones', 'caught', 'suppressed', 'stubborn', 'keeps', 'pausing', 'agen']


def generators(x):
    """Two generators of a function, that are continued in any order."""
    x.core_is = core_is(x)
    deep = x.tier == 'thorough'
    kind = x.pick('kind', GEN_KINDS)
    other = x.pick('other', [None, 'plain', 'caught'] if deep else [None, 'caught'])
    ops = [(x.index('which%d' % i, 2) if i or deep else 0, x.pick('op%d' % i, ['next', 'throw', 'other', 'stop', 'close'] if i else ['next', 'close']))
           for i in range(5 if deep else 3)]
    line = deep and x.flag('lines')
    truth = Truth()
    rig = Rig(x, plugins=[])
    rig.config.plugins = [rig.plugin(TruthSpans, truth=truth)]
    from deep.processor.trigger_handler import TriggerHandler
    rig.handler = TriggerHandler(rig.config, TruthPush(truth))
    triggers, methods, places = [], {}, {}
    for name in set([kind, other or kind]):
        methods['s' + name], methods['c' + name] = (name, 'span'), (name, 'capture')
        triggers.append(tp('s' + name, 'app.py', None, dict(MANY, method_name=name, span='method', snapshot='no_collect')))
        triggers.append(tp('c' + name, 'app.py', None, dict(MANY, method_name=name, stage='method_capture')))
    if line:
        for where in range(1, line_of(GENERATORS, 'async def pausing') + 7):
            places['l%d' % where] = (where, 'span')
            triggers.append(tp('l%d' % where, 'app.py', where, dict(MANY, span='line', snapshot='no_collect')))
    rig.install(*triggers)
    module = load(GENERATORS, FILE)
    with truth:
        with traced(rig.handler):
            gens = [getattr(module, kind)(1), getattr(module, other or kind)(2)]
            started = set()
            for which, op in ops:
                # they must not be in the locals of a frame that is running, as f_locals keeps the values
                if gens[which] is None or not (which in started or op in ('next', 'close')):
                    continue
                started.add(which)
                if op == 'close':
                    module.close(gens, which)
                    # it is released
                    gens[which] = None
                    module.end()
                else:
                    module.call(gens, which, op)
            gens[:] = []
            module.end()
    check(x, truth, methods, places, False)
    x.reached('end')


FINALLY = {
    'finally': '''\
def f(n):
    try:
        raise ValueError('failed')
    finally:
        try:
            int('x')
        except ValueError:
            pass
''',
    'except': '''\
def f(n):
    try:
        raise ValueError('failed')
    except ValueError:
        try:
            int('x')
        except ValueError:
            pass
        raise
''',
    'called': '''\
def inner():
    try:
        int('x')
    except ValueError:
        return 1


def f(n):
    try:
        raise ValueError('failed')
    finally:
        inner()
''',
    'before': '''\
def f(n):
    try:
        int('x')
    except ValueError:
        pass
    raise ValueError('failed')
''',
    'returns': '''\
def f(n):
    try:
        raise ValueError('failed')
    except ValueError:
        try:
            int('x')
        except ValueError:
            return n
''',
    'replaced': '''\
def f(n):
    try:
        raise ValueError('failed')
    except ValueError:
        raise KeyError('other')
''',
    'group': '''\
def f(n):
    try:
        raise ExceptionGroup('g', [ValueError('part')])
    except* KeyError:
        pass
''',
    'with': '''\
class manager:
    def __init__(self, act):
        self.act = act

    def __enter__(self):
        return self

    def __exit__(self, *a):
        if self.act == 'replace':
            raise IndexError('replaced')
        return self.act == 'suppress'


def f(n):
    try:
        raise ValueError('failed')
    except ValueError:
        with manager('keep'):
            raise KeyError('other')
''',
    'with line': '''\
    try:
        raise ValueError('failed')
    except ValueError:
        with manager('keep'): raise KeyError('other')
''',
    'with two': '''\
    try:
        raise ValueError('failed')
    except ValueError:
        with manager('suppress'):
            raise KeyError('other')
        with manager('keep'), manager('keep'):
            raise IndexError('last')
''',
    'with replaced': '''\
    try:
        raise ValueError('failed')
    except ValueError:
        with manager('replace'):
            raise KeyError('other')
''',
    'with returns': '''\
    try:
        raise ValueError('failed')
    except ValueError:
        with manager('suppress'):
            raise KeyError('other')
        return n
''',
    'as': '''\
    try:
        raise ValueError('failed')
    except ValueError as e:
        try:
            raise KeyError('other') from e
        except IndexError as i:
            pass
''',
    'handled as': '''\
    try:
        raise ValueError('failed')
    except ValueError as e:
        raise KeyError('other')
''',
    'comprehension': '''\
    try:
        raise ValueError('failed')
    except ValueError as e:
        return [int(v) for v in ['5', '7', 'x']]
''',
    'asserted': '''\
    try:
        raise ValueError('failed')
    except ValueError as e:
        assert not n, 'other'
''',
    'again': '''\
    for v in ('a', 'b', '5'):
        try:
            w = int(v)
        except ValueError as e:
            last = str(e)
    raise KeyError('after')
''',
    'loop': '''\
    for v in ('first', 'second', 'third'):
        try:
            raise ValueError(v)
        except ValueError as e:
            if v == 'third':
                with manager('keep'):
                    raise
''',
}
FINALLY.update({k: FINALLY['with'][:FINALLY['with'].index('    try:')] + v for k, v in FINALLY.items() if v.startswith('    ')})
KNOWN = {'finally': 'exception-handled-in-finally', 'except': 'exception-handled-in-finally'}


def exceptions(x):
    """Exceptions that are raised while another one is handled."""
    x.core_is = core_is(x)
    kind, n = x.pick('kind', sorted(FINALLY)), x.int('n', 100, 999)
    truth = Truth()
    rig = Rig(x, plugins=[])
    rig.config.plugins = [rig.plugin(TruthSpans, truth=truth)]
    from deep.processor.trigger_handler import TriggerHandler
    rig.handler = TriggerHandler(rig.config, TruthPush(truth))
    rig.install(tp('s', 'app.py', None, dict(MANY, method_name='f', span='method', snapshot='no_collect')),
                tp('c', 'app.py', None, dict(MANY, method_name='f', stage='method_capture')))
    module = load(FINALLY[kind], FILE)
    with truth:
        with traced(rig.handler):
            try:
                module.f(n)
            except BaseException as e:
                if type(e).__name__ == 'PathAbort':
                    raise
    check(x, truth, {'s': ('f', 'span'), 'c': ('f', 'capture')}, {}, KNOWN.get(kind, False))
    x.reached(kind)


INHERIT = '''\
KEPT = []


def gen(n):
    v = yield n
    yield v
    return n


def other(n):
    v = n
    return v


def start(n, how):
    g = gen(n)
    KEPT.append(g)
    g.send(None)
    if how == 'twice':
        KEPT.append(gen(n))
        KEPT[-1].send(None)


def proceed(n, how):
    other(n)
    if how == 'new':
        KEPT.append(gen(n))
        list(KEPT[-1])
    elif how != 'none':
        for g in KEPT:
            list(g)
    other(n)


def release():
    KEPT.clear()
    end = 1
'''


def inherit(x):
    """A thread ends while some of its work is suspended: a later thread, that often has its identity, does not complete it."""
    first, how = x.pick('first', ['once', 'twice']), x.pick('how', ['none', 'continue', 'new'])
    line, n = x.flag('line'), x.int('n', 100, 999)
    rec = Recorder()
    rig = Rig(x, plugins=[])
    rig.config.plugins = [rig.plugin(ThreadSpans, rec=rec)]
    from deep.processor.trigger_handler import TriggerHandler
    rig.handler = TriggerHandler(rig.config, ThreadPush(rec))
    args = {} if line else {'method_name': 'gen'}
    rig.install(tp('s', 'app.py', 5 if line else None, dict(MANY, span='line' if line else 'method', snapshot='no_collect', **args)),
                tp('c', 'app.py', 5 if line else None, dict(MANY, stage='line_capture' if line else 'method_capture', **args)))
    module = load(INHERIT, FILE)
    done, threads = [], []

    def work(fn, *args):
        def body():
            threads.append(threading.current_thread())
            with traced(rig.handler):
                fn(*args)
            done.append((threading.current_thread(), len(rec.closed), len(rec.events)))
        t = threading.Thread(target=body)
        t.start()
        t.join()
    work(module.start, n, first)
    opened = len(rec.spans)
    x.check(opened == (2 if first == 'twice' else 1), 'the spans are opened')
    work(module.proceed, n, how)
    work(module.proceed, n, 'none')
    work(module.release)
    x.check(len(done) == 4, 'the threads end')
    x.check(all(span.thread is t for span, t in rec.closed), 'a span is closed by another thread')
    x.check(len(set(id(s) for s, _ in rec.closed)) == len(rec.closed), 'a span is closed again')
    own = [span for span in rec.spans if span.thread is threads[1]] if len(threads) > 1 else []
    # the new one is of the later thread
    count = 1 if how == 'new' else 0
    if line:
        closed = len([1 for span, t in rec.closed if t is threads[1]])
        x.check(closed == len(own), 'the work of the thread')
    else:
        x.check(len(own) == count and len([1 for s, t in rec.closed if t is threads[1]]) == count, 'the work of the thread')
        x.check(len([1 for s, t in rec.events if t is not threads[0]]) == count, 'the captures of the thread')
        for s, t in rec.events:
            if t is threads[1]:
                x.check(x.eq(captured(s)[2], str(n)), 'its own result')
    x.reached('end')


MANY_PROGRAM = '''\
def gen(i):
    v = i * 2
    yield v
    end(i)
    return v + 1


def deep(i):
    v = i * 2
    if i:
        deep(i - 1)
    end(i)
    if i == low:
        raise ValueError(i)
    return v + 1


def use(count, order):
    left = [gen(i) for i in range(count)]
    for g in left:
        next(g)
    while left:
        g = left.pop({'first': 0, 'last': -1, 'middle': len(left) // 2}[order])
        try:
            next(g)
        except StopIteration as e:
            done(e.value)


def recurse(count):
    try:
        deep(count - 1)
    except ValueError:
        pass
    done(None)
'''


def many(x):
    """Many invocations that are open at the same time."""
    count = x.pick('count', [1, 9, 33] + ([7, 17, 70, 150] if x.tier == 'thorough' else []))
    order = x.pick('order', ['first', 'last', 'middle', 'recursion'])
    if x.tier == 'quick' and count == 33 and order in ('first', 'recursion'):
        count = 70
    name = 'deep' if order == 'recursion' else 'gen'
    low = x.pick('low', [0, count // 2]) if name == 'deep' else None
    line = x.flag('line')
    rig, ended = Rig(x, plugins=[]), []
    rec = rig.rec
    rig.config.plugins = [rig.plugin(Spans)]
    args = {} if line else {'method_name': name}
    at = {'gen': 2, 'deep': 9}[name]
    rig.install(tp('s', 'app.py', at, dict(MANY, span='line' if line else 'method', snapshot='no_collect', **args)),
                tp('c', 'app.py', at, dict(MANY, stage='line_capture' if line else 'method_capture', **args), watches=['i']))
    wrong, results = [], []

    def counts():
        return len(rec.closed), len(rec.snapshots)

    def end(i):
        ended.append(i)
        # the one that ends, and all that are suspended, are still open, or (at a line) all are completed
        expect = count if line else len(ended) - 1
        if counts() != (expect, expect):
            wrong.append((i, counts()))

    def done(value):
        results.append(value)
        expect = count if line or name == 'deep' else len(results)
        if counts() != (expect, expect):
            wrong.append(('done', value, counts()))
    module = load(MANY_PROGRAM, FILE, end=end, done=done, low=low)
    with traced(rig.handler):
        module.recurse(count) if name == 'deep' else module.use(count, order)
    x.check(not wrong, 'completed when the invocation ends: %s' % wrong[:3])
    x.check(len(rec.spans) == count and sorted(map(id, rec.spans)) == sorted(map(id, rec.closed)), 'each span is completed once')
    x.check(len(rec.snapshots) == count, 'each capture is completed once')
    if name == 'deep':
        ended = list(range(count))
    if not line:
        x.check([int(n.var_lookup[n.watches[0].result.vid].value) for n in rec.snapshots] == ended, 'in the order they end')
        for n, i in zip(rec.snapshots, ended):
            got = captured(n)
            fails = name == 'deep' and i >= low
            x.check(got is not None and got[0] == ('raise' if fails else 'return') and (fails or got[2] == str(i * 2 + 1)), 'its own result')
    x.reached('end')


OTEL = """\
def leaf(n):
    mark()
    if n > 500:
        raise ValueError(n)
    return n


def twice(n, again):
    if again:
        twice(n, False)
    mark()


def gen(n):
    mark()
    yield n
    mark()
    yield n + 1


def work(n):
    with own('own'):
        mark()
        try:
            v = leaf(n)
        except ValueError:
            with own('in handler'):
                v = leaf(0)
        for w in gen(n):
            v += w
        twice(n, True)
    mark()
    return v


def main(n):
    v = work(n)
    mark()
    return v
"""
OTEL_METHODS = ['leaf', 'twice', 'gen', 'work', 'main']
OTEL_LINES = [2, 4, 11, 16, 24, 26, 34, 39]


class Watch(otel_sdk.SpanProcessor):
    """The spans that are started and ended."""

    def __init__(self):
        self.started, self.ended = [], []

    def on_start(self, span, parent_context=None):
        parent = trace.get_current_span(parent_context)
        self.started.append((span, threading.get_ident(), getattr(parent, 'name', None)))

    def on_end(self, span):
        self.ended.append((span.context.span_id, threading.get_ident()))

    def deep(self):
        return [(s, t) for s, t, _ in self.started if s.attributes and s.attributes.get('dynamic') == 'deep']


def otel_run(x, n, rig, tps):
    """What the program sees, and the spans that should be open but are not, or the other way round."""
    watch, seen, wrong = Watch(), [], []
    provider = otel_sdk.TracerProvider()
    provider.add_span_processor(watch)
    x.patch(trace, 'get_tracer_provider', lambda: provider)

    def mark():
        expect, frame = [], sys._getframe(1)
        seen.append((frame.f_lineno, getattr(trace.get_current_span(), 'name', None)))
        while frame is not None:
            if frame.f_code.co_filename == FILE:
                expect += [t for t, kind, at in tps if at == (frame.f_code.co_name if kind == 'method' else frame.f_lineno)]
            frame = frame.f_back
        ended = [e[0] for e in watch.ended]
        is_open = [s.attributes['tracepoint'] for s, _ in watch.deep() if s.context.span_id not in ended]
        if sorted(expect) != sorted(is_open):
            wrong.append((seen[-1][0], expect, is_open))
    module = load(OTEL, FILE, mark=mark, own=lambda name: provider.get_tracer('app').start_as_current_span(name))
    result = None
    if rig is None:
        result = module.main(n)
    else:
        with traced(rig.handler):
            result = module.main(n)
    own = [(s.name, parent) for s, _, parent in watch.started if s.attributes is None or s.attributes.get('dynamic') != 'deep']
    return result, seen, own, wrong, watch


def otel(x):
    """Spans of the OpenTelemetry plugin, in a program that has its own."""
    n = x.int('n', 0, 999)
    rig = Rig(x, plugins=[])
    plugin = OTelPlugin(config=None)
    plugin.rec = rig.rec
    rig.config.plugins = [plugin]
    tps, triggers = [], []
    for i in range(3 if x.tier == 'thorough' else 2):
        if x.flag('method%d' % i):
            at = x.pick('at%d' % i, OTEL_METHODS)
            tps.append(('t%d' % i, 'method', at))
            triggers.append(tp('t%d' % i, 'app.py', None, dict(MANY, method_name=at, span='method', snapshot='no_collect')))
        else:
            at = x.pick('line%d' % i, OTEL_LINES if x.tier == 'thorough' else OTEL_LINES[i::2])
            tps.append(('t%d' % i, 'line', at))
            triggers.append(tp('t%d' % i, 'app.py', at, dict(MANY, span='line', snapshot='no_collect')))
    triggers.append(tp('s', 'app.py', 24, dict(MANY)))
    baseline = otel_run(x, n, None, tps)
    rig.install(*triggers)
    result, seen, own, wrong, watch = otel_run(x, n, rig, tps)
    x.check(x.eq(result, baseline[0]), 'the result of the program')
    x.check(seen == baseline[1], 'the current span of the program: %s, not %s' % (seen, baseline[1]))
    x.check(own == baseline[2], 'the spans of the program: %s, not %s' % (own, baseline[2]))
    x.check(not wrong, 'the spans that are open (line, expected, open): %s' % wrong)
    ids = [s.context.span_id for s, _ in watch.deep()]
    for s, thread in watch.deep():
        x.check([t for i, t in watch.ended if i == s.context.span_id] == [thread], 'span %s is ended once' % s.name)
        kind, at = [(kind, at) for t, kind, at in tps if t == s.attributes['tracepoint']][0]
        x.check(s.name == (at if kind == 'method' else 'app.py#%s' % at), 'name of the span')
    x.check(len(ids) == len(set(ids)), 'each is another span')
    x.check(len(rig.rec.snapshots) == 1, 'the snapshot')
    for snapshot in rig.rec.snapshots:
        x.check(snapshot.attributes.get('span_name') == 'own', 'decorated with the span of the program')
    x.reached('end')


class Running:
    """The frames of a function that is run by a thread."""

    def __init__(self, rig, name, n):
        self.rig = rig
        self.frame = Frame(FILE, name, 5, {'n': n})
        # the last instruction is a return
        self.frame.f_code.co_code = bytes([dis.opmap['NOP'], 0] * 9 + [dis.opmap['RETURN_VALUE'], 0])

    def go(self, line, event='line', arg=None):
        self.frame.f_lineno, self.frame.f_lasti = line, 18 if event == 'return' else 2
        self.rig.handler.trace_call(self.frame, event, arg)


class ThreadSpan(RecSpan):
    def close(self):
        self.rec.closed.append((self, threading.current_thread()))


class ThreadSpans(Spans):
    def create_span(self, name, context_id, tracepoint_id):
        span = ThreadSpan(self.rec, name, context_id, tracepoint_id)
        span.thread = threading.current_thread()
        self.rec.spans.append(span)
        return span


class ThreadPush:
    def __init__(self, rec):
        self.rec = rec

    def push_snapshot(self, snapshot):
        self.rec.events.append((snapshot, threading.current_thread()))


PARTS = ('deep/processor/trigger_handler.py', 'deep/processor/context/callback_context.py', 'deep/thread_local.py',
         'deep/processor/context/span_action.py', 'deep/processor/context/snapshot_action.py')


def schedules(x):
    """Two threads that run the same function at the same time."""
    rec = Recorder()
    rig = Rig(x, plugins=[])
    rig.config.plugins = [rig.plugin(ThreadSpans, rec=rec)]
    from deep.processor.trigger_handler import TriggerHandler
    rig.handler = TriggerHandler(rig.config, ThreadPush(rec))
    kind = x.pick('kind', ['span', 'capture', 'line span', 'line capture'])
    args = {'span': {'method_name': 'f', 'span': 'method', 'snapshot': 'no_collect'}, 'capture': {'method_name': 'f', 'stage': 'method_capture'},
            'line span': {'span': 'line', 'snapshot': 'no_collect'}, 'line capture': {'stage': 'line_capture'}}[kind]
    rig.install(tp('t', 'app.py', None if 'method_name' in args else 6, dict(MANY, **args)))
    nested = x.flag('nested')
    problems, ends = [], {}

    def count(thread):
        return len([1 for s, t in rec.closed + rec.events if t is thread])

    def work(n):
        thread = threading.current_thread()
        outer = Running(rig, 'f', n)
        outer.go(5, 'call')
        if nested:
            inner = Running(rig, 'f', n + 5)
            inner.frame.f_back = outer.frame
            inner.go(5, 'call')
            inner.go(6)
            inner.go(6, 'return', n + 5)
            if count(thread) != 1:
                problems.append('inner')
        outer.go(6)
        if count(thread) != nested:
            problems.append('early')
        outer.go(6, 'return', n)
        if count(thread) != 1 + nested:
            problems.append('end')
        ends[thread] = [n + 5, n] if nested else [n]
    with Sched(x, preemptions=2 if x.tier == 'thorough' else 1, only=PARTS, choices=1 if x.tier == 'thorough' else 0) as s:
        threads = [s.spawn(work, 100), s.spawn(work, 200)]
        with x.no_raise('work'):
            s.go()
    x.check(not s.deadlock and len(ends) == 2, 'the threads end')
    x.check(not problems, 'the work is completed when the invocation ends')
    done = rec.closed + rec.events
    x.check(len(done) == 2 * (1 + nested), 'each is completed once')
    for span, t in rec.closed:
        x.check(span.thread is t, 'the span is closed on its thread')
    for thread in threads:
        mine = [snap for snap, t in rec.events if t is thread]
        if 'capture' in kind:
            x.check([(captured(m) or [None] * 3)[2] for m in mine] == [str(v) for v in ends.get(thread, [])], 'the captured result')
    x.reached('end')


HARNESSES = [
    H(programs, 'programs of 3 functions: %d bodies (quick: 8 of the second, 1 of the third), 5 ways to use generators; spans and captures of all '
                'functions, or of all lines (thorough: or of both, or of some), any result 100..999' % len(BODIES), weight=3),
    H(later, 'programs of 2 functions, run by 1 or 3 threads and a later one; 4 sets of tracepoints'),
    H(generators, 'two generators of %d kinds, every sequence of 3 (thorough 5) of 4 operations on them' % len(GEN_KINDS), weight=2),
    H(exceptions, '%d programs that raise while an exception is handled' % len(FINALLY), reach=sorted(set(FINALLY) - {'finally'})),
    H(many, '1, 9, 33 or 70 (thorough to 150) invocations (generators, recursion) that are open at the same time and end in 4 orders; methods and lines'),
    H(inherit, 'a thread that ends with 1 or 2 suspended generators, and 3 later threads that continue them, or not; methods and lines'),
    H(otel, 'a program with its own OpenTelemetry spans, 2 (thorough 3) span tracepoints on any of 5 methods or 8 (quick: 4) lines, any input'),
    H(schedules, '2 threads, 4 kinds, nested or not; 1 (thorough 2) preemptions at any line of %s' % ', '.join(PARTS), weight=2),
]
BUDGET = {'quick': 60, 'thorough': 600}
