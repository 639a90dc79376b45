"""The agent does not change what a program does: each program is run with and without it, and all that can be seen is compared.

The programs have symbolic inputs, the tracepoints are at any line; failures are injected at any call inside the agent and at
each thing it uses.
"""
import contextlib
import dis
import io
import logging
import os
import random
import sys
import threading
import types

from deep.api.plugin import SnapshotDecorator
from deep.grpc import convert_response
from deepproto.proto.poll.v1.poll_pb2 import PollResponse, ResponseType
from deepproto.proto.tracepoint.v1.tracepoint_pb2 import LabelExpression, Metric, TracePointConfig
from harness.agent import Agent, Channel, Inline
from harness.common import Frame, Logger, Metrics, Rig, Spans, load, tp
from vx import clock
from vx.spec import H

TECHNIQUE = 'symbolic execution of the real source with z3 (path exploration, solver-decided inputs, places and faults, replayed models)'
STUBS = 'delivery and plugins record; the service is a stand-in; failures are raised by the profile hook at the start of a function of the agent'
OUTSIDE = 'text methods (__str__, __repr__) that change the program; programs that look at the ' \
          'trace function or at the frames of the agent; programs that run into the recursion or memory limit with the agent only; failures of ' \
          'the interpreter in the first two functions of the handler; signals; warnings of the interpreter about an expression; threads that wait ' \
          'for each other while their values are read'

MANY = {'fire_count': '-1', 'fire_period': '0'}
FILE = '/app/host.py'

# ---------------------------------------------------------------------------------------------------------------- the programs
ITERATORS = '''\
import collections, itertools, io


def pairs(items):
    for i, item in enumerate(items):
        got = yield i, item
        if got:
            out.append(got)


out = []


def run(n):
    it = iter([n, n + 1, n + 2])
    rev = reversed([1, 2, 3])
    chain = itertools.chain([1], [2, n])
    m = map(abs, [-1, n])
    z = zip('ab', [n, n])
    gen = pairs([n, 5])
    keys = iter({'a': 1, 'b': 2})
    f = io.StringIO('one two three')
    d = collections.defaultdict(list)
    q = collections.deque([1, 2], maxlen=3)
    first = next(it), next(rev), next(chain), next(m), next(z), next(gen), next(keys), f.read(3)
    second = gen.send('sent')
    rest = [list(i) for i in (it, rev, chain, m, z, gen, keys)]
    q.append(n)
    return first, second, rest, f.read(), len(d), list(q), list(gen)
'''

SCOPES = '''\
out = []
total = 0


class Sums:
    step = 2
    rows = [i * 2 for i in range(3)]
    names = {k: v for k, v in zip('ab', rows)}
    step += len(rows)
    del names


both = [(a, b) for a in range(2) for b in 'xy' if a or b == 'x']
total = sum(i for i in range(4))


def counter(n):
    count = n

    def add(m):
        nonlocal count
        count += m
        return count

    def get():
        return count
    return add, get


def walrus(n):
    rest = [last := i for i in (n, n + 1)]
    return last, rest


def names(n):
    a = n
    b = a + 1
    del a
    try:
        a
    except UnboundLocalError as e:
        b += 1
    c = sorted(locals())
    return b, c, 'e' in c


def run(n):
    global total
    total += n
    add, get = counter(n)
    got = [add(i) for i in range(3)]
    scope = {'n': n}
    exec('m = n + 1\\nrows = [m + i for i in range(2)]', scope)
    match got:
        case [first, *others]:
            out.append(first)
        case _:
            out.append('none')
    return got, get(), walrus(n), names(n), scope['rows'], Sums.rows, Sums.step, both, total, (lambda *a, **k: (a, k))(n, k=n)
'''

FAILS = '''\
import contextlib

out = []


class Custom(Exception):
    def __init__(self, value):
        super().__init__(value)
        self.value = value


class Manager:
    def __init__(self, hide):
        self.hide = hide

    def __enter__(self):
        out.append('enter')
        return self

    def __exit__(self, kind, value, tb):
        out.append(('exit', kind.__name__ if kind else None))
        return self.hide


def deep(n):
    if n > 3:
        raise Custom(n)
    return 10 // n


def chained(n):
    try:
        return deep(n)
    except Custom as e:
        raise KeyError(e.value) from e
    finally:
        out.append('finally')


def gen(n):
    try:
        while True:
            n = (yield n) or n
    except ValueError:
        out.append('value')
        yield 'thrown'
    finally:
        out.append('closed')


def look(e):
    chain = []
    while e is not None:
        lines, tb = [], e.__traceback__
        while tb is not None:
            lines.append((tb.tb_frame.f_code.co_name, tb.tb_lineno))
            tb = tb.tb_next
        chain.append((type(e).__name__, e.args, [i for i in lines if i[0] in names], e.__suppress_context__))
        e = e.__cause__ or e.__context__
    return chain


names = ('deep', 'chained', 'run', 'gen', 'group')


def group(n):
    try:
        raise ExceptionGroup('group', [ValueError(n), KeyError('k')])
    except* ValueError as e:
        out.append(e.exceptions[0].args)
    except* KeyError as e:
        out.append('key')


def run(n):
    with Manager(True):
        chained(n)
    try:
        chained(n)
    except (KeyError, ZeroDivisionError) as e:
        out.append(look(e))
    g = gen(n)
    got = [next(g), g.send(None), g.throw(ValueError('v'))]
    g.close()
    g = gen(n)
    next(g)
    del g
    group(n)
    with contextlib.suppress(Custom):
        deep(n + 1)
    try:
        return chained(n), got
    finally:
        if n > 2:
            return 'finally', got
'''

OBJECTS = '''\
import random, threading

out = []


class Counting:
    """Counts the methods that are called."""
    calls = 0

    def __init__(self, n):
        self.n = n

    def used(self, *args):
        Counting.calls += 1
        return 1
    __len__ = __bool__ = __index__ = __hash__ = used
    __call__ = __getitem__ = __contains__ = __enter__ = __add__ = used

    def __eq__(self, other):
        Counting.calls += 1
        return self is other

    def __iter__(self):
        Counting.calls += 1
        return self

    def __next__(self):
        Counting.calls += 1
        raise StopIteration

    def __del__(self):
        pass


class Lazy:
    __slots__ = ()

    def __getattr__(self, name):
        out.append('read ' + name)
        raise AttributeError(name)


class Watched:
    def __getattribute__(self, name):
        out.append('get ' + name)
        return object.__getattribute__(self, name)

    def work(self):
        return 5


class Refuses:
    def __fails(self, *args):
        raise ValueError('refused')
    __str__ = __repr__ = __len__ = __iter__ = __getattr__ = __bool__ = __eq__ = __fails
    __hash__ = None


class Missing(dict):
    def __missing__(self, key):
        self[key] = len(self)
        return self[key]


class Desc:
    def __get__(self, obj, owner):
        out.append('descriptor')
        return 7

    def __set__(self, obj, value):
        out.append('set')


class Props:
    other = Desc()

    def __init__(self, n):
        self.n = n

    @property
    def value(self):
        self.n += 1
        return self.n


class Meta(type):
    """The methods of the class are counted too."""
    def used(cls, *args):
        Counting.calls += 1
        return True
    __eq__ = __ne__ = __instancecheck__ = __subclasscheck__ = __len__ = __bool__ = __contains__ = used

    def __hash__(cls):
        Counting.calls += 1
        return 1


class Made(metaclass=Meta):
    def __init__(self, n):
        self.n = n


class Table(dict):
    """The items are given once."""
    def items(self):
        Counting.calls += 1
        got = list(dict.items(self))
        self.clear()
        return got

    def used(self, *args):
        Counting.calls += 1
        return iter(())
    keys = values = __iter__ = copy = __reversed__ = used

    def __len__(self):
        Counting.calls += 1
        return 0


class Rows(list):
    def __iter__(self):
        Counting.calls += 1
        while self:
            yield self.pop()

    def __len__(self):
        Counting.calls += 1
        return 0

    def __getitem__(self, i):
        Counting.calls += 1
        return list.__getitem__(self, i)


class Problem(Exception):
    @property
    def args(self):
        Counting.calls += 1
        return (1,)


class Tracked:
    def __init__(self, n):
        self.n = n

    def __del__(self):
        out.append(('released', self.n))


def release(n):
    one = Tracked(1)
    two = [Tracked(2)]
    three = Tracked(3)
    one = None
    out.append('one')
    two.clear()
    out.append('two')
    del three
    out.append('three')
    four = Tracked(4)
    try:
        raise ValueError(four)
    except ValueError as e:
        four = e
    four = None
    out.append('four')

    def inner():
        return five
    five = Tracked(5)
    inner()
    five = n
    out.append('five')
    last = Tracked(6)
    return inner()


def snapshot(n):
    a = n
    kept = locals()
    b = n
    for i in range(2):
        a += 1
    return kept['a'], 'b' in kept, sorted(kept)


def run(n):
    release(n), out.append('release'), out.append(snapshot(n))
    random.seed(5)
    counting, lazy, watched, refuses = Counting(n), Lazy(), Watched(), Refuses()
    missing, props = Missing(a=n), Props(n)
    made, table, rows, problem = Made(n), Table(a=n, b=2), Rows([n, 5]), Problem(n)
    every = [made, table, rows, problem, (Made, Meta, Table)]
    held = [counting, refuses, {1: lazy, 'k': refuses}, (watched, missing)]
    local = threading.local()
    local.n = n
    text = random.random()
    got = watched.work()
    numbers = [random.randint(0, 1000) for _ in range(3)]
    return Counting.calls, len(missing), props.n, got, numbers, text, vars(local) == {'n': n}, len(held), len(out), dict.__len__(table), list.__len__(rows), len(every)
'''

ASYNC = '''\
import asyncio

out = []


class Wait:
    def __await__(self):
        got = yield 'waiting'
        return got


async def part(n):
    try:
        return await Wait() + n
    except ValueError:
        out.append('thrown')
        return -n


async def items(n):
    for i in range(3):
        yield n + i


async def all_(n):
    got = [i async for i in items(n)]
    async with Manager() as m:
        got.append(await part(n))
    return got


class Manager:
    async def __aenter__(self):
        return self

    async def __aexit__(self, *args):
        out.append(args[0])


def drive(coro, *values):
    got = [coro.send(None)]
    try:
        for v in values:
            got.append(coro.throw(v) if isinstance(v, Exception) else coro.send(v))
    except StopIteration as e:
        got.append(e.value)
    return got


def delegate(n):
    got = yield from inner(n)
    yield got


def inner(n):
    got = yield n
    return got, n


def run(n):
    loop = [drive(all_(n), 5), drive(all_(n), ValueError('v'))]
    c = part(n)
    c.send(None)
    c.close()
    d = delegate(n)
    return loop, next(d), d.send(7), list(d)
'''

RECURSION = '''\
import functools, sys

out = []


@functools.lru_cache(maxsize=None)
def fib(n):
    return n if n < 2 else fib(n - 1) + fib(n - 2)


def walk(tree, depth=0):
    if isinstance(tree, list):
        for part in tree:
            yield from walk(part, depth + 1)
    else:
        yield depth, tree


def back(n):
    if n == 0:
        return sys.exc_info()[0]
    try:
        raise ValueError(n)
    except ValueError:
        return back(n - 1)


class Node:
    def __init__(self, value, parent=None):
        self.value, self.parent = value, parent
        self.parts = []
        if parent:
            parent.parts.append(self)

    def total(self):
        return self.value + sum(p.total() for p in self.parts)

    __slots__ = ('value', 'parent', 'parts')


def run(n):
    root = Node(n)
    for i in range(3):
        Node(i, Node(n, root))
    me = []
    me.append(me)
    return fib(7), list(walk([n, [n, [1]], []])), back(2).__name__, root.total(), fib.cache_info().misses, len(me), sys.exc_info()[0]
'''

HOSTS = {'iterators': ITERATORS, 'scopes': SCOPES, 'fails': FAILS, 'objects': OBJECTS, 'async': ASYNC, 'recursion': RECURSION}


def simple(v, depth=6):
    """What can be compared of a value."""
    if type(v) in (list, tuple):
        return [type(v).__name__] + [simple(e, depth - 1) for e in v] if depth else '...'
    if type(v) is dict:
        return ['dict'] + [[simple(k), simple(e, depth - 1)] for k, e in v.items()] if depth else '...'
    if isinstance(v, BaseException):
        return ['error', type(v).__name__, simple(v.args, depth - 1)]
    return v


def flat(v, values, shape):
    if type(v) is list:
        shape.append('(')
        for e in v:
            flat(e, values, shape)
        shape.append(')')
    else:
        values.append(v)
        shape.append('.')


def same(x, a, b):
    """The condition that two observations are the same."""
    (av, ash), (bv, bsh) = ([], []), ([], [])
    flat(a, av, ash)
    flat(b, bv, bsh)
    if ash != bsh:
        return False
    return x.conj([x.eq(p, q) for p, q in zip(av, bv)])


def execute(source, n):
    """Run a program: what can be seen of it."""
    stdout, stderr = io.StringIO(), io.StringIO()
    random.seed(1)
    state = [sys.getrecursionlimit(), sorted(os.environ), sys.getprofile(), list(logging.root.handlers)]
    seen = []
    with contextlib.redirect_stdout(stdout), contextlib.redirect_stderr(stderr):
        try:
            app = load(source, FILE)
            seen.append(app.run(n))
        except BaseException as e:
            seen.append(e)
            app = None
    after = [sys.getrecursionlimit(), sorted(os.environ), sys.getprofile(), list(logging.root.handlers)]
    data = {}
    if app is not None:
        data = {k: v for k, v in vars(app).items() if type(v) in (list, tuple, dict, int, str, float) and not k.startswith('__')}
    return [simple(seen), simple(data), sorted(vars(app)) if app else 0, stdout.getvalue(), stderr.getvalue(), random.random(), state == after]


class Traced:
    """Run with the handler as the trace function, and see if it still is at the end."""

    def __init__(self, handler):
        self.handler = handler
        self.kept = False

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.handler.trace_call)
        return self

    def __exit__(self, *a):
        self.kept = sys.gettrace() is not None and sys.gettrace() != self.old
        sys.settrace(self.old)


def lines_of(source):
    """The lines that have code."""
    found = set()
    todo = [compile(source, FILE, 'exec', dont_inherit=True)]
    while todo:
        code = todo.pop()
        found |= {line for s, e, line in code.co_lines() if line}
        todo += [c for c in code.co_consts if isinstance(c, types.CodeType)]
    return sorted(found)


KINDS = {
    'snapshot': {}, 'all frames': {'frame_type': 'all_frame', 'MAX_VARIABLES': '25'}, 'log': {'snapshot': 'no_collect', 'log_msg': 'at {n} {missing}'},
    'line capture': {'stage': 'line_capture'}, 'span': {'span': 'line', 'snapshot': 'no_collect'}, 'metric': {'snapshot': 'no_collect'},
    'condition': {'condition': 'n > 2'}, 'watches': {}, 'method span': {'span': 'method', 'snapshot': 'no_collect'},
    'method capture': {'stage': 'method_capture'}, 'no frame': {'frame_type': 'no_frame'},
}
WATCHES = ['n', '[i for i in range(3) if n]', 'missing', 'out', 'len(held)', 'refuses.x', '1 / 0', 'it', 'dict(a=n)']
METRICS = [('calls', 'COUNTER', 'n'), ('other', 'GAUGE', 'len(missing)'), ('third', 'HISTOGRAM', None)]


def config(kind, line, method=None, tp_id='t'):
    """A tracepoint as it is sent by the service."""
    args = dict(MANY, **KINDS[kind])
    if kind.startswith('method') and method:
        args['method_name'] = method
        line = 0
    metrics = []
    if kind == 'metric':
        metrics = [Metric(name=n, type=t, labelExpressions=[LabelExpression(key='l', expression='n')], **({'expression': e} if e else {}))
                   for n, t, e in METRICS]
    watches = WATCHES if kind in ('watches', 'all frames') else []
    return TracePointConfig(ID=tp_id, path='host.py', line_number=line, args=args, watches=watches, metrics=metrics)


def install(rig, configs):
    rig.handler.new_config([t for t in convert_response(configs) if t is not None])


def functions_of(source):
    found, todo = [], [compile(source, FILE, 'exec', dont_inherit=True)]
    while todo:
        code = todo.pop()
        found += [c.co_name for c in code.co_consts if isinstance(c, types.CodeType)]
        todo += [c for c in code.co_consts if isinstance(c, types.CodeType)]
    return sorted({f for f in found if not f.startswith('<')})


def compared(x, rig, source, n, what):
    """Run a program without and with the agent."""
    expected = execute(source, n)
    with Traced(rig.handler) as t:
        got = execute(source, n)
    ok = same(x, expected, got)
    if not x.symbolic and ok is not True:
        what += ' %s' % [(a, b) for a, b in zip(expected, got) if same(x, a, b) is not True]
    x.check(ok, what)
    x.check(t.kept, 'the program is still traced')
    return got


def programs(x):
    """Programs with any inputs, and tracepoints at any line."""
    deep = x.tier == 'thorough'
    name = x.pick('program', list(HOSTS))
    source = HOSTS[name]
    lines = lines_of(source)
    n = x.int('n', *([1, 6] if deep else [2, 4]))
    kind = x.pick('kind', list(KINDS) if deep else list(KINDS)[:8])
    every = x.flag('every line') if deep else True
    rig = Rig(x)
    if every:
        # tracepoints of the kind at a part of the lines
        parts = 3 if deep else 2 if kind in ('line capture', 'span') else 1
        chosen = lines[x.index('part', parts)::parts]
        configs = [config(kind, line, tp_id='t%d' % line) for line in chosen]
    else:
        configs = [config(kind, lines[x.index('line', len(lines))])]
    install(rig, configs)
    compared(x, rig, source, n, 'the program does the same')
    x.reached('end')


def methods(x):
    """Tracepoints on any functions of a program."""
    name = x.pick('program', list(HOSTS))
    source = HOSTS[name]
    n = x.int('n', 1, 6)
    kind = x.pick('kind', ['method capture', 'method span', 'snapshot'])
    rig = Rig(x)
    configs = []
    for f in functions_of(source):
        c = config(kind, 0, f, tp_id=f)
        if kind == 'snapshot':
            c.args['method_name'] = f
        configs.append(c)
    install(rig, configs)
    compared(x, rig, source, n, 'the program does the same')
    x.check(len(rig.rec.snapshots) + len(rig.rec.spans) > 0, 'the tracepoints fired')
    x.reached('end')


# ------------------------------------------------------------------------------------------------------------------- malformed
EXPRESSIONS = ['', ' ', 'n ==', '1 / 0', 'missing.x', '(yield)', 'await n', 'lambda: 0', 'exit()', 'raise ValueError', 'n\x00', 'n; m', '{', 'n' * 3000,
               '__import__("sys").exit(3)', '[' * 200, 'x = 5', '"\ud800"', '\u0660', 'refuses', 'refuses == 1', 'next(iter([]))', 'f"{n!z}"', 'n\n', '*n',
               'not', 'globals', '__builtins__', 'super()', 'self.x']
TEMPLATES = ['{', '}', '{}', '{0}', '{n', 'n}', '{{n}}', '{n!r}', '{n!z}', '{n:>{n}}', '{n:zz}', '{n.x}', '{[1][5]}', '%s %d', '{1/0}', '{"}"}', '{n:%}', '']
VALUES = ['', 'abc', '-1', '0', '1.5', 'None', '99999999999999999999', ' 5 ', 'true', '\u0665', '0x10', 'nan']
ARGS = {
    'fire_count': VALUES, 'fire_period': VALUES, 'window_start': VALUES, 'window_end': VALUES, 'MAX_VARIABLES': VALUES, 'MAX_VAR_DEPTH': VALUES,
    'MAX_COLLECTION_SIZE': VALUES, 'MAX_STRING_LENGTH': VALUES, 'frame_type': ['', 'weird', 'ALL_FRAME', 'all_frame', 'no_frame'],
    'stack_type': ['', 'weird'], 'stage': ['', 'weird', 'line_start', 'line_end', 'method_start', 'method_end', 'line_capture', 'method_capture'],
    'span': ['', 'weird', 'line', 'method'], 'snapshot': ['', 'weird', 'no_collect', 'collect'], 'method_name': ['', 'run', '*', 'missing', '<module>'],
    'log_msg': TEMPLATES, 'condition': [e for e in EXPRESSIONS if '\ud800' not in e], 'target': ['weird'], 'unknown': ['', 'x'], '': [''],
}

HOST = '''\
out = []


class Refuses:
    def __fails(self, *args):
        raise ValueError('refused')
    __str__ = __repr__ = __len__ = __iter__ = __getattr__ = __bool__ = __eq__ = __hash__ = __fails


def run(n):
    refuses = Refuses()
    total = 0
    for i in range(2):
        total += n  # here
    try:
        raise ValueError(n)
    except ValueError as e:
        out.append(e.args)
    return total
'''
HERE = HOST[:HOST.index('# here')].count('\n') + 1


def malformed(x):
    """Tracepoints with any arguments."""
    given = x.combine({k: list(v) for k, v in ARGS.items()}, most=2 if x.tier == 'thorough' else 1)
    n = x.int('n', 100, 999)
    other = x.pick('metric', ['none', 'bad'])
    metrics = []
    if other == 'bad':
        metrics = [Metric(name='', type='COUNTER', expression='n ==', labelExpressions=[LabelExpression(key='', expression='1 / 0')]),
                   Metric(name='a b', type='SUMMARY', expression='"text"'), Metric(name='m', expression='refuses')]
    rig = Rig(x)
    with x.no_raise('config'):
        install(rig, [TracePointConfig(ID='t', path='host.py', line_number=HERE, args=dict(given), metrics=metrics),
                      TracePointConfig(ID='u', path='host.py', line_number=HERE, args=dict(MANY))])
    compared(x, rig, HOST, n, 'the program does the same')
    x.check(len([s for s in rig.rec.snapshots if s.tracepoint.id == 'u']) == 2, 'the other tracepoint works')
    x.reached('end')


def expressions(x):
    """Expressions that cannot be evaluated, at each place that has one."""
    e = x.pick('expression', list(EXPRESSIONS))
    where = x.pick('where', ['watch', 'metric', 'label', 'log', 'path', 'method', 'line'])
    n = x.int('n', 100, 999)
    args, watches, metrics, path, line = dict(MANY), [], [], 'host.py', HERE
    sendable = '\ud800' not in e
    if where == 'watch':
        watches = [e, 'n', e]
    elif where == 'metric':
        metrics = [Metric(name='m', type='COUNTER', expression=e)] if sendable else []
    elif where == 'label':
        metrics = [Metric(name='m', type='COUNTER', labelExpressions=[LabelExpression(key='k', expression=e)])] if sendable else []
    elif where == 'log':
        args['log_msg'] = 'text {%s} {n}' % e
    elif where == 'path':
        path = e
    elif where == 'method':
        args['method_name'] = e
    elif where == 'line':
        line = [0, 1, 2 ** 31, 2 ** 32 - 1, 10 ** 6][x.index('which', 5)]
    rig = Rig(x)
    with x.no_raise('config'):
        if sendable:
            install(rig, [TracePointConfig(ID='t', path=path, line_number=line, args=args, watches=watches, metrics=metrics)])
        else:
            rig.install(tp('t', path, line, args, watches, metrics))
    compared(x, rig, HOST, n, 'the program does the same')
    x.reached('end')


# ---------------------------------------------------------------------------------------------------------------------- faults
class Fault:
    """Raises an error at the start of a function of the agent: of any that is called by the ones the handler is made of."""

    def __init__(self, root, at=None, error=None):
        self.root, self.at, self.error = root, at, error
        self.count, self.name = 0, None

    def hook(self, frame, event, arg):
        code = frame.f_code
        if event != 'call' or not code.co_filename.startswith(self.root) or code.co_name.startswith('<'):
            return
        depth, back = 0, frame
        while back is not None and depth < 3:
            depth += back.f_code.co_filename.startswith(self.root)
            back = back.f_back
        if depth < 3:
            return
        self.count += 1
        if self.at is not None and self.count == self.at + 1:
            self.name = code.co_name
            raise self.error

    def __enter__(self):
        sys.setprofile(self.hook)
        return self

    def __exit__(self, *a):
        sys.setprofile(None)


ERRORS = {'error': ValueError, 'interrupt': KeyboardInterrupt, 'exit': SystemExit, 'generator': GeneratorExit, 'memory': MemoryError,
          'recursion': RecursionError, 'stop': StopIteration, 'base': BaseException}


def root_of():
    import deep
    return os.path.dirname(deep.__file__) + os.sep


FAULT_KINDS = {
    'snapshot': ({}, ['n', 'bad.x'], [], 'line'), 'log': ({'log_msg': '{n} {bad}'}, [], [], 'line'),
    'metric': ({'snapshot': 'no_collect'}, [], METRICS, 'line'), 'span': ({'span': 'line', 'snapshot': 'no_collect'}, [], [], 'line'),
    'condition': ({'condition': 'n > 5', 'fire_count': '5', 'fire_period': '1'}, [], [], 'line'), 'capture': ({'stage': 'line_capture'}, ['n'], [], 'next'),
    'span end': ({'span': 'line', 'snapshot': 'no_collect'}, [], [], 'next'), 'method': ({'stage': 'method_capture', 'method_name': 'f'}, [], [], 'return'),
    'method span': ({'span': 'method', 'method_name': 'f', 'snapshot': 'no_collect'}, [], [], 'return'), 'entry': ({'method_name': 'f'}, ['n'], [], 'call'),
}


def rig_of(x, kind):
    args, watches, metrics, event = FAULT_KINDS[kind]
    rig = Rig(x)
    ms = [Metric(name=n, type=t, **({'expression': e} if e else {})) for n, t, e in metrics]
    install(rig, [TracePointConfig(ID='t', path='host.py', line_number=10, args=dict(MANY, **args), watches=watches, metrics=ms)])
    return rig, event


def begin(rig, event, f_locals):
    """The frame before the event, and the event."""
    frame = Frame(FILE, 'f', 10, f_locals)
    if event == 'call':
        return frame, (frame, 'call', None)
    if event == 'line':
        return frame, (frame, 'line', None)
    if event == 'next':
        rig.fire(frame)
        frame.f_lineno = 11
        return frame, (frame, 'line', None)
    rig.fire(frame, 'call')
    frame.f_code.co_code = bytes([dis.opmap['RETURN_VALUE'], 0])
    return frame, (frame, 'return', 'value')


def work(rec):
    return len(rec.snapshots) + len(rec.logs) + len(rec.metrics) + len(rec.spans) + len(rec.closed)


def inside(x):
    """A failure at any call inside the agent."""
    deep = x.tier == 'thorough'
    kind = x.pick('kind', list(FAULT_KINDS))
    error = ERRORS[x.pick('error', list(ERRORS) if deep else ['error', 'interrupt'])]
    f_locals = {'n': x.int('n', 100, 999), 'items': [1, 2]}
    # how many calls there are
    root = root_of()
    rig, event = rig_of(x, kind)
    frame, args = begin(rig, event, dict(f_locals))
    with Fault(root) as f:
        result = rig.fire(*args)
    normal = work(rig.rec)
    total = f.count
    x.check(result is not None and normal > 0, 'works without a failure')
    block = x.index('block', (total + 15) // 16)
    at = block * 16 + x.index('call', min(16, total - block * 16))
    rig, event = rig_of(x, kind)
    frame, args = begin(rig, event, dict(f_locals))
    raised, result, name = None, None, None
    try:
        with Fault(root, at, error('injected')) as f:
            result = rig.fire(*args)
    except BaseException as e:
        if type(e) is not error:
            raise
        raised = e
    x.check(raised is None, 'a failure in %s is not raised' % f.name)
    x.check(result is not None or event == 'return', 'the frame is still traced after a failure in %s' % f.name)
    # the next event works
    before = work(rig.rec)
    with x.no_raise('next'):
        rig.handler.trace_call(frame, 'return', None) if event != 'return' else None
        follow = Frame(FILE, 'f', 10, dict(f_locals))
        again = rig.handler.trace_call(follow, 'call', None)
        again = rig.handler.trace_call(follow, 'line', None)
        follow.f_lineno = 11
        again = rig.handler.trace_call(follow, 'line', None)
        follow.f_code.co_code = bytes([dis.opmap['RETURN_VALUE'], 0])
        rig.handler.trace_call(follow, 'return', 'value')
    x.check(again is not None, 'the next events are traced')
    if kind not in ('condition',):
        x.check(work(rig.rec) > before, 'the tracepoint works again after a failure in %s' % f.name)
    x.reached('end')


class Failing(logging.Handler):
    """A log handler of the application that fails."""
    error = None

    def emit(self, record):
        raise self.error('log')


class Decorate(SnapshotDecorator):
    error = None

    def decorate(self, snapshot_id, context):
        raise self.error('decorate')


class BadLogger(Logger):
    def log_tracepoint(self, log_msg, tp_id, ctx_id):
        raise self.error('log')


class BadMetrics(Metrics):
    def _add(self, *args):
        raise self.error('metric')


class BadSpans(Spans):
    def create_span(self, name, context_id, tracepoint_id):
        if self.how == 'create':
            raise self.error('create')
        span = Spans.create_span(self, name, context_id, tracepoint_id)
        span.close = self.fail
        return span

    def fail(self, *args):
        raise self.error('close')

    def current_span(self):
        raise self.error('current')


def outside(x):
    """Failures of the things that the agent uses, while a program is run."""
    deep = x.tier == 'thorough'
    error = ERRORS[x.pick('error', list(ERRORS) if deep else ['error', 'interrupt', 'exit'])]
    what = x.combine({'log': ['debug', 'error'], 'clock': [0, 1, 3, 9], 'plugin': ['logger', 'metrics', 'create', 'close', 'decorate', 'all'],
                      'push': ['fails'], 'config': ['fails']}, most=3 if deep else 1)
    n = x.int('n', 2, 4)
    name = x.pick('program', ['fails', 'recursion'] if not deep else list(HOSTS))
    rig = Rig(x)
    if 'log' in what:
        logger = logging.getLogger('deep')
        handler, level, disabled, propagate = Failing(), logger.level, logging.root.manager.disable, logger.propagate
        handler.error = error
        logging.disable(logging.NOTSET)
        logger.setLevel(logging.DEBUG if what['log'] == 'debug' else logging.ERROR)
        logger.addHandler(handler)
        logger.propagate = False

        def restore():
            logger.removeHandler(handler)
            logger.setLevel(level)
            logger.propagate = propagate
            logging.disable(disabled)
        x.defer(restore)
    plugins = what.get('plugin')
    chosen = []
    for names, good, bad in (('logger', Logger, BadLogger), ('metrics', Metrics, BadMetrics), ('create close', Spans, BadSpans),
                             ('decorate', None, Decorate)):
        failing = plugins == 'all' or plugins is not None and plugins in names.split()
        cls = bad if failing else good
        if cls is not None:
            chosen.append(rig.plugin(cls, error=error, how=plugins))
    rig.config.plugins = chosen
    if 'push' in what:
        def fail(snapshot):
            raise error('push')
        x.patch(rig.handler._push_service, 'push_snapshot', fail)
    if 'config' in what:
        class NoResource:
            def __getattr__(self, name):
                raise error('resource')
        rig.config.resource = NoResource()
    source = HOSTS[name]
    lines = lines_of(source)
    configs = [config(k, line, tp_id='%s%d' % (k, line)) for i, line in enumerate(lines)
               for k in [['snapshot', 'log', 'metric', 'span', 'line capture'][i % 5]]]
    configs += [config('method span', 0, f, tp_id=f) for f in functions_of(source)]
    install(rig, configs)
    if 'clock' in what:
        calls = []

        def now():
            calls.append(1)
            if len(calls) % (what['clock'] + 1) == 0:
                raise error('clock')
            return 10 ** 18 + len(calls)
        expected = execute(source, n)
        clock.override = now
        try:
            with Traced(rig.handler) as t:
                got = execute(source, n)
        finally:
            clock.override = None
        ok = same(x, expected, got)
        x.check(ok, 'the program does the same')
        x.check(t.kept, 'the program is still traced')
    else:
        compared(x, rig, source, n, 'the program does the same')
    x.reached('end')


# ----------------------------------------------------------------------------------------------------------------------- other
CELLS = '''\
out = []


def make(n):
    value = n

    def put(m):
        nonlocal value
        value = m
    hooks.append(put)
    other = [value]  # here
    out.append(value)
    return value, other


def loop(n):
    for i in range(2):
        hooks.append(lambda m: None)
        j = i  # here
    return i, j


class Body:
    a = 1
    items = [a for a in range(2)]  # here
    b = a


value = 5
rows = [value + i for i in range(3)]  # here


def run(n):
    return make(n), loop(n), Body.items, Body.a, rows
'''


class Changes(Logger):
    """A plugin that runs something of the program, as another thread would."""

    def log_tracepoint(self, log_msg, tp_id, ctx_id):
        for hook in list(self.hooks):
            hook(self.number)


def changes(x):
    """Variables that are changed by others while an event is processed."""
    n, m = x.int('n', 100, 999), x.int('m', 100, 999)
    kind = x.pick('kind', ['snapshot', 'watches', 'condition', 'log', 'metric', 'line capture', 'all frames'])
    which = x.index('which', 4)
    hooks, hooked = [], []
    lines = [i for i, text in enumerate(CELLS.splitlines(), 1) if text.endswith('# here')]
    source = 'hooks = []\n' + CELLS
    rig = Rig(x, plugins=[])
    seen = []
    # another thread changes the variable at the line, after the agent read it
    logger = rig.plugin(Changes, hooks=hooks, number=m)
    rig.config.plugins = [logger]
    configs = [config(kind, lines[which] + 1, tp_id='t')]
    configs.append(TracePointConfig(ID='z', path='host.py', line_number=lines[which] + 1, args=dict(MANY, snapshot='no_collect', log_msg='x')))
    install(rig, configs)
    app = types.ModuleType('host')
    app.hooks = hooks
    with x.no_raise('program'):
        with Traced(rig.handler) as t:
            exec(compile(CELLS, FILE, 'exec', dont_inherit=True), vars(app))
    hooks.clear()
    with x.no_raise('program'):
        install(rig, [config(kind, lines[which], tp_id='t'), TracePointConfig(
            ID='z', path='host.py', line_number=lines[which], args=dict(MANY, snapshot='no_collect', log_msg='x'))])
        with Traced(rig.handler) as t:
            exec(compile(CELLS, FILE, 'exec', dont_inherit=True), vars(app))
            got = app.run(n)
    first, other = got[0]
    if which == 0:
        # the change is seen by the program
        x.check(x.conj([x.eq(first, m), x.eq(other[0], m), x.eq(app.out[-1], m)]), 'the change of another thread is kept')
    else:
        x.check(x.conj([x.eq(first, n), x.eq(other[0], n)]), 'the variable is kept')
    x.check(got[1] == (1, 1) and got[2:] == ([0, 1], 1, [5, 6, 7]) and app.value == 5, 'the other variables are kept')
    x.check(t.kept, 'the program is still traced')
    x.reached('end')


THREADS = '''\
import threading

out = []
lock = threading.Lock()


def work(n, results):
    with lock:
        results.append(n)
    for i in range(3):
        n += i
    with lock:
        results.append(n)
    if n % 2:
        raise ValueError(n)


def run(n):
    results, failed = [], []
    old, threading.excepthook = threading.excepthook, lambda a: failed.append((a.exc_type.__name__, a.exc_value.args))
    try:
        for i in range(3):
            t = threading.Thread(target=work, args=(n + i, results))
            t.start()
            t.join()
    finally:
        threading.excepthook = old
    event = threading.Event()
    timer = threading.Timer(0, event.set)
    timer.start()
    timer.join()
    return results, failed, event.is_set(), threading.current_thread().name
'''


def attached(x):
    """The whole agent: attached, with tracepoints from the service, and shut down."""
    name = x.pick('program', list(HOSTS) + ['threads'])
    source = THREADS if name == 'threads' else HOSTS[name]
    n = x.pick('n', [1, 2, 5] if x.tier == 'thorough' else [2])
    end = x.pick('end', ['after', 'never attached', 'send fails', 'poll fails'])
    kind = x.pick('kind', ['snapshot', 'log', 'line capture', 'span', 'metric'])
    lines = lines_of(source)
    expected = execute(source, n)

    def poll(request):
        if end == 'poll fails':
            raise ValueError('poll')
        return PollResponse(ts_nanos=1, current_hash='h', response_type=ResponseType.UPDATE,
                            response=[config(kind, line, tp_id='t%d' % line) for line in lines])

    def send(snapshot):
        if end == 'send fails':
            raise ValueError('send')
    agent = Agent(x, channel=Channel(x, poll, send))
    agent.deep.push.task_handler = Inline()
    old, threads = sys.gettrace(), threading.gettrace()
    try:
        with x.no_raise('start'):
            agent.deep.poll.poll() if end != 'poll fails' else None
            if end != 'never attached':
                agent.handler.start()
        got = execute(source, n)
        kept = sys.gettrace() is not None
        with x.no_raise('shutdown'):
            agent.handler.shutdown()
        restored = sys.gettrace() is old and threading.gettrace() is threads
    finally:
        sys.settrace(old)
        threading.settrace(threads)
    x.check(same(x, expected, got), 'the program does the same')
    x.check(kept or end == 'never attached', 'the program is still traced')
    x.check(restored, 'the trace functions are restored')
    x.check(end not in ('after', 'send fails') or kind not in ('snapshot', 'line capture') or len(agent.channel.snapshots) > 0, 'snapshots are sent')
    x.reached('end')


HARNESSES = [
    H(programs, '%d programs, any input 2..4 (thorough 1..6), tracepoints of 8 (thorough %d) kinds at all or each second line (thorough: each third, or any one)' % (
        len(HOSTS), len(KINDS)), weight=3),
    H(methods, '%d programs, any input 1..6, 3 kinds of tracepoints on all functions' % len(HOSTS)),
    H(malformed, '%d arguments, any 1 (thorough 2) of them with any of their values, with bad metrics or not' % len(ARGS)),
    H(expressions, '%d expressions at 7 places' % len(EXPRESSIONS)),
    H(inside, '%d kinds of work, a failure of 2 (thorough %d) kinds at any call to a function of the agent from its handler' % (
        len(FAULT_KINDS), len(ERRORS)), weight=3),
    H(outside, 'any 1 (thorough 3) of 5 things fail in 3 (thorough %d) ways, while 2 (thorough %d) programs run with tracepoints at all lines' % (
        len(ERRORS), len(HOSTS)), weight=2),
    H(changes, 'any values, 7 kinds of tracepoints at 4 places'),
    H(attached, '%d programs, 5 kinds of tracepoints at all lines, 4 courses' % (len(HOSTS) + 1)),
]
BUDGET = {'quick': 120, 'thorough': 600}
