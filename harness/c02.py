"""Fidelity: the snapshots are compared with an independent reading of the paused frames, whose contents are symbolic.

The stack, the kinds and values of the locals, the watches and the settings are chosen by the solver; programs that are run by
the interpreter are read by a second trace function.
"""
import sys
import threading

from deep.api.tracepoint.trigger import build_trigger
from harness.common import Code, Frame, Rig, load, tp
from harness.graph import Reading, compare, compare_all
from harness.programs import PROGRAMS
from vx.sched import Sched
from vx.spec import H

TECHNIQUE = 'symbolic execution of the real source with z3 (path exploration, solver-decided branches and schedules, replayed models)'
STUBS = 'delivery records the snapshots; paused frames are stand-ins (in programs: real frames)'
OUTSIDE = 'subclasses of the built-in containers; attributes in slots; the exact name of attributes that are private to a base class; ' \
          'paths in include and exclude lists (C19); what is sent of a snapshot (C08); values beyond the limits (C05)'

MANY = {'fire_count': '-1', 'fire_period': '0'}


class Thing:
    kind = 'of the class'

    def __init__(self, *values):
        for i, v in enumerate(values):
            setattr(self, 'a%d' % i, v)

    def __str__(self):
        return 'a thing'


class Private:
    def __init__(self, v):
        self.__hidden = v
        self._inside = [v]
        self.__dunder__ = 5
        self._Other__x = v
        self.__a_Private__b = 'twice'
        self._Private_ = 'short'


class _Under(Private):
    def __init__(self, v):
        super().__init__(v)
        self.__own = v


class Empty:
    def __str__(self):
        return 'nothing in here'


class Falsy(Thing):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Proxy:
    @property
    def __class__(self):
        return Thing

    def __str__(self):
        return 'proxy'


LIKE = ('list', 'str', 'dict', 'int', 'module', 'list_iterator', 'NoneType', 'generator', 'frame', 'OrderedDict', 'Thing', 'ValueError', 'made.Thing')


def like_builtin(name, n, parts):
    """An object of a type that has the name of another type."""
    v = type(name, (), {'__str__': lambda self: 'an object', '__len__': lambda self: 5})()
    v.n, v.parts = n, parts
    return v


def make(x, kind, n, text, parts):
    """A value of a kind."""
    return {
        'int': lambda: n, 'text': lambda: text, 'bool': lambda: x.flag('bool%d' % len(parts)), 'none': lambda: None,
        'float': lambda: 2.5, 'bytes': lambda: b'bytes', 'class': lambda: Thing,
        'list': lambda: list(parts), 'tuple': lambda: tuple(parts), 'dict': lambda: {'k%d' % i: p for i, p in enumerate(parts)},
        'int dict': lambda: {i + 5: p for i, p in enumerate(parts)}, 'empty list': lambda: [], 'empty dict': lambda: {},
        'set': lambda: {'one', 2, None}, 'frozenset': lambda: frozenset(['one', (2, 'two'), 3]), 'object': lambda: Thing(*parts), 'empty object': lambda: Empty(),
        'private': lambda: Private(n), 'private sub': lambda: _Under(n), 'exception': lambda: ValueError('failed', *parts),
        'falsy': lambda: Falsy(*parts), 'like builtin': lambda: like_builtin(x.pick('name', LIKE), n, parts),
    }[kind]()


LEAF = ['int', 'text', 'none', 'bool', 'float', 'class']
NODE = ['list', 'tuple', 'dict', 'int dict', 'object', 'exception', 'private', 'private sub', 'falsy', 'set', 'frozenset', 'empty list',
        'empty dict', 'empty object', 'bytes', 'like builtin']


def values(x):
    """The locals of a frame."""
    rig = Rig(x, plugins=[])
    n = x.int('n', 100, 999)
    deep = x.tier == 'thorough'
    text = x.str('text', x.index('length', 3) if deep else 1, 'a0 .')
    k0, k1, k2 = x.pick('outer', NODE + LEAF), x.pick('middle', NODE), x.pick('inner', LEAF if deep else LEAF[:2])
    inner = make(x, k2, n, text, [])
    middle = make(x, k1, n, text, [inner, x.int('m', 10, 99)])
    outer = make(x, k0, n, text, [middle, inner, 7])
    f_locals = {'outer': outer, 'n': n, 'text': text}
    share = x.pick('share', ['none', 'alias', 'cycle'] if deep or k1 in NODE[:2] else ['none'])
    if share == 'alias':
        f_locals['again'] = outer
        f_locals['part'] = middle
    elif share == 'cycle':
        if type(outer) is list:
            outer.append(outer)
        elif type(outer) is dict:
            outer['self'] = outer
        elif isinstance(outer, Thing):
            outer.me = outer
            outer.all = f_locals
    rig.install(tp('t', 'app.py', 10, MANY))
    readings, known = {}, {}
    for name, value in f_locals.items():
        readings[name] = Reading(value, known=known)
    # the depth at which a shared value is first seen decides, so it is not limited here
    with x.no_raise('trace'):
        rig.fire(Frame('/app/app.py', 'f', 10, dict(f_locals)))
    x.check(len(rig.rec.snapshots) == 1, 'a snapshot')
    for s in rig.rec.snapshots:
        compare_all(x, s.var_lookup, s.frames[0].variables, readings, 'the locals')
    x.reached('end')


PATHS = ['/app/app.py', '/app/sub/part.py', '/lib/python/code.py', '<string>', '/application/app.py']
class Stub(type):
    """A metaclass with methods of its own."""

    def __eq__(cls, other):
        raise ValueError('classes are not compared')

    def __str__(cls):
        raise ValueError('no text')
    __hash__ = type.__hash__
    __repr__ = __str__


Problem = type('Problem', (KeyError,), {})
Number = type('Number', (int,), {})
Table = type('Table', (dict,), {})
Rows = type('Rows', (list,), {'__len__': lambda self: 0})
Made = Stub('Made', (), {})
SELF = {'none': ('NoneType', None), 'absent': (None, None), 'object': ('Thing', Thing(1)), 'falsy': ('Falsy', Falsy(1)),
        'class': ('type', Thing), 'proxy': ('Thing', Proxy()), 'text': ('str', 'me'),
        'exception': ('Problem', Problem('p')), 'number': ('Number', Number(0)), 'table': ('Table', Table()), 'rows': ('Rows', Rows()), 'made': ('Made', Made())}
FRAME_TYPES = [None, 'single_frame', 'all_frame', 'no_frame', 'other', '']


def stacks(x):
    """The frames of a snapshot."""
    rig = Rig(x, plugins=[])
    deep = x.tier == 'thorough'
    frame_type = x.pick('frame type', FRAME_TYPES)
    size = 1 + x.index('size', 5 if deep else 4)
    method = x.flag('method') if deep or size <= 2 else False
    back, frames = None, []
    for i in range(size):
        path = x.pick('path%d' % i, PATHS if i == 0 or deep and i == 1 else PATHS[1:2 + deep]) if i < size - 1 else PATHS[0]
        kind = x.pick('self%d' % i, list(SELF)) if i == size - 1 or deep and i == 0 else ['object', 'absent', 'class'][i % 3]
        line = x.int('line%d' % i, 100, 999) if i < size - 1 else 10
        f_locals = {'v%d' % i: x.int('v%d' % i, 100, 999), 'same': [i]}
        if kind != 'absent':
            f_locals['self'] = SELF[kind][1]
        else:
            f_locals['cls'], f_locals['this'] = Thing, Thing(i)
        name = '<module>' if i == 0 and size > 1 and kind != 'object' else 'f%d' % i
        code = Code(path, name, 10 if i == size - 1 else 1)
        back = Frame(path, name, line, f_locals, back=back, code=code)
        frames.insert(0, (back, kind, path, name, line, {k: Reading(v) for k, v in f_locals.items()}))
    args = dict(MANY)
    if frame_type is not None:
        args['frame_type'] = frame_type
    if method:
        args['method_name'] = frames[0][3]
    rig.install(tp('t', 'app.py', None if method else 10, args))
    with x.no_raise('trace'):
        rig.fire(back, 'call' if method else 'line')
    x.check(len(rig.rec.snapshots) == 1, 'a snapshot')
    for s in rig.rec.snapshots:
        x.check(len(s.frames) == size, 'all frames')
        for i, (got, (frame, kind, path, name, line, readings)) in enumerate(zip(s.frames, frames)):
            x.check(got.file_name == path and got.method_name == name, 'file and function of the frame')
            x.check(x.eq(got.line_number, line), 'line of the frame')
            # no class for frames that have no self, or None
            x.check(got.class_name == (SELF[kind][0] if kind not in ('none', 'absent') else None), 'class of the frame')
            x.check(got.app_frame == path.startswith('/app'), 'application frame')
            x.check(got.short_path == (path[4:] if path.startswith('/app') else path[4:] if path.startswith('/lib') else path), 'short path')
            if frame_type == 'all_frame' or frame_type != 'no_frame' and i == 0:
                compare_all(x, s.var_lookup, got.variables, readings, 'the locals of frame %d' % i)
            else:
                x.check(len(got.variables) == 0, 'no variables')
    x.reached('end')


SIZES = [33, 65, 101, 129, 257, 513, 1001, 2500]
BIG = {
    'list': lambda n: list(range(n)), 'tuple': lambda n: tuple(range(n)), 'set': lambda n: set(range(n)), 'frozenset': lambda n: frozenset(range(n)),
    'dict': lambda n: {'k%d' % i: 5 for i in range(n)}, 'text': lambda n: 'x' * min(n, 1024), 'number': lambda n: 10 ** n,
    'object': lambda n: Thing(*([5] * n)), 'exception': lambda n: ValueError(*range(n)),
}


def large(x):
    """Deep stacks, large containers and many locals."""
    rig = Rig(x, plugins=[])
    size = x.pick('size', SIZES)
    what = x.pick('what', ['stack', 'locals'] + sorted(BIG))
    n = x.int('n', 1000, 9999)
    back, stack = None, []
    for i in range(size if what == 'stack' else 0):
        back = Frame('/app/deep.py', 'g%d' % i, 20 + i, {'v': i}, back=back)
        stack.insert(0, ('g%d' % i, 20 + i))
    f_locals = {'n': n}
    if what == 'locals':
        f_locals.update(('v%d' % i, 5 if i else n) for i in range(min(size, 999)))
    elif what != 'stack':
        f_locals['big'] = BIG[what](size)
        f_locals['last'] = n
    readings = {k: Reading(v) for k, v in f_locals.items()}
    # the budget is enough for all of it
    args = dict(MANY, MAX_VARIABLES='100000', MAX_STRING_LENGTH='10000', MAX_TP_PROCESS_TIME='1000000')
    every = what == 'stack' and x.flag('every frame')
    if every:
        args['frame_type'] = 'all_frame'
    rig.install(tp('t', 'app.py', 10, args))
    with x.no_raise('trace'):
        rig.fire(Frame('/app/app.py', 'f', 10, f_locals, back=back))
    x.check(len(rig.rec.snapshots) == 1, 'a snapshot')
    for s in rig.rec.snapshots:
        x.check([(f.method_name, f.line_number) for f in s.frames] == [('f', 10)] + stack, 'all frames')
        compare_all(x, s.var_lookup, s.frames[0].variables, readings, 'the locals', 10000)
        for i, f in list(enumerate(s.frames))[1:]:
            names = [(v.name, s.var_lookup[v.vid].value) for v in f.variables]
            x.check(names == ([('v', str(size - i))] if every else []), 'the locals of frame %d' % i)
    x.reached('end')


def boom():
    raise LookupError('no result')


WATCHES = {
    'v': lambda v, g: v, 'v + 1': lambda v, g: v + 1, 'box': lambda v, g: g['box'], 'box[1]': lambda v, g: g['box'][1],
    '[v, 5]': lambda v, g: [v, 5], 'glob': lambda v, g: 'global', 'shadow': lambda v, g: 'local', 'v > 500': lambda v, g: v > 500,
    'len(box)': lambda v, g: 2, 'self.a0': lambda v, g: v, 'str(5)': lambda v, g: '5', 'None': lambda v, g: None,
    'self.kind.upper()': lambda v, g: 'OF THE CLASS', '{"k": box}': lambda v, g: {'k': g['box']},
    '(v := 5)': lambda v, g: 5, '(missing := 5)': lambda v, g: 5,
    # these have no value
    'missing': None, 'v.nothing': None, 'boom()': None, 'other': None, '1 +': None, '': None, 'builtin_missing': None,
}


def watches(x):
    """Watches are evaluated in the frame, in order."""
    rig = Rig(x, plugins=[])
    v, w = x.int('v', 100, 999), x.int('other', 100, 999)
    names = list(WATCHES)
    deep = x.tier == 'thorough'
    chosen = [x.pick('w0', names), x.pick('w1', names if deep else names[::3])]
    if deep and x.flag('three'):
        chosen.append(x.pick('w2', names[::4]))
    frame_type = x.pick('frame type', FRAME_TYPES[2:4])
    box = [v, w]
    f_locals = {'v': v, 'box': box, 'shadow': 'local', 'self': Thing(v)}
    f_globals = {'__name__': 'app', '__builtins__': __builtins__, 'glob': 'global', 'shadow': 'global', 'boom': boom, 'v': 'global v'}
    back = Frame('/app/app.py', 'g', 55, {'v': w, 'other': w, 'glob': w}, f_globals)
    rig.install(tp('t', 'app.py', 10, dict(MANY, frame_type=frame_type), watches=list(chosen)))
    known = {}
    for value in f_locals.values():
        Reading(value, known=known)
    expected = []
    for text in chosen:
        fn = WATCHES[text]
        expected.append(None if fn is None else Reading(fn(v, f_locals)))
    with x.no_raise('trace'):
        rig.fire(Frame('/app/app.py', 'f', 10, f_locals, f_globals, back=back))
    x.check(len(rig.rec.snapshots) == 1, 'a snapshot')
    for s in rig.rec.snapshots:
        x.check([r.expression for r in s.watches] == chosen, 'one result for each watch')
        for got, text, reading in zip(s.watches, chosen, expected):
            x.check(got.source == 'WATCH', 'source of the result')
            if reading is None:
                x.check(got.result is None and got.error is not None, '%r has no value' % text)
                continue
            x.check(got.error is None and got.result is not None, '%r has a value' % text)
            if got.result is not None:
                compare(x, s.var_lookup, got.result, reading, 'watch %s' % text)
        if frame_type == 'all_frame':
            compare_all(x, s.var_lookup, s.frames[0].variables, {k: Reading(i) for k, i in f_locals.items()}, 'the locals')
    x.reached('end')


def moment(x):
    """The snapshot is what the values were, whatever the program does with them after that."""
    rig = Rig(x, plugins=[])
    v = x.int('v', 100, 999)
    stage = x.pick('stage', [None, 'line_start', 'line_capture', 'method_capture'])
    method = x.flag('method')
    args = dict(MANY)
    if stage is not None:
        args['stage'] = stage.replace('line', 'method') if method and stage != 'method_capture' else stage
    watch = x.flag('watch')
    end = x.pick('end', ['next line', 'return', 'exception'])
    if method:
        args['method_name'] = 'f'
    elif stage == 'method_capture':
        x.assume(False)
    rig.install(tp('t', 'app.py', None if method else 10, args, watches=['box', 'len(box)'] if watch else []))
    box, thing, table = [v, [v]], Thing(v), {'k': v}
    f_locals = {'v': v, 'box': box, 'thing': thing, 'table': table}
    readings = {k: Reading(i) for k, i in f_locals.items()}
    frame = Frame('/app/app.py', 'f', 10, f_locals, back=Frame('/app/app.py', 'g', 20))
    error = ValueError('failed')
    with x.no_raise('trace'):
        rig.fire(frame, 'call' if method else 'line')
        # the program continues
        op = x.pick('op', ['replace', 'change', 'clear'])
        if op == 'replace':
            frame.f_locals = {'v': 5, 'new': v}
        elif op == 'change':
            box[1].append(v)
            box[0] = 5
            thing.a0 = 'changed'
            thing.b = 5
            table['k'] = 5
            f_locals['v'] = 5
        else:
            box.clear()
            table.clear()
            thing.__dict__.clear()
            f_locals.clear()
        frame.f_lineno = 11
        frame.f_back.f_lineno = 21
        frame.f_code.co_code = bytes([RETURN, 0] if end != 'exception' else [RERAISE, 0])
        if end == 'next line':
            rig.fire(frame, 'line')
        if end == 'exception':
            rig.fire(frame, 'exception', (ValueError, error, None))
        rig.fire(frame, 'return', None if end == 'exception' else 5)
    x.check(len(rig.rec.snapshots) == 1, 'a snapshot')
    for s in rig.rec.snapshots:
        x.check([(f.method_name, f.line_number) for f in s.frames] == [('f', 10), ('g', 20)], 'the frames at that moment')
        # a captured value is read later
        done = compare_all(x, s.var_lookup, s.frames[0].variables, readings, 'the locals at that moment')
        got = [w for w in s.watches if w.source == 'WATCH']
        x.check(len(got) == 2 * watch, 'the watches')
        results = [w.expression for w in s.watches if w.source == 'CAPTURE']
        deferred = stage is not None and stage.endswith('capture')
        x.check(results == ([end.replace('next line', 'return') if method else end] if deferred and (method or end != 'next line') else []),
                'the results that are captured')
        if watch and len(got) == 2:
            compare(x, s.var_lookup, got[0].result, readings['box'], 'watch box')
            compare(x, s.var_lookup, got[1].result, Reading(2), 'watch len(box)')
    x.reached('end')


import dis  # noqa: E402

RETURN, RERAISE = dis.opmap['RETURN_VALUE'], dis.opmap['RERAISE']


def named(x):
    """The snapshot names the tracepoint that fired."""
    rig = Rig(x, plugins=[])
    deep = x.tier == 'thorough'
    count = 1 + x.index('count', 3 if deep else 2)
    tps, triggers = [], []
    for i in range(count):
        where = x.pick('where%d' % i, ['line', 'other line', 'method', 'other file', 'method line'])
        path = 'app.py' if where != 'other file' else 'other.py'
        line = None if where == 'method' else x.pick('line%d' % i, [11, 30]) if where == 'other line' else 10
        args = dict(MANY)
        if where in ('method', 'method line'):
            args['method_name'] = 'f'
        if x.flag('arg%d' % i):
            args['extra'] = 'value %d' % i
            args['frame_type'] = 'all_frame'
        watches = x.pick('watches%d' % i, [[], ['v', 'v + %d' % i]])
        tps.append(('tp%d' % i, path, line, dict(args), list(watches), where))
        triggers.append(build_trigger('tp%d' % i, path, line, args, watches, []))
    rig.install(*triggers)
    event = x.pick('event', ['line', 'call'])
    v = x.int('v', 100, 999)
    frame = Frame('/app/src/app.py', 'f', 10, {'v': v})
    with x.no_raise('trace'):
        rig.fire(frame, event)
    due = [t for t in tps if (t[5] == 'line' if event == 'line' else t[5] in ('method', 'method line'))]
    x.check(sorted(s.tracepoint.id for s in rig.rec.snapshots) == [t[0] for t in due], 'the snapshots of the tracepoints')
    for tp_id, path, line, args, watches, where in due:
        for s in [s for s in rig.rec.snapshots if s.tracepoint.id == tp_id]:
            x.check(s.tracepoint.path == path, 'path of the tracepoint')
            if line is not None:
                x.check(s.tracepoint.line_no == line, 'line of the tracepoint')
            for k, value in args.items():
                x.check(s.tracepoint.args.get(k) == value, 'arguments of the tracepoint')
            x.check(list(s.tracepoint.watches) == watches, 'watches of the tracepoint')
            x.check([w.expression for w in s.watches] == watches, 'results of the watches')
    x.reached('end')


PARTS = ('trigger_handler.py', 'trigger_context.py', 'action_context.py', 'snapshot_action.py', 'frame_collector.py',
         'variable_set_processor.py')


def threads(x):
    """Each thread describes itself."""
    rig = Rig(x, plugins=[])
    share = x.flag('share')
    rig.install(tp('t', 'app.py', 10, dict(MANY, frame_type='all_frame'), watches=['v', 'box']))
    shared = [5, 6]
    start = {}

    def work(n):
        box = shared if share else [n, [n]]
        back = Frame('/app/app.py', 'g%d' % n, n, {'w': n + 1})
        frame = Frame('/app/app.py', 'f', 10, {'v': n, 'box': box}, back=back)
        rig.fire(frame)
        start[n] = box
    with Sched(x, preemptions=2 if x.tier == 'thorough' else 1, only=PARTS, choices=0) as s:
        s.spawn(work, 100)
        s.spawn(work, 200)
        with x.no_raise('work'):
            s.go()
    x.check(not s.deadlock and len(start) == 2, 'the threads end')
    x.check(len(rig.rec.snapshots) == 2, 'two snapshots')
    seen = set()
    for snap in rig.rec.snapshots:
        name = snap.frames[1].method_name
        n = int(name[1:])
        seen.add(n)
        x.check([(f.method_name, f.line_number) for f in snap.frames] == [('f', 10), (name, n)], 'the stack of the thread')
        compare_all(x, snap.var_lookup, snap.frames[0].variables, {'v': Reading(n), 'box': Reading(start[n])}, 'the locals')
        compare_all(x, snap.var_lookup, snap.frames[1].variables, {'w': Reading(n + 1)}, 'the locals of the caller')
        for w, value in zip(snap.watches, [n, start[n]]):
            compare(x, snap.var_lookup, w.result, Reading(value), 'the watches')
    x.check(seen == {100, 200}, 'one of each thread')
    x.reached('end')


def locals_of(frame):
    """Python changes the variables of comprehensions when f_locals is read in a module."""
    return frame.f_locals if frame.f_code.co_flags & 1 else frame.f_globals


def reading_of(frame):
    """Read a real frame and its callers."""
    out = []
    while frame is not None:
        me = locals_of(frame).get('self')
        out.append((frame.f_code.co_filename, frame.f_code.co_name, frame.f_lineno, None if me is None else type(me).__name__))
        frame = frame.f_back
    return out


STATE = '''\
class Node:
    def __init__(self, value, back=None):
        self.value = value
        self.back = back
        self.__secret = [value]

    def total(self):
        if self.back is None:
            return self.value
        return self.value + self.back.total()


def build(n):
    items = []
    last = None
    for i in range(3):
        last = Node(n + i, last)
        items.append(last)
    table = {'items': items, 'last': last, 5: (n, None)}
    return table


def use(n):
    table = build(n)
    total = table['last'].total()
    try:
        table['missing']
    except KeyError as error:
        text = 'failed'
    squares = {i: i * i for i in range(3)}

    def inner(m):
        nonlocal total
        total += m
        return total
    inner(n)
    return [total for _ in range(2)]


def gen(n):
    got = yield n
    while got:
        n += 1
        got = yield n


result = use(N)
g = gen(N)
next(g)
g.send([1])
'''

LIVE = dict(PROGRAMS, state=STATE)


def live(x):
    """Programs that are run by the interpreter: each time a line is reached."""
    which = x.pick('program', list(LIVE))
    source = LIVE[which]
    n = x.int('n', 100, 999) if which == 'state' else 5
    rig = Rig(x, plugins=[])
    frame_type = x.pick('frame type', FRAME_TYPES[1:3])
    lines = [i for i, t in enumerate(source.splitlines(), 1) if t.strip() and not t.strip().startswith(('class ', '@', 'import '))]
    line = x.pick('line', lines)
    rig.install(tp('t', 'app.py', line, dict(MANY, frame_type=frame_type)))
    problems, hits = [], []

    def trace(frame, event, arg):
        mine = frame.f_code.co_filename == '/app/app.py'
        before = len(rig.rec.snapshots)
        reading = None
        if mine and event == 'line' and frame.f_lineno == line:
            known = {}
            stack = reading_of(frame)
            f_locals = {k: v for k, v in locals_of(frame).items()}
            if frame.f_code.co_flags & 1:
                reading = {k: Reading(v, known=known) for k, v in f_locals.items()}
            hits.append((stack, reading, list(f_locals) if frame.f_code.co_name == '<module>' else None))
        rig.handler.trace_call(frame, event, arg)
        if len(rig.rec.snapshots) != before + (mine and event == 'line' and frame.f_lineno == line):
            problems.append('a snapshot for each hit')
        return trace if mine else None

    old = sys.gettrace()
    sys.settrace(trace)
    try:
        load(source, '/app/app.py', N=n)
    finally:
        sys.settrace(old)
    x.check(not problems, 'a snapshot for each hit')
    x.check(len(rig.rec.snapshots) == len(hits), 'the snapshots')
    for s, (stack, reading, names) in zip(rig.rec.snapshots, hits):
        x.check([(f.file_name, f.method_name, f.line_number, f.class_name) for f in s.frames] == stack, 'the stack')
        if reading is not None:
            # in any order, python has no order for the locals that are read by name
            place = {v.name: i for i, v in enumerate(s.frames[0].variables)}
            reading = dict(sorted(reading.items(), key=lambda item: place.get(item[0], len(place))))
            compare_all(x, s.var_lookup, s.frames[0].variables, reading, 'the locals')
        elif names is not None:
            x.check([v.name for v in s.frames[0].variables][:3] == names[:3], 'the names')
        if frame_type == 'single_frame':
            x.check(not any(len(f.variables) for f in s.frames[1:]), 'no variables of the callers')
    x.reached('end')


HARNESSES = [
    H(values, '3 locals, nested to depth 3: %d outer, %d middle and 2 (thorough %d) inner kinds, any int 100..999, any text of '
              '1 (thorough 0..2) of 4 characters; aliases and cycles' % (len(NODE + LEAF), len(NODE), len(LEAF)), weight=2),
    H(stacks, '1..4 (thorough 5) frames, any line numbers and values 100..999, 5 kinds of path, %d kinds of self, 6 frame types; line or '
              'function entry' % len(SELF), weight=2),
    H(large, 'stacks of, or one of %d kinds of values with, one of %d sizes up to %d' % (len(BIG) + 1, len(SIZES), SIZES[-1])),
    H(watches, '2 (thorough 3) of %d watches, any values 100..999, 2 frame types' % len(WATCHES)),
    H(moment, 'values are replaced, changed or cleared after the line; 4 stages, 3 ends'),
    H(named, '1..2 (thorough 3) tracepoints at 5 kinds of location, with args and watches; line and call'),
    H(threads, '2 threads, values shared or not; 1 (thorough 2) preemptions at any line of %s' % ', '.join(PARTS)),
    H(live, '%d programs run by the interpreter, a tracepoint on any of their lines, any input 100..999 for one of them' % len(LIVE)),
]
BUDGET = {'quick': 60, 'thorough': 600}
