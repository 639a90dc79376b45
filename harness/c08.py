"""What the service receives: the conversion, the push service and the metadata are executed over symbolic snapshots.

Every field of a snapshot is symbolic (each in one of the harnesses), so a field that is dropped, changed or swapped with
another is a counterexample; text is made of any code points, lone surrogates included. The message that is received is
compared with the snapshot by a reader that is written from the message definition.
"""
import base64

from deep.api.attributes import BoundedAttributes
from deep.api.auth import AuthProvider
from deep.api.resource import Resource
from deep.api.tracepoint import EventSnapshot, StackFrame, Variable, VariableId, WatchResult
from deep.api.tracepoint.tracepoint_config import TracePointConfig
from deep.push import convert_snapshot
from deepproto.proto.tracepoint.v1.tracepoint_pb2 import Snapshot
from harness.agent import Agent, Channel, Inline
from harness.common import Frame, line_of, load, tp, traced
from vx.spec import H

TECHNIQUE = 'symbolic execution of the real source with z3 (path exploration, solver-decided branches, replayed models)'
STUBS = 'gRPC channel; protobuf messages by stand-ins built from the message descriptors (the real ones, through bytes, in replays)'
OUTSIDE = 'how characters that cannot be encoded are represented; the gRPC library and the network'

SOURCES = ['WATCH', 'LOG', 'METRIC', 'CAPTURE']


class Together:
    """The checks as one: how many frames there are depends on what runs the harness."""
    symbolic = False

    def __init__(self):
        self.bad = []

    def check(self, cond, msg):
        if not cond:
            self.bad.append(msg)

    def eq(self, a, b):
        return a == b

    def conj(self, parts):
        return all(parts)


class Reader:
    """Compare a message with the snapshot."""

    def __init__(self, x):
        self.x = x

    def text(self, got, value, what):
        x = self.x
        if value is None:
            value = ''
        if not isinstance(value, str):
            value = str(value)
        if not x.symbolic or not x.core.is_sym(value):
            try:
                value.encode('utf-8')
            except UnicodeEncodeError:
                # it cannot be sent as it is
                x.check(got != '', '%s is lost' % what)
                return
            x.check(got == value, '%s is changed' % what)
            return
        from vx.strings import SEnum
        if isinstance(value, SEnum) or not hasattr(value, 'chars'):
            x.check(x.eq(got, value), '%s is changed' % what)
            return
        odd = x.disj([x.conj([c >= 0xD800, c <= 0xDFFF]) for c in map(self.char, value.chars)])
        lost = x.eq(got, '') if len(value.chars) else False
        x.check(x.conj([x.disj([odd, x.eq(got, value)]), x.neg(lost)]), '%s is changed' % what)

    def char(self, c):
        return c if type(c) is int else self.x.core.mk_int(c)

    def num(self, got, value, what):
        self.x.check(self.x.eq(got, 0 if value is None else value), '%s is changed' % what)

    def flag(self, got, value, what):
        self.x.check(self.x.eq(got, False if value is None else value), '%s is changed' % what)

    def size(self, got, values, what):
        self.x.check(len(got) == len(values), 'number of %s is changed' % what)
        return zip(got, values)

    def var_id(self, got, v, what):
        self.text(got.ID, v.vid, what + ' id')
        self.text(got.name, v.name, what + ' name')
        self.text(got.original_name, v.original_name, what + ' original name')
        for g, m in self.size(got.modifiers, v.modifiers, what + ' modifiers'):
            self.text(g, m, what + ' modifier')

    def any(self, got, v, what):
        x = self.x
        kind = got.WhichOneof('value')
        if v is None:
            x.check(kind is None, '%s is changed' % what)
        elif isinstance(v, bool):
            x.check(kind == 'bool_value' and x.eq(got.bool_value, v), '%s is changed' % what)
        elif isinstance(v, int):
            if -2 ** 63 <= v <= 2 ** 63 - 1:
                x.check(x.conj([kind == 'int_value', x.eq(got.int_value, v)]), '%s is changed' % what)
            else:
                x.check(kind == 'string_value' and x.eq(got.string_value, str(v)), '%s is changed' % what)
        elif isinstance(v, float):
            x.check(kind == 'double_value' and (got.double_value == v or v != v), '%s is changed' % what)
        elif isinstance(v, str):
            x.check(kind == 'string_value', '%s has another type' % what)
            self.text(got.string_value, v, what)
        elif isinstance(v, bytes):
            x.check(kind == 'bytes_value' and got.bytes_value == v, '%s is changed' % what)
        elif isinstance(v, (list, tuple)):
            x.check(kind == 'array_value', '%s has another type' % what)
            for g, e in self.size(got.array_value.values, v, what + ' elements'):
                self.any(g, e, what + ' element')
        elif isinstance(v, dict):
            x.check(kind == 'kvlist_value', '%s has another type' % what)
            self.pairs(got.kvlist_value.values, v, what + ' entry')
        else:
            x.check(False, 'unexpected value')

    def pairs(self, got, values, what):
        for g, (k, v) in self.size(got, list(values.items()), what):
            self.text(g.key, k, what + ' key')
            self.any(g.value, v, what + ' value')

    def snapshot(self, m, s):
        x = self.x
        x.check(m.ID == s.id.to_bytes(16, 'big'), 'id is changed')
        self.text(m.tracepoint.ID, s.tracepoint.id, 'tracepoint id')
        self.text(m.tracepoint.path, s.tracepoint.path, 'tracepoint path')
        line = s.tracepoint.line_no
        if 0 <= line < 2 ** 32:
            self.num(m.tracepoint.line_number, line, 'tracepoint line')
        x.check(sorted(m.tracepoint.args) == sorted(s.tracepoint.args), 'tracepoint args are changed')
        for k, v in s.tracepoint.args.items():
            self.text(m.tracepoint.args[k], v, 'tracepoint arg')
        for g, w in self.size(m.tracepoint.watches, s.tracepoint.watches, 'tracepoint watches'):
            self.text(g, w, 'tracepoint watch')
        x.check(sorted(m.var_lookup) == sorted(s.var_lookup), 'the variable table is changed')
        for k, v in s.var_lookup.items():
            g = m.var_lookup[k]
            self.text(g.type, v.type, 'variable type')
            self.text(g.value, v.value, 'variable value')
            self.text(g.hash, v.hash, 'variable hash')
            self.flag(g.truncated, v.truncated, 'variable truncated')
            for gc, c in self.size(g.children, v.children, 'children'):
                self.var_id(gc, c, 'child')
        self.num(m.ts_nanos, s.ts_nanos, 'timestamp')
        self.num(m.duration_nanos, s.duration_nanos, 'duration')
        for g, f in self.size(m.frames, s.frames, 'frames'):
            for name in ('file_name', 'short_path', 'method_name', 'class_name', 'transpiled_file_name'):
                self.text(getattr(g, name), getattr(f, name), 'frame ' + name)
            for name in ('line_number', 'column_number', 'transpiled_line_number', 'transpiled_column_number'):
                self.num(getattr(g, name), getattr(f, name), 'frame ' + name)
            self.flag(g.is_async, f.is_async, 'frame is_async')
            self.flag(g.app_frame, f.app_frame, 'frame app_frame')
            for gv, v in self.size(g.variables, f.variables, 'frame variables'):
                self.var_id(gv, v, 'frame variable')
        for g, w in self.size(m.watches, s.watches, 'watches'):
            self.text(g.expression, w.expression, 'watch expression')
            x.check(SOURCES[g.source] == w.source, 'watch source is changed')
            kind = g.WhichOneof('result')
            if w.error is not None:
                x.check(kind == 'error_result', 'watch error is lost')
                self.text(g.error_result, w.error, 'watch error')
            else:
                x.check(kind == 'good_result', 'watch result is lost')
                self.var_id(g.good_result, w.result, 'watch result')
        self.pairs(m.attributes, dict(s.attributes.items()), 'attribute')
        self.pairs(m.resource, dict(s.resource.attributes.items()), 'resource')
        if s.log_msg is None:
            x.check(not m.HasField('log_msg'), 'there is no log message')
        else:
            x.check(m.HasField('log_msg'), 'log message is lost')
            self.text(m.log_msg, s.log_msg, 'log message')


def converted(x, snapshot):
    out = None
    with x.no_raise('convert snapshot'):
        out = convert_snapshot(snapshot)
    x.check(out is not None, 'the snapshot is not sent')
    if out is not None and not x.symbolic:
        out = Snapshot.FromString(out.SerializeToString())
    return out


class Draft:
    """A snapshot with all of the fields; each text is named."""

    def __init__(self, texts=None, numbers=None, absent=()):
        self.texts, self.numbers, self.absent, self.names = texts or {}, numbers or {}, absent, []

    def t(self, name, can_be_absent=False):
        self.names.append(name)
        if name in self.absent and can_be_absent:
            return None
        return self.texts.get(name, 'text of ' + name)

    def n(self, name, default):
        return self.numbers.get(name, default)

    def var(self, name, vid):
        return VariableId(vid, self.t(name + '.name'), [self.t(name + '.modifier'), 'second'],
                          self.t(name + '.original', True))

    def build(self):
        t, n = self.t, self.n
        tracepoint = TracePointConfig(t('tp.id'), t('tp.path'), n('tp.line', 12), {'arg': t('tp.arg'), 'b': 'c'},
                                      [t('tp.watch'), 'second'], [])
        frames = [StackFrame(t('file'), t('short'), t('method'), n('line', 1), [self.var('local', '1'), self.var('local2', '2')],
                             t('class', True), n('async', False), n('column', 2), t('transpiled', True), n('t.line', 3),
                             n('t.column', 4), n('app', True)),
                  StackFrame('f2', 's2', 'm2', n('line2', 5), [], None, app_frame=n('app2', False))]
        lookup = {'1': Variable(t('type'), t('value'), t('hash'), [self.var('child', '2'), self.var('child2', '1')], n('cut', True)),
                  '2': Variable(t('type2'), t('value2'), t('hash2'), [], n('cut2', False))}
        s = EventSnapshot(tracepoint, n('ts', 10 ** 18), Resource({'service.name': t('resource'), 'n': n('resource.n', 3)}), frames, lookup)
        s.add_watch_result(WatchResult('WATCH', t('expression'), self.var('result', '2')))
        s.add_watch_result(WatchResult('LOG', t('expression2'), None, t('error')))
        s.add_watch_result(WatchResult('CAPTURE', 'return', self.var('captured', '1')))
        s.add_watch_result(WatchResult('METRIC', 'm', None, 'e'))
        s.attributes['text'] = t('attribute')
        s.attributes['number'] = n('attribute.n', 5)
        s.attributes['flag'] = n('attribute.b', True)
        s.log_msg = t('log', True)
        return s


def names():
    d = Draft()
    d.build()
    return d.names


NAMES = names()


def texts(x):
    """Any text in any field."""
    size = 6 if x.tier == 'thorough' else 3
    name = x.pick('field', NAMES)
    s = Draft({name: x.str('text', size)}).build()
    m = converted(x, s)
    if m is not None:
        Reader(x).snapshot(m, s)
    x.reached('end')


def empty(x):
    """Fields that are empty or unset."""
    first, second = x.pick('first', NAMES), x.pick('second', ['file', 'log', 'error', 'value', 'class'])
    s = Draft({first: '', second: ''}, absent=(first, 'transpiled') if x.flag('absent') else ()).build()
    m = converted(x, s)
    if m is not None:
        Reader(x).snapshot(m, s)
    x.reached('end')


UINT = 2 ** 32 - 1


def numbers(x):
    """Any numbers and flags, all at once."""
    i, b = x.int, x.bool
    values = {'tp.line': i('tp.line', 0, UINT), 'line': i('line', 0, UINT), 'column': i('column', 0, UINT),
              't.line': i('t.line', 0, UINT), 't.column': i('t.column', 0, UINT), 'line2': i('line2', 0, UINT),
              'ts': i('ts', 0, 2 ** 63), 'async': b('async'), 'app': b('app'), 'app2': b('app2'), 'cut': b('cut'), 'cut2': b('cut2'),
              'resource.n': i('resource.n', -2 ** 63, 2 ** 63 - 1), 'attribute.n': i('attribute.n', -2 ** 63, 2 ** 63 - 1),
              'attribute.b': b('attribute.b')}
    s = Draft(numbers=values).build()
    took = i('duration', 0, 2 ** 62)
    x.assume(values['ts'] < 2 ** 62)
    from vx import clock
    clock.override = lambda: values['ts'] + took
    x.defer(lambda: setattr(clock, 'override', None))
    s.complete()
    x.check(x.eq(s.duration_nanos, took), 'duration of the snapshot')
    m = converted(x, s)
    if m is not None:
        Reader(x).snapshot(m, s)
    x.reached('end')


def other_numbers(x):
    """Numbers that are out of the range of the message."""
    line, big = x.int('line', -5, 2 ** 33), x.int('big', -2 ** 65, 2 ** 65)
    x.assume(x.disj([big == v for v in (2 ** 63, 2 ** 63 - 1, -2 ** 63, -2 ** 63 - 1, 2 ** 65, 0)]))
    s = Draft(numbers={'tp.line': line, 'attribute.n': int(big), 'resource.n': int(big)}).build()
    m = converted(x, s)
    if m is not None:
        Reader(x).snapshot(m, s)
    x.reached('end')


VALUES = [True, False, 0, -1, 2 ** 63, 1.5, -0.0, float('inf'), 'text', '', '\ud800', b'', b'\xff\x00', None,
          ('a', 'b'), (1, None, 2), (True, False), (), ('x\udfff',), (1.5,)]


def attributes(x):
    """Attributes of the snapshot and the resource of every type, in stores with and without a limit."""
    s = Draft().build()
    number = x.int('number', -2 ** 63, 2 ** 63 - 1)
    picks = [x.pick('value%d' % i, VALUES) for i in range(2)]
    s.attributes['n'] = number
    for i, v in enumerate(picks):
        s.attributes['key%d' % i] = v
    s.attributes.merge_in(BoundedAttributes(attributes={'\ud801k': 'v', 'text': 'replaced'}, immutable=False))
    m = converted(x, s)
    if m is not None:
        Reader(x).snapshot(m, s)
    x.reached('end')


def shapes(x):
    """Snapshots of any size: no frames, no variables, many children and watches."""
    wide = x.tier == 'thorough'
    t = Draft().build()
    n = [x.index(k, m) for k, m in (('frames', 3), ('variables', 3), ('children', 4 if wide else 3), ('lookup', 4 if wide else 3))]
    lookup = {str(i): Variable('T%d' % i, 'V%d' % i, 'H%d' % i, [VariableId(str(k), 'c%d.%d' % (i, k)) for k in range(n[2])], i % 2 == 0)
              for i in range(n[3])}
    frames = [StackFrame('f%d' % i, 's%d' % i, 'm%d' % i, i, [VariableId(str(k), 'v%d.%d' % (i, k)) for k in range(n[1])],
                         'C' if i else None) for i in range(n[0])]
    s = EventSnapshot(t.tracepoint, 5, Resource({}), frames, lookup)
    for i in range(x.index('watches', 3)):
        first = x.index('source', 4) if i == 0 else first
        source = SOURCES[(first + i) % 4]
        if x.flag('error%d' % i):
            s.add_watch_result(WatchResult(source, 'w%d' % i, None, x.pick('text%d' % i, ['', 'bad \udc80'])))
        else:
            s.add_watch_result(WatchResult(source, 'w%d' % i, VariableId('1', 'w%d' % i, ['m'] * i, 'o' if i else None)))
    m = converted(x, s)
    if m is not None:
        Reader(x).snapshot(m, s)
    x.reached('end')


class Large(Reader):
    """Only the numbers that are symbolic are separate checks."""

    def __init__(self, together, x):
        super().__init__(together)
        self.other = x

    def num(self, got, value, what):
        if what in ('tracepoint line', 'timestamp'):
            self.other.check(self.other.eq(got, value), '%s is changed' % what)
        else:
            super().num(got, value, what)


LARGE = ['frames', 'variables', 'children', 'table', 'watches', 'log', 'value', 'name', 'args', 'attributes', 'resource', 'elements',
         'modifiers']


def large(x):
    """Snapshots of which one part is large."""
    what = x.pick('part', LARGE)
    n = x.pick('size', [33, 129, 1500] + ([600, 5000] if x.tier == 'thorough' else []))
    if what in ('log', 'value', 'name'):
        n *= 120
    d = Draft().build()
    lookup = {'1': Variable('T', 'V', 'H', [], False)}
    frames, args, resource = [StackFrame('f', 's', 'm', 1, [VariableId('1', 'v')], 'C')], {'a': 'b'}, {'service.name': 'r'}
    watches, attributes, log = [], {}, None
    if what == 'frames':
        frames = [StackFrame('f%d' % i, 's', 'm', i, [VariableId('1', 'v%d' % i)] if i % 3 == 0 else [], None) for i in range(n)]
    elif what == 'variables':
        frames = [StackFrame('f', 's', 'm', 1, [VariableId('1', 'v%d' % i) for i in range(n)], 'C')]
    elif what == 'children':
        lookup['1'] = Variable('T', 'V', 'H', [VariableId('1', 'c%d' % i) for i in range(n)], False)
    elif what == 'table':
        lookup = {str(i): Variable('T%d' % i, 'V%d' % i, str(i), [VariableId(str(i + 1), 'next')] if i + 1 < n else [], False)
                  for i in range(n)}
    elif what == 'watches':
        watches = [WatchResult(SOURCES[i % 4], 'w%d' % i, VariableId('1', 'w')) if i % 2 else
                   WatchResult(SOURCES[i % 4], 'w%d' % i, None, 'e%d' % i) for i in range(n)]
    elif what == 'log':
        log = 'l' * (n - 1) + 'm'
    elif what == 'value':
        lookup['1'] = Variable('T' * n, 'V' * n, 'H', [], False)
    elif what == 'name':
        frames = [StackFrame('/f' * n, 's' * n, 'm' * n, 1, [VariableId('1', 'v' * n, [], 'o' * n)], 'C' * n)]
        watches = [WatchResult('WATCH', 'w' * n, None, 'e' * n)]
    elif what == 'args':
        args = {'k%d' % i: 'v%d' % i for i in range(n)}
        args['text'] = 'v' * n
    elif what == 'attributes':
        attributes = {'k%d' % i: i for i in range(n)}
        attributes['text'] = 'v' * n
    elif what == 'resource':
        resource = {'k%d' % i: 'v%d' % i for i in range(n)}
    elif what == 'elements':
        attributes = {'k': tuple(range(n)), 't': tuple('e%d' % i for i in range(n))}
    else:
        frames[0].variables[0].modifiers.extend('m%d' % i for i in range(n))
    tracepoint = TracePointConfig('id', 'path' * (n if what == 'name' else 1), x.int('line', 0, UINT), args, ['w'] * (n if what == 'args' else 1), [])
    s = EventSnapshot(tracepoint, x.int('ts', 0, 2 ** 62), Resource(resource), frames, lookup)
    for w in watches:
        s.add_watch_result(w)
    for k, v in attributes.items():
        s.attributes[k] = v
    s.log_msg = log
    m = converted(x, s)
    if m is not None:
        together = Together()
        Large(together, x).snapshot(m, s)
        x.check(not together.bad, 'the snapshot is changed: %s' % together.bad[:1])
    x.reached('end')


PROGRAM = '''\
class Thing:
    def __init__(self, value):
        self.value = value
        self.__private = 1
        self._prot = self

    def __str__(self):
        return 'thing \\ud800 ' + str(self.value)


def use(thing, text, items):
    local = {text: items, 'x': (1, 2.5, None, True)}
    items.append(local)
    return thing  # T


def run(text, value):
    return use(Thing(value), text, [text, text * 3])
'''
MODULE = load(PROGRAM, '/app/collected.py')
ARGS = {'fire_count': '-1', 'fire_period': '0', 'log_msg': 'at {text} {missing} {value!r}', 'frame_type': 'all_frame'}


def twins(x):
    """Entries that are equal to others, or not, in any of their fields: each of them is sent."""
    text = [x.str('text%d' % i, 1, 'ab') for i in range(2)]
    vid = [x.pick('vid%d' % i, ['1', '2']) for i in range(2)]
    line = [x.int('line%d' % i, 0, 5) for i in range(2)]
    error = x.pick('error', [None, 'first', 'both'])
    what = x.pick('what', ['watches', 'frames', 'variables', 'children', 'tracepoint', 'table'])

    def var(i):
        return VariableId(vid[i], text[i], [])
    t = Draft().build()
    lookup = {'1': Variable('T', 'V', 'H', [], False), '2': Variable('T', 'V', 'H', [], False)}
    frames = [StackFrame('f', 's', 'm', 1, [], 'C')]
    if what == 'frames':
        frames = [StackFrame('f', 's', text[i], line[i], [var(0)] if error else [], 'C') for i in range(2)] * 2
    elif what == 'variables':
        frames = [StackFrame('f', 's', 'm', 1, [var(0), var(1), var(0)], 'C')]
    elif what == 'children':
        lookup['1'] = Variable('T', 'V', 'H', [var(0), var(1), var(0)], True)
    elif what == 'table':
        lookup['1'] = Variable(text[0], 'V', 'H', [var(0)], False)
        lookup['2'] = Variable('T', text[1], 'H', [var(1)], True)
    tracepoint = TracePointConfig('id', 'path', 5, {'a': text[0], 'b': text[1]}, [text[0], text[1], text[0]], []) if what == 'tracepoint' \
        else t.tracepoint
    s = EventSnapshot(tracepoint, 5, Resource({}), frames, lookup)
    if what == 'watches':
        source = [x.pick('source%d' % i, SOURCES) for i in range(2)]
        for i in (0, 1, 0):
            bad = error == 'both' or error == 'first' and not i
            s.add_watch_result(WatchResult(source[i], text[i], None if bad else var(i),
                                           text[i] if bad else None))
    m = converted(x, s)
    if m is not None:
        Reader(x).snapshot(m, s)
    x.reached('end')


def collected(x):
    """What is collected at a tracepoint is what is received."""
    text = x.pick('text', ['plain', '', 'ünï', '\ud83d', '\U0001f600', 'a' * 2000, '\x00', '{}'])
    value = x.pick('value', [1, 'v', [], {'k': 2 ** 70}, b'\xff', object, None, '\udcff'])
    channel = Channel(x)
    agent = Agent(x, channel=channel)
    agent.deep.push.task_handler = Inline()
    seen = []
    push = agent.deep.push.push_snapshot

    def push_snapshot(snapshot):
        seen.append(snapshot)
        push(snapshot)
    x.patch(agent.deep.push, 'push_snapshot', push_snapshot)
    args = dict(ARGS, **x.pick('args', [{}, {'stage': 'line_capture'}, {'stage': 'method_capture', 'method_name': 'use'}]))
    agent.handler.new_config([tp('tp-\ud900', 'collected.py', line_of(PROGRAM, '# T'), args,
                                 ['thing', 'text', 'missing', 'items[0]', 'thing.value'])])
    with traced(agent.handler):
        MODULE.run(text, value)
    x.check(len(seen) == 1, 'one snapshot')
    x.check(len(channel.snapshots) == 1, 'the snapshot is received')
    together = Together()
    for s, m in zip(seen, channel.snapshots):
        Reader(together).snapshot(m, s)
    x.check(not together.bad, 'the snapshot is changed: %s' % together.bad[:1])
    x.reached('end')


class Tokens(AuthProvider):
    """A provider of the application."""

    def provide(self):
        return list(Tokens.value)


class Flaky(AuthProvider):
    """A provider that fails at first."""
    left = 0

    def provide(self):
        if Flaky.left > 0:
            Flaky.left -= 1
            raise ConnectionError('cannot get the token')
        return [('token', 'late')]


def auth(x):
    """Each request has the metadata of the provider."""
    kind = x.pick('provider', [None, '', 'basic', 'tokens', 'flaky'])
    settings, expected = {}, []
    if kind == 'basic':
        user, password = x.pick('user', [None, '', 'bob', 'b:ob', 'bö']), x.pick('password', [None, '', 'secret', ':', 'pä ss'])
        settings = {'SERVICE_USERNAME': user, 'SERVICE_PASSWORD': password, 'SERVICE_AUTH_PROVIDER': 'deep.api.auth.BasicAuthProvider'}
        if user is not None and password is not None:
            text = base64.b64encode((user + ':' + password).encode('utf-8')).decode('ascii')
            expected = [('authorization', 'Basic%20' + text)]
    elif kind == 'tokens':
        Tokens.value = expected = x.pick('tokens', [[], [('a', 'b')], [('token', 'x'), ('second', 'y')]])
        settings = {'SERVICE_AUTH_PROVIDER': __name__ + '.Tokens'}
    elif kind == 'flaky':
        Flaky.left, expected = x.index('failures', 3), [('token', 'late')]
        settings = {'SERVICE_AUTH_PROVIDER': __name__ + '.Flaky'}
    elif kind is not None:
        settings = {'SERVICE_AUTH_PROVIDER': kind}
    channel = Channel(x)
    agent = Agent(x, config=settings, channel=channel)
    agent.deep.push.task_handler = Inline()
    sent = 0
    for i in range(4):
        left = Flaky.left if kind == 'flaky' else 0
        polls = x.flag('poll%d' % i)
        if polls:
            try:
                agent.deep.poll.poll()
            except Exception:
                x.check(left > 0, 'the poll fails')
        else:
            with x.no_raise('push'):
                agent.deep.push.push_snapshot(Draft().build())
        if left == 0:
            sent += 1
    x.check(len(channel.metadata) == sent, 'each request is sent')
    for m in channel.metadata:
        x.check([tuple(e) for e in (m or [])] == expected, 'the request has the metadata of the provider')
    x.reached('end')


HARNESSES = [
    H(texts, 'any text of 3 (thorough 6) code points (0..0x10ffff) in any one of %d text fields' % len(NAMES), weight=2),
    H(empty, 'any field empty or unset together with one of 5 others'),
    H(numbers, 'all numbers and flags at once: lines and columns 0..2**32-1, times 0..2**62, attributes 64 bit'),
    H(other_numbers, 'tracepoint lines -5..2**33, attributes at the limits of 64 bit and beyond'),
    H(attributes, '2 attributes of any of %d values, any 64 bit number' % len(VALUES)),
    H(shapes, '0..2 frames with 0..2 variables, 0..2 (thorough 3) variables with 0..2 (3) children, 0..2 watches of any source with '
              'a result or an error'),
    H(twins, '2 entries of any list of the message that are equal in any of their fields, or not; one of them repeated'),
    H(large, 'one of %d parts of the snapshot has 33, 129 or 1500 (thorough also 600, 5000) entries, or 120 times that many characters; '
             'any line and time' % len(LARGE)),
    H(collected, '8 texts and 8 values, collected by a tracepoint at a line or with a capture, all frames, 5 watches, log message'),
    H(auth, '5 providers (5 x 5 users and passwords, 3 token lists, 0..2 failures), every sequence of 4 polls and snapshots'),
]
