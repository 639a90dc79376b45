"""Log tracepoints: the rendering of the message is executed over templates whose text is symbolic.

A template is a sequence of parts (text of any characters, escaped braces, fields); the message has to be the sequence of
what they stand for, where a field is the text of the expression that is evaluated in the scope of the frame.
"""
import deep.logging
from deep.api.plugin.python import PythonPlugin
from harness.common import Frame, Logger, Metrics, Recorder, Rig, Spans, line_of, load, tp, traced
from vx.spec import H

TECHNIQUE = 'symbolic execution of the real source with z3 (path exploration, solver-decided branches, replayed models)'
STUBS = 'paused frames (in place: real frames), delivery and plugins record, clock'
OUTSIDE = 'conversions and format specifications other than those listed; how containers, very long text and text of syntax errors is shown; empty messages'

MANY = {'fire_count': '-1', 'fire_period': '0'}


class Thing:
    """A value of the application."""

    def __init__(self):
        self.name = 'its name'
        self.calls = 0

    def __str__(self):
        return 'a thing'

    def fail(self):
        raise ValueError('failed on purpose')

    def count(self):
        self.calls += 1
        return self.calls


FIELDS = ['n', 'n + 1', ' s ', 'missing', '"}"', "'{'", "'a:b!c'", " {'k': 7}['k']", '[1, 2][1]', 'n != 5', "d['k']", 'd["k"] if n else 0',
          'f', 'none', 'flag', 'obj', 'obj.name', '(lambda v: v + 1)(4)', "'%s' % 5", 'GLOBAL', '1/0', 'd["nokey"]', 'obj.fail()',
          "f'{5}'", '[x for x in (1, 2)][0]', 'max(4, 2)', 's[0:1]', "t[:1]", 'shadow', 'len(t)', '(n, s)[0]', "'\\\\'", '"\'"', 'obj.count()',
          'min', 'not flag', "'a\\'}'", '"\\"}"', "d['\\x6b']", "'\\\\'", "'\\'{' + t", "r'\\d}'", "'''a'}'''", ' {"a": {"b": 8}}["a"]["b"]', '-n', 'n if n > 5 else s', '{1: 2}.get(1)'[0:0] or 'dict(a=1)["a"]', '"""q"""']
TEXT = [(0, 0x7a), (0x7c, 0x7c), (0x7e, 0x10ffff)]


def scope(x):
    n = x.int('n', 100, 999)
    s = x.str('s', 2)
    f_locals = {'n': n, 's': s, 't': 'text', 'd': {'k': 5}, 'f': 1.5, 'none': None, 'flag': True, 'obj': Thing(), 'shadow': 'local'}
    f_globals = {'__name__': 'app', '__builtins__': __builtins__, 'GLOBAL': 'of the module', 'shadow': 'global'}
    return f_locals, f_globals


def text_of(expression, f_locals, f_globals):
    """The text of the field, and of its error."""
    try:
        return str(eval(expression.strip(), dict(f_globals, **f_locals))), None
    except Exception as e:
        return str(e), str(e)


def template(x, size, f_locals, f_globals):
    """A template with the text that it stands for, and its fields."""
    text, expected, fields = '', '[deep] ', []
    exotic = False
    for i in range(size):
        kind = x.pick('part%d' % i, ['text', '{{', '}}', 'field', 'same'])
        if kind == 'text':
            c = x.str('text%d' % i, 1, ranges=TEXT)
            text, expected = text + c, expected + c
        elif kind in ('{{', '}}'):
            text, expected = text + kind, expected + kind[0]
        else:
            if kind == 'same':
                e = 'obj.count()'
            elif exotic:
                e = 's'
            else:
                e, exotic = x.pick('field', FIELDS), True
            t, error = text_of(e, f_locals, f_globals)
            text, expected = text + '{' + e + '}', expected + t
            fields.append((e, error))
    # what is evaluated here is not of the agent
    f_locals['obj'].calls = 0
    return text, expected, fields


def message(x):
    """The message of any template."""
    f_locals, f_globals = scope(x)
    text, expected, fields = template(x, 4 if x.tier == 'thorough' else 3, f_locals, f_globals)
    collect = x.flag('collect')
    rig = Rig(x)
    args = dict(MANY, log_msg=text)
    if not collect:
        args['snapshot'] = 'no_collect'
    rig.install(tp('tp-1', 'app.py', 10, args, []))
    names = sorted(f_locals)
    with x.no_raise('trace'):
        rig.fire(Frame('/app/app.py', 'f', 10, f_locals, f_globals))
    x.check(len(rig.rec.logs) == 1, 'one message')
    for msg, tp_id, ctx in rig.rec.logs:
        x.check(x.eq(msg, expected), 'the message is the template with the values')
        x.check(tp_id == 'tp-1' and ctx and ctx != tp_id, 'the ids of the message')
    x.check(sorted(f_locals) == names, 'the frame is changed')
    x.check(len(rig.rec.snapshots) == (1 if collect else 0), 'snapshots')
    for s in rig.rec.snapshots:
        x.check(x.eq(s.log_msg, expected), 'the message is recorded on the snapshot')
        x.check([w.source for w in s.watches] == ['LOG'] * len(fields), 'one watch result for each field')
        for w, (e, error) in zip(s.watches, fields):
            x.check(w.expression.strip() == e.strip(), 'the expression of the watch result')
            x.check((w.error is None) == (error is None) and (w.result is None) == (error is not None), 'error of the watch result')
            if error is not None:
                x.check(w.error == error, 'the error text of the watch result')
            elif w.result is not None:
                x.check(w.result.vid in s.var_lookup, 'the watch result is in the table')
        for m, i, ctx in rig.rec.logs:
            x.check(s.attributes['context'] == ctx and s.attributes['tracepoint'] == i, 'the ids of the message are those of the snapshot')
    x.reached('end')


FORMATS = [('!s', str), ('!r', repr), ('!a', ascii), (':>9', lambda t: t.rjust(9)), (':<9', lambda t: t.ljust(9)), (':*^9', lambda t: format(t, '*^9')),
           (':.3', lambda t: t[:3]), ('!r:>9', lambda t: repr(t).rjust(9)), (':', lambda t: t), (':>{w}', lambda t: t.rjust(7)), (':s', str)]
FORMATTED = [('t', 'text'), ('obj.name', 'its name'), (" {'a:b': 'k!r'}['a:b']", 'k!r'), ('d["k"]', '5'), ("t if t != 'x' else 0", 'text'), ('t[0:2]', 'te'),
             ("'}'", '}'), ('(lambda v: "é")(1)', 'é'), ('none', 'None')]


def formats(x):
    """Fields with a conversion, or a format, of the text."""
    f_locals, f_globals = scope(x)
    f_locals['w'] = 7
    spec, render = x.pick('format', FORMATS)
    e, value = x.pick('field', FORMATTED)
    a, b = x.str('before', 1, ranges=TEXT), x.str('after', 1, ranges=TEXT)
    rig = Rig(x)
    rig.install(tp('tp-1', 'app.py', 10, dict(MANY, log_msg=a + '{' + e + spec + '}{{' + b + '{n}'), []))
    with x.no_raise('trace'):
        rig.fire(Frame('/app/app.py', 'f', 10, f_locals, f_globals))
    expected = '[deep] ' + a + render(value) + '{' + b + str(f_locals['n'])
    x.check(len(rig.rec.logs) == 1, 'one message')
    for msg, _, _ in rig.rec.logs:
        x.check(x.eq(msg, expected), 'the field is formatted')
    for s in rig.rec.snapshots:
        watches = [w.expression.strip() for w in s.watches]
        x.check(x.eq(s.log_msg, expected), 'the message is recorded on the snapshot')
        x.check(watches[:1] == [e.strip()] and watches[-1] == 'n', 'the watch results are the fields')
    x.reached('end')


BROKEN = ['t[', '(n', '"t', "t'", 'n]', ')n', 'n +', '', ' ', 'n n', '$', 'n=1', 'lambda', 't[(0]', 'n!=', "d['k]", '1..', 'yield', 'n; n', 'import os', '\\n']


def broken(x):
    """Fields that are not expressions, with other parts around them."""
    f_locals, f_globals = scope(x)
    e = x.pick('field', BROKEN)
    a, b = x.str('before', 1, ranges=TEXT), x.str('after', 1, ranges=[(0x23, 0x26), (0x2a, 0x39), (0x3f, 0x5a), (0x61, 0x7a), (0x100, 0x10ffff)])
    text, start = a + '{' + e + '}' + b, '[deep] ' + a
    end = b
    if x.flag('field after'):
        text, end = text + ' {n}', end + ' ' + str(f_locals['n'])
    collect = x.flag('collect')
    rig = Rig(x)
    rig.install(tp('tp-1', 'app.py', 10, dict(MANY, log_msg=text, **({} if collect else {'snapshot': 'no_collect'})), []))
    with x.no_raise('trace'):
        rig.fire(Frame('/app/app.py', 'f', 10, f_locals, f_globals))
    x.check(len(rig.rec.logs) == 1, 'one message')
    for msg, _, _ in rig.rec.logs:
        x.check(x.eq(msg[:len(start)], start), 'the text before the field')
        x.check(x.eq(msg[len(msg) - len(end):], end), 'the rest of the message')
        x.check(len(msg) >= len(start) + len(end), 'the parts of the message')
    for s in rig.rec.snapshots:
        x.check(x.eq(s.log_msg, rig.rec.logs[0][0]), 'the message is recorded on the snapshot')
        bad = [w for w in s.watches if w.expression.strip() != 'n']
        x.check(len(bad) <= 1 and all(w.error and w.result is None for w in bad), 'the watch result has the error')
        x.check([w.expression.strip() for w in s.watches][len(bad):] == ['n'] * (len(s.watches) - len(bad)), 'the watch results are the fields')
    x.reached('end')


def any_text(x):
    """Templates of any characters: there is always a message."""
    size = 6 if x.tier == 'thorough' else 5
    text = ''.join(x.pick('c%d' % i, '{}n "'[:4 if i else 5]) for i in range(size))
    f_locals, f_globals = scope(x)
    rig = Rig(x)
    rig.install(tp('tp-1', 'app.py', 10, dict(MANY, log_msg=text, snapshot='no_collect')),
                tp('tp-2', 'app.py', 10, dict(MANY, log_msg='other {n}', snapshot='no_collect')))
    with x.no_raise('trace'):
        rig.fire(Frame('/app/app.py', 'f', 10, f_locals, f_globals))
    logs = {i: m for m, i, _ in rig.rec.logs}
    x.check(len(rig.rec.logs) == 2 and sorted(logs) == ['tp-1', 'tp-2'], 'one message for each tracepoint')
    x.check(x.eq(logs.get('tp-2'), '[deep] other ' + str(f_locals['n'])), 'the other message')
    if 'tp-1' in logs:
        x.check(logs['tp-1'].startswith('[deep] '), 'the prefix')
        if '{' not in text and '}' not in text:
            x.check(logs['tp-1'] == '[deep] ' + text, 'text without fields')
    x.reached('end')


KINDS = [{}, {'snapshot': 'no_collect'}, {'stage': 'line_capture'}, {'method_name': 'f'}, {'method_name': 'f', 'snapshot': 'no_collect'},
         {'method_name': 'f', 'stage': 'method_capture'}, {'span': 'line'}, {'frame_type': 'no_frame'}]


SHORT, LONG = 10 ** 7, 10 ** 10
GAPS = [(SHORT, a, b) for a, b in ((SHORT, SHORT), (LONG, SHORT), (SHORT, LONG), (LONG, LONG))] + [(LONG, SHORT, LONG)]


def hits(x):
    """Several tracepoints with limits and conditions, hit several times."""
    count, period = x.int('fire_count', 1, 3), x.pick('period', [0, 1000])
    chosen = x.combine({'kind0': KINDS, 'kind1': KINDS}, None if x.tier == 'thorough' else 1)
    kinds = [chosen['kind0'], chosen['kind1']]
    condition = x.pick('condition', ['', 'n > 500', 'missing'])
    rig = Rig(x)
    args = [dict(kinds[0], fire_count=count, fire_period=str(period), log_msg='first {n} {missing}'),
            dict(MANY, **dict(kinds[1], log_msg='second {n}', condition=condition))]
    rig.install(*[tp('tp-%d' % i, 'app.py', 10, a) for i, a in enumerate(args)])
    last, used, ts = None, 0, 10 ** 15
    gaps = x.pick('gaps', GAPS if x.tier == 'thorough' else GAPS[:4])
    for i in range(3):
        n = x.int('n%d' % i, 100, 999)
        ts += gaps[i]
        rig.at(ts)
        logs = rig.rec.logs = []
        frame = Frame('/app/app.py', 'f', 10, {'n': n})
        with x.no_raise('trace'):
            rig.fire(frame, 'call')
            rig.fire(frame, 'line')
            rig.fire(frame, 'return')
        expected = []
        if x.conj([used < count, True]) and (last is None or ts - last >= period * 10 ** 6):
            expected.append('tp-0')
            used, last = used + 1, ts
        if condition == '' or condition == 'n > 500' and n > 500:
            expected.append('tp-1')
        x.check(sorted(i for _, i, _ in logs) == expected, 'one message for each hit that is permitted')
        for msg, tp_id, _ in logs:
            want = '[deep] first ' + str(n) + " name 'missing' is not defined" if tp_id == 'tp-0' else '[deep] second ' + str(n)
            x.check(x.eq(msg, want), 'the message')
    x.check(len({c for _, _, c in logs}) <= 2, 'the ids of the contexts')
    x.reached('end')


class Second(Logger):
    """Another logger."""


def loggers(x):
    """The logger that is used, and the one of the agent."""
    order = x.pick('order', [('first', 'second'), ('python',), ('metrics', 'first'), (), ('python', 'first')])
    rig, rec2, lines = Rig(x, plugins=[]), Recorder(), []
    text = x.str('text', 2, ranges=TEXT)
    made = {'first': rig.plugin(Logger), 'second': rig.plugin(Second, rec=rec2), 'python': PythonPlugin(config=None),
            'metrics': rig.plugin(Metrics)}
    rig.config.plugins = [made[o] for o in order]
    x.patch(deep.logging, 'info', lambda msg, *args, **k: lines.append(msg % args if args else msg))
    collect = x.flag('collect')
    rig.install(tp('tp-%s', 'app.py', 10, dict(MANY, log_msg=text + ' {n}%', **({} if collect else {'snapshot': 'no_collect'}))))
    with x.no_raise('trace'):
        rig.fire(Frame('/app/app.py', 'f', 10, {'n': 5}))
    x.check(len(rig.rec.snapshots) == (1 if collect else 0), 'snapshots')
    lines = [m for m in lines if 'tp-%s' in m]
    first = [o for o in order if o != 'metrics'][:1]
    x.check(len(rig.rec.logs) == (first == ['first']) and not rec2.logs and len(lines) == (first == ['python']), 'the logger that is configured')
    expected = '[deep] ' + text + ' 5%'
    for msg, tp_id, ctx in rig.rec.logs:
        x.check(x.eq(msg, expected) and tp_id == 'tp-%s', 'the message')
    for line in lines:
        x.check(line.startswith(expected), 'the message')
        rest = line[len(expected):]
        ctx = rig.rec.snapshots[0].attributes['context'] if collect else None
        x.check('tracepoint=tp-%s' in rest and ('ctx=' + (ctx or '')) in rest and 'ctx=tp-%s' not in rest, 'the ids are in their places')
    x.reached('end')


PROGRAM = '''\
import math
base = 10


def outer(n):
    base = 20
    def inner(k):
        value = k + base  # A
        return value  # B
    return inner(n) + math.floor(1.5)


class Account:
    kind = 'current'

    def __init__(self, n):
        self.__balance = n

    def show(self, *items, **named):
        total = sum(items)
        return total  # C


def recurse(n):
    text = 'level %d' % n
    if n:
        recurse(n - 1)
    return text  # D
'''
MODULE = load(PROGRAM, '/app/logs.py')
PLACES = [('# A', '{k} {base} {math.pi:.2}'[:10], lambda n: ['%d 20' % n]),
          ('# B', '{value} {k} {sum(v for v in [k, base])}', lambda n: ['%d %d %d' % (n + 20, n, n + 20)]),
          ('# C', '{total} {items[0]} {named["a"]} {self.kind} {base} {value}',
           lambda n: ["%d %d %d current 10 name 'value' is not defined" % (n + 2, n, n)]),
          ('# D', '{text}{{{n}}}', lambda n: ['level %d{%d}' % (i, i) for i in range(4)])]


def in_place(x):
    """Messages at the lines of a program that runs."""
    mark, text, expected = x.pick('place', PLACES)
    collect = x.flag('collect')
    n = x.index('n', 3)
    rig = Rig(x)
    rig.install(tp('t', 'logs.py', line_of(PROGRAM, mark), dict(MANY, log_msg=text, **({} if collect else {'snapshot': 'no_collect'}))))
    with traced(rig.handler):
        r = [MODULE.outer(n), MODULE.Account(n).show(n, 2, a=n), MODULE.recurse(3)]
    x.check(r == [n + 21, n + 2, 'level 3'], 'the program is changed')
    x.check([m for m, _, _ in rig.rec.logs] == ['[deep] ' + e for e in expected(n)], 'the messages of the program')
    x.reached('end')


HARNESSES = [
    H(message, 'templates of 3 (thorough 4) parts: any character that is not a brace, escaped braces, fields (1 of %d and others), '
               'any number 100..999 and text of 2 in the frame, with and without collecting' % len(FIELDS), weight=3),
    H(formats, '%d conversions and formats of %d expressions, any characters next to them' % (len(FORMATS), len(FORMATTED))),
    H(broken, '%d fields that are not expressions, any characters next to them, a field after them' % len(BROKEN)),
    H(any_text, 'any template of 5 (thorough 6) of { } n space quote, with another tracepoint'),
    H(hits, '2 tracepoints of 8 kinds (quick: one of them of the first kind), fire count 1..3, 2 periods, 3 conditions, 3 hits with any number and 4 (thorough 5) sequences of short and long gaps', weight=2),
    H(loggers, '5 lists of plugins, any text of 2'),
    H(in_place, '4 places of a program, 3 arguments'),
]
