"""Conditions and expressions: the whole trace_call path is executed symbolically, over symbolic frames.

The names of the frame (locals and globals) have symbolic values, so the truth of a condition, the text of a watch and the
value of a metric are symbolic; which hits collect, what is used of the fire budget and what each expression gives is
asserted against a reference.
"""
import sys

from deep.api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition
from harness.common import Frame, Rig, line_of, load, tp, traced
from harness.c04 import KINDS, args_of, collected
from vx.sched import Sched
from vx.spec import H

TECHNIQUE = 'symbolic execution of the real source with z3 (path exploration, solver-decided branches, replayed models)'
STUBS = 'clock, paused frames (except the program harness), snapshot delivery and plugins record'
OUTSIDE = 'expressions other than those listed'

MS = 1000000


class BadText(Exception):
    def __str__(self):
        raise ValueError('no text')


def fail(kind):
    if kind == 0:
        raise SystemExit(3)
    if kind == 1:
        raise BadText()
    if kind == 2:
        raise KeyboardInterrupt()
    if kind == 3:
        raise GeneratorExit()
    raise LookupError('failed %s' % kind)


# condition, and when it is true: for due (bool), n (int), limit (global int), items (list of n's)
CONDITIONS = [
    ('due', lambda x, v: v['due']),
    ('not due', lambda x, v: x.neg(v['due'])),
    ('n > limit', lambda x, v: v['n'] > v['limit']),
    ('  due and n != limit\n', lambda x, v: x.conj([v['due'], v['n'] != v['limit']])),
    ('n in items', lambda x, v: x.disj([v['n'] == i for i in v['items']])),
    ('any(i == n for i in items)', lambda x, v: x.disj([v['n'] == i for i in v['items']])),
    ('due if n > 0 else None', lambda x, v: x.conj([v['due'], v['n'] > 0])),
    ('10 // n == 5', lambda x, v: v['n'] == 2),
    ('missing', lambda x, v: False),
    ('due and missing', lambda x, v: False),
    ('due or missing', lambda x, v: v['due']),
    ('n >', lambda x, v: False),
    ('fail(n)', lambda x, v: False),
    ('len(items) == 2 and shadow == 1', lambda x, v: True),
    ('', lambda x, v: True),
    (' \t ', lambda x, v: True),
    (None, lambda x, v: True),
    ('TriggerContext', lambda x, v: False),
    ('logging', lambda x, v: False),
    ('self is not None', lambda x, v: False),
    ('caller == 1', lambda x, v: False),
    ('of_caller', lambda x, v: False),
    ('outer or due', lambda x, v: False),
]


def frame_of(v):
    # the names of the callers are not visible
    back = Frame('/app/main.py', '<module>', 5, {'outer': 1, 'n': 'other'}, {'__name__': 'main', 'outer': 1, 'limit': 'other'})
    back = Frame('/app/main.py', 'main', 7, {'caller': 1, 'n': 'other', 'EMPTY': [1]}, {'__name__': 'main', 'of_caller': 1, 'limit': 'other'}, back=back)
    return Frame('/app/app.py', 'f', 10, {'due': v['due'], 'n': v['n'], 'items': list(v['items']), 'shadow': 1},
                 {'__name__': 'app', 'limit': v['limit'], 'fail': fail, 'shadow': 2, 'due': 'global', 'EMPTY': ()}, back=back)


def conditions(x):
    """Which hits collect, and what they use of the budget."""
    kind = x.pick('kind', KINDS if x.tier == 'thorough' else KINDS[:3])
    text, truth = x.pick('condition', CONDITIONS)
    rig = Rig(x)
    args, metrics = args_of(kind)
    count, period = x.int('fire_count', -1, 2), x.int('fire_period', 0, 100)
    args.update(fire_count=str(count), fire_period=str(period))
    if text is not None:
        args['condition'] = text
    rig.install(tp('tp-1', args=args, metrics=metrics))
    out = collected(rig.rec, kind)
    fired, last, ts = 0, None, 1
    limit = x.int('limit', -3, 3)
    for i in range(3):
        v = {'due': x.bool('due%d' % i), 'n': x.int('n%d' % i, -3, 3), 'limit': limit, 'items': [2, 3]}
        now = x.int('ts%d' % i, 1, 1 << 50)
        x.assume(now >= ts)
        ts = now
        rig.at(ts)
        before = [len(rig.rec.snapshots), len(rig.rec.logs), len(rig.rec.metrics), len(rig.rec.spans)]
        with x.no_raise('trace function'):
            rig.fire(frame_of(v))
        after = [len(rig.rec.snapshots), len(rig.rec.logs), len(rig.rec.metrics), len(rig.rec.spans)]
        allowed = [truth(x, v), x.disj([count == -1, count > fired])]
        if last is not None:
            allowed.append(ts - last >= period * MS)
        if sum(after) > sum(before):
            x.check(x.conj(allowed), 'a hit is rejected when the condition is not true')
            x.check(sum(after) == sum(before) + 1, 'only the configured action')
            fired, last = fired + 1, ts
        else:
            x.check(x.neg(x.conj(allowed)), 'a hit with a true condition collects, rejected hits do not use the budget')
    x.reached('end')


class Truth:
    def __init__(self, truth):
        self.truth = truth

    def __bool__(self):
        return self.truth

    def __str__(self):
        return 'True' if not self.truth else 'False'


class Size:
    def __init__(self, size):
        self.size = size

    def __len__(self):
        return self.size


class NoTruth:
    def __bool__(self):
        raise ValueError('no truth')

    def __str__(self):
        return 'True'


class Same:
    """It is equal to everything."""

    def __eq__(self, other):
        return True

    def __bool__(self):
        return False


# how a value is made, and its truth, of n (any int) and b (any bool)
VALUES = {
    'int': lambda n, b: (n, n != 0), 'bool': lambda n, b: (b, b), 'float': lambda n, b: (n * 0.5, n != 0),
    'tiny': lambda n, b: (5e-324 if n else -0.0, n != 0), 'nan': lambda n, b: (float('nan'), True),
    'text': lambda n, b: (str(n), True), 'false text': lambda n, b: (['False', 'false', '0', 'no', 'None', ' '][abs(n) % 6], True),
    'true text': lambda n, b: (['True', 'yes', '1', 't', 'y', 'on'][abs(n) % 6], True), 'no text': lambda n, b: ('', False),
    'bytes': lambda n, b: (b'False' if b else b'', b), 'list': lambda n, b: ([False] * abs(n), n != 0),
    'dict': lambda n, b: ({0: 0} if b else {}, b), 'set': lambda n, b: ({0} if b else set(), b), 'tuple': lambda n, b: ((None,) if b else (), b),
    'range': lambda n, b: (range(abs(n)), n != 0), 'none': lambda n, b: (None, False), 'complex': lambda n, b: (1j if b else 0j, b),
    'object': lambda n, b: (object(), True), 'type': lambda n, b: (int, True), 'truth': lambda n, b: (Truth(b), b), 'size': lambda n, b: (Size(abs(n)), n != 0),
    'no truth': lambda n, b: (NoTruth(), False), 'same': lambda n, b: (Same(), False), 'iterator': lambda n, b: (iter([]), True),
}
FORMS = ['value', ' value ', '(value)', 'not value', 'value and 1', 'value or 0', 'value or ""', '1 if value else None', 'bool(value)', 'value\n']


def truths(x):
    """The truth of the value of the condition is what it is in python."""
    kind, form = x.pick('value', list(VALUES)), x.pick('form', FORMS)
    n, b = x.int('n', -3, 3), x.bool('b')
    if kind in ('bytes', 'dict', 'set', 'tuple', 'complex', 'truth'):
        b = True if b else False
    elif kind in ('text', 'size', 'range', 'list', 'float', 'tiny', 'false text', 'true text'):
        n = next(i for i in range(-3, 4) if i == n)
    value, truth = VALUES[kind](n, b)
    if kind == 'no truth' and ('not' in form or 'if' in form or 'and' in form or 'or' in form or 'bool' in form):
        truth = False
    elif form.startswith('not'):
        truth = x.neg(truth)
    rig = Rig(x)
    action = x.pick('kind', KINDS[:3] if x.tier == 'thorough' else ['snapshot'])
    args, metrics = args_of(action)
    args.update(condition=form, fire_count='1', fire_period='0')
    rig.install(tp('tp-1', args=args, metrics=metrics))
    for i in range(2):
        rig.at(10 + i)
        with x.no_raise('trace function'):
            rig.fire(Frame('/app/app.py', 'f', 10, {'value': value} if i == 0 else {'value': 1}, {'__name__': 'app'}))
        out = len(rig.rec.snapshots) + len(rig.rec.logs) + len(rig.rec.metrics) + len(rig.rec.spans)
        if i == 0:
            first = out
            x.check(truth if out else x.neg(truth), 'a hit collects when the condition is true')
            x.check(out <= 1, 'only the configured action')
    if not form.startswith('not'):
        x.check(out == 1, 'a hit that is rejected does not use the budget')
    else:
        x.check(out == first, 'a hit that is rejected does not collect')
    x.reached('end')


# expression, the text of the value or None for an error, and the type
SCOPE = [
    ('n', lambda v: str(v['n']), 'int'),
    ('limit', lambda v: str(v['limit']), 'int'),
    ('shadow', lambda v: '1', 'int'),
    ('due', lambda v: str(v['due']), 'bool'),
    ('n + limit', lambda v: str(v['n'] + v['limit']), 'int'),
    ('[i + n for i in items][0]', lambda v: str(v['n'] + 2), 'int'),
    ('(lambda q: q + n)(limit)', lambda v: str(v['n'] + v['limit']), 'int'),
    ('sum(items) + n', lambda v: str(v['n'] + 5), 'int'),
    ('__name__', lambda v: 'app', 'str'),
    ('len(items)', lambda v: '2', 'int'),
    ('[k for k in dir() if k not in ("due", "n", "items", "shadow", "limit", "fail", "EMPTY", "__name__", "__builtins__")]',
     lambda v: 'Size: 0', 'list'),
    ('(lambda: [k for k in globals() if k not in ("due", "n", "items", "shadow", "limit", "fail", "EMPTY", "__name__", '
     '"__builtins__")])()', lambda v: 'Size: 0', 'list'),
    ('EMPTY', lambda v: 'Size: 0', 'tuple'),
    ('missing', lambda v: None, None),
    ('fail(0)', lambda v: None, None),
    ('fail(1)', lambda v: None, None),
    ('fail(2)', lambda v: None, None),
    ('fail(3)', lambda v: None, None),
    ('fail(9)', lambda v: None, None),
    ('1 +', lambda v: None, None),
    ('n = 5', lambda v: None, None),
    ('', lambda v: None, None),
    ('\0', lambda v: None, None),
    ('items[7]', lambda v: None, None),
    ('caller', lambda v: None, None), ('of_caller', lambda v: None, None), ('outer', lambda v: None, None),
    ('expression', lambda v: None, None), ('frame', lambda v: None, None), ('self', lambda v: None, None),
    ('deep', lambda v: None, None), ('uuid', lambda v: None, None), ('scope', lambda v: None, None),
]


def watches(x):
    """Watches, log fields and metrics see the names of the frame; each failure is only for that expression."""
    n = 2 if x.tier == 'quick' else 3
    exprs = [x.pick('watch%d' % i, SCOPE) for i in range(n - 1)]
    exprs.append(SCOPE[0])
    if x.flag('failure first'):
        exprs.insert(0, ('missing', lambda v: None, None))
    rig = Rig(x)
    rig.install(tp('tp-1', args={'fire_count': '-1', 'fire_period': '0'}, watches=[e for e, _, _ in exprs]))
    for hit in range(2):
        v = {'due': x.flag('due%d' % hit), 'n': x.int('n%d' % hit, 100, 400), 'limit': x.int('limit%d' % hit, 100, 400),
             'items': [2, 3]}
        del rig.rec.snapshots[:]
        with x.no_raise('trace function'):
            rig.fire(frame_of(v))
        x.check(len(rig.rec.snapshots) == 1, 'a snapshot is collected')
        snap = rig.rec.snapshots[0]
        x.check([w.expression for w in snap.watches] == [e for e, _, _ in exprs], 'one result for each watch, in order')
        for w, (e, value, type_) in zip(snap.watches, exprs):
            expect = value(v)
            x.check(w.source == 'WATCH', 'source of the result')
            if expect is None:
                x.check(w.result is None and isinstance(w.error, str), 'an error result: %s' % e)
            else:
                x.check(w.result is not None and w.error is None, 'a good result: %s %s' % (e, w.error))
                var = snap.var_lookup.get(w.result.vid)
                x.check(var is not None and var.type == type_, 'type of the result: %s' % e)
                x.check(var.value == expect, 'evaluated against the frame: %s' % e)
        x.check([c.name for c in snap.frames[0].variables] == ['due', 'n', 'items', 'shadow'], 'frame is not affected')
    x.reached('end')


def agent_names(x):
    """None of the names that are in the modules of the agent can be seen."""
    import builtins
    names = set()
    for mod in list(sys.modules):
        if mod == 'deep' or mod.startswith('deep.'):
            names |= set(vars(sys.modules[mod]))
    visible = {'due', 'n', 'items', 'shadow', 'limit', 'fail', 'EMPTY', '__name__', '__builtins__'} | set(vars(builtins))
    names = sorted(k for k in names if k.isidentifier() and k not in visible and not k.startswith('_vx'))
    rig = Rig(x)
    place = x.pick('place', ['watch', 'log', 'metric'])
    text = '[k for k in names if k in (lambda: globals())() or k in dir()] + [k for k in names if test(k)]'

    def test(name):
        return False
    frame = frame_of({'due': True, 'n': x.int('n', 0, 5), 'limit': 1, 'items': [2, 3]})
    frame.f_globals.update(names=names, test=test)
    if place == 'watch':
        rig.install(tp('tp-1', watches=names, args={'fire_count': '1', 'MAX_VARIABLES': '100000'}))
        rig.fire(frame)
        x.check(len(rig.rec.snapshots) == 1, 'a snapshot is collected')
        seen = [w.expression for w in rig.rec.snapshots[0].watches if w.error is None]
        x.check(seen == [], 'names of the agent are visible: %s' % seen[:5])
        x.check(len(rig.rec.snapshots[0].watches) == len(names), 'one result for each watch')
    elif place == 'log':
        rig.install(tp('tp-1', args={'log_msg': '{len(%s)}' % text, 'snapshot': 'no_collect'}))
        rig.fire(frame)
        x.check([m for m, _, _ in rig.rec.logs] == ['[deep] 0'], 'names of the agent are visible')
    else:
        rig.install(tp('tp-1', args={'snapshot': 'no_collect'}, metrics=[MetricDefinition('m', 'COUNTER', [], 'len(%s)' % text)]))
        rig.fire(frame)
        x.check([m[6] for m in rig.rec.metrics] == [0], 'names of the agent are visible')
    x.reached('end')


def others(x):
    """Log fields and metric expressions, with failures next to them."""
    rig = Rig(x)
    bad = x.pick('bad', ['missing', 'fail(0)', 'fail(1)', 'fail(2)', '1 +', 'n / zero', None])
    metrics = [MetricDefinition('bad', 'COUNTER', [LabelExpression('bad', None, bad), LabelExpression('n', None, 'n + limit')], bad),
               MetricDefinition('good', 'GAUGE', [LabelExpression('l', None, 'limit')], 'n')] if bad else [
        MetricDefinition('good', 'GAUGE', [LabelExpression('l', None, 'limit')], 'n')]
    order = x.flag('bad last')
    log = '{n}' if bad is None else ('{n} {%s}' % bad if order else '{%s} {n}' % bad)
    if order:
        metrics.reverse()
    rig.install(tp('tp-1', args={'log_msg': log}, metrics=metrics, watches=['n']))
    v = {'due': True, 'n': x.int('n', 100, 400), 'limit': x.int('limit', 100, 400), 'items': [2, 3]}
    frame = frame_of(v)
    frame.f_locals['zero'] = 0
    with x.no_raise('trace function'):
        rig.fire(frame)
    x.check(len(rig.rec.snapshots) == 1 and len(rig.rec.logs) == 1, 'snapshot and log are produced')
    snap = rig.rec.snapshots[0]
    got = {m[1]: m for m in rig.rec.metrics}
    x.check(sorted(got) == (['bad', 'good'] if bad else ['good']), 'each metric is reported')
    x.check(got['good'][6] == v['n'], 'metric is evaluated in the frame')
    x.check(got['good'][2]['l'] == str(v['limit']), 'label is evaluated in the frame')
    if bad:
        x.check(got['bad'][6] == 1, 'value when the expression fails')
        x.check(got['bad'][2]['n'] == str(v['n'] + v['limit']), 'labels next to a failed label')
        x.check(len(snap.watches) == 3 and [w.error is not None for w in snap.watches] == [False] + (
            [False, True] if order else [True, False]), 'an error for the failed expression only')
    for w in snap.watches:
        if w.expression == 'n':
            x.check(w.result is not None and snap.var_lookup[w.result.vid].value == str(v['n']), 'value of a good expression')
    x.reached('end')


# the expressions that assign names, these are visible in that expression only
ASSIGN = ['(mine := n) > 0', '[(mine := i) for i in items]', '(n := 7)', '(limit := 7) + n', '(items := [])', 'globals().update(mine=1)',
          'locals().update(mine=1, n=7)', '(due := True)', 'vars().update(n=7) or n']


def assigns(x):
    """What an expression assigns is not visible to the others."""
    text = x.pick('assign', ASSIGN)
    place = x.pick('place', ['watch', 'log', 'metric', 'label', 'condition'])
    n, limit = x.int('n', 100, 400), x.int('limit', 100, 400)
    metrics = [MetricDefinition('good', 'GAUGE', [LabelExpression('l', None, 'limit'), LabelExpression('mine', None, 'mine')], 'n')]
    args = {'log_msg': '{n} {limit} {len(items)} {mine}', 'fire_count': '-1', 'fire_period': '0'}
    watches_ = ['n', 'limit', 'len(items)', 'mine', 'due']
    first = dict(args)
    given = {'metrics': [], 'watches': []}
    if place == 'watch':
        given['watches'] = [text]
    elif place == 'log':
        first['log_msg'] = '{%s}' % text
    elif place == 'metric':
        given['metrics'] = [MetricDefinition('first', 'GAUGE', [], text)]
    elif place == 'label':
        given['metrics'] = [MetricDefinition('first', 'GAUGE', [LabelExpression('l', None, text)], '1')]
    else:
        first['condition'] = '[%s]' % text
    rig = Rig(x)
    if x.flag('same tracepoint'):
        args.update(first)
        rig.install(tp('tp-1', args=args, watches=given['watches'] + watches_, metrics=given['metrics'] + metrics))
    else:
        rig.install(tp('tp-0', args=first, **given), tp('tp-1', args=args, watches=watches_, metrics=metrics))
    frame = frame_of({'due': False, 'n': n, 'limit': limit, 'items': [2, 3]})
    for hit in range(2):
        del rig.rec.snapshots[:], rig.rec.metrics[:]
        rig.at(10 + hit)
        with x.no_raise('trace function'):
            rig.fire(frame)
        snaps = [s for s in rig.rec.snapshots if s.tracepoint.id == 'tp-1']
        x.check(len(snaps) == 1, 'a snapshot is collected')
        for s in snaps:
            got = [s.var_lookup[w.result.vid].value if w.result is not None else None for w in s.watches if w.source == 'WATCH'][-5:]
            x.check(x.conj([x.eq(a, b) for a, b in zip(got, [str(n), str(limit), '2', None, 'False'])]), 'the watches see the names of the frame')
            if place != 'log' or args['log_msg'] != first['log_msg']:
                x.check(x.conj([s.log_msg.startswith('[deep] ' + str(n) + ' ' + str(limit) + ' 2 name')]), 'the fields see the names of the frame')
        got = [m for m in rig.rec.metrics if m[1] == 'good']
        x.check(len(got) == 1, 'the metric is reported')
        for m in got:
            x.check(x.conj([x.eq(m[6], n), x.eq(m[2]['l'], str(limit)), m[2]['mine'] == 'expression failed']), 'the metric sees the names of the frame')
        x.check(x.conj([x.eq(frame.f_locals['n'], n), x.eq(frame.f_globals['limit'], limit), 'mine' not in frame.f_locals, 'mine' not in frame.f_globals,
                        'n' not in frame.f_globals]), 'the names of the frame are not changed')
    x.reached('end')


# programs with a line that is marked, and what the names have there
LIVE = {
    'closure': ('''
def run(n):
    free, unused = n + 1, 5
    def inner(k):
        own = k * 2
        return own + free  # HERE
    return inner(3)
''', {'free': lambda n: n + 1, 'own': lambda n: 6, 'free + own + k': lambda n: n + 10, 'n': None, 'unused': None, 'inner': None,
     'sum(free for i in range(2))': lambda n: 2 * n + 2, 'glob + free': lambda n: n + 5}),
    'cell': ('''
def run(n):
    held = n
    def inner():
        nonlocal held
        held += 1
        return held
    inner()
    inner()
    del inner
    return held  # HERE
''', {'held': lambda n: n + 2, 'n + held': lambda n: 2 * n + 2, 'inner': None}),
    'twice nested': ('''
def run(n):
    a = n
    def middle(b):
        def inner(c):
            nonlocal b
            b = b + c
            return a + b + c  # HERE
        return inner(3)
    return middle(2)
''', {'a': lambda n: n, 'b': lambda n: 5, 'c': lambda n: 3, 'a + b + c': lambda n: n + 8, 'middle': None}),
    'method': ('''
class Base:
    kind = 4
    def __init__(self, n):
        self.n = n
class Own(Base):
    kind = 5
    def work(self, k):
        super().__init__(self.n + 1)
        return self.n  # HERE
def run(n):
    return Own(n).work(2)
''', {'self.n': lambda n: n + 1, 'self.kind': lambda n: 5, '__class__.__mro__[1].kind': lambda n: 4, 'kind': None, 'n': None, 'Own.kind + k': lambda n: 7}),
    'class body': ('''
def run(n):
    free = n
    class Body:
        own = free + 1
        last = own  # HERE
    return Body.last
''', {'own': lambda n: n + 1, 'own + glob': lambda n: n + 5, 'last': None, '__qualname__': lambda n: 'run.<locals>.Body'}),
    'generator': ('''
def gen(n):
    total = 0
    for i in range(3):
        total += n
        got = yield total
    last = total + got  # HERE
    yield last
def run(n):
    g = gen(n)
    next(g)
    for i in (1, 2, 5):
        out = g.send(i)
    return out
''', {'total': lambda n: 3 * n, 'got': lambda n: 5, 'i': lambda n: 2, 'last': None, 'out': None, 'n - got': lambda n: n - 5}),
    'comprehension': ('''
def run(n):
    k = 2
    return [
        i + n + k  # HERE
        for i in (5,)]
''', {'i': lambda n: 5, 'n + i': lambda n: n + 5, 'k': lambda n: 2}),
    'lambda': ('''
def run(n):
    k = 2
    f = lambda own: (
        own + n)  # HERE
    return f(5)
''', {'own': lambda n: 5, 'n': lambda n: n, 'k': None, 'own + n': lambda n: n + 5}),
    'arguments': ('''
def f(a, /, b=2, *rest, c, d=4, **more):
    return a  # HERE
def run(n):
    return f(n, 5, 6, n, c=7, e=n)
''', {'a': lambda n: n, 'b': lambda n: 5, 'rest[1]': lambda n: n, 'len(rest)': lambda n: 2, 'c + d': lambda n: 11, 'more["e"]': lambda n: n, 'n': None}),
    'module': ('''
own = 3
def run(n):
    return n
last = own  # HERE
''', {'own': lambda n: 3, 'glob': lambda n: 4, 'last': None, 'callable(run)': lambda n: True}),
    'handler': ('''
class Problem(Exception):
    def __init__(self, value):
        self.value = value
def run(n):
    try:
        raise Problem(n)
    except Problem as e:
        got = e.value  # HERE
    return got
''', {'e.value': lambda n: n, 'type(e).__name__': lambda n: 'Problem', 'got': None, 'n': lambda n: n}),
    'deleted': ('''
def run(n):
    a = b = n
    del a
    b = b  # HERE
''', {'a': None, 'b': lambda n: n}),
    'declared': ('''
def run(n):
    global glob
    glob = n
    other = glob  # HERE
    glob = 4
''', {'glob': lambda n: n, 'other': None, 'globals()["glob"]': lambda n: n}),
}


def live(x):
    """Expressions in the frames of programs that are run by the interpreter."""
    name = x.pick('program', list(LIVE))
    source, names = LIVE[name]
    text = x.pick('expression', list(names))
    place = x.pick('place', ['watch', 'log', 'metric', 'label', 'condition'])
    n = x.int('n', 100, 400)
    expect = names[text]
    value = None if expect is None else expect(n)
    args, metrics, watches_ = {'fire_count': '-1', 'fire_period': '0', 'log_msg': '{%s}' % text if place == 'log' else 'hit'}, [], []
    if place == 'watch':
        watches_ = [text]
    elif place == 'metric':
        x.assume(not isinstance(value, str))
        metrics = [MetricDefinition('m', 'GAUGE', [], '1 + (%s)' % text)]
    elif place == 'label':
        metrics = [MetricDefinition('m', 'GAUGE', [LabelExpression('l', None, text)], '1')]
    elif place == 'condition':
        args['condition'] = '(%s) == value' % text
    rig = Rig(x)
    rig.install(tp('tp-1', line=line_of(source, 'HERE'), args=args, metrics=metrics, watches=watches_))
    k = x.int('k', 100, 400) if place == 'condition' and expect is not None and not isinstance(value, (str, bool)) else value
    with traced(rig.handler):
        mod = load(source, '/app/app.py', glob=4, value=k)
        mod.run(n)
    if place == 'condition':
        holds = False if expect is None else x.eq(value, k)
        x.check(holds if rig.rec.snapshots else x.neg(holds), 'collects exactly when the condition is true')
        x.reached('end')
        return
    x.check(len(rig.rec.snapshots) == 1, 'a snapshot is collected')
    for s in rig.rec.snapshots:
        if place == 'watch':
            w = s.watches[0]
            if expect is None:
                x.check(w.result is None and isinstance(w.error, str), 'a name that is not visible gives an error')
            else:
                x.check(w.result is not None and x.eq(s.var_lookup[w.result.vid].value, str(value)), 'the watch sees the names at the line')
        elif place == 'log':
            x.check('name' in s.log_msg if expect is None else x.eq(s.log_msg, '[deep] ' + str(value)), 'the field sees the names at the line')
    if place in ('metric', 'label'):
        x.check(len(rig.rec.metrics) == 1, 'the metric is reported')
        for m in rig.rec.metrics:
            if place == 'metric':
                x.check(x.eq(m[6], 1 if expect is None else 1 + value), 'the metric sees the names at the line')
            else:
                x.check(x.eq(m[2]['l'], 'expression failed' if expect is None else str(value)), 'the label sees the names at the line')
    x.reached('end')


PROGRAM = '''\
limit = 4


def other(limit):
    return limit


def run(count):
    total = 0
    for i in range(count):
        total += i
        other(i)
    return total


result = run(5)
'''


def program(x):
    """A real program: the condition uses locals and globals that change."""
    import builtins
    text, truth = x.pick('condition', [
        ('i == k', lambda i, k: i == k), ('total > k', lambda i, k: sum(range(i)) > k), ('i + limit == k', lambda i, k: i + 4 == k),
        ('total == k and i == 2', lambda i, k: x.conj([i == 2, k == sum(range(i))])),
        ('undefined == k', lambda i, k: False), ('(i := k) is None', lambda i, k: False)])
    k = x.int('k', -2, 12)
    count = x.int('fire_count', -1, 5)
    rig = Rig(x)
    rig.install(tp('tp-1', line=11, args={'condition': text, 'fire_count': str(count), 'fire_period': '0'}, watches=['i', 'total']))
    with traced(rig.handler):
        mod = load(PROGRAM, '/app/app.py', k=k)
    x.check(mod.result == 10, 'result of the program')
    got, n = [s.var_lookup[s.watches[0].result.vid].value for s in rig.rec.snapshots], 0
    for i in range(5):
        expect = x.conj([truth(i, k), x.disj([count == -1, count > n])])
        x.check(expect if str(i) in got else x.neg(expect), 'collects exactly when the condition is true')
        n += str(i) in got
    x.check(got == sorted(set(got)), 'once for each hit')
    for s in rig.rec.snapshots:
        i = int(s.var_lookup[s.watches[0].result.vid].value)
        x.check(s.var_lookup[s.watches[1].result.vid].value == str(sum(range(i))), 'watch is evaluated at the same time')
    x.reached('end')


ALL = {'log_msg': 'hit', 'span': 'line'}
FORMS_OF = {'snapshot': ({}, []), 'log': ({'log_msg': 'hit', 'snapshot': 'no_collect'}, []), 'metric': ({'snapshot': 'no_collect'}, ['m']),
            'span': ({'snapshot': 'no_collect', 'span': 'line'}, []), 'all': (ALL, ['m']), 'all but snapshot': (dict(ALL, snapshot='no_collect'), ['m']),
            'capture': ({'stage': 'line_capture', 'span': 'line'}, []), 'method': ({'method_name': 'f'}, ['m']),
            'method span': ({'method_name': 'f', 'snapshot': 'no_collect', 'span': 'method'}, ['m']),
            'method capture': ({'method_name': 'f', 'stage': 'method_capture', 'log_msg': 'hit'}, [])}
GATES = [('due', lambda x, v: v), ('not due', lambda x, v: x.neg(v)), ('due and 1/0', lambda x, v: False), ('fail(0)', lambda x, v: False),
         ('due or fail(2)', lambda x, v: v), ('fail(1)', lambda x, v: False), ('fail(3)', lambda x, v: False), (')', lambda x, v: False),
         (None, lambda x, v: True)]


def combined(x):
    """A condition gates each of the actions of its tracepoint, and none of another one."""
    forms = [x.pick('first', list(FORMS_OF)), x.pick('second', list(FORMS_OF) if x.tier == 'thorough' else ['all'])]
    gates = [x.pick('gate', GATES), GATES[0]]
    if x.flag('swapped'):
        forms.reverse()
        gates.reverse()
    due = [x.bool('due%d' % i) for i in range(2)]
    rig = Rig(x)
    triggers, want = [], []
    for i, (form, (text, truth)) in enumerate(zip(forms, gates)):
        args, metrics = FORMS_OF[form]
        args = dict(args, fire_count='1', fire_period='0')
        if text is not None:
            args['condition'] = text
        triggers.append(tp('tp-%d' % i, args=args, metrics=[MetricDefinition('%s%d' % (m, i), 'COUNTER') for m in metrics]))
    rig.install(*triggers)
    spent = [0, 0]
    for hit in range(2):
        rec = rig.rec
        del rec.snapshots[:], rec.logs[:], rec.metrics[:], rec.spans[:]
        rig.at(10 + hit)
        frame = frame_of({'due': due[hit], 'n': 1, 'limit': 0, 'items': []})
        with x.no_raise('trace function'):
            for event in ('call', 'line', 'line', 'return')[:2]:
                rig.fire(frame, event)
            frame.f_lineno = 11
            rig.fire(frame, 'line')
            rig.fire(frame, 'return')
        for i, (form, (text, truth)) in enumerate(zip(forms, gates)):
            args, metrics = FORMS_OF[form]
            ident = 'tp-%d' % i
            got = {'snapshot': sum(s.tracepoint.id == ident for s in rec.snapshots), 'log': sum(e[1] == ident for e in rec.logs),
                   'metric': sum(m[1] == 'm%d' % i for m in rec.metrics), 'span': sum(s.tp_id == ident for s in rec.spans)}
            kinds = {'snapshot': 'snapshot' not in args, 'log': 'log_msg' in args, 'metric': bool(metrics), 'span': 'span' in args}
            expect = x.conj([truth(x, due[hit]), spent[i] == 0])
            some = sum(got.values()) > 0
            x.check(expect if some else x.neg(expect), 'the actions are done exactly when the condition is true: %s' % form)
            x.check(got == {k: int(v and some) for k, v in kinds.items()}, 'each action of the tracepoint is done: %s %s' % (form, got))
            spent[i] += some
    x.reached('end')


def builtins_(x):
    """The builtins are those of the frame."""
    n = x.int('n', 100, 400)
    kind = x.pick('kind', ['own', 'module', 'shadowed'])
    names = {'len': lambda v: n, 'special': 'special', '__import__': __import__}
    module = type(sys)('own')
    vars(module).update(names)
    f_globals = {'__name__': 'app', '__builtins__': names if kind == 'own' else module if kind == 'module' else __builtins__}
    if kind == 'shadowed':
        f_globals.update(names)
    rig = Rig(x)
    rig.install(tp('tp-1', args={'condition': 'len(items) == k', 'log_msg': '{special} {len(items)}'}, watches=['len(items)', 'special', 'sum(items)']))
    frame = Frame('/app/app.py', 'f', 10, {'items': [2, 3], 'k': n}, f_globals)
    frame.f_builtins = names if kind != 'shadowed' else frame.f_builtins
    with x.no_raise('trace function'):
        rig.fire(frame)
    x.check(len(rig.rec.snapshots) == 1, 'the condition is evaluated with the builtins of the frame')
    for s in rig.rec.snapshots:
        got = [s.var_lookup[w.result.vid].value if w.result is not None else None for w in s.watches if w.source == 'WATCH']
        x.check(got == [str(n), 'special', '5' if kind == 'shadowed' else None], 'the watches are evaluated with the builtins of the frame')
        x.check(x.eq(s.log_msg, '[deep] special ' + str(n)), 'the fields are evaluated with the builtins of the frame')
    x.reached('end')


def threads(x):
    """Each thread has its own frame."""
    rig = Rig(x)
    rig.install(tp('tp-1', args={'condition': 'due', 'fire_count': '-1', 'fire_period': '0', 'log_msg': '{n}', 'snapshot': 'no_collect'}))
    due = [x.bool('due%d' % i) for i in range(2)]
    with Sched(x, preemptions=1) as s:
        for i in range(2):
            s.spawn(rig.fire, frame_of({'due': due[i], 'n': i, 'limit': 0, 'items': []}))
        s.go()
    x.check(not s.deadlock, 'the threads do not terminate')
    got = sorted(m for m, _, _ in rig.rec.logs)
    for i in range(2):
        x.check(due[i] if '[deep] %d' % i in got else x.neg(due[i]), 'collects exactly when the condition is true')
    x.check(len(got) == len(set(got)), 'once for each hit')
    x.reached('end')


HARNESSES = [
    H(conditions, '%d conditions, 3 hits at any non-decreasing times, any due, n -3..3, limit -3..3, fire_count -1..2, '
                  'fire_period 0..100 ms, 3 action types (thorough 4)' % len(CONDITIONS), weight=3),
    H(truths, 'values of %d types (any n -3..3) in %d conditions, snapshots (thorough 3 action types)' % (len(VALUES), len(FORMS))),
    H(watches, '%d expressions (1 of them in quick, any 2 in thorough, next to a good one and a failing one), 2 hits with any '
               'values -1000..1000' % len(SCOPE), weight=2),
    H(agent_names, 'all the names that are in any loaded module of the agent'),
    H(others, '7 failures of log fields, metric values and labels, any n and limit 100..400'),
    H(program, '6 conditions, k -2..12, fire_count -1..5, one program under the real trace hook'),
    H(combined, '2 tracepoints on one line, %d forms of the first (thorough both) with %d conditions, 2 hits with any truth, either order' % (
        len(FORMS_OF), len(GATES)), weight=2),
    H(assigns, '%d expressions that assign names, at 5 places, next to others of the same or another tracepoint, 2 hits, any n and limit 100..400' % len(ASSIGN)),
    H(live, '%d programs run by the interpreter, %d expressions at 5 places, any n 100..400' % (len(LIVE), sum(len(e) for _, e in LIVE.values()))),
    H(builtins_, '3 kinds of builtins of the frame, any number 100..400'),
    H(threads, '2 threads, 1 preemption at any line or lock operation, any truth of the condition in each thread'),
]
