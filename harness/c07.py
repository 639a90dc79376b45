"""The variable table: object graphs with any sharing and cycles are walked together with the table that was recorded for them.

Each reference must be in the table of its snapshot, and the objects and the ids must correspond one to one.
"""
import dis

from harness.common import Frame, Rig, tp
from vx.sched import Sched
from vx.spec import H

TECHNIQUE = 'symbolic execution of the real source with z3 (path exploration, solver-decided edges, limits and schedules, replayed models)'
STUBS = 'delivery records the snapshots; paused frames are stand-ins'
OUTSIDE = 'objects that the interpreter shares in one run and not in another (small numbers and texts), beyond what the program holds; ' \
          'objects that are replaced while they are collected; subclasses of the built-in containers; attributes in slots'

MANY = {'fire_count': '-1', 'fire_period': '0'}
RETURN, RERAISE = dis.opmap['RETURN_VALUE'], dis.opmap['RERAISE']


class Thing:
    def __str__(self):
        return 'thing'


def parts_of(value):
    """The children of a value, in the order they are recorded."""
    if type(value) in (list, tuple, set, frozenset):
        return [(str(i), v) for i, v in enumerate(value)]
    if isinstance(value, BaseException):
        return [(str(i), v) for i, v in enumerate(value.args)]
    if type(value) is dict:
        return [(str(k), v) for k, v in value.items()]
    if type(value) is Thing:
        return list(vars(value).items())
    return []


def closed(snap):
    """References that are not in the table."""
    table = snap.var_lookup
    refs = [r for f in snap.frames for r in f.variables] + [r for v in table.values() for r in v.children]
    refs += [w.result for w in snap.watches if w.result is not None]
    return [r for r in refs if r.vid not in table]


class Walk:
    """The objects and the ids of a snapshot."""

    def __init__(self, x, snap):
        self.x, self.snap, self.problems = x, snap, []
        self.vids, self.objects, self.keep = {}, {}, []

    def add(self, ref, value):
        """Walk from a reference to a value."""
        todo = [(ref, value)]
        while todo:
            ref, value = todo.pop()
            self.keep.append(value)
            if self.vids.setdefault(id(value), ref.vid) != ref.vid:
                self.problems.append('an object has two ids: %s' % ref.name)
            known = ref.vid in self.objects
            if self.objects.setdefault(ref.vid, id(value)) != id(value):
                self.problems.append('two objects have one id: %s' % ref.name)
            entry = self.snap.var_lookup.get(ref.vid)
            if known or entry is None:
                continue
            if entry.type != type(value).__name__:
                self.problems.append('the type of another object: %s' % ref.name)
            children = dict(parts_of(value))
            for child in entry.children:
                if child.name in children:
                    todo.append((child, children[child.name]))
                else:
                    self.problems.append('a child of another object: %s' % child.name)

    def locals(self, refs, values):
        for r in refs:
            if r.name in values:
                self.add(r, values[r.name])
            else:
                self.problems.append('a local of another frame')

    def done(self, what):
        x = self.x
        missing = closed(self.snap)
        x.check(not missing, '%s: each reference is in the table' % what)
        message = what + ': objects and ids are one to one'
        x.check(not self.problems, message if x.symbolic else '%s %s' % (message, self.problems[:3]))
        hashes = [v.hash for v in self.snap.var_lookup.values()]
        x.check(len(set(hashes)) == len(hashes), '%s: an object is recorded once' % what)


def new(kind):
    return {'list': list, 'dict': dict, 'object': Thing, 'exception': ValueError}[kind]()


def put(value, i, part):
    if type(value) is list:
        value.append(part)
    elif type(value) is dict:
        value['k%d' % i] = part
    elif isinstance(value, ValueError):
        value.args += (part,)
    else:
        setattr(value, 'a%d' % i, part)


def fire(x, rig, frame, event='line', arg=None):
    with x.no_raise('trace'):
        rig.fire(frame, event, arg)


def graphs(x):
    """Any sharing and cycles, with a symbolic budget."""
    deep = x.tier == 'thorough'
    nodes = 4 if deep else 3
    values = [new(x.pick('kind%d' % i, ['list', 'object', 'dict', 'exception'])) for i in range(2)]
    values += [[] for i in range(nodes - 2)]
    for e in range(5 if deep else 3):
        put(values[e % nodes], e, values[x.index('to%d' % e, nodes)])
    leaf = ['leaf']
    for i, v in enumerate(values):
        put(v, 10, leaf)
        if i % 2:
            put(v, 11, ('own', i))
    most = x.int('max variables', 0, 12)
    f_locals = {'a': values[0], 'b': values[x.index('b', nodes)], 'leaf': leaf, 'again': values[0]}
    watch = x.pick('watch', [[], ['b', 'leaf', '[a, b]', '(leaf,)']])
    rig = Rig(x, plugins=[])
    rig.install(tp('t', 'app.py', 10, dict(MANY, MAX_VARIABLES=most), watches=list(watch)))
    fire(x, rig, Frame('/app/app.py', 'f', 10, dict(f_locals)))
    x.check(len(rig.rec.snapshots) == 1, 'a snapshot')
    for s in rig.rec.snapshots:
        walk = Walk(x, s)
        walk.locals(s.frames[0].variables, f_locals)
        fixed = {'b': f_locals['b'], 'leaf': leaf}
        for w in s.watches:
            if w.result is None:
                continue
            if w.expression in fixed:
                walk.add(w.result, fixed[w.expression])
            else:
                # the list is new, its elements are known
                inner = [f_locals['a'], f_locals['b']] if w.expression == '[a, b]' else [leaf]
                if w.result.vid in walk.objects:
                    walk.problems.append('a new object has the id of another one')
                for c in s.var_lookup[w.result.vid].children if w.result.vid in s.var_lookup else ():
                    walk.add(c, inner[int(c.name)])
        walk.done('graphs')
    x.reached('end')


def attributes(self):
    return {'n': 'value %d' % object.__getattribute__(self, 'kept'), 'box': ['new %d' % object.__getattribute__(self, 'kept')]}


class Changing:
    __slots__ = ('kept',)
    __dict__ = property(attributes)

    def __init__(self, n):
        self.kept = n

    def __str__(self):
        return 'changing %d' % self.kept


def describe(table, ref):
    """The text of a reference with what it holds."""
    if ref.vid not in table:
        return 'missing'
    v = table[ref.vid]
    return v.value, tuple((c.name, describe(table, c)) for c in v.children)


class Empty:
    def __str__(self):
        return 'empty'


# expressions that make a new object, with the text that is recorded
PLAIN = {'text': ('"w%d" + str(k)', 'w%d5000'), 'number': ('k * 1000 + %d', '500000%d'), 'float': ('k + 0.5 + %d', '500%d.5'),
         'bytes': ('bytes((48, 48 + %d))', "b'0%d'"), 'complex': ('complex(k, %d)', '(5000+%dj)'), 'list': ('list(range(%d * 0))', 'Size: 0'),
         'tuple': ('(k, %d)', 'Size: 2'), 'set': ('set((k, %d))', 'Size: 2'), 'dict': ('dict(list(range(%d * 0)))', 'Size: 0'), 'object': ('(Empty() if %d >= 0 else 0)', 'empty'),
         'range': ('range(k, k + %d)', 'range(5000, 500%d)'), 'error': ('ValueError(%d)', '%d'), 'iterator': ('iter((%d,))', ''),
         'function': ('type(Empty.__str__)(Empty.__str__.__code__, dict(), "f%d")', '<function Empty.__str__ at '), 'method': ('(Empty().__str__ if %d >= 0 else 0)', '<bound method ')}


def temporary(x):
    """Objects that only live while they are collected: an id is used again by the interpreter."""
    count = x.pick('count', [2, 3, 5])
    kind = x.pick('kind', ['watch', 'watch dict', 'log', 'attributes', 'metric', 'nested', 'plain', 'plain log'])
    n = x.int('n', 100, 999)
    f_locals = {'n': n, 'k': 5000, 'Empty': Empty}
    watches, args = [], dict(MANY)
    plain = [x.pick('type0', list(PLAIN))] if kind.startswith('plain') else []
    if plain:
        # the memory of an object is often used for another one of that type
        plain.append(x.pick('type1', list(PLAIN) if x.tier == 'thorough' else sorted({plain[0], 'text'})))
    made = [PLAIN[plain[min(i, 1) if count < 5 else i % 2]] for i in range(count)] if plain else []
    if kind == 'watch':
        watches = ['[n, %d, "w%d"]' % (i, i) for i in range(count)]
    elif kind == 'watch dict':
        watches = ['{"k": [%d + 5000, n]}' % i for i in range(count)]
    elif kind == 'plain':
        watches = [source % i for i, (source, _) in enumerate(made)]
    elif kind == 'plain log':
        args['log_msg'] = ' '.join('{%s}' % source % i for i, (source, _) in enumerate(made))
    elif kind == 'nested':
        watches = ['[[%d + 5000], ["w%d" + str(5)]]' % (i, i) for i in range(count)]
    elif kind == 'log':
        args['log_msg'] = ' '.join('{["w%d" + str(5)]}' % i for i in range(count))
    else:
        f_locals['all'] = [Changing(i) for i in range(count)]
    rig = Rig(x, plugins=[])
    rig.install(tp('t', 'app.py', 10, args, watches=watches))
    fire(x, rig, Frame('/app/app.py', 'f', 10, f_locals))
    x.check(len(rig.rec.snapshots) == 1, 'a snapshot')
    for s in rig.rec.snapshots:
        t = s.var_lookup
        x.check(not closed(s), 'each reference is in the table')
        got = [describe(t, w.result) if w.result is not None else None for w in s.watches]
        vids = [w.result.vid for w in s.watches if w.result is not None]
        x.check(len(set(vids)) == len(vids), 'different objects have different ids')
        if kind == 'watch':
            ok = [g is not None and g[0] == 'Size: 3' and [c[1][0] for c in g[1]][1:] == [str(i), 'w%d' % i] for i, g in enumerate(got)]
        elif kind == 'watch dict':
            ok = [g is not None and g[1][0][1][1][0][1][0] == str(i + 5000) for i, g in enumerate(got)]
        elif kind == 'nested':
            ok = [g is not None and g[1][0][1][1][0][1][0] == str(i + 5000) and g[1][1][1][1][0][1][0] == 'w%d5' % i
                  for i, g in enumerate(got)]
        elif plain:
            ok = [g is not None and g[0].startswith(text % i if '%' in text else text) for i, (g, (_, text)) in enumerate(zip(got, made))]
        elif kind == 'log':
            ok = [g is not None and g[1][0][1][0] == 'w%d5' % i for i, g in enumerate(got)]
        else:
            all_ = [r for r in s.frames[0].variables if r.name == 'all']
            d = describe(t, all_[0])
            ok = [len(d[1]) == count] + [c[1][0] == 'changing %d' % i and dict(c[1][1]) == {
                'n': ('value %d' % i, ()), 'box': ('Size: 1', (('0', ('new %d' % i, ())),))} for i, c in enumerate(d[1])]
        x.check(all(ok), 'each object has its own content')
    x.reached('end')


def reuse(make, used):
    """Make objects until one of them has an identity that was used."""
    keep = []
    for _ in range(200):
        v = make()
        if id(v) in used:
            return v
        keep.append(v)
    return keep[0]


def later(x):
    """Results that are captured when the values of the snapshot are released by the program."""
    n = x.int('n', 100, 999)
    end = x.pick('end', ['return', 'raise', 'same', 'same raised', 'cyclic'])
    kind = x.pick('kind', ['method_capture', 'line_capture'])
    most = x.int('max variables', 0, 6)
    frame_type = x.pick('frame type', ['single_frame', 'no_frame'])
    args = dict(MANY, stage=kind, MAX_VARIABLES=most, frame_type=frame_type)
    if kind == 'method_capture':
        args['method_name'] = 'f'
    rig = Rig(x, plugins=[])
    rig.install(tp('t', 'app.py', 10 if kind == 'line_capture' else None, args, watches=['[n, "watch"]']))
    error = ValueError('failed', n)
    f_locals = {'a': ['local', 'a'], 'n': n, 'error': error}
    frame = Frame('/app/app.py', 'f', 10, f_locals)
    fire(x, rig, frame, 'call' if kind == 'method_capture' else 'line')
    used = {id(f_locals['a'])}
    keep = f_locals.pop('a') if end == 'same' else None
    f_locals.clear()
    value = keep
    if end == 'return':
        value = reuse(lambda: ['result', 'of f'], used)
    elif end == 'cyclic':
        value = ['result']
        value.append(value)
    if end.endswith('raised') or end == 'raise':
        if end == 'raise':
            error = ValueError('other', n)
        frame.f_code.co_code = bytes([RERAISE, 0])
        fire(x, rig, frame, 'exception', (ValueError, error, None))
        fire(x, rig, frame, 'return', None)
    else:
        frame.f_code.co_code = bytes([RETURN, 0])
        fire(x, rig, frame, 'return', value)
    x.check(len(rig.rec.snapshots) == 1, 'a snapshot')
    for s in rig.rec.snapshots:
        t = s.var_lookup
        x.check(not closed(s), 'each reference is in the table')
        got = [w for w in s.watches if w.source == 'CAPTURE']
        x.check(len(got) == 1, 'a capture')
        local = [r.vid for r in s.frames[0].variables if r.name == 'a']
        for w in got:
            if w.result is None:
                x.check(len(t) > most, 'not captured, because there is no budget')
                continue
            d = describe_cut(t, w.result)
            if end == 'return':
                x.check(w.result.vid not in local, 'the result is another object')
                x.check(d[0] == 'Size: 2' and [c[1][0] for c in d[1]] == ['result', 'of f'][:len(d[1])], 'the result')
            elif end == 'same':
                x.check(not local or w.result.vid == local[0], 'the result is the same object')
            elif end == 'cyclic':
                back = [c for c in t[w.result.vid].children if c.name == '1']
                x.check(all(c.vid == w.result.vid for c in back), 'the result has a reference to itself')
            else:
                inner = [c for c in t[w.result.vid].children if c.name == '1']
                known = [r.vid for r in s.frames[0].variables if r.name == 'error']
                if inner:
                    x.check((inner[0].vid in known) == (end == 'same raised' and bool(known)), 'the error that was raised')
                else:
                    x.check(len(t) > most, 'no error, because there is no budget')
    x.reached('end')


def describe_cut(table, ref):
    v = table.get(ref.vid)
    return (v.value, [(c.name, (table[c.vid].value if c.vid in table else None,)) for c in v.children]) if v else None


def several(x):
    """Several tracepoints on an event: each table is closed on its own."""
    deep = x.tier == 'thorough'
    count = 2 + (x.index('count', 2) if deep else 0)
    shared = ['shared']
    both = [shared, shared]
    shared.append(both)
    n = x.int('n', 100, 999)
    f_locals = {'n': n, 'shared': shared, 'both': both}
    caller = {'both': both, 'm': n + 5}
    triggers, kinds = [], []
    for i in range(count):
        kind = x.pick('kind%d' % i, ['plain', 'all frames', 'no frames', 'watch', 'log', 'small', 'deferred', 'log only'])
        args = dict(MANY)
        if kind == 'all frames':
            args['frame_type'] = 'all_frame'
        elif kind == 'no frames':
            args['frame_type'] = 'no_frame'
        elif kind == 'log':
            args['log_msg'] = '{both} {n}'
        elif kind == 'small':
            args['MAX_VARIABLES'] = '1'
        elif kind == 'deferred':
            args['stage'] = 'line_capture'
        elif kind == 'log only':
            args.update(snapshot='no_collect', log_msg='{both}')
        kinds.append(kind)
        watches = ['both', 'shared', '[both]'] if kind in ('watch', 'no frames', 'small') else []
        triggers.append(tp('t%d' % i, 'app.py', 10, args, watches=watches))
    rig = Rig(x)
    rig.install(*triggers)
    frame = Frame('/app/app.py', 'f', 10, f_locals, back=Frame('/app/app.py', 'g', 20, caller))
    fire(x, rig, frame)
    frame.f_lineno = 11
    frame.f_code.co_code = bytes([RETURN, 0])
    fire(x, rig, frame, 'return', both)
    expected = ['t%d' % i for i, k in enumerate(kinds) if k != 'log only']
    x.check(sorted(s.tracepoint.id for s in rig.rec.snapshots) == expected, 'the snapshots')
    for s in rig.rec.snapshots:
        walk = Walk(x, s)
        walk.locals(s.frames[0].variables, f_locals)
        walk.locals(s.frames[1].variables, caller)
        for w in s.watches:
            if w.result is not None and w.expression in ('both', 'shared', 'return', 'n'):
                walk.add(w.result, {'both': both, 'shared': shared, 'return': both, 'n': n}[w.expression])
        walk.done('several')
        kind = kinds[int(s.tracepoint.id[1:])]
        if kind not in ('no frames', 'small'):
            x.check([r.name for r in s.frames[0].variables] == list(f_locals), 'all locals')
        x.check(all(w.result is not None for w in s.watches) or kind == 'small', 'all results')
    x.reached('end')


def large(x):
    """Many objects: each has its own id, whatever the number is."""
    count = x.pick('count', [9, 99, 256, 999, 1000, 1023, 1200])
    kind = x.pick('kind', ['locals', 'list', 'dict', 'object', 'pairs'])
    n = x.int('n', 100, 999)
    parts = [['part', i] if kind == 'pairs' else 'part %d' % i for i in range(count)]
    if kind == 'locals':
        f_locals = {'v%d' % i: p for i, p in enumerate(parts)}
    else:
        box = new({'pairs': 'list'}.get(kind, kind))
        for i, p in enumerate(parts):
            put(box, i, p)
        f_locals = {'box': box, 'again': parts[-1], 'box2': box}
    f_locals['n'] = n
    rig = Rig(x, plugins=[])
    rig.install(tp('t', 'app.py', 10, dict(MANY, MAX_VARIABLES='5000', MAX_COLLECTION_SIZE='5000'), watches=['n']))
    fire(x, rig, Frame('/app/app.py', 'f', 10, dict(f_locals)))
    x.check(len(rig.rec.snapshots) == 1, 'a snapshot')
    for s in rig.rec.snapshots:
        walk = Walk(x, s)
        walk.locals(s.frames[0].variables, f_locals)
        for w in s.watches:
            walk.add(w.result, n)
        x.check(len(walk.objects) >= count, 'all the objects are recorded')
        walk.done('large')
    x.reached('end')


PARTS = ('trigger_handler.py', 'trigger_context.py', 'action_context.py', 'snapshot_action.py', 'frame_collector.py',
         'variable_set_processor.py', 'variable_processor.py')


def threads(x):
    """Threads with the same objects."""
    shared = ['shared', ['inner']]
    cyclic = {'me': shared}
    shared.append(cyclic)
    watch = x.flag('watch')
    rig = Rig(x, plugins=[])
    rig.install(tp('t', 'app.py', 10, dict(MANY), watches=['shared', '[n]'] if watch else []))
    own = {}

    def work(n):
        own[n] = {'n': n, 'shared': shared, 'own': [n]}
        rig.fire(Frame('/app/app.py', 'f%d' % n, 10, dict(own[n])))
    with Sched(x, preemptions=2 if x.tier == 'thorough' else 1, only=PARTS, choices=0) as s:
        s.spawn(work, 100)
        s.spawn(work, 200)
        with x.no_raise('work'):
            s.go()
    x.check(not s.deadlock and len(rig.rec.snapshots) == 2, 'two snapshots')
    for snap in rig.rec.snapshots:
        n = int(snap.frames[0].method_name[1:])
        walk = Walk(x, snap)
        walk.locals(snap.frames[0].variables, own[n])
        for w in snap.watches[:1]:
            walk.add(w.result, shared)
        walk.done('threads')
        x.check(len(snap.frames[0].variables) == 3, 'all locals')
    x.reached('end')


HARNESSES = [
    H(graphs, '3 (thorough 4) objects of 4 kinds with any 3 (5) edges between them, any budget 0..12, with watches or not', weight=3),
    H(temporary, '2, 3 or 5 objects of 6 kinds, or values of two of %d types (quick: the same, or one is text), that are released; any value 100..999' % len(PLAIN)),
    H(later, '5 ways to end with 2 stages, any budget 0..6', weight=2),
    H(several, '2 (thorough 3) tracepoints of 8 kinds on one line with shared objects'),
    H(large, '9..1200 objects in 5 shapes, with aliases'),
    H(threads, '2 threads with shared objects; 1 (thorough 2) preemptions at any line of %s' % ', '.join(PARTS)),
]
BUDGET = {'quick': 60, 'thorough': 600}
