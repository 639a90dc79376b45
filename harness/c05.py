"""Limits: object graphs of symbolic shape are collected under symbolic limits and measured independently.

The depth of each object is computed on the objects themselves; the recorded variables must be within the limits, complete when
the budget is enough, and when it is not, nothing may be recorded that is deeper than something that is missing.
"""
from harness.common import Frame, Rig, tp
from vx.spec import H

TECHNIQUE = 'symbolic execution of the real source with z3 (path exploration, solver-decided branches and limits, replayed models)'
STUBS = 'delivery records the snapshots; paused frames are stand-ins; the clock does not move'
OUTSIDE = 'subclasses of the built-in containers; attributes in slots; elements of dicts and attributes are not limited by the collection ' \
          'size; breadth first is for each frame (and each watch), not across frames; limits that are negative or not numbers use the default'

MANY = {'fire_count': '-1', 'fire_period': '0'}
LIMITS = {'MAX_VARIABLES': 1000, 'MAX_STRING_LENGTH': 1024, 'MAX_COLLECTION_SIZE': 10, 'MAX_VAR_DEPTH': 5}


class Thing:
    def __str__(self):
        return 'thing'


def new(kind):
    return {'list': list, 'dict': dict, 'object': Thing, 'tuple': list, 'exception': list}[kind]()


def put(value, i, part):
    if type(value) is list:
        value.append(part)
    elif type(value) is dict:
        value['k%d' % i] = part
    else:
        setattr(value, 'a%d' % i, part)


def parts_of(value, limit):
    """The children of a value, as the limits allow."""
    if type(value) in (list, tuple, set, frozenset):
        return list(value)[:limit]
    if isinstance(value, BaseException):
        return list(value.args)[:limit]
    if type(value) is dict:
        return list(value.values())
    if isinstance(value, Thing):
        return list(vars(value).values())
    return []


def depths(roots, depth, limit):
    """The depth of each object that can be reached: by identity."""
    found, level, d = {}, list(roots), 0
    while level and d < depth:
        following = []
        for v in level:
            if id(v) in found:
                continue
            found[id(v)] = (d, v)
            following += parts_of(v, limit)
        level, d = following, d + 1
    return found


def measure(x, snap, frames, limits, what):
    """Check a snapshot against the limits: frames are the locals of the frames that are collected, first the top one."""
    table = snap.var_lookup
    most, size, depth = limits['MAX_VARIABLES'], limits['MAX_COLLECTION_SIZE'], limits['MAX_VAR_DEPTH']
    x.check(len(table) <= most + 1, '%s: number of variables' % what)
    recorded = {}
    ok_depth, ok_size, order, complete = True, True, True, True
    budget = most + 1
    for f_locals, refs in frames:
        # where the references are, in the table
        level, d, seen = [r for r in refs], 0, set()
        while level:
            following = []
            for ref in level:
                if ref.vid in seen or ref.vid not in table:
                    continue
                seen.add(ref.vid)
                ok_depth = ok_depth and (d < depth or d == 0)
                following += table[ref.vid].children
            level, d = following, d + 1
        recorded.update({r: True for r in seen})
    # the objects that are recorded for each of the frames
    done = set()
    for f_locals, refs in frames:
        real = depths(f_locals.values(), max(depth, 1), size)
        have = set()
        pairs = [(r, f_locals[r.name]) for r in refs if r.name in f_locals]
        walked = set()
        while pairs:
            ref, value = pairs.pop(0)
            have.add(id(value))
            if ref.vid in walked or ref.vid not in table:
                continue
            walked.add(ref.vid)
            children = table[ref.vid].children
            options = parts_of(value, len(value) if type(value) in (list, tuple, set, frozenset) else 1000)
            if type(value) in (list, tuple, set, frozenset) and not len(children) <= size:
                ok_size = False
            # the children are in the order of the value
            pairs += list(zip(children, options))
        missing = [d for i, (d, v) in real.items() if i not in have and i not in done]
        deepest = [d for i, (d, v) in real.items() if i in have and i not in done]
        if missing and deepest and not max(deepest) <= min(missing):
            order = False
        if missing and len(table) < budget:
            complete = False
        done |= have
    x.check(ok_depth, '%s: depth' % what)
    x.check(ok_size, '%s: size of the collections' % what)
    x.check(order, '%s: shallower variables first' % what)
    x.check(complete, '%s: nothing is missing while there is budget' % what)


def settings(x, limits, how):
    """The arguments of a tracepoint for these limits."""
    args = dict(MANY)
    for k, v in limits.items():
        if v is not None:
            args[k] = str(v) if how == 'text' else v
    return args


def collect(x, f_locals, args, back=None, watches=(), what='trace'):
    rig = Rig(x, plugins=[])
    rig.install(tp('t', 'app.py', 10, args, watches=list(watches)))
    with x.no_raise(what):
        rig.fire(Frame('/app/app.py', 'f', 10, dict(f_locals), back=back))
    x.check(len(rig.rec.snapshots) == 1, 'a snapshot')
    return rig.rec.snapshots


def shapes(x):
    """Trees of symbolic shape, any order of the locals."""
    deep = x.tier == 'thorough'
    most = x.int('max variables', 0, 14 if deep else 9)
    depth = x.int('max depth', 0, 5 if deep else 4)
    size = x.int('max size', 0, 4 if deep else 3)
    how = 'value'
    wide = x.pick('wide', [0, 2, 4] if deep else [0, 3])
    kind = x.pick('kind', ['list', 'dict', 'object'])
    inner = x.pick('inner', ['list', 'dict', 'object', 'tuple', 'exception'])
    order = x.pick('order', ['first', 'middle', 'last'])
    # a deep and wide structure between simple values
    big = new(kind)
    for i in range(wide):
        part = new(inner)
        for j in range(2):
            leaf = 'leaf %d %d' % (i, j)
            put(part, j, [leaf] if j else leaf)
        if inner == 'tuple':
            part = tuple(part)
        elif inner == 'exception':
            part = ValueError(*part)
        put(big, i, part)
    simple = [('s%d' % i, 'simple %d' % i) for i in range(3)]
    at = {'first': 0, 'middle': 1, 'last': 3}[order]
    f_locals = dict(simple[:at] + [('big', big)] + simple[at:])
    limits = {'MAX_VARIABLES': most, 'MAX_VAR_DEPTH': depth, 'MAX_COLLECTION_SIZE': size}
    for s in collect(x, f_locals, settings(x, limits, how)):
        measure(x, s, [(f_locals, s.frames[0].variables)], limits, 'shapes')
    x.reached('end')


def shared(x):
    """Graphs with shared objects and cycles: the depth is the shortest way."""
    deep = x.tier == 'thorough'
    most = x.int('max variables', 0, 9)
    depth = x.int('max depth', 1, 5)
    nodes = 4
    values = [new(x.pick('kind%d' % i, ['list', 'object', 'dict'] if deep else ['list', 'object'])) if i < 2 else new('list') for i in range(nodes)]
    edges = 5 if deep else 3
    for e in range(edges):
        to = x.index('to%d' % e, nodes)
        put(values[e % nodes], 10 + e, values[to])
    for i, v in enumerate(values):
        put(v, 0, 'text %d' % i)
    f_locals = {'a': values[0], 'b': values[x.index('b', nodes)], 'c': 'simple'}
    limits = {'MAX_VARIABLES': most, 'MAX_VAR_DEPTH': depth, 'MAX_COLLECTION_SIZE': 10}
    for s in collect(x, f_locals, settings(x, limits, 'value')):
        measure(x, s, [(f_locals, s.frames[0].variables)], limits, 'shared')
    x.reached('end')


def strings(x):
    """Texts of symbolic content and length."""
    deep = x.tier == 'thorough'
    length = x.int('max length', 0, 8)
    size = x.index('length', 9 if deep else 7)
    where = x.pick('where', ['local', 'element', 'value', 'key', 'attribute', 'watch', 'str of object', 'capture', 'error'])
    text = x.str('text', size, ranges=[(97, 98)] + ([] if where in ('error', 'str of object', 'capture') else [(0x20ac, 0x20ad), (0x1f600, 0x1f600)]))
    thing = Thing()
    f_locals = {'v': 5}
    args = dict(MANY, MAX_STRING_LENGTH=length)
    watches = []
    if where == 'local':
        f_locals['v'] = text
    elif where == 'element':
        f_locals['v'] = [text]
    elif where in ('value', 'key'):
        f_locals['v'] = {'key': text}
    elif where == 'attribute':
        thing.text = text
        f_locals['v'] = thing
    elif where == 'watch':
        f_locals = {'n': 5}
        watches = ['make()']
    elif where == 'str of object':
        f_locals['v'] = ValueError(text)
    rig = Rig(x, plugins=[])
    if where in ('capture', 'error'):
        args['stage'] = 'method_capture'
        args['method_name'] = 'f'
    rig.install(tp('t', 'app.py', None if 'stage' in args else 10, args, watches=watches))
    frame = Frame('/app/app.py', 'f', 10, f_locals)
    frame.f_globals['make'] = lambda: text
    with x.no_raise('trace'):
        rig.fire(frame, 'call' if 'stage' in args else 'line')
        if where == 'capture':
            frame.f_code.co_code = bytes([RETURN, 0])
            rig.fire(frame, 'return', text)
        elif where == 'error':
            error = ValueError(text)
            frame.f_code.co_code = bytes([RERAISE, 0])
            rig.fire(frame, 'exception', (ValueError, error, None))
            rig.fire(frame, 'return', None)
    x.check(len(rig.rec.snapshots) == 1, 'a snapshot')
    for s in rig.rec.snapshots:
        found = []
        for v in s.var_lookup.values():
            x.check(len(v.value) <= length, 'length of the value')
            if v.type == 'str' or v.type == 'ValueError':
                found.append(v)
                full = text
                x.check(x.eq(v.value, full[:length]), 'the start of the text')
                x.check(x.eq(v.truncated, size > length), 'truncated exactly when it is cut')
            else:
                options = [str(5), 'thing', 'Size: 1', 'Size: 3', 'None', str(ValueError)]
                x.check(any(v.value == o[:length] and bool(v.truncated) == (len(o) > length) for o in options), 'the other values')
        x.check(found or where == 'error', 'the text is recorded')
    x.reached('end')


import dis  # noqa: E402

RETURN, RERAISE = dis.opmap['RETURN_VALUE'], dis.opmap['RERAISE']


def sizes(x):
    """Collections of any size against the limit."""
    deep = x.tier == 'thorough'
    limit = x.pick('how', ['given', 'text', 'default'])
    size = x.int('max size', 0, 6)
    kind = x.pick('kind', ['list', 'tuple', 'set', 'frozenset', 'exception', 'dict', 'nested'])
    count = x.pick('count', [0, 1, 2, 5, 7, 9, 10, 11, 12] if deep else [0, 1, 5, 7, 10, 11])
    parts = ['part %d' % i for i in range(count)]
    value = {'list': list, 'tuple': tuple, 'set': set, 'frozenset': frozenset, 'exception': lambda p: ValueError(*p),
             'dict': lambda p: dict(enumerate(p)), 'nested': lambda p: {'k': [list(p)]}}[kind](parts)
    limits = {'MAX_COLLECTION_SIZE': size if limit != 'default' else None}
    use = size if limit != 'default' else 10
    args = settings(x, limits, 'text' if limit == 'text' else 'value')
    for s in collect(x, {'v': value}, args):
        entry = s.var_lookup[s.frames[0].variables[0].vid]
        if kind == 'nested':
            entry = s.var_lookup[entry.children[0].vid]
            if use == 0:
                x.check(len(entry.children) == 0, 'nothing of the list')
                continue
            entry = s.var_lookup[entry.children[0].vid]
        have = len(entry.children)
        if kind == 'dict':
            x.check(have == count, 'all values of a dict')
            continue
        x.check(have <= use, 'size of the collection')
        x.check(x.eq(have, x.ite(use < count, use, count)) if x.symbolic else have == min(use, count), 'as many as allowed')
        got = [s.var_lookup[c.vid].value for c in entry.children]
        x.check(len(set(got)) == len(got) and set(got) <= set(parts), 'elements of the collection')
        if kind in ('list', 'tuple'):
            x.check(got == parts[:have], 'the first elements')
        if kind != 'exception':
            x.check(entry.value == 'Size: %d' % count, 'the number of elements')
    x.reached('end')


def frames(x):
    """The budget is for all frames and watches of the snapshot."""
    deep = x.tier == 'thorough'
    most = x.int('max variables', 0, 12)
    depth = x.int('max depth', 1, 4)
    shape = x.pick('shape', ['list', 'dict', 'object'])
    top, caller = new(shape), new(shape)
    for i in range(2):
        put(top, i, ['top %d' % i])
        put(caller, i, ['caller %d' % i])
    common = ['common']
    locals0, locals1 = {'a': top, 's': 'simple'}, {'b': caller, 't': 'simple 2', 'common': common}
    if x.flag('common'):
        locals0['common'] = common
    watches = x.pick('watches', [[], ['a'], ['make()'], ['make()', 'caller()', 's'], ['[a, s, 5, "w"]']] if deep else
                     [[], ['a', 'make()'], ['make()', 's', '[a, s, 5, "w"]']])
    back = Frame('/app/app.py', 'g', 20, locals1)
    args = dict(MANY, frame_type='all_frame', MAX_VARIABLES=most, MAX_VAR_DEPTH=depth)
    log = x.flag('log')
    if log:
        args['log_msg'] = '{make()} {s} {missing}'
    rig = Rig(x, plugins=[])
    rig.install(tp('t', 'app.py', 10, args, watches=watches))
    frame = Frame('/app/app.py', 'f', 10, locals0, back=back)
    frame.f_globals.update(make=lambda: ['made', ['made too']], caller=lambda: caller)
    with x.no_raise('trace'):
        rig.fire(frame)
    x.check(len(rig.rec.snapshots) == 1, 'a snapshot')
    for s in rig.rec.snapshots:
        limits = {'MAX_VARIABLES': most, 'MAX_VAR_DEPTH': depth, 'MAX_COLLECTION_SIZE': 10}
        measure(x, s, [(locals0, s.frames[0].variables), (locals1, s.frames[1].variables)], limits, 'frames')
        for w in s.watches:
            # from a watch nothing is deeper
            level, d, seen, ok = [w.result] if w.result else [], 0, set(), True
            while level:
                following = []
                for ref in level:
                    if ref.vid not in seen and ref.vid in s.var_lookup:
                        seen.add(ref.vid)
                        ok = ok and d < max(depth, 1)
                        following += s.var_lookup[ref.vid].children
                level, d = following, d + 1
            x.check(ok, 'depth of a watch')
    x.reached('end')


def wide(x):
    """Large data with the default limits, or some of them."""
    count = x.pick('count', [20, 999, 1000, 1001, 1500])
    shape = x.pick('shape', ['locals', 'dict', 'object', 'lists', 'deep', 'long'])
    how = x.pick('limits', ['default', 'small', 'bad'])
    values = ['value %d' % i for i in range(count)]
    if shape == 'locals':
        f_locals = {'v%d' % i: v for i, v in enumerate(values)}
    elif shape == 'dict':
        f_locals = {'big': {i: [v] for i, v in enumerate(values)}, 'last': 'simple'}
    elif shape == 'object':
        thing = Thing()
        for i, v in enumerate(values):
            setattr(thing, 'a%d' % i, v)
        f_locals = {'big': thing, 'last': 'simple'}
    elif shape == 'lists':
        f_locals = {'big': [[[v, v + 'x'] for v in values[i:i + 12]] for i in range(0, count, 12)], 'last': 'simple'}
    elif shape == 'deep':
        value = ['end']
        for i in range(count):
            value = [value]
        f_locals = {'big': value, 'last': 'simple'}
    else:
        f_locals = {'big': 'x' * (count + 24), 'last': 'simple'}
    given = {'default': {}, 'small': {'MAX_VARIABLES': '15', 'MAX_VAR_DEPTH': '3', 'MAX_COLLECTION_SIZE': '4', 'MAX_STRING_LENGTH': '30'},
             'bad': {'MAX_VARIABLES': 'x', 'MAX_VAR_DEPTH': None, 'MAX_COLLECTION_SIZE': '-1', 'MAX_STRING_LENGTH': ''}}[how]
    limits = {k: (int(given[k]) if how == 'small' else v) for k, v in LIMITS.items()}
    for s in collect(x, f_locals, dict(MANY, **given)):
        measure(x, s, [(f_locals, s.frames[0].variables)], limits, 'wide')
        if len(f_locals) <= limits['MAX_VARIABLES']:
            x.check([v.name for v in s.frames[0].variables] == list(f_locals), 'all locals')
        longest = limits['MAX_STRING_LENGTH']
        x.check(all(len(v.value) <= longest for v in s.var_lookup.values()), 'length of the values')
        if shape == 'long':
            v = s.var_lookup[s.frames[0].variables[0].vid]
            x.check(v.value == 'x' * min(longest, count + 24) and v.truncated == (count + 24 > longest), 'the long text')
    x.reached('end')


HARNESSES = [
    H(shapes, '0..9 (thorough 14) variables, depth 0..4 (5), 0..3 (4) elements (any of them); 4 locals with a structure of 5 kinds in 3, in '
              'any order', weight=3),
    H(shared, '0..9 variables, depth 1..5 (any of them); 4 objects with any 3 (thorough 5) edges between them', weight=3),
    H(strings, 'any limit 0..8, any text of 0..6 (thorough 8) characters at 9 places'),
    H(sizes, 'any limit 0..6, or the default; 7 kinds of 0..11 elements'),
    H(frames, '2 frames, 0..12 variables, depth 1..4 (any of them), watches and a log message', weight=2),
    H(wide, '5 sizes from 20 to 1500 of 6 shapes with 3 sets of limits'),
]
BUDGET = {'quick': 60, 'thorough': 600}
