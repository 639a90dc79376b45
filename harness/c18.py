"""The identity of the client: the attribute store and the resources are executed over symbolic histories of operations.

The store is compared with a model after each of the operations, the resource with the sources that it is made from.
"""
import collections
import os

from deep.api.attributes import BoundedAttributes
from deep.api.deep import Deep
from deep.api.plugin import ResourceProvider
from deep.api.resource import Resource, ResourceDetector, get_aggregated_resources
from deep.api.tracepoint import EventSnapshot
from deep.config import ConfigService
from harness.agent import Agent, Channel, Inline
from harness.common import tp
from vx.sched import Sched
from vx.spec import H

TECHNIQUE = 'symbolic execution of the real source with z3 (path exploration, solver-decided branches and schedules, replayed models)'
STUBS = 'environment variables, gRPC channel; in agent: trace hooks and the poll timer are not started'
OUTSIDE = 'more operations than the bounds; empty service names from plugins; whether invalid values count as drops when the capacity is 0'

KEYS = ['a', 'b', 'c', 'd', 'e', 'f', 'g']


class Model:
    """The store as it should be."""

    def __init__(self, capacity):
        self.items, self.dropped, self.capacity = [], 0, capacity

    def find(self, key):
        for i, (k, _) in enumerate(self.items):
            if k == key:
                return i
        return None

    def set(self, key, value):
        if self.capacity == 0:
            self.dropped += 1
            return
        at = self.find(key)
        if at is not None:
            del self.items[at]
        elif self.capacity is not None and len(self.items) >= self.capacity:
            del self.items[0]
            self.dropped += 1
        self.items.append((key, value))


def same(x, store, model, what):
    items = list(store.items())
    x.check(len(store) == len(model.items) == len(items), '%s: number of attributes' % what)
    x.check([k for k, _ in items] == [k for k, _ in model.items], '%s: keys' % what)
    x.check(x.conj([x.eq(v, w) for (_, v), (_, w) in zip(items, model.items)]), '%s: values' % what)
    x.check(x.eq(store.dropped, model.dropped), '%s: dropped' % what)
    if model.capacity is not None:
        x.check(len(store) <= model.capacity, '%s: more than the capacity' % what)


def eviction(x):
    """Any sequence of changes in a store of any capacity."""
    steps = 6 if x.tier == 'thorough' else 4
    capacity = x.int('capacity', 0, 3) if x.flag('limited') else None
    store = BoundedAttributes(max_length=capacity, immutable=False)
    model = Model(capacity)
    used = 0
    for i in range(steps):
        # a key that was not used before is like any other
        op = x.pick('op%d' % i, ['set', 'delete', 'invalid'])
        k = 0 if op == 'invalid' else x.index('key%d' % i, min(used + 1, len(KEYS)))
        used = max(used, k + 1)
        key = KEYS[k]
        if op == 'set':
            value = x.int('value%d' % i, -5, 5)
            store[key] = value
            model.set(key, value)
        elif op == 'invalid':
            x.assume(capacity is None or capacity > 0)
            store[key] = object()
        else:
            at = model.find(key)
            try:
                del store[key]
                x.check(at is not None, 'a missing key is deleted')
            except KeyError:
                x.check(at is None, 'a key is not deleted')
            if at is not None:
                del model.items[at]
        same(x, store, model, 'after a change')
    x.reached('end')


def initial(x):
    """Stores that are created, updated and merged with more than they can hold."""
    capacity = x.index('capacity', 5)
    first, second = x.index('first', 5), x.index('second', 5)
    shift = x.index('shift', 4)
    values = [x.int('v%d' % i, -5, 5) for i in range(10)]
    given = dict(zip(KEYS[:first], values))
    more = dict(zip(KEYS[shift:shift + second], values[5:]))
    model = Model(capacity)
    for k, v in given.items():
        model.set(k, v)
    store = BoundedAttributes(capacity, given, immutable=False)
    same(x, store, model, 'created')
    how = x.pick('how', ['merge', 'update', 'merge store', 'setdefault'])
    if how == 'merge':
        store.merge_in(more)
    elif how == 'update':
        store.update(more)
    elif how == 'merge store':
        other = BoundedAttributes(attributes=more)
        store.merge_in(other)
        x.check(dict(other.items()) == more or x.symbolic, 'what is merged is changed')
        x.check(x.conj([x.eq(other[k], v) for k, v in more.items()]), 'what is merged is changed')
    else:
        for k, v in more.items():
            store.setdefault(k, v)
    for k, v in more.items():
        if how != 'setdefault' or model.find(k) is None:
            model.set(k, v)
    same(x, store, model, how)
    frozen = store.copy()
    before = list(store.items())
    frozen['other'] = 1
    x.check('other' not in store and len(store) == len(before), 'a copy is not independent')
    x.reached('end')


def large(x):
    """Stores that hold many, and long sequences."""
    parts = x.combine({'capacity': [5, 6, 9, 16, 17, 64, 128], 'limited': [True, False], 'over': [2, 0, 1], 'again': [None, 0, 1, 4], 'gone': [None, 0, 2],
                       'size': [5, 1, 4, 8, 20, 33, 129], 'bad': [object(), 'text', None, 1.5, True, 'list'], 'at': [-1, 0, 1], 'texts': [False, True], 'max': [None, 3]}, 2)
    capacity, limited, over, again, gone, size = [parts[k] for k in ('capacity', 'limited', 'over', 'again', 'gone', 'size')]
    v = x.int('value', -5, 5)
    most = parts['max']
    store, model = BoundedAttributes(capacity if limited else None, immutable=False, max_value_len=most), Model(capacity if limited else None)
    elements = ['text %d' % i for i in range(size)] if parts['texts'] else [v] * size
    for i in range(capacity + over):
        key = 'key %d' % i
        store[key] = list(elements) if i == 2 else v
        model.set(key, tuple(cut(e, most) for e in elements) if i == 2 else v)
        if i == 4 and again is not None:
            store['key %d' % again] = 'again'
            model.set('key %d' % again, cut('again', most))
        if i == 4 and gone is not None:
            del store['key %d' % gone]
            del model.items[model.find('key %d' % gone)]
    same(x, store, model, 'many')
    bad = [v] * size
    bad[parts['at'] % size] = [v] if parts['bad'] == 'list' else parts['bad']
    store['key bad'] = bad
    if any(b is None for b in bad) or size == 1 and parts['bad'] in ('text', 1.5, True):
        model.set('key bad', tuple(bad))
    same(x, store, model, 'many and a sequence')
    x.reached('end')


class Text(str):
    """A kind of text."""


ELEMENTS = [None, True, 0, 7, 1.5, 'ab', 'abcd', b'abc', b'\xff', object(), ['a'], float('nan')]
PLAIN = (bool, str, bytes, int, float)


def cut(value, limit):
    """The cleaned form of one value, None if it is not valid."""
    if isinstance(value, bytes):
        try:
            value = value.decode('utf-8')
        except UnicodeDecodeError:
            return None
    if isinstance(value, str) and limit is not None:
        return value[:limit]
    return value


def cleaned(value, limit):
    """The value as it has to be stored, None if it is not valid."""
    if isinstance(value, PLAIN):
        return cut(value, limit)
    if not isinstance(value, collections.abc.Sequence):
        return None
    out = [cut(e, limit) for e in value]
    kinds = {type(e) for e in out if e is not None}
    if len(kinds) > 1 or not kinds <= set(PLAIN):
        return None
    return tuple(out)


def equal(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, tuple):
        return len(a) == len(b) and all(equal(p, q) for p, q in zip(a, b))
    return a == b or a != a and b != b


def single(x):
    """Values that are not sequences, and the keys."""
    limit = x.pick('limit', [None, 0, 1, 3, 4, 5, 50])
    value = x.pick('value', ELEMENTS + [{'a': 1}, {1, 2}, iter([1]), range(3), Text('abcdef'), b'', '', b'\xc3\xa4\xc3\xa4', (), [],
                                        bytearray(b'ab'), collections.deque(['a', 'b']), 2 ** 80, -0.0])
    key = x.pick('key', ['k', '', None, 5, b'k', ('k',), 'other key', [], Text('t')])
    store = BoundedAttributes(attributes={'first': 1}, immutable=False, max_value_len=limit)
    with x.no_raise('set'):
        store[key] = value
    expected = cleaned(value, limit)
    if isinstance(key, str) and key and expected is not None:
        x.check(len(store) == 2 and equal(store[key], expected), 'the value is stored')
    else:
        x.check(list(store.items()) == [('first', 1)], 'an invalid attribute is stored')
    x.check(store.dropped == 0, 'nothing is dropped')
    x.reached('end')


def text(x):
    """Any text, cut to any limit."""
    size = x.index('size', 6)
    value = x.str('text', size)
    limit = x.int('limit', 0, 7)
    store = BoundedAttributes(immutable=False, max_value_len=limit)
    store['k'] = value
    store['l'] = [value, value]
    n = min(int(limit), size)
    x.check(x.eq(store['k'], value[:n]), 'text is cut to the limit')
    x.check(x.eq(store['l'], (value[:n], value[:n])), 'text of a sequence is cut to the limit')
    x.reached('end')


def sequences(x):
    """Sequences of any valid and invalid elements."""
    limit = x.pick('limit', [None, 0, 2, 3])
    size = x.index('size', 4)
    values = [x.pick('e%d' % i, ELEMENTS) for i in range(size)]
    source = (x.pick('kind', [list, tuple, collections.deque]) if size < 3 else list)(values)
    store = BoundedAttributes(attributes={'k': 'old'}, immutable=False, max_value_len=limit)
    with x.no_raise('set'):
        store['k'] = source
    expected = cleaned(values, limit)
    if expected is None:
        expected = 'old'[:limit]
    x.check(equal(store['k'], expected), 'the sequence is stored')
    if isinstance(source, list):
        source.append('later')
        x.check(equal(store['k'], expected), 'the sequence is frozen')
    x.reached('end')


CHANGES = [
    lambda s, k: s.__setitem__(k, 'new'),
    lambda s, k: s.__delitem__(k),
    lambda s, k: s.pop(k),
    lambda s, k: s.popitem(),
    lambda s, k: s.update({k: 'new'}),
    lambda s, k: s.merge_in({k: 'new'}),
    lambda s, k: s.clear(),
    lambda s, k: s.setdefault('new', k),
    lambda s, k: s.merge_in(BoundedAttributes(attributes={k: 'x', 'new': 'y'})),
]


def frozen(x):
    """Frozen stores, and those of resources."""
    n, capacity = 1 + x.index('n', 3), x.index('capacity', 4)
    given = {KEYS[i]: 'v%d' % i for i in range(n)}
    kind = x.pick('kind', ['store', 'limited', 'resource', 'merged', 'created'])
    if kind == 'store':
        store = BoundedAttributes(attributes=given)
    elif kind == 'limited':
        store = BoundedAttributes(1 + capacity, given, immutable=True)
    elif kind == 'resource':
        store = Resource(given).attributes
    elif kind == 'merged':
        store = Resource({}).merge(Resource(given)).attributes
    else:
        store = Resource.create(given).attributes
    before, dropped = list(store.items()), store.dropped
    for change in [x.pick('change%d' % i, CHANGES) for i in range(2 if x.tier == 'thorough' else 1)]:
        key = x.pick('key', [before[0][0], 'missing'])
        try:
            change(store, key)
            x.check(False, 'a frozen store accepts a change')
        except (TypeError, KeyError) as e:
            x.check(isinstance(e, TypeError) or key == 'missing', 'the change is rejected')
        x.check(list(store.items()) == before and store.dropped == dropped, 'a frozen store is changed')
    x.reached('end')


def merge(x):
    """Merging resources that have any keys and schemas."""
    values = [x.int('v%d' % i, -9, 9) for i in range(9)]
    schemas = ['', 'one', 'two']
    parts, given = [], []
    for i in range(3):
        keys = [k for k in range(3) if x.flag('r%d.%s' % (i, KEYS[k]))]
        attrs = {KEYS[k]: values[3 * i + k] for k in keys}
        given.append(attrs)
        parts.append(Resource(attrs, x.pick('schema%d' % i, schemas) if i < 2 else ''))
    first, second, third = parts
    before = [(dict(p.attributes.items()), p.schema_url, p.attributes.dropped) for p in parts]
    merged = None
    with x.no_raise('merge'):
        merged = first.merge(second)
        last = merged.merge(third)
    for p, (attrs, schema, dropped), g in zip(parts, before, given):
        x.check(x.eq(dict(p.attributes.items()), g) and p.schema_url == schema and p.attributes.dropped == dropped == 0,
                'a merge changes an operand')
    if merged is None:
        return
    clash = first.schema_url and second.schema_url and first.schema_url != second.schema_url
    expected = dict(given[0])
    if not clash:
        expected.update(given[1])
        x.check(merged is not first and merged is not second, 'a merge creates a resource')
    x.check(x.eq(dict(merged.attributes.items()), expected), 'later attributes override earlier ones')
    x.check(merged.schema_url == (first.schema_url or ('' if clash else second.schema_url)), 'schema of a merge')
    expected.update(given[2])
    x.check(x.eq(dict(last.attributes.items()), expected), 'later attributes override earlier ones')
    x.reached('end')


IDENTITY = {'telemetry.sdk.language': 'python', 'telemetry.sdk.name': 'deep'}
ENV_ITEMS = ['service.name=from env', 'a=1', 'b=x%20y', ' c = d=e ', 'telemetry.sdk.name=other', 'broken', '=v', 'a=2',
             'service.name=', 'process.executable.name=run']

def decoded(text):
    """Percent decoding, as in RFC 3986."""
    out, i = bytearray(), 0
    while i < len(text):
        code = text[i + 1:i + 3]
        if text[i] == '%' and len(code) == 2 and all(c in '0123456789abcdefABCDEF' for c in code):
            out.append(int(code, 16))
            i += 3
        else:
            out += text[i].encode()
            i += 1
    return out.decode('utf-8', 'replace')


def parsed(text, attrs):
    """The attributes of the variable."""
    for item in text.split(','):
        key, eq, value = item.partition('=')
        key, value = key.strip(), value.strip()
        if eq and key:
            attrs[key] = decoded(value)


def check_identity(x, attrs, sources, what):
    expected = dict(IDENTITY)
    for s in sources:
        expected.update(s)
    if not expected.get('service.name'):
        name = expected.get('process.executable.name')
        expected['service.name'] = 'unknown_service:' + (name or 'python')
    for k, v in expected.items():
        x.check(k in attrs and attrs[k] == v, '%s: %s is %r, not %r' % (what, k, attrs.get(k), v))
    x.check(attrs.get('telemetry.sdk.version'), '%s: no version' % what)
    return expected


def created(x):
    """The resource from the environment and from code."""
    items = [x.pick('item%d' % i, [None] + ENV_ITEMS) for i in range(3 if x.tier == 'thorough' else 2)]
    env, from_env = {}, {}
    if any(items):
        env['DEEP_RESOURCE_ATTRIBUTES'] = ','.join(i for i in items if i is not None)
        parsed(env['DEEP_RESOURCE_ATTRIBUTES'], from_env)
    name = x.pick('name', [None, '', 'named'])
    if name is not None:
        env['DEEP_SERVICE_NAME'] = name
        if name:
            from_env['service.name'] = name
    x.patch(os, 'environ', env)
    code = x.pick('code', [None, {}, {'service.name': 'from code'}, {'a': 'code', 'telemetry.sdk.language': 'x'},
                           {'process.executable.name': 'exe'}, {'service.name': ''}])
    r = None
    with x.no_raise('create'):
        r = Resource.create(code)
    if r is not None:
        expected = check_identity(x, dict(r.attributes.items()), [from_env, code or {}], 'created')
        x.check(set(r.attributes) == set(expected) | {'telemetry.sdk.version'}, 'only these attributes')
        x.check(len(Resource({}).attributes) == 0 and len(Resource.get_empty().attributes) == 0, 'the empty resource is changed')
    again = Resource.create()
    check_identity(x, dict(again.attributes.items()), [from_env], 'created again')
    x.reached('end')


def variable(x):
    """Any text as the variable of the attributes."""
    size = x.index('size', 7 if x.tier == 'thorough' else 6)
    value = ''.join(x.pick('c%d' % i, 'k=, ') for i in range(size))
    x.patch(os, 'environ', {'DEEP_RESOURCE_ATTRIBUTES': value})
    expected = {}
    parsed(value, expected)
    r = None
    with x.no_raise('create'):
        r = Resource.create()
    if r is not None:
        attrs = dict(r.attributes.items())
        expected = check_identity(x, attrs, [expected], 'created')
        x.check(set(attrs) == set(expected) | {'telemetry.sdk.version'}, 'only these attributes')
    x.reached('end')


ESCAPES = ['x', '+', '%20', '%2C', '%3d', '%', '%c3%a9', ' ', 'é', '=', '%%41', '"', ',']


def escapes(x):
    """Values with escapes in the variable of the attributes."""
    size = x.index('size', 4 if x.tier == 'thorough' else 3) + 1
    value = 'k=' + ''.join(x.pick('t%d' % i, ESCAPES) for i in range(size))
    x.patch(os, 'environ', {'DEEP_RESOURCE_ATTRIBUTES': value})
    expected = {}
    parsed(value, expected)
    r = None
    with x.no_raise('create'):
        r = Resource.create()
    if r is not None:
        attrs = dict(r.attributes.items())
        expected = check_identity(x, attrs, [expected], 'created')
        x.check(set(attrs) == set(expected) | {'telemetry.sdk.version'}, 'only these attributes')
    x.reached('end')


def many(x):
    """Resources with many attributes, in the variable and in the code."""
    deep = x.tier == 'thorough'
    sizes = [1, 17, 65, 129, 257] + ([31, 33, 63, 127, 255, 511, 1025] if deep else [])
    in_env, in_code = x.pick('in env', sizes), x.pick('in code', sizes)
    shared = x.pick('shared', [0, 1, 17])
    again = x.flag('again')
    env = ['k%d=v%d' % (i, i) for i in range(in_env)]
    if again:
        env.append('k0=last')
    x.patch(os, 'environ', {'DEEP_RESOURCE_ATTRIBUTES': ','.join(env)})
    expected, code = {}, {'k%d' % (in_env - shared + i): 'c%d' % i for i in range(in_code)}
    parsed(','.join(env), expected)
    r = None
    with x.no_raise('create'):
        r = Resource.create(dict(code))
        r = r.merge(Resource({'m%d' % i: 'm%d' % i for i in range(in_code)}))
    if r is not None:
        merged = {'m%d' % i: 'm%d' % i for i in range(in_code)}
        attrs = dict(r.attributes.items())
        expected = check_identity(x, attrs, [expected, code, merged], 'created')
        x.check(set(attrs) == set(expected) | {'telemetry.sdk.version'}, 'only these attributes')
    x.reached('end')


class Provider(ResourceProvider):
    """A plugin that provides attributes."""
    attrs = None
    place = 0

    def resource(self):
        if isinstance(self.attrs, Exception):
            raise self.attrs
        return None if self.attrs is None else Resource(self.attrs)

    def order(self):
        return self.place


class Provider2(Provider):
    """Another one."""
    attrs = None


PROVIDED = [None, {'a': 'plugin', 'service.name': 'from plugin'}, {'a': 'plugin', 'b': b'bytes', 'c': ['x', 'y'], 'bad': object()},
            {'telemetry.sdk.name': 'from plugin', 'python_version': '0'}, ValueError('failed'), {}]


def agent(x):
    """The resource that is in the polls and snapshots of a started agent."""
    env, from_env = {}, {}
    text = x.pick('env', [None, 'a=env,service.name=from env', 'd=env'])
    if text:
        env['DEEP_RESOURCE_ATTRIBUTES'] = text
        parsed(text, from_env)
    if x.flag('name'):
        env['DEEP_SERVICE_NAME'] = from_env['service.name'] = 'named'
    x.patch(os, 'environ', env)
    Provider.attrs, Provider.place = x.pick('first', PROVIDED), x.index('first order', 2)
    Provider2.attrs, Provider2.place = x.pick('second', PROVIDED), x.index('second order', 2)
    channel = Channel(x)
    a = Agent(x, channel=channel, config={'PLUGINS': [__name__ + '.Provider', __name__ + '.Provider2']})
    deep = a.deep
    x.patch(deep.trigger_handler, 'start', lambda: None)
    x.patch(deep.poll, 'start', lambda: None)
    x.patch(deep, 'task_handler', Inline())
    deep.push.task_handler = deep.task_handler
    with x.no_raise('start'):
        deep.start()
    ordered = sorted([(Provider.place, Provider.attrs), (Provider2.place, Provider2.attrs)], key=lambda o: o[0])
    given = [{k: cleaned(v, None) for k, v in attrs.items() if cleaned(v, None) is not None}
             for _, attrs in ordered if isinstance(attrs, dict)]
    deep.poll.poll()
    tracepoint = tp('t').actions[0].tracepoint
    deep.push.push_snapshot(EventSnapshot(tracepoint, 1, a.config.resource, [], {}))
    x.check(len(channel.polls) == 1 and len(channel.snapshots) == 1, 'the poll and the snapshot are sent')
    for what, values in (('poll', channel.polls[0].resource.attributes), ('snapshot', channel.snapshots[0].resource)):
        attrs = {}
        for kv in values:
            kind = kv.value.WhichOneof('value')
            attrs[kv.key] = tuple(e.string_value for e in kv.value.array_value.values) if kind == 'array_value' \
                else kv.value.string_value
        check_identity(x, attrs, [from_env] + given, what)
        x.check('bad' not in attrs, 'invalid attributes')
    x.reached('end')


class Detector(ResourceDetector):
    """A source of attributes."""

    def __init__(self, attrs):
        super().__init__()
        self.attrs = attrs

    def detect(self):
        if self.attrs is None:
            raise ValueError('failed')
        return Resource(self.attrs)


def detectors(x):
    """Resources from a list of sources."""
    given = [x.pick('source%d' % i, [None, {}, {'a': i}, {'a': i, 'b%d' % i: 'x'}, {'service.name': 's%d' % i}]) for i in range(3)]
    initial = x.pick('initial', [{}, {'a': 'first', 'c': 'c'}])
    x.patch(os, 'environ', {})
    r = None
    start = Resource(initial)
    with x.no_raise('aggregate'):
        r = get_aggregated_resources([Detector(g) for g in given], start)
    expected = dict(initial)
    for g in given:
        expected.update(g or {})
    if r is not None and (initial or x.symbolic):
        if initial:
            x.check(dict(r.attributes.items()) == expected, 'later sources override earlier ones')
    x.check(dict(start.attributes.items()) == initial, 'the initial resource is changed')
    x.reached('end')


def threads(x):
    """Threads that change a store together."""
    capacity = 1 + x.index('capacity', 2)
    store = BoundedAttributes(capacity, {'x': 0, 'y': 0}, immutable=False)
    same_key = x.flag('same key')
    with Sched(x, preemptions=2 if x.tier == 'thorough' else 1, lines=True, only=('deep/api/attributes',)) as s:
        def change(i):
            store['k' if same_key else 'k%d' % i] = i
            x.check(len(store) <= capacity, 'more than the capacity')
            store['l%d' % i] = i
        s.spawn(change, 1)
        s.spawn(change, 2)
        s.go()
        x.check(not s.deadlock, 'deadlock')
    x.check(len(store) <= capacity, 'more than the capacity')
    # every key that was stored is there, or was dropped
    distinct = 5 if same_key else 6
    total = len(store) + store.dropped
    x.check(total == distinct or same_key and total == distinct + 1, 'drops are counted')
    x.reached('end')


HARNESSES = [
    H(eviction, 'capacity none or 0..3, every sequence of 4 (thorough 6) sets, deletes and invalid sets of any keys, any small ints', weight=3),
    H(initial, 'capacity 0..4, created with 0..4 attributes, 0..4 more by update, merge_in or setdefault that share 0..4 keys'),
    H(large, 'pairs of: capacity 7 of 5..128 or none, up to 2 more, one of the first set again or deleted, sequences of 7 lengths 1..129 with an element of 6 kinds in 3 places', weight=2),
    H(single, '26 values x 9 keys x 7 limits'),
    H(text, 'any text of 0..5 code points, limit 0..7'),
    H(sequences, 'lists of 0..3 and tuples and deques of 0..2 elements of %d kinds, 4 limits' % len(ELEMENTS), weight=2),
    H(frozen, '5 kinds of frozen stores, one (thorough: every pair) of %d changes' % len(CHANGES)),
    H(merge, '3 resources with any of 3 keys, 3 x 3 schemas', weight=2),
    H(created, '2 (thorough 3) items of %d in the variable, 3 service names, 6 code provided' % len(ENV_ITEMS)),
    H(variable, 'any text of 0..5 (thorough 6) of k = comma space'),
    H(escapes, 'a value of 1..3 (thorough 4) of %d tokens with percent escapes, signs and spaces' % len(ESCAPES)),
    H(many, '5 (thorough 12) numbers of attributes of 1..257 (1025) in the variable, and in the code and merged, 3 numbers of shared keys'),
    H(agent, '3 environments, service name set or not, 2 plugins of %d kinds in both orders' % len(PROVIDED)),
    H(detectors, '3 sources of 5 kinds, 2 initial resources'),
    H(threads, '2 threads with 2 sets each, capacity 1..2, any schedule with 1 (thorough 2) preemptions at any line of the store'),
]
