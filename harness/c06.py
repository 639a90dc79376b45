"""Collection is total: any value at any place is recorded or replaced by a placeholder, next to values that stay intact.

The kinds of values, the places and the methods that fail are decided by the solver, the neighbours are symbolic.
"""
import array
import collections
import contextvars
import ctypes
import dataclasses
import datetime
import decimal
import dis
import enum
import fractions
import functools
import io
import itertools
import operator
import pathlib
import re
import threading
import types
import typing
import uuid
import weakref

from deep.api.attributes import BoundedAttributes
from deep.api.tracepoint.tracepoint_config import LabelExpression, MetricDefinition
from deep.push import convert_snapshot
from harness.common import Frame, Logger, Rig, SnapshotDecorator, load, line_of, tp, traced
from harness.graph import Reading, differences
from vx.spec import H

TECHNIQUE = 'symbolic execution of the real source with z3 (path exploration, solver-decided kinds, faults and places, replayed models)'
STUBS = 'delivery records the snapshots; paused frames are stand-ins, except in bodies; protobuf messages are stand-ins with the rules of ' \
        'the descriptors (the real ones in a replay)'
OUTSIDE = 'values of extension types that are not installed here; values that never return from a method, end the process or change ' \
          'the neighbours; the text of a placeholder; frames whose locals cannot be listed keep their place, without variables'

MANY = {'fire_count': '-1', 'fire_period': '0'}
RETURN, RERAISE = dis.opmap['RETURN_VALUE'], dis.opmap['RERAISE']
ANY = object()


def fail(*args, **kwargs):
    raise ValueError('not now')


class Odd(BaseException):
    def __str__(self):
        raise RuntimeError('no text')
    __repr__ = __str__


def odd(*args, **kwargs):
    raise Odd()


def quit_(*args, **kwargs):
    raise KeyboardInterrupt()


def leave(*args, **kwargs):
    raise SystemExit(3)


def stop(*args, **kwargs):
    raise StopIteration()


def recurse(*args, **kwargs):
    return recurse(*args)


def lookup(*args, **kwargs):
    raise KeyError('missing')


def none(*args, **kwargs):
    return None


def number(*args, **kwargs):
    return -7


class Text(str):
    """A text whose methods cannot be used."""
    __str__ = __repr__ = __len__ = __getitem__ = __iter__ = __format__ = __add__ = __mod__ = fail
    startswith = encode = split = strip = endswith = replace = fail


def text(*args, **kwargs):
    return Text('a text')


def hidden():
    class Meta(type):
        """A class without a name."""
        __name__ = property(fail)
        __repr__ = __str__ = __eq__ = __instancecheck__ = __subclasscheck__ = fail
        __hash__ = type.__hash__

        def __getattribute__(cls, name):
            raise ValueError(name)

    class Hidden(metaclass=Meta):
        pass
    return Hidden


def equal_type():
    class Meta(type):
        """A class that is equal to all others."""

        def __eq__(cls, other):
            return True
        __hash__ = type.__hash__

    class Equal(metaclass=Meta):
        pass
    return Equal()


class Empty:
    pass


class Slots:
    __slots__ = ('a', 'b')

    def __init__(self):
        self.a = 1


class Color(enum.Enum):
    RED = 'red'


class Level(enum.IntEnum):
    LOW = 1


class Bits(enum.Flag):
    A = 1
    B = 2


@dataclasses.dataclass
class Data:
    a: int = 1
    b: list = dataclasses.field(default_factory=list)


class Named(typing.NamedTuple):
    a: int
    b: str


class Everything:
    """Any attribute can be read, and called."""

    def __getattr__(self, name):
        return Everything()

    def __call__(self, *args, **kwargs):
        return Everything()


class Proxy:
    """A proxy for another object."""
    __slots__ = ('_to',)

    def __init__(self, to):
        object.__setattr__(self, '_to', to)

    def __getattribute__(self, name):
        return getattr(object.__getattribute__(self, '_to')(), name)


class Refuses:
    def __str__(self):
        return 'refuses'

    def __getattribute__(self, name):
        raise AttributeError(name)


class Property:
    @property
    def broken(self):
        raise ValueError('broken')


class Keys(dict):
    keys = values = items = __iter__ = __len__ = __getitem__ = __contains__ = get = fail


class Elements(list):
    __iter__ = __len__ = __getitem__ = __str__ = __repr__ = fail


class Number(int):
    __str__ = __repr__ = __index__ = __int__ = __eq__ = __hash__ = __bool__ = fail


class Unhashable:
    __hash__ = None


class Never:
    __eq__ = __ne__ = __bool__ = __len__ = fail
    __hash__ = object.__hash__

    def __str__(self):
        return 'never'


class NoText(Exception):
    __str__ = __repr__ = fail


class Quiet(Exception):
    def __str__(self):
        return 'quiet'


class OwnArgs(Exception):
    args = property(fail)


class OtherArgs(Exception):
    args = 5


class Chain(Exception):
    __cause__ = __context__ = __traceback__ = property(fail)


def named(name, **attrs):
    """An instance of a class with the name of another type."""
    return type(name, (), dict(attrs))()


def with_attrs(attrs):
    v = Empty()
    vars(v).update(attrs)
    return v


def with_dict(value):
    """An object that has something else as its attributes."""
    class Other:
        __slots__ = ()
        __dict__ = property(lambda self: value() if callable(value) else value)

        def __str__(self):
            return 'other'
    return Other()


def with_class(value):
    class Other:
        __class__ = property(value)

        def __str__(self):
            return 'other'
    return Other()


def generate():
    yield 1
    yield 2


async def asynchronous():
    yield 1


async def coroutine():
    return 1


def closed(v):
    v.close()
    return v


def released():
    m = memoryview(b'abc')
    m.release()
    return m


def dead():
    return weakref.proxy(Empty())


def cyclic_list():
    v = [1]
    v.append(v)
    return v


def cyclic_object():
    v = with_attrs({'me': None})
    v.me = {'v': v}
    return v


def nested(n):
    v = []
    for _ in range(n):
        v = [v]
    return v


def nested_object(n):
    v = collections.deque()
    for _ in range(n):
        v = collections.deque([v])
    return v


def error_with(e):
    try:
        raise e
    except type(e) as x:
        return x


def running():
    holder = []

    def gen():
        holder.append(holder)
        yield holder
    g = gen()
    next(g)
    return g


def own_type(name):
    """A class whose type has another name."""
    return type(name, (type,), {})('Made', (), {})()


class Silent(type):
    """A class that has no text either."""
    __repr__ = __str__ = __format__ = fail


def silent(*bases):
    return Silent('Silent', bases, {'__str__': fail, '__repr__': fail})


def growing(kind):
    """A value that changes while it is read."""
    made = kind()

    class Grows:
        def __str__(self):
            if len(made) < 9:
                if isinstance(made, dict):
                    made[object()] = 1
                elif isinstance(made, set):
                    made.add(object())
                else:
                    made.append(1)
            return 'grows'
        __repr__ = __str__
    if isinstance(made, dict):
        made[Grows()] = made[5] = Grows()
    elif isinstance(made, set):
        made.update((Grows(), 5))
    else:
        made.extend((Grows(), Grows()))
    return made


def leaving():
    """Attributes that leave as they are read."""
    v = Empty()

    class Leaves:
        def __str__(self):
            vars(v).pop('b', None)
            return 'leaves'
        __repr__ = __str__
    v.a, v.b, v.c = Leaves(), Leaves(), 1
    return v


GOOD = {
    'bytes': lambda: b'\xff\x00abc', 'bytearray': lambda: bytearray(b'ab'), 'memoryview': lambda: memoryview(b'abc'), 'complex': lambda: 1 + 2j,
    'nan': lambda: float('nan'), 'infinity': lambda: float('-inf'), 'datetime': lambda: datetime.datetime(2020, 1, 2),
    'timedelta': lambda: datetime.timedelta(days=3), 'zone': lambda: datetime.timezone.utc, 'decimal': lambda: decimal.Decimal('1.50'),
    'fraction': lambda: fractions.Fraction(1, 3), 'deque': lambda: collections.deque([1, 2]), 'counter': lambda: collections.Counter('aab'),
    'ordered': lambda: collections.OrderedDict(a=1), 'default': lambda: collections.defaultdict(list, a=[1]),
    'chain': lambda: collections.ChainMap({'a': 1}), 'array': lambda: array.array('i', [1, 2]), 'range': lambda: range(5),
    'slice': lambda: slice(1, 2), 'ellipsis': lambda: ..., 'not implemented': lambda: NotImplemented, 'none': lambda: None,
    'enum': lambda: Color.RED, 'int enum': lambda: Level.LOW, 'flag': lambda: Bits.A | Bits.B, 'data class': Data,
    'named tuple': lambda: Named(1, 'b'), 'slots': Slots, 'object': object, 'type': lambda: int, 'own type': lambda: Data, 'abc': lambda: typing.Sized,
    'alias': lambda: list[int], 'type var': lambda: typing.TypeVar('T'), 'function': lambda: generate, 'lambda': lambda: lambda: 1,
    'builtin': lambda: len, 'method': lambda: 'a'.upper, 'bound': lambda: with_attrs({}).__init__, 'partial': lambda: functools.partial(len, []),
    'property': lambda: Property.broken, 'broken property': Property, 'descriptor': lambda: int.__add__, 'getter': lambda: operator.attrgetter('a'),
    'module': lambda: re, 'namespace': lambda: types.SimpleNamespace(a=1), 'proxy of dict': lambda: types.MappingProxyType({'a': 1}),
    'code': lambda: generate.__code__, 'keys': lambda: {'a': 1}.keys(), 'items': lambda: {1: 2}.items(), 'lock': threading.Lock,
    'event': threading.Event, 'thread': threading.current_thread, 'local': threading.local, 'weakref': lambda: weakref.ref(Empty()),
    'context': lambda: contextvars.ContextVar('c'), 'path': lambda: pathlib.PurePosixPath('/a'), 'uuid': lambda: uuid.UUID(int=5),
    'pattern': lambda: re.compile('a'), 'match': lambda: re.match('a', 'a'), 'buffer': lambda: io.BytesIO(b'a'),
    'closed buffer': lambda: closed(io.StringIO('a')), 'c value': lambda: ctypes.c_int(5), 'c array': lambda: (ctypes.c_int * 2)(1, 2),
    'generator': generate, 'running generator': running, 'async generator': asynchronous, 'closed coroutine': lambda: closed(coroutine()),
    'iterator': lambda: iter([1, 2]), 'reversed': lambda: reversed([1, 2]), 'tuple iterator': lambda: iter((1, 2)),
    'dict iterator': lambda: iter({'a': 1}), 'map': lambda: map(str, [1]), 'zip': lambda: zip([1]), 'filter': lambda: filter(None, [1]),
    'enumerate': lambda: enumerate([1]), 'count': itertools.count, 'cycle': lambda: itertools.cycle([1]), 'text iterator': lambda: iter('ab'),
    'error': lambda: ValueError('a', 5), 'raised': lambda: error_with(ValueError('a')), 'os error': lambda: OSError(2, 'no', 'file'),
    'key error': lambda: KeyError('k'), 'unicode error': lambda: UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'bad'),
    'group': lambda: ExceptionGroup('g', [ValueError('a')]), 'no args': lambda: StopIteration(), 'chained error': lambda: Chain('a'),
    'int keys': lambda: {1: 'a', 2: 'b'}, 'odd keys': lambda: {None: 1, (1, 2): 2, b'k': 3, 1.5: 4, True: 5, Color.RED: 6},
    'empty list': list, 'empty dict': dict, 'empty set': set, 'empty text': str, 'set': lambda: {1}, 'frozen': lambda: frozenset([1]),
    'int attributes': lambda: with_attrs({5: 1, None: 2}), 'odd attributes': lambda: with_attrs({'a-b': 1, '': 2, '__x': 3, '_': 4}),
    'class named list': lambda: named('list'), 'class named dict': lambda: named('dict'), 'class named str': lambda: named('str'),
    'class named tuple': lambda: named('tuple', __len__=lambda s: 3), 'class named iterator': lambda: named('list_iterator'),
    'class named exception': lambda: named('Exception'), 'class named None': lambda: named('NoneType'), 'class without name': lambda: named(''),
    'class with odd name': lambda: named('a b\n'), 'class of type list': lambda: own_type('list'), 'underscores': lambda: named('__', **{'a': 1}),
    'list subclass': lambda: type('MyList', (list,), {})([1]), 'dict subclass': lambda: type('MyDict', (dict,), {})(a=1),
    'set subclass': lambda: type('MySet', (set,), {})([1]), 'cyclic list': cyclic_list, 'cyclic object': cyclic_object,
    'nested': lambda: nested(50), 'future': lambda: type('Future', (), {'result': fail})(), 'control characters': lambda: 'a\x00\x07\x1b\r\n',
    'emoji': lambda: '\U0001f600', 'user list': lambda: collections.UserList([1]), 'user dict': lambda: collections.UserDict(a=1),
}

BAD = {
    'surrogate': lambda: 'a\ud800b', 'surrogate text of object': lambda: named('Thing', __str__=lambda s: 'a\udfff'),
    'surrogate in list': lambda: ['\udc80', 1], 'surrogate attribute': lambda: with_attrs({'a\ud800': 1}), 'surrogate key': lambda: {'\ud800': 1},
    'surrogate error': lambda: ValueError('\ud800'),
    'huge number': lambda: 10 ** 6000, 'released': released, 'dead proxy': dead, 'hidden': lambda: hidden()(), 'hidden class': hidden,
    'everything': Everything, 'proxy': lambda: Proxy(fail), 'proxy of list': lambda: Proxy(list), 'refuses': Refuses,
    'failing dict': Keys, 'failing list': lambda: Elements([1]), 'failing text': lambda: Text('zz'), 'failing number': lambda: Number(5),
    'unhashable': Unhashable, 'never equal': Never, 'no text': lambda: NoText('a'), 'raised without text': lambda: error_with(NoText('a')),
    'no arguments': lambda: OwnArgs('a'), 'other arguments': lambda: OtherArgs('a'), 'odd error': Odd, 'deep list': lambda: nested(3000),
    'deep deque': lambda: nested_object(3000), 'empty cell': lambda: types.CellType(),
    'attributes fail': lambda: with_dict(fail), 'attributes leave': lambda: with_dict(leave), 'attributes none': lambda: with_dict(None),
    'attributes number': lambda: with_dict(5), 'attributes list': lambda: with_dict([1]), 'attributes failing dict': lambda: with_dict(Keys(a=1)),
    'attributes of pairs': lambda: with_dict(type('Pairs', (), {'items': lambda s: [(1,), 2]})()),
    'attributes endless': lambda: with_dict(recurse), 'class fails': lambda: with_class(fail), 'class is other': lambda: with_class(lambda s: dict),
    'class is none': lambda: with_class(none), 'class is exception': lambda: with_class(lambda s: ValueError), 'class odd': lambda: with_class(odd),
    'bad format': lambda: named('Thing', __format__=fail, __repr__=fail), 'bad bool': lambda: named('Thing', __bool__=fail),
    'list with bad': lambda: [1, Refuses(), hidden()()], 'dict with bad': lambda: {'a': Elements(), 5: Keys()},
    'bad key': lambda: {named('Key', __str__=fail): 1}, 'odd key': lambda: {named('Key', __str__=odd, __repr__=odd): 1},
    'key of text': lambda: {Text('k'): 1}, 'attribute of text': lambda: with_attrs({Text('k'): 1}),
    'error with bad': lambda: ValueError(Refuses(), hidden()()), 'error of text': lambda: ValueError(Text('a')),
    'length': lambda: named('Thing', __len__=number), 'length fails': lambda: named('tuple', __len__=fail),
    'failing list name': lambda: named('list', __len__=fail, __iter__=fail), 'failing iterator name': lambda: named('list_iterator', __str__=fail),
    'failing dict name': lambda: named('dict', items=fail, __len__=fail), 'closed generator': lambda: closed(generate()), 'class name of text': lambda: type(Text('Name'), (), {})(), 'equal type': equal_type,
    'silent': lambda: silent()(), 'silent class': silent, 'silent error': lambda: silent(Exception)('a'), 'silent key': lambda: {silent()(): 1},
    'silent list': lambda: silent(list)([1]), 'growing dict': lambda: growing(dict), 'growing list': lambda: growing(list),
    'growing set': lambda: growing(set), 'growing deque': lambda: growing(collections.deque), 'leaving': leaving,
}


def hashable(v):
    try:
        return {v: 1} is not None
    except BaseException:
        return False


class Table:
    """What was recorded."""

    def __init__(self, x, snap):
        self.x, self.table, self.out = x, snap.var_lookup, []

    def need(self, condition, message):
        self.out.append((condition, message))

    def value(self, ref, reading, what):
        self.out += differences(self.x, self.table, ref, reading, what)

    def odd(self, ref, value, expected, what):
        """Something stands for the value."""
        entry = self.table.get(ref.vid) if ref is not None else None
        if entry is None:
            return self.need(False, '%s has an entry' % what)
        self.need(entry.type == type.__dict__['__name__'].__get__(type(value)), 'type of %s' % what)
        self.need(type(entry.value) is str or self.x.core.is_sym(entry.value), 'text of %s' % what)
        if expected is not ANY:
            self.need(entry.value == expected, 'value of %s' % what)
        for c in entry.children:
            self.need(c.vid in self.table and type(c.name) is str, 'children of %s' % what)

    def children(self, ref, names, what):
        """The references of the children."""
        entry = self.table.get(ref.vid)
        got = entry.children if entry is not None else []
        if len(got) != len(names) or any(n is not ANY and c.name != n for c, n in zip(got, names)):
            self.need(False, 'children of %s' % what)
            return [None] * len(names)
        return got

    def done(self, what):
        x = self.x
        message = what
        if not x.symbolic:
            message = '%s: %s' % (what, ', '.join([m for c, m in self.out if not c][:3]))
        x.check(x.conj([c for c, m in self.out]), message)


def delivered(x, snap, what):
    """The snapshot can be sent, with all that it has."""
    sent = None
    with x.no_raise('convert'):
        sent = convert_snapshot(snap)
    x.check(sent is not None, '%s can be sent' % what)
    if sent is not None:
        x.check(len(sent.var_lookup) == len(snap.var_lookup) and len(sent.frames) == len(snap.frames) and
                len(sent.watches) == len(snap.watches) and
                [len(f.variables) for f in sent.frames] == [len(f.variables) for f in snap.frames], '%s is sent completely' % what)


def expected_text(value):
    if type(value) in (list, tuple, set, frozenset, dict):
        return 'Size: %d' % len(value)
    if type(value).__name__ in ('list_iterator', 'list_reverseiterator'):
        return ANY
    try:
        return str(value)[:1024]
    except BaseException:
        return ANY


PLACES = ('local', 'self', 'element', 'dict value', 'attribute', 'key', 'member', 'argument', 'inner', 'watch', 'global', 'caller', 'log',
          'returned', 'thrown')


def place(x, value, expected, where):
    """Collect a frame with the value in a place: the rest has to be intact."""
    n, m = x.int('n', 100, 999), x.int('m', 100, 999)
    f_locals, f_globals, args, watches = {'before': n}, None, dict(MANY), ['m']
    f_code, caller, names, box = None, None, None, None
    if where == 'key' and not hashable(value):
        where = 'dict value'
    if where == 'member' and not hashable(value):
        where = 'element'
    if where == 'local':
        f_locals['bad'] = value
    elif where == 'self':
        f_locals['self'] = value
    elif where == 'element':
        box, names = [n, value, m], ['0', '1', '2']
    elif where == 'dict value':
        box, names = {'a': n, 'bad': value, 'c': m}, ['a', 'bad', 'c']
    elif where == 'attribute':
        box, names = with_attrs({'a': n, 'bad': value, 'c': m}), ['a', 'bad', 'c']
    elif where == 'key':
        box, names = {'a': n, value: 'kept', 'c': m}, ['a', ANY, 'c']
    elif where == 'member':
        box, names = {value}, ['0']
    elif where == 'argument':
        box, names = ValueError(n, value, m), ['0', '1', '2']
    elif where == 'inner':
        box, names = [n, [[value]], m], ['0', '1', '2']
    elif where == 'watch':
        watches = ['m', 'make()', 'before']
        f_globals = {'__name__': 'app', '__builtins__': __builtins__, 'make': lambda: value}
    elif where == 'global':
        watches = ['m', 'there', 'before']
        f_globals = {'__name__': 'app', '__builtins__': __builtins__, 'there': value}
    elif where == 'caller':
        args['frame_type'] = 'all_frame'
        caller = Frame('/app/app.py', 'g', 20, {'x': n, 'bad': value, 'y': m})
    elif where == 'log':
        f_locals['bad'] = value
        args['log_msg'] = '{before} {bad} {m}'
    elif where in ('returned', 'thrown'):
        args.update(stage='method_capture', method_name='f')
    if box is not None:
        f_locals['box'] = box
    f_locals['m'] = m
    rig = Rig(x)
    rig.install(tp('t', 'app.py', 10, args, watches=watches))
    frame = Frame('/app/app.py', 'f', 10, dict(f_locals), f_globals, caller)
    thrown = None
    with x.no_raise('trace'):
        if where in ('returned', 'thrown'):
            rig.fire(frame, 'call')
            frame.f_code.co_code = bytes([RETURN if where == 'returned' else RERAISE, 0])
            if where == 'thrown':
                thrown = value if issubclass(type(value), BaseException) else ValueError(value, n)
                rig.fire(frame, 'exception', (type(thrown), thrown, None))
            rig.fire(frame, 'return', value if where == 'returned' else None)
        else:
            rig.fire(frame)
    x.check(len(rig.rec.snapshots) == 1, 'a snapshot')
    for s in rig.rec.snapshots:
        t = Table(x, s)
        refs = {r.name: r for r in s.frames[0].variables}
        t.need([r.name for r in s.frames[0].variables] == list(f_locals), 'locals')
        for k, v in (('before', n), ('m', m)):
            t.value(refs.get(k), Reading(v), k)
        for name in ('bad', 'self'):
            if name in f_locals:
                t.odd(refs.get(name), value, expected, name)
        if box is not None and 'box' in refs:
            children = t.children(refs['box'], names, 'the box')
            for c, name in zip(children, names):
                if where == 'member' or name in ('bad', '1') and where != 'inner':
                    t.odd(c, value, expected, 'the value in the box')
                elif where == 'inner' and name == '1' and c is not None:
                    for inner in t.children(c, ['0'], 'the inner box'):
                        if inner is not None:
                            for last in t.children(inner, ['0'], 'the last box'):
                                t.odd(last, value, expected, 'the inner value')
                else:
                    v = {'0': n, '2': m, 'a': n, 'c': m}.get(name, 'kept') if name is not ANY else 'kept'
                    t.value(c, Reading(v), 'a neighbour in the box')
        got = {w.expression: w for w in s.watches}
        t.need([w.expression for w in s.watches][:len(watches)] == watches, 'watches')
        for name, v in (('m', m), ('before', n)):
            if name in got:
                t.value(got[name].result, Reading(v), 'watch %s' % name)
        for name in ('make()', 'there'):
            if name in watches:
                t.odd(got[name].result, value, expected, 'the result')
        if where == 'caller':
            t.need([r.name for r in s.frames[1].variables] == ['x', 'bad', 'y'], 'locals of the caller')
            for r, v in zip(s.frames[1].variables, (n, value, m)):
                if v is value:
                    t.odd(r, value, expected, 'the local of the caller')
                else:
                    t.value(r, Reading(v), 'a local of the caller')
        if where == 'log':
            t.need(len(rig.rec.logs) == 1, 'logged')
        if where == 'returned':
            last = s.watches[-1]
            t.need(last.source == 'CAPTURE' and len(s.watches) == 2, 'captured')
            t.odd(last.result, value, expected, 'the return value')
        if where == 'thrown':
            last = s.watches[-1]
            t.need(last.source == 'CAPTURE' and len(s.watches) == 2, 'captured')
            children = t.children(last.result, ['0', '1', '2'], 'the exception') if last.result is not None else [None] * 3
            t.odd(children[1], thrown, ANY, 'the exception')
            if thrown is not value and children[1] is not None:
                inner = t.children(children[1], ['0', '1'], 'the arguments')
                t.odd(inner[0], value, expected, 'the argument')
                t.value(inner[1], Reading(n), 'the other argument')
        t.done(where)
        delivered(x, s, 'the snapshot')
    x.reached('end')


def good(x):
    """Values of many types: they are recorded as they are."""
    value = GOOD[x.pick('kind', list(GOOD))]()
    place(x, value, expected_text(value), x.pick('place', list(PLACES)))


def bad(x):
    """Values that cannot be used."""
    value = BAD[x.pick('kind', list(BAD))]()
    place(x, value, ANY, x.pick('place', list(PLACES)))


NAMES = ('int', 'str', 'bool', 'float', 'type', 'module', 'NoneType', 'traceback', 'unicode', 'long', 'list', 'tuple', 'set', 'frozenset', 'dict',
         'list_iterator', 'list_reverseiterator', 'listiterator', 'bytes', 'bytearray', 'complex', 'object', 'range', 'slice', 'generator', 'coroutine',
         'frame', 'code', 'function', 'method', 'cell', 'mappingproxy', 'property', 'super', 'map', 'zip', 'filter', 'enumerate', 'iterator', 'deque',
         'OrderedDict', 'defaultdict', 'Counter', 'array', 'ndarray', 'DataFrame', 'Decimal', 'datetime', 'date', 'Enum', 'Path', 'Lock', 'Thread',
         'Exception', 'BaseException', 'ValueError', 'Error', 'Logger', 'Mock', 'MagicMock', 'Proxy', 'Queue', 'Task', 'Future', 'Context', 'Snapshot',
         'Frame', 'Variable', 'Node', '_', '__', 'a b', '')
MODULES = ('builtins', 'app', '', 'types', 'collections', '__main__', 'deep.api')


def names(x):
    """User types with any name: their values are recorded with all attributes, like the ones of other types."""
    deep = x.tier == 'thorough'
    n = x.int('n', 100, 999)
    body = {'__module__': x.pick('module', list(MODULES if deep else MODULES[:2]))}
    base = x.pick('base', [object, Empty, Property] if deep else [object])
    name = x.pick('name', list(NAMES))
    value = type(name, (base,), body)()
    value.a, value.b, value.me = n, ['in here', n], value
    place_ = x.pick('place', ['local', 'element', 'self'] if deep else ['local'])
    f_locals = {'n': n, 'self' if place_ == 'self' else 'v': [value] if place_ == 'element' else value}
    rig = Rig(x)
    rig.install(tp('t', 'app.py', 10, dict(MANY)))
    with x.no_raise('trace'):
        rig.fire(Frame('/app/app.py', 'f', 10, dict(f_locals)))
    x.check(len(rig.rec.snapshots) == 1, 'a snapshot')
    for s in rig.rec.snapshots:
        t = Table(x, s)
        refs = {r.name: r for r in s.frames[0].variables}
        for k, v in f_locals.items():
            t.value(refs.get(k), Reading(v), k)
        t.done('values of a type with any name')
        delivered(x, s, 'the snapshot')
    x.reached('end')


HOW = {'fails': fail, 'odd': odd, 'interrupt': quit_, 'exit': leave, 'stop': stop, 'recursion': recurse, 'lookup': lookup, 'none': none,
       'number': number, 'text': text}
QUICK = ['fails', 'odd', 'exit', 'recursion', 'none', 'number', 'text']
METHODS = ('__str__', '__repr__', '__len__', '__iter__', '__getattribute__', '__getattr__', '__dict__', '__class__', '__hash__', '__eq__',
           '__bool__', '__format__', '__getitem__', '__next__', '__call__', '__dir__', '__sizeof__', '__reduce_ex__', '__contains__', '__enter__',
           '__index__', 'items', 'keys', '__copy__', '__deepcopy__', '__instancecheck__', 'startswith', 'encode', '__ne__', '__lt__', '__add__')
BASES = {'object': (object, ()), 'list': (list, ([1, 2],)), 'dict': (dict, ({'a': 1},)), 'tuple': (tuple, ((1, 2),)), 'set': (set, ((1,),)),
         'frozenset': (frozenset, ((1,),)), 'str': (str, ('text',)), 'int': (int, (5,)), 'float': (float, (1.5,)), 'bytes': (bytes, (b'a',)),
         'exception': (ValueError, ('a',)), 'base exception': (BaseException, ('a',)), 'deque': (collections.deque, ((1,),)),
         'type': (type, ('Made', (), {}))}


def make(base, methods):
    """An object whose methods fail in a way."""
    cls, args = BASES[base]
    body = {m: property(HOW[h]) if m in ('__dict__', '__class__') else HOW[h] for m, h in methods.items()}
    if cls is type:
        body.pop('__dict__', None)
    return type('Faulty', (cls,), body)(*args)


def faults(x):
    """Any methods of a value fail, in any way."""
    deep = x.tier == 'thorough'
    base = x.pick('base', list(BASES))
    methods = {}
    for i in range(2 if deep else 1):
        names = list(METHODS) if deep and not i else list(METHODS[:15])
        methods[x.pick('method%d' % i, names)] = x.pick('how%d' % i, list(HOW) if deep else QUICK)
    place(x, make(base, methods), ANY, x.pick('place', ['local', 'element', 'key', 'thrown'] if deep else ['key', 'thrown']))


def pairs(x):
    """Several methods of a value fail together."""
    deep = x.tier == 'thorough'
    base = x.pick('base', list(BASES))
    methods = {}
    for m in METHODS[:9]:
        methods[m] = 'fails'
    # one of them works, and one fails in another way
    methods.pop(x.pick('works', list(methods)))
    methods[x.pick('other', list(METHODS[:9]))] = x.pick('how', ['odd', 'text', 'interrupt', 'recursion'] if deep else ['odd', 'text'])
    place(x, make(base, methods), ANY, x.pick('place', ['attribute', 'self'] if deep else ['attribute']))


def unicode(x):
    """Texts with any characters, in any place."""
    text = x.str('text', 2, ranges=[(0, 0x10ffff)])
    where = x.pick('where', ['local', 'element', 'dict value', 'attribute', 'text of object', 'argument', 'watch', 'log', 'returned', 'error of watch'])
    n = x.int('n', 100, 999)
    args, watches = dict(MANY), ['n']
    f_locals, f_globals = {'n': n}, None
    thing = Holder(text)
    if where in ('local', 'log', 'watch', 'error of watch'):
        f_locals['t'] = text
    elif where == 'element':
        f_locals['t'] = [n, text]
    elif where == 'dict value':
        f_locals['t'] = {'a': n, 't': text}
    elif where == 'attribute':
        f_locals['t'] = with_attrs({'a': n, 't': text})
    elif where == 'text of object':
        f_locals['t'] = thing
    elif where == 'argument':
        f_locals['t'] = Quiet(n, text)
    elif where == 'returned':
        args.update(stage='method_capture', method_name='f')
    if where == 'watch':
        watches.append('there')
        f_locals.pop('t')
        f_globals = {'__name__': 'app', '__builtins__': __builtins__, 'there': text}
    elif where == 'error of watch':
        f_locals['t'] = Raises(text)
        watches.append('t.now')
    elif where == 'log':
        args['log_msg'] = '{n} {t}'
    rig = Rig(x)
    rig.install(tp('t', 'app.py', 10, args, watches=watches))
    frame = Frame('/app/app.py', 'f', 10, f_locals, f_globals)
    with x.no_raise('trace'):
        if where == 'returned':
            rig.fire(frame, 'call')
            frame.f_code.co_code = bytes([RETURN, 0])
            rig.fire(frame, 'return', text)
        else:
            rig.fire(frame)
    x.check(len(rig.rec.snapshots) == 1, 'a snapshot')
    for s in rig.rec.snapshots:
        t = Table(x, s)
        t.need([r.name for r in s.frames[0].variables] == list(f_locals), 'locals')
        refs = {r.name: r for r in s.frames[0].variables}
        t.value(refs.get('n'), Reading(n), 'n')
        if where not in ('returned', 'text of object', 'error of watch', 'watch'):
            t.value(refs.get('t'), Reading(f_locals['t']), 't')
        if where == 'text of object' and refs.get('t'):
            t.need(x.eq(t.table[refs['t'].vid].value, text), 'the text of the object')
        if where == 'watch':
            t.value(s.watches[-1].result, Reading(text), 'the result')
        if where == 'returned':
            t.value(s.watches[-1].result, Reading(text), 'the return value')
        t.done(where)
        delivered(x, s, 'the snapshot')
    x.reached('end')


class Number(Exception):
    def __str__(self):
        return 5


class OwnText(str):
    def __str__(self):
        raise ValueError('no text')
    __repr__ = __format__ = __str__


class Metaclass(type):
    def __getattribute__(cls, name):
        if name in ('__name__', '__qualname__', '__module__'):
            raise ValueError('no ' + name)
        return type.__getattribute__(cls, name)


class NoTraceback(Exception):
    __traceback__ = __cause__ = __context__ = property(fail)

    def with_traceback(self, tb):
        raise ValueError('no traceback')


class Slotted(BaseException):
    __slots__ = ()

    def __getattribute__(self, name):
        raise ValueError(name)


def circular(text):
    e = ValueError(text)
    e.__cause__ = e.__context__ = KeyError(text)
    e.__cause__.__cause__ = e
    return e


ERRORS = {
    'plain': ValueError, 'no text': lambda t: Odd(), 'number': Number, 'own text': lambda t: ValueError(OwnText(t)),
    'two own texts': lambda t: KeyError(OwnText(t), OwnText(t)), 'unnamed': lambda t: Metaclass('Unnamed', (Exception,), {})(t), 'no traceback': NoTraceback, 'slotted': lambda t: Slotted(),
    'circular': circular, 'group': lambda t: ExceptionGroup(t, [Odd2(), ValueError(t)]), 'exit': SystemExit, 'interrupt': KeyboardInterrupt,
    'generator': GeneratorExit, 'stop': StopIteration, 'itself': lambda t: with_itself(ValueError(t)), 'surrogate': lambda t: ValueError('\udc80'),
    'syntax': lambda t: SyntaxError(t, ('file', 'line', 'no', t)), 'unicode': lambda t: UnicodeDecodeError('utf-8', b'\xff', 0, 1, t),
    'attribute': lambda t: AttributeError(name=5, obj=Odd()), 'name': lambda t: NameError(t, name=Odd()), 'notes': lambda t: with_notes(ValueError(t)),
    'system': lambda t: OSError(2, t, OwnText(t)), 'memory': MemoryError, 'recursion': RecursionError,
}


class Odd2(Exception):
    __str__ = __repr__ = fail


def with_itself(e):
    e.args = (e, [e])
    return e


def with_notes(e):
    e.__notes__ = [Odd(), 5, '\ud800']
    return e


def errors(x):
    """The expressions that fail, with any exception."""
    kind = x.pick('error', list(ERRORS))
    where = x.pick('where', ['watch', 'log', 'condition', 'label', 'metric', 'local'])
    n = x.int('n', 100, 999)
    error = ERRORS[kind]('reason')

    def blame(*args):
        raise error
    f_locals = {'n': n, 'blame': blame, 'after': 5}
    if where == 'local':
        f_locals['e'] = error
    args, watches, metrics = dict(MANY), ['n', 'after'], []
    if where == 'watch':
        watches = ['n', 'blame()', 'after']
    elif where == 'log':
        args['log_msg'] = '{n} {blame()} {after}'
    elif where == 'label':
        metrics = [MetricDefinition('m', 'COUNTER', [LabelExpression('l', None, 'blame()')], '1', None, None, None)]
    elif where == 'metric':
        metrics = [MetricDefinition('m', 'COUNTER', [], 'blame()', None, None, None)]
    rig = Rig(x)
    triggers = [tp('t', 'app.py', 10, args, watches=watches, metrics=metrics)]
    if where == 'condition':
        triggers.insert(x.index('position', 2), tp('other', 'app.py', 10, dict(MANY, condition='blame()'), watches=['n']))
    rig.install(*triggers)
    with x.no_raise('trace'):
        rig.fire(Frame('/app/app.py', 'f', 10, f_locals))
    x.check([s.tracepoint.id for s in rig.rec.snapshots] == ['t'], 'a snapshot')
    for s in rig.rec.snapshots:
        t = Table(x, s)
        t.need([r.name for r in s.frames[0].variables] == list(f_locals), 'locals')
        refs = {r.name: r for r in s.frames[0].variables}
        t.value(refs.get('n'), Reading(n), 'n')
        t.value(refs.get('after'), Reading(5), 'after')
        got = {w.expression: w for w in s.watches}
        t.need(list(got)[:len(watches)] == watches, 'watches')
        for name in ('n', 'after'):
            if name in got:
                t.value(got[name].result, Reading(f_locals[name]), 'watch %s' % name)
        for name, w in got.items():
            if 'blame' in name:
                t.need(w.result is None and type(w.error) is str, 'the error of the watch')
        if where == 'log':
            t.need(len(rig.rec.logs) == 1 and len(got) >= 3, 'a log')
        if where == 'local':
            t.odd(refs.get('e'), error, ANY, 'the exception')
        t.done('%s of %s' % (kind, where))
        delivered(x, s, 'the snapshot')
    x.reached('end')


class Holder:
    __slots__ = ('text',)

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text
    __str__._vx_symbolic = True


class Raises:
    __slots__ = ('text',)

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return 'raises'

    @property
    def now(self):
        raise ValueError(self.text)


class FailingLocals(dict):
    """The namespace of a class body."""
    items = keys = values = __iter__ = __len__ = fail


class OddLocals(dict):
    def items(self):
        return [(1,), 2]


def prepared(namespace):
    class WithNamespace(type):
        @classmethod
        def __prepare__(mcs, name, bases):
            return namespace

        def __new__(mcs, name, bases, ns):
            return type.__new__(mcs, name, bases, {})
    return WithNamespace


BODIES = '''\
def run(n, meta, value):
    class Body(metaclass=meta):
        a = n
        b = value
        mark = 1  # line
    return n


def outer(n, value):
    kept = [n]
    got = [(i, value) for i in kept if i == n]  # comp
    cell = lambda: (n, value, kept)
    del kept[:]
    return len(got), cell


def empty_cell(n, value):
    def inner():
        mark = n  # inner
        try:
            return later
        except NameError:
            return value
    got = inner()
    later = n
    return got is value and later == n


def handler(n, value):
    try:
        raise ValueError(n, value)
    except ValueError as e:
        got = e  # except
    return got.args[0] == n
'''


def bodies(x):
    """Real frames: class bodies with any namespace, comprehensions, cells that are empty, handlers."""
    n = x.int('n', 100, 999)
    value = BAD[x.pick('kind', ['refuses', 'failing dict', 'hidden', 'surrogate', 'dead proxy', 'class fails'])]()
    where = x.pick('where', ['line', 'comp', 'inner', 'except'])
    space = x.pick('namespace', ['plain', 'failing', 'odd', 'number key', 'text key', 'bad key', 'surrogate key']) if where == 'line' else 'plain'
    namespace = {'failing': FailingLocals, 'odd': OddLocals}.get(space, dict)()
    key = {'number key': 5, 'text key': Text('k'), 'bad key': named('Key', __str__=fail, __repr__=fail), 'surrogate key': '\ud800'}.get(space)
    if key is not None:
        namespace[key] = 'kept'
    app = load(BODIES, '/app/bodies.py')
    rig = Rig(x)
    rig.install(tp('t', 'bodies.py', line_of(BODIES, '# ' + where), dict(MANY), watches=['n']))
    with x.no_raise('app'):
        with traced(rig.handler):
            if where == 'line':
                ok = app.run(n, prepared(namespace), value) is n
            elif where == 'comp':
                ok = app.outer(n, value)[0] == 1
            elif where == 'inner':
                ok = app.empty_cell(n, value)
            else:
                ok = app.handler(n, value)
        x.check(ok, 'the program works')
    x.check(len(rig.rec.snapshots) > 0, 'snapshots')
    for s in rig.rec.snapshots:
        t = Table(x, s)
        refs = {r.name: r for r in s.frames[0].variables}
        if where == 'line':
            if space not in ('failing', 'odd'):
                t.need(len(refs) >= (2 if key is None else 3), 'names in the body')
                t.value(refs.get('a'), Reading(n), 'a')
                t.odd(refs.get('b'), value, ANY, 'b')
        else:
            t.value(refs.get('n'), Reading(n), 'n')
            if 'value' in refs or where != 'inner':
                t.odd(refs.get('value'), value, ANY, 'value')
            if where == 'except':
                t.odd(refs.get('e'), ValueError(), ANY, 'the error')
        if where != 'line':
            t.value(s.watches[0].result, Reading(n), 'the watch')
        t.done(where)
        delivered(x, s, 'the snapshot')
    x.reached('end')


KINDS = {
    'plain': {}, 'all frames': {'frame_type': 'all_frame'}, 'no frames': {'frame_type': 'no_frame'},
    'watches': {'watches': ['both', 'n', '[both, n]', 'missing']}, 'log': {'log_msg': '{both} {n} {missing}'},
    'short': {'MAX_STRING_LENGTH': '2', 'watches': ['text']}, 'small': {'MAX_VARIABLES': '2'}, 'flat': {'MAX_VAR_DEPTH': '1', 'watches': ['both']},
    'line capture': {'stage': 'line_capture'}, 'method capture': {'stage': 'method_capture', 'method_name': 'f'},
    'bad watch': {'watches': ['1 / 0', 'bad(', 'text', 'refuses.x']}, 'bad condition': {'condition': 'missing'}, 'true': {'condition': 'n > 0'},
    'false': {'condition': 'n < 0'}, 'log only': {'snapshot': 'no_collect', 'log_msg': '{both}'}, 'span': {'span': 'line', 'watches': ['n']},
}


def describe(x, snap, ref, seen):
    v = snap.var_lookup.get(ref.vid)
    if v is None:
        return ('missing',)
    if ref.vid in seen:
        return ('seen', seen.index(ref.vid))
    seen.append(ref.vid)
    return (ref.name, ref.original_name, tuple(ref.modifiers), v.type, v.value, v.truncated, tuple(describe(x, snap, c, seen) for c in v.children))


def whole(x, snap):
    seen = []
    return (snap.tracepoint.id, [(f.file_name, f.method_name, f.line_number, f.class_name, [describe(x, snap, r, seen) for r in f.variables])
                                 for f in snap.frames],
            [(w.expression, w.source, w.error, describe(x, snap, w.result, seen) if w.result is not None else None) for w in snap.watches],
            snap.log_msg, sorted(dict(snap.attributes)))


def flat(v, out):
    """The symbolic values of a nested value, with its shape."""
    if type(v) in (tuple, list):
        out[1].append('(')
        for e in v:
            flat(e, out)
        out[1].append(')')
    else:
        out[0].append(v)
        out[1].append('.')
    return out


def same(x, a, b):
    values, shape = flat(a, ([], []))
    others, other = flat(b, ([], []))
    if shape != other:
        return False
    return x.conj([x.eq(p, q) for p, q in zip(values, others)])


class Decorate(SnapshotDecorator):
    """A decorator that changes the snapshot."""
    how = 'none'

    def decorate(self, snapshot_id, context):
        if self.how == 'fails':
            raise ValueError('decorate')
        return BoundedAttributes(attributes={'decorated': 'yes'})


def run(x, kinds, n, text, clear=False):
    """The snapshots of tracepoints that fire on the same events."""
    both = [n, ['inner', text]]
    both.append(both)
    f_locals = {'n': n, 'text': text, 'both': both, 'refuses': Refuses(), 'self': both}
    triggers = []
    for tp_id, kind in kinds:
        args = dict(MANY, **KINDS[kind])
        watches = args.pop('watches', [])
        triggers.append(tp(tp_id, 'app.py', 10, args, watches=list(watches)))
    rig = Rig(x)
    rig.config.plugins = rig.config.plugins + [rig.plugin(Decorate)]
    if clear:
        # what is done with a snapshot must not change the ones of others
        push = rig.rec.snapshots

        class Clear(list):
            def append(self, s):
                list.append(self, s)
                texts.append(whole(x, s))
                s.var_lookup.clear()
                for f in s.frames:
                    f.variables.clear()
                s.frames.clear()
                s.watches.clear()
        texts = []
        rig.rec.snapshots = Clear(push)
    rig.install(*triggers)
    frame = Frame('/app/app.py', 'f', 10, dict(f_locals), back=Frame('/app/app.py', 'g', 20, {'both': both, 'm': n}))
    with x.no_raise('trace'):
        rig.fire(frame, 'call')
        rig.fire(frame)
        frame.f_code.co_code = bytes([RETURN, 0])
        frame.f_lineno = 11
        rig.fire(frame, 'return', both)
    out = texts if clear else [whole(x, s) for s in rig.rec.snapshots]
    return out, sorted((t, m) for m, t, c in rig.rec.logs)


def several(x):
    """Tracepoints that fire together do what each of them does alone."""
    deep = x.tier == 'thorough'
    count = 3 if deep else 2
    names = list(KINDS)
    kinds = [('t%d' % i, x.pick('kind%d' % i, names if i < 2 else names[:9])) for i in range(count)]
    n = x.int('n', 1, 9)
    text = x.pick('text', ['text', 'a', 'a\ud800b']) if deep else 'text'
    together, logs = run(x, kinds, n, text, x.flag('cleared'))
    alone, own_logs = [], []
    for k in kinds:
        out, log = run(x, [k], n, text)
        alone += out
        own_logs += log
    x.check(sorted(s[0] for s in together) == sorted(s[0] for s in alone), 'the same tracepoints have snapshots')
    by_id = {s[0]: s for s in together}
    x.check(x.conj([same(x, by_id.get(s[0], ()), s) for s in alone]), 'each snapshot is what it is alone')
    x.check(same(x, logs, sorted(own_logs)), 'each log is what it is alone')
    x.reached('end')


HARNESSES = [
    H(good, '%d kinds of values in %d places; any neighbours 100..999' % (len(GOOD), len(PLACES)), weight=2),
    H(bad, '%d kinds of values that cannot be used in %d places; any neighbours' % (len(BAD), len(PLACES)), weight=2),
    H(names, 'objects of user types with %d names, of 2 (thorough %d) modules, in 1 (3) places; any number' % (len(NAMES), len(MODULES))),
    H(faults, 'objects of %d types, any of 15 methods (thorough: any 2 of %d) fails in any of 7 (%d) ways, in 2 (4) places' % (
        len(BASES), len(METHODS), len(HOW)), weight=2),
    H(pairs, 'objects of %d types with 8 of 9 methods that fail, one of them in another way' % len(BASES)),
    H(unicode, 'any text of 2 characters of all of unicode, surrogates too, in 10 places'),
    H(errors, '%d kinds of errors of watches, log messages, conditions, labels, metrics and in locals; any number' % len(ERRORS)),
    H(bodies, 'class bodies with 7 namespaces, comprehensions, inner functions and handlers, with 6 kinds of values; any number'),
    H(several, '2 (thorough 3) tracepoints of %d kinds on one event with shared objects; snapshots that are emptied as they are sent' % len(KINDS),
      weight=2),
]
BUDGET = {'quick': 60, 'thorough': 600}
