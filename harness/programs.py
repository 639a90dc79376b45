"""Programs that are run with the agent attached."""
import sys

from harness.common import load

CONTROL = '''\
import os


def fact(n):
    if n <= 1:
        return 1
    return n * fact(n - 1)


def loop(n):
    total = 0
    for i in range(n):
        if i % 2:
            continue
        total += i
    else:
        total += 100
    return total


def outer(a):
    def inner(b):
        return a + b
    return inner(1) + (lambda q: q * 2)(a)


result = [fact(3), loop(3), outer(4)]
text = [
    x for x in result
    if x
]
while result:
    result.pop()
'''

RAISES = '''\
def fail(kind):
    if kind == 1:
        raise ValueError('one')
    return {}['missing']


def guard(kind):
    try:
        return fail(kind)
    except ValueError as e:
        out = str(e)
    finally:
        out2 = 'f'
    return out + out2


def clean(kind):
    try:
        fail(kind)
    except KeyError:
        return 'key'


def gen(n):
    for i in range(n):
        try:
            yield i
        except ValueError:
            yield 'v'


got = [guard(1), clean(2)]
g = gen(3)
got.append(next(g))
got.append(g.throw(ValueError))
got += list(g)
try:
    guard(2)
except KeyError:
    got.append('caught')
'''

CLASSES = '''\
import functools


def deco(fn):
    @functools.wraps(fn)
    def run(*args):
        return fn(*args)
    return run


class Base:
    size = 2

    def run(self):
        return self.size

    @property
    def value(self):
        return self.run() + 1


class Sub(Base):
    def run(self):
        return super().run() * 2

    @deco
    def other(self, n):
        return [self.value for _ in range(n)]

    @staticmethod
    def run_static():
        return 'static'


async def co(n):
    if n:
        await co(n - 1)
    return n


def drive(c):
    try:
        c.send(None)
    except StopIteration as e:
        return e.value


def run():
    return Sub().other(2), Sub.run_static(), drive(co(1))


done = run()
'''

ASYNC = '''\
class Twice:
    def __await__(self):
        yield 1
        yield 2
        return 3

    async def __aenter__(self):
        return await self

    async def __aexit__(self, *a):
        await self
        return True


async def feed(n):
    for i in range(n):
        got = await Twice()
        try:
            yield got + i
        except ValueError:
            yield 0


async def use(n):
    total = 0
    async for v in feed(n):
        total += v
    async with Twice() as t:
        total += t
        raise KeyError(t)
    agen = feed(1)
    await agen.asend(None)
    await agen.athrow(ValueError)
    await agen.aclose()
    return [v async for v in feed(2)], total


def delegate(n):
    out = yield from (i for i in range(n))
    yield from [1]
    return out


def drive(c):
    steps = []
    try:
        while True:
            steps.append(c.send(None))
    except StopIteration as e:
        return e.value


made = drive(use(2)), list(delegate(2))
'''

PROGRAMS = {'control': CONTROL, 'raises': RAISES, 'classes': CLASSES, 'async': ASYNC}


class Event:
    def __init__(self, event, file, path, line, function, entry, depth):
        self.event, self.file, self.path, self.line, self.function = event, file, path, line, function
        self.entry, self.depth = entry, depth


def reference(source, filename='/app/app.py', root='/app/'):
    """The trace events of a program, as they are seen by a trace function that only records them."""
    events, frames = [], []

    def record(frame, event, arg):
        path = frame.f_code.co_filename
        if not path.startswith(root):
            return None
        entry = event == 'call' and not any(f is frame for f in frames)
        if entry:
            frames.append(frame)
        depth, back = 0, frame
        while back is not None:
            depth, back = depth + (back.f_code.co_filename.startswith(root)), back.f_back
        events.append(Event(event, path.rpartition('/')[2], path, frame.f_lineno, frame.f_code.co_name, entry, depth))
        return record
    old = sys.gettrace()
    sys.settrace(record)
    try:
        load(source, filename)
    finally:
        sys.settrace(old)
    return events


def app_frame(root='/app/'):
    """The frame of the application that is being traced."""
    frame = sys._getframe()
    while frame is not None and not frame.f_code.co_filename.startswith(root):
        frame = frame.f_back
    return frame
