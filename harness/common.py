"""The environment of the code under test: frames, recorders for what the agent does, and a way to fire trace events."""
import sys
import types

from deep.api.attributes import BoundedAttributes
from deep.api.plugin import ResourceProvider, SnapshotDecorator, TracepointLogger
from deep.api.plugin.metric import MetricProcessor
from deep.api.plugin.span import SpanProcessor
from deep.api.resource import Resource
from deep.api.tracepoint.trigger import build_trigger
from deep.config import ConfigService
from deep.processor.trigger_handler import TriggerHandler
from vx import clock


class Code:
    """A code object."""

    def __init__(self, filename, name, firstlineno=1, lines=None, flags=3, varnames=()):
        self.co_filename = filename
        self.co_name = name
        self.co_qualname = name
        self.co_firstlineno = firstlineno
        self.co_flags = flags
        self.co_code = b'\x97\x00' * 64
        self.co_varnames = tuple(varnames)
        self.co_argcount = 0
        self.co_freevars = self.co_cellvars = ()
        self.lines = [firstlineno] if lines is None else lines

    def co_lines(self):
        for i, line in enumerate(self.lines):
            yield i * 2, i * 2 + 2, line


class Frame:
    """A frame that is paused at a line."""

    def __init__(self, filename, name, lineno, f_locals=None, f_globals=None, back=None, code=None):
        self.f_code = code or Code(filename, name, lineno)
        self.f_lineno = lineno
        self.f_locals = {} if f_locals is None else f_locals
        self.f_globals = {'__name__': 'app', '__builtins__': __builtins__} if f_globals is None else f_globals
        self.f_builtins = __builtins__ if isinstance(__builtins__, dict) else vars(__builtins__)
        self.f_back = back
        self.f_lasti = 0
        self.f_trace = None
        self.f_trace_lines = True
        self.f_trace_opcodes = False


class Recorder:
    """What the agent did."""

    def __init__(self):
        self.snapshots = []
        self.logs = []
        self.metrics = []
        self.spans = []
        self.closed = []
        self.events = []


class Push:
    """The delivery of the snapshots."""

    def __init__(self, rec):
        self.rec = rec

    def push_snapshot(self, snapshot):
        self.rec.snapshots.append(snapshot)


class Logger(TracepointLogger):
    rec = None

    def log_tracepoint(self, log_msg, tp_id, ctx_id):
        self.rec.logs.append((log_msg, tp_id, ctx_id))


class Metrics(MetricProcessor):
    rec = None

    def _add(self, kind, name, labels, namespace, help_string, unit, value):
        self.rec.metrics.append((kind, name, labels, namespace, help_string, unit, value))

    def counter(self, name, labels, namespace, help_string, unit, value):
        self._add('counter', name, labels, namespace, help_string, unit, value)

    def gauge(self, name, labels, namespace, help_string, unit, value):
        self._add('gauge', name, labels, namespace, help_string, unit, value)

    def histogram(self, name, labels, namespace, help_string, unit, value):
        self._add('histogram', name, labels, namespace, help_string, unit, value)

    def summary(self, name, labels, namespace, help_string, unit, value):
        self._add('summary', name, labels, namespace, help_string, unit, value)


class RecSpan:
    def __init__(self, rec, name, ctx_id, tp_id):
        self.rec, self.name, self.ctx_id, self.tp_id = rec, name, ctx_id, tp_id
        self.trace_id, self.span_id = 'trace', 'span'

    def add_attribute(self, key, value):
        pass

    def add_event(self, name, attributes=None):
        pass

    def close(self):
        self.rec.closed.append(self)


class Spans(SpanProcessor):
    rec = None

    def create_span(self, name, context_id, tracepoint_id):
        span = RecSpan(self.rec, name, context_id, tracepoint_id)
        self.rec.spans.append(span)
        return span

    def current_span(self):
        return None


class Rig:
    """An agent whose delivery and plugins are recorders."""

    def __init__(self, x, config=None, plugins=None, resource=None):
        self.x = x
        self.rec = Recorder()
        settings = {'APP_ROOT': '/app', 'IN_APP_EXCLUDE': ['/lib'], 'IN_APP_INCLUDE': []}
        settings.update(config or {})
        self.config = ConfigService(settings)
        self.config.resource = Resource({'service.name': 'app'}) if resource is None else resource
        if plugins is None:
            plugins = [self.plugin(Logger), self.plugin(Metrics), self.plugin(Spans)]
        self.config.plugins = plugins
        self.handler = TriggerHandler(self.config, Push(self.rec))
        x.defer(self.close)

    def plugin(self, cls, **attrs):
        p = cls(config=None)
        p.rec = self.rec
        for k, v in attrs.items():
            setattr(p, k, v)
        return p

    def install(self, *triggers):
        self.handler.new_config([t for t in triggers if t is not None])

    def fire(self, frame, event='line', arg=None):
        return self.handler.trace_call(frame, event, arg)

    def at(self, ts):
        """Set the clock."""
        clock.override = lambda: ts

    def close(self):
        clock.override = None


def tp(tp_id, path='app.py', line=10, args=None, watches=None, metrics=None):
    return build_trigger(tp_id, path, line, {} if args is None else args, [] if watches is None else watches,
                         [] if metrics is None else metrics)


class traced:
    """Run the body with the real trace hook set to the handler, for the current thread only."""

    def __init__(self, handler):
        self.handler = handler

    def __enter__(self):
        self.old = sys.gettrace()
        sys.settrace(self.handler.trace_call)

    def __exit__(self, *a):
        sys.settrace(self.old)


def load(source, filename, **names):
    """Compile a program as a file of the application."""
    mod = types.ModuleType('app')
    mod.__dict__.update(names)
    mod.__file__ = filename
    exec(compile(source, filename, 'exec', dont_inherit=True), mod.__dict__)
    return mod


def line_of(source, mark):
    """The number of the line that has the mark."""
    for i, text in enumerate(source.splitlines(), 1):
        if mark in text:
            return i
    raise LookupError(mark)
