"""An agent that is connected to a service that is part of the harness."""
import threading

import grpc

from deep.api.deep import Deep
from deep.config import ConfigService
from deepproto.proto.poll.v1.poll_pb2 import PollResponse
from harness.common import Logger, Metrics, Recorder, Spans


class Call:
    """A method of the service."""

    def __init__(self, channel, kind, serializer):
        self.channel, self.kind, self.serializer = channel, kind, serializer

    def __call__(self, request, timeout=None, metadata=None, **kwargs):
        return self.channel.received(self.kind, request, metadata, self.serializer)


class Channel:
    """The connection to the service."""

    def __init__(self, x, poll=None, send=None):
        self.x = x
        self.on_poll = poll or (lambda request: PollResponse(ts_nanos=1, response_type=0))
        self.on_send = send or (lambda snapshot: None)
        self.polls, self.snapshots, self.metadata, self.threads, self.targets = [], [], [], [], []

    def connect(self):
        """Connect the agent to this."""
        def insecure(target, *a, **k):
            self.targets.append((target, False))
            return self

        def secure(target, *a, **k):
            self.targets.append((target, True))
            return self
        self.x.patch(grpc, 'insecure_channel', insecure)
        self.x.patch(grpc, 'secure_channel', secure)
        return self

    def unary_unary(self, path, request_serializer=None, response_deserializer=None, **kwargs):
        return Call(self, path.rpartition('/')[2], request_serializer)

    def received(self, kind, request, metadata, serializer):
        if not self.x.symbolic and serializer is not None:
            # what is received by the service
            request = type(request).FromString(serializer(request))
        self.metadata.append(metadata)
        self.threads.append(threading.current_thread())
        if kind == 'poll':
            self.polls.append(request)
            return self.on_poll(request)
        self.snapshots.append(request)
        return self.on_send(request)

    def close(self):
        pass


class Inline:
    """Task handler that completes each task before it returns."""

    def __init__(self):
        self.is_open = True

    def submit_task(self, task, *args):
        if not self.is_open:
            raise RuntimeError('closed')
        try:
            task(*args)
        except Exception:
            pass
        return self

    def add_done_callback(self, fn):
        fn(self)

    def open(self):
        self.is_open = True

    def flush(self):
        self.is_open = False


class Agent:
    """The services of the agent, without the plugins."""

    def __init__(self, x, config=None, inline=True, channel=None):
        self.x = x
        self.rec = Recorder()
        settings = {'APP_ROOT': '/app', 'IN_APP_EXCLUDE': ['/lib'], 'IN_APP_INCLUDE': [], 'SERVICE_SECURE': 'False',
                    'POLL_TIMER': 1000}
        settings.update(config or {})
        self.config = ConfigService(settings)
        self.channel = channel or Channel(x)
        self.channel.connect()
        self.deep = Deep(self.config)
        if inline:
            self.tasks = Inline()
            self.config.set_task_handler(self.tasks)
        self.deep.grpc.start()
        from deep.api.resource import Resource
        self.config.resource = Resource({'service.name': 'app'})
        self.config.plugins = [self.plugin(c) for c in (Logger, Metrics, Spans)]
        self.handler = self.deep.trigger_handler

    def plugin(self, cls, **attrs):
        p = cls(config=None)
        p.rec = self.rec
        for k, v in attrs.items():
            setattr(p, k, v)
        return p
