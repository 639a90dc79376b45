"""The settings: reading, precedence and effect of each setting are executed over all sources, the paths are symbolic text.

A setting is given in code (as a value or a function), in the environment, in both, or not at all; what the agent does is
compared with what the resolved value stands for.
"""
import base64
import importlib
import inspect
import logging.config
import os
import sys

import deep
import deep.config
import deep.logging
from deep.api.deep import Deep
from deep.api.plugin import Plugin, load_plugins
from deep.config import ConfigService
from deep.poll import LongPoll
from deep.utils import str2bool
from deepproto.proto.poll.v1.poll_pb2 import PollResponse
from harness.agent import Agent, Channel
from harness.common import Frame, Rig, tp
from vx.sched import Sched
from vx.spec import H

TECHNIQUE = 'symbolic execution of the real source with z3 (path exploration, solver-decided branches, replayed models)'
STUBS = 'environment variables (the module of the defaults is loaded again, as in a new process), gRPC channel, virtual time, ' \
        'in entry: Deep.start and logging.config.fileConfig record'
OUTSIDE = 'code values that are None; intervals that are not positive numbers; empty path prefixes; which prefix is removed when more ' \
          'than one matches; the calculated application root beyond being a folder of the caller'


def environment(x, values):
    """Start with these environment variables."""
    x.patch(os, 'environ', {k: v for k, v in values.items() if v is not None})
    importlib.reload(deep.config)
    x.defer(lambda: importlib.reload(deep.config))


class Call:
    """A value that has to be called."""

    def __init__(self, value):
        self.value = value

    def __call__(self):
        return self.value


def given(x, name, code, env, default=None, most=None):
    """A setting from any of the sources: the settings in code, the environment, and the value that has to be used."""
    how = x.pick('%s source' % name, ['none', 'code', 'function', 'callable', 'env', 'both'])
    in_code, in_env, value = {}, {}, default
    if how in ('env', 'both'):
        text = x.pick('%s env' % name, env)
        in_env['DEEP_' + name] = text
        value = text
    if how in ('code', 'function', 'callable', 'both'):
        v = x.pick('%s code' % name, code)
        value = v
        in_code[name] = (lambda: v) if how == 'function' else Call(v) if how == 'callable' else v
    return in_code, in_env, value


DEFAULTS = {'LOGGING_CONF': None, 'POLL_TIMER': 10, 'SERVICE_URL': 'deep:43315', 'SERVICE_SECURE': 'True',
            'SERVICE_AUTH_PROVIDER': None, 'APP_ROOT': '', 'UNKNOWN': None, 'plugin_other': None}


def resolve(x):
    """Any value for any key from any source."""
    key = x.pick('key', sorted(DEFAULTS))
    number, text = x.int('number', -5, 5), x.str('text', 2)
    code = [number, text, 0, '', False, True, 'False', [], ['a'], {}, 1.5, ()]
    in_code, in_env, value = given(x, key, code, [x.str('env text', 3), '', 'False', '0'], DEFAULTS[key])
    environment(x, in_env)
    other = x.flag('others')
    custom = dict({'OTHER': 1, 'SERVICE': 'x', key + '_2': 'y'} if other else {}, **in_code)
    config = ConfigService(custom if custom or other else None)
    with x.no_raise('read'):
        for i in range(2):
            got = getattr(config, key)
            if key == 'POLL_TIMER' and value == DEFAULTS[key]:
                x.check(str(got) == '10', 'the setting is resolved')
            else:
                x.check(x.eq(got, value), 'the setting is resolved')
                x.check(x.symbolic or type(got) is type(value), 'the setting is not converted')
    x.reached('end')


def late(x):
    """A setting that is not known, whose environment variable is changed after the start."""
    environment(x, {})
    config = ConfigService({'MINE': 'code'})
    first = config.LATE
    os.environ['DEEP_LATE'] = os.environ['DEEP_MINE'] = 'now'
    os.environ['LATE'] = 'wrong'
    x.check(first is None and config.LATE == 'now' and config.MINE == 'code', 'the variable of an unknown key')
    x.check(config.late is None and config.OTHER is None, 'an unknown key is absent')
    x.reached('end')


def matching(x, name, prefixes):
    return [x.conj([len(p) <= len(name), name.startswith(p)]) for p in prefixes]


def paths(x, kind, sizes):
    return [x.str('%s%d' % (kind, i), n, '/ab') for i, n in enumerate(sizes)]


def joined(parts):
    out = parts[0]
    for p in parts[1:]:
        out = out + ',' + p
    return out


def app_frames(x):
    """Files and prefixes of any names."""
    wide = x.tier == 'thorough'
    file = x.str('file', 4 if wide else 3, '/ab')
    include = paths(x, 'include', x.pick('include sizes', [(), (1,), (2,), (1, 2), (2, 3)]))
    exclude = paths(x, 'exclude', x.pick('exclude sizes', [(), (1,), (2,), (2, 1), (3, 2)]))
    root = x.pick('root size', [None, 1, 2, 3])
    root = '/other' if root is None else x.str('root', root, '/ab')
    how = x.pick('how', ['list', 'text', 'env', 'function'])
    settings, env = {'APP_ROOT': root}, {}
    for name, parts in (('IN_APP_INCLUDE', include), ('IN_APP_EXCLUDE', exclude)):
        if how == 'list':
            settings[name] = parts
        elif how == 'function':
            settings[name] = Call(parts)
        elif parts:
            (settings if how == 'text' else env)[name if how == 'text' else 'DEEP_' + name] = joined(parts)
    if how == 'env':
        env['DEEP_APP_ROOT'] = settings.pop('APP_ROOT')
    environment(x, env)
    config = ConfigService(settings)
    app, short = None, None
    with x.no_raise('is_app_frame'):
        app, match = config.is_app_frame(file)
        app = bool(app)
        short = file[len(match):] if match is not None else file
    excluded = x.disj([file.startswith(p) for p in exclude])
    included = x.disj([file.startswith(p) for p in include + [root]])
    x.check(x.eq(app, x.conj([x.neg(excluded), included])) if x.symbolic else app == (not excluded and included),
            'is an application frame')
    # the prefixes that can be removed
    options = [(x.disj([excluded]), p) for p in exclude] + [(x.neg(excluded), p) for p in include + [root]]
    right = [x.conj([c, file.startswith(p), x.eq(short, file[len(p):])]) for c, p in options]
    nothing = x.conj([x.neg(excluded), x.neg(included), x.eq(short, file)])
    x.check(x.disj(right + [nothing]), 'the matched prefix is removed')
    x.reached('end')


FILES = ['/app/src/main.py', '/app/lib/util.py', '/lib/python/x.py', '/application/y.py', 'app/z.py', '<string>', '', sys.exec_prefix + '/a.py']


def in_snapshot(x):
    """The frames of a snapshot, with text from the environment that has spaces and empty parts."""
    include = x.pick('include', [None, '/lib', '/app/lib', ' /lib , /app', ',/lib,,', '', '<', '/app/lib,/app/lib/util', '/lib, ', ' ', '/lib,\t,/lib'])
    exclude = x.pick('exclude', [None, '/lib', '/app/lib', '/lib/python, /app/src', ',', '/app', '/lib/x,/app/lib/', ' ,/lib/python , '])
    root = x.pick('root', ['/app', '/app/', '/other', '/app/src/main.py'])
    env = x.flag('env')
    values = {'IN_APP_INCLUDE': include, 'IN_APP_EXCLUDE': exclude, 'APP_ROOT': root}
    environment(x, {'DEEP_' + k: v for k, v in values.items()} if env else {})
    rig = Rig(x)
    given_ = {} if env else {k: v for k, v in values.items() if v is not None}
    if not env and x.flag('lists'):
        given_.update({k: given_[k].split(',') for k in ('IN_APP_INCLUDE', 'IN_APP_EXCLUDE') if k in given_})
    rig.config = ConfigService(given_)
    from deep.api.resource import Resource
    from deep.processor.trigger_handler import TriggerHandler
    from harness.common import Push
    rig.config.resource = Resource({})
    rig.handler = TriggerHandler(rig.config, Push(rig.rec))
    rig.install(tp('t', 'top.py', 5, {'fire_count': '-1', 'fire_period': '0'}))
    back = None
    for f in FILES:
        back = Frame(f, 'f', 3, back=back)
    with x.no_raise('trace'):
        rig.fire(Frame('/app/top.py', 'top', 5, back=back))
    x.check(len(rig.rec.snapshots) == 1, 'a snapshot')
    ex = [p.strip() for p in (exclude or '').split(',') if p.strip()]
    inc = [p.strip() for p in (include or '').split(',') if p.strip()] + [root]
    if env or exclude is None:
        # the environment adds to the default
        ex.append(sys.exec_prefix)
    for s in rig.rec.snapshots:
        x.check([f.file_name for f in s.frames] == ['/app/top.py'] + FILES[::-1], 'the frames')
        for f in s.frames:
            excluded, included = [p for p in ex if f.file_name.startswith(p)], [p for p in inc if f.file_name.startswith(p)]
            x.check(f.app_frame == (not excluded and bool(included)), '%s is an application frame' % f.file_name)
            shorts = [f.file_name[len(p):] for p in excluded or included] or [f.file_name]
            x.check(f.short_path in shorts, 'short path of %s' % f.file_name)
    x.reached('end')


def timer(x):
    """The interval of the polls."""
    values = [5, 7.5, '5', '7.5', ' 20 ', 1, '1']
    in_code, in_env, value = given(x, 'POLL_TIMER', values, ['5', '0.5', '30', '10.0'], 10)
    environment(x, in_env)
    interval = float(value)
    times = []
    start = 1024 * 10 ** 9

    with Sched(x, preemptions=0, max_timeouts=20, start=start) as s:
        from threading import Event
        done = Event()

        def service(request):
            times.append(s.now)
            if len(times) > 3:
                done.set()
            return PollResponse(response_type=0)
        channel = Channel(x, poll=service)
        agent = Agent(x, channel=channel, config=dict({'POLL_TIMER': None}, **in_code))
        with x.no_raise('start'):
            agent.deep.poll.start()
        done.wait()
        with x.no_raise('shutdown'):
            agent.deep.poll.shutdown()
    x.check(not s.deadlock and len(times) == 4, 'polling continues')
    x.check([(t - start) / 1e9 for t in times] == [i * interval for i in range(len(times))], 'the interval of the polls is used')
    x.reached('end')


AUTH = 'deep.api.auth.BasicAuthProvider'


def service(x):
    """The url, security and authentication."""
    parts = [given(x, 'SERVICE_URL', ['host:1', ''], ['env:2'], 'deep:43315'),
             given(x, 'SERVICE_SECURE', [True, False, 'False', 'true', 'no'], ['False', 'false', 'True', 'TRUE', '0'], 'True')]
    in_code, in_env = {}, {}
    for c, e, _ in parts:
        in_code.update(c)
        in_env.update(e)
    environment(x, in_env)
    channel = Channel(x)
    with x.no_raise('connect'):
        Agent(x, channel=channel, config=dict({'SERVICE_SECURE': None}, **in_code))
    url, secure = parts[0][2], parts[1][2]
    secure = secure is True or isinstance(secure, str) and secure.lower() == 'true'
    x.check(channel.targets == [(url, secure)], 'the url and security of the connection')
    x.reached('end')


def auth(x):
    """The authentication."""
    parts = [given(x, 'SERVICE_AUTH_PROVIDER', [AUTH, ''], [AUTH, '']), given(x, 'SERVICE_USERNAME', ['bob'], ['env user']),
             given(x, 'SERVICE_PASSWORD', ['secret', ''], ['env pass', ''])]
    in_code, in_env = {}, {}
    for c, e, _ in parts:
        in_code.update(c)
        in_env.update(e)
    environment(x, in_env)
    channel = Channel(x)
    agent = Agent(x, channel=channel, config=in_code)
    with x.no_raise('poll'):
        agent.deep.poll.poll()
    provider, user, password = [p[2] for p in parts]
    expected = []
    if provider == AUTH and user is not None and password is not None:
        expected = [('authorization', 'Basic%20' + base64.b64encode((user + ':' + password).encode()).decode())]
    x.check([[tuple(m) for m in ms or []] for ms in channel.metadata] == [expected], 'the metadata')
    x.reached('end')


class Switched(Plugin):
    """A plugin of the application."""


def switches(x):
    """Plugins that are switched off."""
    texts = ['True', 'False', 'true', 'false', '1', '0', 'no', 'yes', '']
    in_code, in_env, value = given(x, 'PLUGIN_SWITCHED', [True, False] + texts, texts, True)
    environment(x, in_env)
    plugins = ['harness.c19.Switched']
    config = ConfigService(dict(in_code, PLUGINS=plugins))
    loaded = []
    with x.no_raise('load'):
        loaded = load_plugins(config, config.PLUGINS)
    on = value is True or isinstance(value, str) and value.lower() in ('true', '1', 'yes')
    x.check(any(isinstance(p, Switched) for p in loaded) == on, 'the plugin is switched')
    x.check(len(loaded) >= 1 + on, 'the other plugins are loaded')
    x.reached('end')


def no_trace(x):
    """Tracing that is switched off."""
    in_code, in_env, value = given(x, 'NO_TRACE', [True, False, 'True', 'False', 'true', 0, 1], ['True', 'False', 'true', '0', '1', 'no'], False)
    environment(x, in_env)
    rig = Rig(x, config=in_code)
    import threading
    hooks = []
    x.patch(sys, 'settrace', lambda fn: hooks.append(fn))
    x.patch(threading, 'settrace', lambda fn: hooks.append(fn))
    if hasattr(threading, 'settrace_all_threads'):
        x.patch(threading, 'settrace_all_threads', lambda fn: hooks.append(fn))
    with x.no_raise('start'):
        rig.handler.start()
    off = value in (True, 1) or isinstance(value, str) and value.lower() in ('true', '1')
    x.check((not hooks) == off, 'tracing is switched')
    x.reached('end')


def entry(x):
    """deep.start with settings from code and environment."""
    root = given(x, 'APP_ROOT', ['/code', ''], ['/env'], None)
    conf = given(x, 'LOGGING_CONF', ['/code.conf', ''], ['/env.conf', ''], None)
    in_code, in_env = {}, {}
    for c, e, _ in (root, conf):
        in_code.update(c)
        in_env.update(e)
    environment(x, in_env)
    started, confs = [], []
    x.patch(Deep, 'start', lambda self: started.append(self))
    x.patch(logging.config, 'fileConfig', lambda fname, *a, **k: confs.append(fname))
    if x.symbolic:
        # without the frames of the engine
        stack = inspect.stack
        x.patch(inspect, 'stack', lambda: [f for f in stack() if '/vx/' not in f.filename][1:])
    agent = None
    with x.no_raise('start'):
        agent = deep.start(dict(in_code)) if in_code or x.flag('empty') else deep.start()
    x.check(agent is not None and started == [agent], 'the agent is started')
    x.check(len(confs) == 1 and (confs[0] == conf[2] if conf[2] else confs[0].endswith('logging.conf')), 'the config of the log')
    if agent is not None:
        got = agent.config.APP_ROOT
        if root[2] is not None:
            x.check(got == root[2], 'the application root')
        else:
            x.check(got and __file__.startswith(got + '/'), 'the calculated application root %r' % got)
    x.reached('end')


HARNESSES = [
    H(resolve, '8 keys (known, unknown), 6 sources, code values: any int -5..5, any text of 2, 10 others; environment: any text of 3, 3 others'),
    H(late, 'one history'),
    H(app_frames, 'any file name of 3 (thorough 4) of / a b, 0..2 include and exclude prefixes of 1..3, roots of 1..3, as lists, '
                  'functions, text or environment', weight=3),
    H(in_snapshot, '%d files, 11 include x 8 exclude x 4 roots, text and lists in code, environment' % len(FILES)),
    H(timer, '7 values in code, 4 in the environment, 6 sources; 4 polls'),
    H(service, '6 x 6 sources of the url and security'),
    H(auth, '6 x 6 x 6 sources of the provider, user and password'),
    H(switches, '11 values in code, 9 in the environment, 6 sources'),
    H(no_trace, '7 values in code, 6 in the environment, 6 sources'),
    H(entry, '6 x 6 sources of the application root and the config of the log'),
]
