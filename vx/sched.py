"""A scheduler for the threads of the code under test: which thread runs is decided by symbolic variables.

One thread runs at a time. It can lose the processor at each line of the code under test and at each operation on a lock
of the code under test, or of the libraries it uses with locks='all' (a preemption, the number of them is bounded), and has
to give it up when it blocks or ends. The positions of the preemptions and the threads that are chosen are symbolic, so every schedule within the bound is explored. A wait with a
timeout only times out when no other thread can run. When a thread blocks or ends any of the others can be next, or the
first one of them after a number of other choices. The same schedule is followed when a path is replayed.
"""
import _thread
import gc
import logging
import os
import queue
import sys
import threading
from concurrent.futures import thread as futures_thread

from . import clock

REPO = os.environ.get('VX_REPO', '/repo')
ROOT = os.path.join(REPO, 'src') + os.sep
CUR = None
real_lock = _thread.allocate_lock
real_rlock = _thread.RLock
real_start = threading._start_new_thread
real_join = threading.Thread.join
real_alive = threading.Thread.is_alive
TOOL = 4
TRACE = os.environ.get('VX_TRACE')


class Killed(BaseException):
    """The thread has to end, as the path is complete."""


class Deadlock(BaseException):
    """No thread can run."""


def _me():
    s = CUR
    if s is None:
        return None, None
    return s, s.by_ident.get(_thread.get_ident())


class VxLock:
    def __init__(self):
        self._real = real_lock()
        self._locked = False

    def acquire(self, blocking=True, timeout=-1):
        s, me = _me()
        if me is None:
            return self._real.acquire(blocking, timeout)
        s.point(me, 'lock')
        while self._locked:
            if not blocking:
                return False
            if not s.block(me, lambda: not self._locked, timeout if timeout is not None and timeout >= 0 else None):
                return False
        self._locked = True
        return True

    def release(self):
        s, me = _me()
        if me is None:
            if self._locked:
                self._locked = False
                return
            return self._real.release()
        if s.killing:
            self._locked = False
            return
        if not self._locked:
            raise RuntimeError('release unlocked lock')
        self._locked = False
        s.point(me, 'unlock')

    def locked(self):
        return self._locked or self._real.locked()

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._real = real_lock()
        self._locked = False


class VxRLock:
    def __init__(self):
        self._real = real_rlock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        s, me = _me()
        if me is None:
            return self._real.acquire(blocking, timeout)
        if self._owner is me:
            self._count += 1
            return True
        s.point(me, 'lock')
        while self._owner is not None:
            if not blocking:
                return False
            if not s.block(me, lambda: self._owner is None, timeout if timeout is not None and timeout >= 0 else None):
                return False
        self._owner, self._count = me, 1
        return True

    def release(self):
        s, me = _me()
        if me is None:
            return self._real.release()
        if s.killing:
            self._owner = None
            return
        if self._owner is not me:
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if self._count == 0:
            self._owner = None
            s.point(me, 'unlock')

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        s, me = _me()
        return self._real._is_owned() if me is None else self._owner is me

    def _release_save(self):
        s, me = _me()
        if me is None:
            return self._real._release_save()
        state = self._count
        self._owner, self._count = None, 0
        return state

    def _acquire_restore(self, state):
        s, me = _me()
        if me is None:
            return self._real._acquire_restore(state)
        self.acquire()
        self._count = state

    def _at_fork_reinit(self):
        self._real = real_rlock()
        self._owner, self._count = None, 0


class Thr:
    def __init__(self, tid, name):
        self.id, self.name = tid, name
        self.sem = real_lock()
        self.sem.acquire()
        self.done = real_lock()
        self.done.acquire()
        self.state = 'ready'
        self.pred = None
        self.timed = self.timed_out = False
        self.deadline = 0
        self.occ = {}
        self.thread = self.line = None


def _start_new_thread(fn, args, kwargs=None):
    s, me = _me()
    if me is None:
        return real_start(fn, args) if kwargs is None else real_start(fn, args, kwargs)
    t = Thr(len(s.threads), 't%d' % len(s.threads))
    t.thread = getattr(fn, '__self__', None)
    s.threads.append(t)

    def run():
        s.by_ident[_thread.get_ident()] = t
        t.sem.acquire()
        try:
            if not s.killing:
                fn(*args, **(kwargs or {}))
        except BaseException:
            pass
        finally:
            s.by_ident.pop(_thread.get_ident(), None)
            t.state = 'done'
            t.done.release()
            if not s.killing:
                s.hand_over(t)
    return real_start(run, ())


def _join(self, timeout=None):
    s, me = _me()
    if me is not None:
        for t in s.threads:
            if t.thread is self:
                if t is me:
                    raise RuntimeError('cannot join current thread')
                s.block(me, lambda: t.state == 'done', timeout)
                return None
    return real_join(self, timeout)


def _is_alive(self):
    s, me = _me()
    if s is not None:
        for t in s.threads:
            if t.thread is self:
                return t.state != 'done'
    return real_alive(self)


def _simple_queue():
    # the queue can be created before the threads are controlled
    return queue._PySimpleQueue()


def install():
    """Has to be called before the code under test is loaded."""
    threading.Lock = VxLock
    threading._allocate_lock = VxLock
    threading._CRLock = VxRLock
    threading.RLock = VxRLock
    # this is created again in a process that is forked
    threading._active_limbo_lock = VxRLock()
    threading._start_new_thread = _start_new_thread
    threading.Thread.join = _join
    threading.Thread.is_alive = _is_alive
    # the threads that are ended are not of interest
    logging.getLogger('concurrent.futures').setLevel(logging.CRITICAL + 1)
    ignored = sys.unraisablehook
    sys.unraisablehook = lambda args: None if args.exc_type in (Killed, Deadlock) else ignored(args)
    show = threading.excepthook
    threading.excepthook = lambda args: None if args.exc_type in (Killed, Deadlock) else show(args)
    queue.SimpleQueue = _simple_queue


class Sched:
    """Run a part of a harness with controlled threads."""

    def __init__(self, x, preemptions=1, lines=True, max_timeouts=6, only=None, choices=None, locks='code',
                 start=None):
        # the time in ns when it is virtual: it only advances when no thread can run, to the next timeout
        self.now = start
        self.x, self.limit, self.lines, self.max_timeouts = x, preemptions, lines, max_timeouts
        self.only, self.choices, self.locks = only, choices, locks
        self.threads, self.by_ident = [], {}
        self.used = self.step = self.timeouts = 0
        self.killing = False
        self.deadlock = False
        self.failed = None
        self.current = None
        self.spawned = []
        self.open = False
        self.trace = []

    # -- control --------------------------------------------------------
    def __enter__(self):
        global CUR
        # a collection at another step would be another schedule
        gc.disable()
        main = Thr(0, 'main')
        main.thread = threading.current_thread()
        self.main = self.current = main
        self.threads.append(main)
        self.by_ident[_thread.get_ident()] = main
        if self.x.symbolic:
            z3 = self.x.z3
            self.vars = []
            for i in range(self.limit):
                name = self.x.st.name('preempt_step')
                self.vars.append(z3.Int(name))
                self.x.st.inputs[name] = ('int', self.vars[-1])
        else:
            for i in range(self.limit):
                self.x.int('preempt_step')
        self.old_shutdown_lock = futures_thread._global_shutdown_lock
        futures_thread._global_shutdown_lock = VxLock()
        CUR = self
        if self.now is not None:
            clock.override = lambda: self.now
        if self.lines:
            mon = sys.monitoring
            if mon.get_tool(TOOL) is None:
                mon.use_tool_id(TOOL, 'vx-sched')
            mon.register_callback(TOOL, mon.events.LINE, self.on_line)
            mon.restart_events()
            mon.set_events(TOOL, mon.events.LINE)
        return self

    def __exit__(self, et, ev, tb):
        global CUR
        if self.lines:
            sys.monitoring.set_events(TOOL, 0)
        self.killing = True
        for t in self.threads[1:]:
            if t.state != 'done':
                t.sem.release()
                if not t.done.acquire(True, 10):
                    self.failed = 'a thread cannot be ended'
            elif t.done.locked():
                t.done.acquire(True, 10)
        CUR = None
        if self.now is not None:
            clock.override = None
        gc.enable()
        futures_thread._global_shutdown_lock = self.old_shutdown_lock
        if et is Deadlock:
            return True
        return False

    def on_line(self, code, line):
        if not code.co_filename.startswith(ROOT):
            return sys.monitoring.DISABLE
        if self.only is not None and not code.co_filename.startswith(self.only, len(ROOT)):
            return sys.monitoring.DISABLE
        s, me = _me()
        if s is not self or me is None:
            return None
        key = '%s:%d' % (code.co_filename[len(ROOT):], line)
        if key != me.line:
            # parts of a line can be separate functions when it is instrumented
            me.line = key
            self.point(me, key)
        return None

    # -- scheduling -----------------------------------------------------
    def runnable(self, t):
        return t.state == 'ready' or t.state == 'blocked' and t.pred()

    def _stop_if_over(self, me):
        if self.killing:
            raise Killed()
        if self.deadlock and me is self.main:
            raise Deadlock()
        if self.x.symbolic and self.x.st.aborted is not None:
            if me is self.main:
                raise self.x.core.PathAbort(self.x.st.aborted)
            self.park(me)

    def park(self, me):
        """Go back to main, which has to end."""
        me.state = 'parked'
        self.switch(me, self.main)
        raise Killed()

    def point(self, me, key):
        self._stop_if_over(me)
        if self.locks == 'code' and key in ('lock', 'unlock'):
            # only the locks that are used by the code under test itself
            f = sys._getframe(2)
            while f is not None and f.f_code.co_filename == __file__:
                f = f.f_back
            if f is None or not f.f_code.co_filename.startswith(ROOT):
                return
        n = me.occ[key] = me.occ.get(key, 0) + 1
        if TRACE:
            f = sys._getframe(2)
            self.trace.append('%d %s %d %s' % (me.id, key, n, ' '.join('%s:%d' % (g.f_code.co_name, g.f_lineno) for g in (
                f, f.f_back, f.f_back and f.f_back.f_back) if g)))
            if self.x.symbolic:
                self.x.st.inputs['trace'] = ('const', self.trace)
        if self.used >= self.limit:
            return
        others = [t for t in self.threads if t is not me and self.runnable(t)]
        if not others:
            return
        if self.x.symbolic:
            self.step += 1
            try:
                hit = self.x.st.at_step(self.vars[self.used], self.step)
            except self.x.core.PathAbort:
                if me is self.main:
                    raise
                self.park(me)
            if not hit:
                return
            self.x.st.inputs['preempt%d' % self.used] = ('const', [me.id, key, n])
        else:
            if self.x.inputs.get('preempt%d' % self.used) != [me.id, key, n]:
                return
        self.used += 1
        target = self.choose(me, 'to', others)
        me.state = 'ready'
        self.switch(me, target)

    def choose(self, me, name, options):
        if len(options) == 1 or name == 'next' and self.choices == 0:
            return options[0]
        try:
            at = self.x.index(name, len(options))
            if name == 'next' and at and self.choices is not None:
                self.choices -= 1
            return options[at]
        except BaseException as e:
            if type(e).__name__ != 'PathAbort' or me is self.main or me.state == 'done':
                raise
            self.park(me)

    def switch(self, me, target):
        if target is me:
            return
        target.state = 'ready'
        self.current = target
        target.sem.release()
        me.sem.acquire()
        self._stop_if_over(me)

    def block(self, me, pred, timeout):
        """Wait for the condition; False when the wait has timed out."""
        timed = timeout is not None
        self._stop_if_over(me)
        if pred():
            return True
        me.state, me.pred, me.timed, me.timed_out = 'blocked', pred, timed, False
        if timed and self.now is not None:
            me.deadline = self.now + int(timeout * 1000000000)
        self.switch(me, self.next(me))
        me.state = 'ready'
        return not me.timed_out

    def next(self, me):
        options = [t for t in self.threads if self.runnable(t)]
        if options:
            return self.choose(me, 'next', options)
        timed = [t for t in self.threads if t.state == 'blocked' and t.timed]
        if timed and self.timeouts < self.max_timeouts:
            self.timeouts += 1
            if self.now is not None:
                self.now = max(self.now, min(t.deadline for t in timed))
                timed = [t for t in timed if t.deadline <= self.now]
            t = self.choose(me, 'timeout', timed)
            t.timed_out = True
            return t
        self.deadlock = True
        return self.main

    def hand_over(self, me):
        """The thread is done."""
        try:
            target = self.next(me)
        except BaseException:
            target = self.main
        target.state = 'ready'
        self.current = target
        target.sem.release()

    # -- for the harness ------------------------------------------------
    def spawn(self, fn, *args):
        """Add a thread that starts with go()."""
        def run():
            s, me = _me()
            self.block(me, lambda: self.open, None)
            fn(*args)
        t = threading.Thread(target=run, daemon=True)
        t.start()
        self.spawned.append(t)
        return t

    def go(self):
        """Run the spawned threads to the end."""
        self.open = True
        for t in self.spawned:
            t.join()
