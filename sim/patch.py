"""Simulated replacements for the threading, time and queue seams.

Installed after third-party libraries are imported and before the package
under test is.  Inside a run every primitive is a scheduling point of the
simulator; outside of one (imports, set-up) the primitives act trivially.
"""

import _thread
import atexit
import collections
import queue
import random
import sys
import threading
import time

from . import core

REAL = {}
ATEXIT = []  # (fn, args, kwargs) registered during a run


def _sim():
    s = core.SIM
    if s is None or s.cur is None:
        return None
    if s.cur.os_ident != _thread.get_ident():
        return None
    return s


class Lock:
    def __init__(self):
        self._owner = None
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        s = _sim()
        if s is None:
            self._owner = self._owner or "setup"
            return True
        s.yield_()
        if self._owner is None:
            self._owner = s.cur
            return True
        if not blocking:
            return False
        dl = None if timeout is None or timeout < 0 else s.now + int(timeout * 1e9)
        while self._owner is not None:
            self._waiters.append(s.cur)
            woken = s.block(dl)
            if s.cur in self._waiters:
                self._waiters.remove(s.cur)
            if not woken and self._owner is not None:
                return False
        self._owner = s.cur
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        self._owner = None
        s = _sim()
        if s is not None and self._waiters:
            for w in self._waiters:
                s.wake(w)
            self._waiters = []

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


class RLock:
    def __init__(self):
        self._owner = None
        self._count = 0
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        s = _sim()
        if s is None:
            self._count += 1
            return True
        if self._owner is s.cur:
            self._count += 1
            return True
        s.yield_()
        dl = None if timeout is None or timeout < 0 else s.now + int(timeout * 1e9)
        while self._owner is not None:
            if not blocking:
                return False
            self._waiters.append(s.cur)
            woken = s.block(dl)
            if s.cur in self._waiters:
                self._waiters.remove(s.cur)
            if not woken and self._owner is not None:
                return False
        self._owner = s.cur
        self._count = 1
        return True

    def release(self):
        s = _sim()
        if s is None:
            self._count = max(0, self._count - 1)
            if self._count == 0:
                self._owner = None
            return
        if self._owner is not s.cur:
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
            for w in self._waiters:
                s.wake(w)
            self._waiters = []

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    # used by Condition
    def _release_save(self):
        st = (self._count, self._owner)
        self._count = 1
        self.release()
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count, self._owner = st

    def _is_owned(self):
        s = _sim()
        return s is None or self._owner is s.cur


class Condition:
    def __init__(self, lock=None):
        self._lock = lock if lock is not None else RLock()
        self.acquire = self._lock.acquire
        self.release = self._lock.release
        self._waiters = []

    def __enter__(self):
        return self._lock.__enter__()

    def __exit__(self, *a):
        return self._lock.__exit__(*a)

    def wait(self, timeout=None):
        s = _sim()
        if s is None:
            return True
        self._waiters.append(s.cur)
        if hasattr(self._lock, "_release_save"):
            st = self._lock._release_save()
        else:
            self._lock.release()
            st = None
        try:
            ok = s.block(core.current_deadline(timeout))
        finally:
            if s.cur in self._waiters:
                self._waiters.remove(s.cur)
            if st is not None:
                self._lock._acquire_restore(st)
            else:
                self._lock.acquire()
        return ok

    def wait_for(self, predicate, timeout=None):
        s = _sim()
        dl = core.current_deadline(timeout) if s else None
        r = predicate()
        while not r:
            rest = None
            if dl is not None:
                rest = (dl - s.now) / 1e9
                if rest <= 0:
                    break
            self.wait(rest)
            r = predicate()
        return r

    def notify(self, n=1):
        s = _sim()
        for w in self._waiters[:n]:
            s.wake(w)
        self._waiters = self._waiters[n:]

    def notify_all(self):
        self.notify(len(self._waiters))

    notifyAll = notify_all


class Event:
    def __init__(self):
        self._flag = False
        self._waiters = []

    def is_set(self):
        return self._flag

    isSet = is_set

    def set(self):
        self._flag = True
        s = _sim()
        if s is not None:
            for w in self._waiters:
                s.wake(w)
            self._waiters = []

    def clear(self):
        self._flag = False

    def wait(self, timeout=None):
        s = _sim()
        if s is None:
            return self._flag
        dl = core.current_deadline(timeout)
        s.yield_()
        while not self._flag:
            self._waiters.append(s.cur)
            ok = s.block(dl)
            if s.cur in self._waiters:
                self._waiters.remove(s.cur)
            if not ok:
                break
        return self._flag


class Semaphore:
    def __init__(self, value=1):
        self._c = Condition(Lock())
        self._value = value

    def acquire(self, blocking=True, timeout=None):
        with self._c:
            if not blocking:
                if self._value == 0:
                    return False
            elif not self._c.wait_for(lambda: self._value > 0, timeout):
                return False
            self._value -= 1
        return True

    def release(self, n=1):
        with self._c:
            self._value += n
            self._c.notify(n)

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class Thread:
    _counter = 0

    def __init__(
        self, group=None, target=None, name=None, args=(), kwargs=None, *,
        daemon=None
    ):
        Thread._counter += 1
        self.name = name or f"Thread-{Thread._counter}"
        self._target = target
        self._args = args
        self._kwargs = kwargs or {}
        self.daemon = bool(daemon)
        self._st = None
        self._started = False

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        s = _sim()
        if self._started:
            raise RuntimeError("threads can only be started once")
        if s is None:
            raise RuntimeError("thread started outside of the simulation")
        hook = START_HOOK[0]
        if hook is not None:
            hook(self)
        self._started = True
        self._st = s.spawn(self.run, self.name, self.daemon)
        self._st.pyobj = self
        s.yield_()

    def join(self, timeout=None):
        s = _sim()
        if self._st is s.cur:
            raise RuntimeError("cannot join current thread")
        if not self._started:
            raise RuntimeError("cannot join thread before it is started")
        dl = core.current_deadline(timeout)
        s.yield_()
        while self._st.state != core.DONE:
            self._st.joiners.append(s.cur)
            ok = s.block(dl)
            if s.cur in self._st.joiners:
                self._st.joiners.remove(s.cur)
            if not ok:
                return

    def is_alive(self):
        return self._started and self._st.state != core.DONE

    @property
    def ident(self):
        return None if self._st is None else 1000 + self._st.tid

    native_id = ident

    def getName(self):
        return self.name

    def setName(self, name):
        self.name = name

    def isDaemon(self):
        return self.daemon

    def setDaemon(self, d):
        self.daemon = d

    def __repr__(self):
        return f"<SimThread {self.name}>"


START_HOOK = [None]


class Timer(Thread):
    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__()
        self.interval = interval
        self.function = function
        self.args = args or []
        self.kwargs = kwargs or {}
        self.finished = Event()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished.is_set():
            self.function(*self.args, **self.kwargs)
        self.finished.set()


def current_thread():
    s = _sim()
    if s is None:
        return REAL["current_thread"]()
    o = getattr(s.cur, "pyobj", None)
    if o is None:
        o = Thread(name="MainThread" if s.cur.tid == 0 else s.cur.name)
        o._started = True
        o._st = s.cur
        s.cur.pyobj = o
    return o


def get_ident():
    s = _sim()
    if s is None:
        return _thread.get_ident()
    return 1000 + s.cur.tid


# -- time --------------------------------------------------------------------
WALL_BASE_NS = 1_600_000_000_000_000_000


def sim_sleep(sec):
    s = _sim()
    if s is None:
        return
    if sec < 0:
        raise ValueError("sleep length must be non-negative")
    s.sleep_ns(round(float(sec) * 1e9))


def wall_ns():
    s = core.SIM
    if s is None:
        return REAL["time_ns"]()
    return WALL_BASE_NS + s.now + getattr(s, "wall_skew", 0)


def mono_ns():
    s = core.SIM
    return REAL["monotonic_ns"]() if s is None else s.now


class SimpleQueue:
    def __init__(self):
        self._q = collections.deque()
        self._c = Condition(Lock())

    def put(self, item, block=True, timeout=None):
        with self._c:
            self._q.append(item)
            self._c.notify()

    put_nowait = put

    def get(self, block=True, timeout=None):
        with self._c:
            if not block and not self._q:
                raise queue.Empty
            if not self._c.wait_for(lambda: bool(self._q), timeout):
                raise queue.Empty
            return self._q.popleft()

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return not self._q

    def qsize(self):
        return len(self._q)


def _atexit_register(fn, *a, **k):
    if core.SIM is not None:
        ATEXIT.append((fn, a, k))
        return fn
    return REAL["atexit_register"](fn, *a, **k)


def _atexit_unregister(fn):
    if core.SIM is not None:
        ATEXIT[:] = [x for x in ATEXIT if x[0] != fn]
        return None
    return REAL["atexit_unregister"](fn)


def install():
    for n in (
        "Thread", "Lock", "RLock", "Condition", "Event", "Semaphore",
        "BoundedSemaphore", "Timer", "current_thread", "get_ident",
    ):
        REAL[n] = getattr(threading, n)
    for n in ("sleep", "time", "time_ns", "monotonic", "monotonic_ns",
              "perf_counter", "perf_counter_ns"):
        REAL[n] = getattr(time, n)
    threading.Thread = Thread
    threading.Lock = Lock
    threading.RLock = RLock
    threading.Condition = Condition
    threading.Event = Event
    threading.Semaphore = Semaphore
    threading.BoundedSemaphore = Semaphore
    threading.Timer = Timer
    threading.current_thread = current_thread
    threading.currentThread = current_thread
    threading.get_ident = get_ident
    time.sleep = sim_sleep
    time.time_ns = wall_ns
    time.time = lambda: wall_ns() / 1e9
    time.monotonic_ns = mono_ns
    time.monotonic = lambda: mono_ns() / 1e9
    time.perf_counter_ns = mono_ns
    time.perf_counter = lambda: mono_ns() / 1e9
    queue.SimpleQueue = SimpleQueue
    REAL["atexit_register"] = atexit.register
    REAL["atexit_unregister"] = atexit.unregister
    atexit.register = _atexit_register
    atexit.unregister = _atexit_unregister


def seed_everything(seed):
    """Global PRNGs the code or its libraries may draw from."""
    import numpy as np
    import os
    import tempfile
    import uuid

    random.seed(seed)
    np.random.seed(seed % (2**32))
    r = core.keyed(seed, "urandom")
    os.urandom = lambda n: bytes(r.getrandbits(8) for _ in range(n))
    uuid.uuid4 = lambda: uuid.UUID(int=r.getrandbits(128), version=4)
    uuid.uuid1 = lambda *a, **k: uuid.UUID(int=r.getrandbits(128), version=1)

    class Names:
        def __iter__(self):
            return self

        def __next__(self):
            return "".join(r.choice("abcdefghij0123456789_") for _ in range(8))

    tempfile._name_sequence = Names()
