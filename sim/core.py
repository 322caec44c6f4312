"""Deterministic scheduler, virtual clock and event log.

One process executes one run (the runner forks a fresh process per run), so
there is a single global simulator ``SIM``.  Simulated threads are real OS
threads parked on private locks; exactly one of them runs at any time and
only the scheduler decides which.
"""

import _thread
import hashlib
import heapq
import os
import random
import sys

SIM = None  # the simulator of this process


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg


def keyed(seed, *key):
    """PRNG for one named decision, independent of all other decisions."""
    h = hashlib.sha256(repr((seed,) + key).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


RUN, BLOCK, DONE = "run", "block", "done"


class SThread:
    def __init__(self, tid, name, fn, daemon):
        self.tid = tid
        self.name = name
        self.fn = fn
        self.daemon = daemon
        self.lock = _thread.allocate_lock()
        self.lock.acquire()
        self.state = RUN
        self.deadline = None
        self.timed_out = False
        self.exc = None
        self.n = 0  # local decision counter
        self.prio = 0.0
        self.joiners = []
        self.os_ident = None

    def __repr__(self):
        return f"<{self.tid}:{self.name}>"


class Sim:
    def __init__(self, sched=None, max_steps=200_000, max_lines=3_000_000):
        """sched: {"mode": fifo|random|pct|script, "seed", "p", "script"}."""
        global SIM
        assert SIM is None
        SIM = self
        self.sched = dict(sched or {"mode": "fifo"})
        self.mode = self.sched.get("mode", "fifo")
        self.rng = random.Random(self.sched.get("seed", 0))
        self.p = self.sched.get("p", 0.0)  # at every watched line
        self.py = self.sched.get("py", 0.3)  # at every primitive
        self.script = {
            (t, n): tgt for t, n, tgt in self.sched.get("script", [])
        }
        self.taken = []  # non-default decisions taken
        self.now = 0  # virtual nanoseconds
        self.threads = []
        self.cur = None
        self.timers = []
        self.tseq = 0
        self.steps = 0
        self.lines = 0
        self.max_steps = max_steps
        self.max_lines = max_lines
        self.end = None
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.events = []
        self.stats = {}
        self.watch = ()
        self.preemptions = 0
        self.uncaught = []
        self.seq = 0
        self.hash = hashlib.sha256()
        self.on_line = None
        self.line_preempt = True
        self.opcodes = False  # pre-empt between bytecode instructions too
        self.line_switches = 0

    # -- log ---------------------------------------------------------------
    def count(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def log(self, *what):
        self.seq += 1
        tid = self.cur.tid if self.cur else -1
        ev = (self.seq, self.now, tid) + what
        self.hash.update(repr(ev).encode())
        if len(self.events) < 20000:
            self.events.append(ev)
        return self.seq

    # -- threads -----------------------------------------------------------
    def spawn(self, fn, name=None, daemon=True):
        t = SThread(len(self.threads), name or "t", fn, daemon)
        t.prio = self.rng.random()
        self.threads.append(t)
        _thread.start_new_thread(self._boot, (t,))
        self.log("spawn", t.tid, t.name)
        return t

    def _boot(self, t):
        t.lock.acquire()
        t.os_ident = _thread.get_ident()
        try:
            if self.watch:
                sys.settrace(self._trace)
            t.fn()
        except BaseException as e:  # noqa: recorded for the property
            sys.settrace(None)
            t.exc = e
            self.uncaught.append((t, e))
            self.log("uncaught", t.name, type(e).__name__, str(e)[:200])
        sys.settrace(None)
        t.state = DONE
        self.log("exit", t.tid)
        for j in t.joiners:
            self.wake(j)
        if t.tid == 0:
            self._finish("main")
            return
        nxt = self._pick(t, None)
        if nxt is None:
            self._finish("deadlock")
        else:
            self._resume(nxt)

    def run(self, main):
        """Run ``main`` as thread 0; returns how the run ended.

        Other threads are left parked for good: the process executes no
        further run.
        """
        t = self.spawn(main, "main", daemon=False)
        self._resume(t)
        self.done.acquire()
        self.cur = None
        if t.exc is not None:
            raise t.exc
        return self.end

    def _finish(self, how):
        if self.end is None:
            self.end = how
            self.done.release()

    def _resume(self, t):
        self.cur = t
        t.lock.release()

    def _park(self, t):
        t.lock.acquire()

    def give_up(self, how):
        """End the run from inside a simulated thread, which never returns."""
        sys.settrace(None)
        self.log("give-up", how)
        self._finish(how)
        while True:
            _thread.allocate_lock().acquire()
            lk = _thread.allocate_lock()
            lk.acquire()
            lk.acquire()

    # -- scheduling --------------------------------------------------------
    def _runnable(self):
        return [t for t in self.threads if t.state == RUN]

    def _advance(self):
        """Fire everything due at the next instant. False if nothing left."""
        nxt = None
        for t in self.threads:
            if t.state == BLOCK and t.deadline is not None:
                if nxt is None or t.deadline < nxt:
                    nxt = t.deadline
        if self.timers and (nxt is None or self.timers[0][0] < nxt):
            nxt = self.timers[0][0]
        if nxt is None:
            return False
        if nxt > self.now:
            self.now = nxt
        while self.timers and self.timers[0][0] <= self.now:
            _, _, fn = heapq.heappop(self.timers)
            fn()
        for t in self.threads:
            if (
                t.state == BLOCK
                and t.deadline is not None
                and t.deadline <= self.now
            ):
                t.state = RUN
                t.deadline = None
                t.timed_out = True
        return True

    def _fire_due(self):
        while self.timers and self.timers[0][0] <= self.now:
            _, _, fn = heapq.heappop(self.timers)
            fn()

    def after(self, ns, fn):
        self.tseq += 1
        heapq.heappush(self.timers, (self.now + max(0, int(ns)), self.tseq, fn))

    def _pick(self, cur, default):
        """Choose the next thread. ``default`` goes on unless overridden."""
        while True:
            r = self._runnable()
            if r:
                break
            if not self._advance():
                return None
        if len(r) == 1:
            return r[0]
        if default is None or default.state != RUN:
            # first in round-robin order after the current thread
            default = min(r, key=lambda t: (t.tid <= cur.tid, t.tid))
        cur.n += 1
        choice = default
        if self.mode == "script":
            tgt = self.script.get((cur.tid, cur.n))
            for t in r:
                if t.tid == tgt:
                    choice = t
        elif self.mode == "random":
            if self.rng.random() < self.py:
                choice = r[self.rng.randrange(len(r))]
        elif self.mode == "pct":
            self._pct_change(cur)
            choice = max(r, key=lambda t: (t.prio, -t.tid))
        if choice is not default:
            self.taken.append([cur.tid, cur.n, choice.tid])
        return choice

    def _pct_change(self, t):
        if self.rng.random() < self.p:
            t.prio = min(x.prio for x in self.threads) - 1.0

    def _step(self):
        self.steps += 1
        if self.steps > self.max_steps:
            self.give_up("step-limit")

    def yield_(self):
        """A point where any runnable thread may go on."""
        t = self.cur
        self._step()
        self._fire_due()
        nxt = self._pick(t, t)
        if nxt is not t:
            self.preemptions += 1
            self._resume(nxt)
            self._park(t)

    def block(self, deadline=None):
        """Park the current thread until woken or the deadline (virtual ns).

        Returns True if woken, False on timeout.
        """
        t = self.cur
        self._step()
        t.state = BLOCK
        t.deadline = deadline
        t.timed_out = False
        nxt = self._pick(t, None)
        if nxt is None:
            self.give_up("deadlock")
        if nxt is not t:
            self._resume(nxt)
            self._park(t)
        return not t.timed_out

    def wake(self, t):
        if t.state == BLOCK:
            t.state = RUN
            t.deadline = None
            t.timed_out = False

    def sleep_ns(self, ns):
        self.block(self.now + max(1, int(ns)))

    # -- line-level pre-emption ---------------------------------------------
    def _trace(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(self.watch):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._local_trace
        return None

    def _local_trace(self, frame, event, arg):
        if event == "line" and self.end is None:
            self.lines += 1
            if self.lines > self.max_lines:
                self.give_up("line-limit")
            if self.on_line is not None:
                self.on_line(frame)
            if self.line_preempt:
                self._maybe_preempt()
        elif event == "opcode" and self.end is None and self.line_preempt:
            self._maybe_preempt()
        return self._local_trace

    def _maybe_preempt(self):
        t = self.cur
        if t is None or t.os_ident != _thread.get_ident():
            return
        n_run = 0
        for x in self.threads:
            if x.state == RUN:
                n_run += 1
        if n_run < 2:
            return
        t.n += 1
        tgt = None
        if self.mode == "script":
            want = self.script.get((t.tid, t.n))
            if want is None:
                return
            for x in self.threads:
                if x.tid == want and x.state == RUN:
                    tgt = x
        elif self.mode == "random":
            if self.rng.random() >= self.p:
                return
            r = [x for x in self._runnable() if x is not t]
            tgt = r[self.rng.randrange(len(r))]
        elif self.mode == "pct":
            self._pct_change(t)
            tgt = max(self._runnable(), key=lambda x: (x.prio, -x.tid))
        if tgt is None or tgt is t:
            return
        self.taken.append([t.tid, t.n, tgt.tid])
        self.preemptions += 1
        self.line_switches += 1
        self._step()
        self._resume(tgt)
        self._park(t)


def current_deadline(timeout):
    return None if timeout is None else SIM.now + int(max(0.0, timeout) * 1e9)
