"""Controlled scheduler for real threads running the real code.

Exactly one controlled thread runs at a time. It can be preempted at every line (or every
bytecode) of the chosen parts of /repo and at every lock operation, file lock and explicit
point. `explore` enumerates every schedule with at most `bound` preemptions: a schedule is
the list of its deviations from the default one (keep running the current thread, take
the lowest runnable thread when it cannot go on), so each schedule is run exactly once.

Import this before asyncz: `threading.Lock` and `threading.RLock` are replaced by locks
which behave as usual for ordinary threads and cooperate with the controller otherwise.
"""
from __future__ import annotations

import _thread
import fcntl
import gc
import logging
import os
import sys
import threading
import time

from mc.core import REPO

_allocate = _thread.allocate_lock
_RLock = threading.RLock
_ident = _thread.get_ident
CTL = None  # the active run


class Abort(BaseException):
    """Ends the threads of a run which cannot go on."""


class Deadlock(Exception):
    pass


def _me():
    """The controlled thread calling, None for other threads."""
    c = CTL
    if c is None:
        return None
    return c.by_ident.get(_ident())


class CoopLock:
    _reentrant = False

    def __init__(self):
        self._real = _allocate()
        self._owner = None
        self._count = 0

    def _free_for(self, me):
        return self._owner is None or (self._reentrant and self._owner == me)

    def acquire(self, blocking=True, timeout=-1):
        ident = _ident()
        t = _me()
        if t is None:
            if self._reentrant and self._owner == ident:
                self._count += 1
                return True
            if self._real.acquire(blocking, timeout):
                self._owner, self._count = ident, 1
                return True
            return False
        ctl = t.ctl
        ctl.point("acquire")
        if not self._free_for(ident):
            if not blocking or timeout == 0:
                return False
            if timeout > 0:
                # a timeout may always come first
                return False
            ctl.block(lambda: self._free_for(ident), "lock")
        if self._owner == ident:
            self._count += 1
        else:
            self._real.acquire()
            self._owner, self._count = ident, 1
        return True

    def release(self):
        if self._owner is None or (self._reentrant and self._owner != _ident()):
            raise RuntimeError("release of a lock which is not held")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._real.release()
        t = _me()
        if t is not None:
            t.ctl.point("release")

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    def _at_fork_reinit(self):
        self._real = _allocate()
        self._owner, self._count = None, 0


class CoopRLock(CoopLock):
    _reentrant = True

    def _is_owned(self):
        return self._owner == _ident()

    def _release_save(self):
        state = self._count
        self._count = 1
        self.release()
        return state

    def _acquire_restore(self, state):
        self.acquire()
        self._count = state

    def _recursion_count(self):
        return self._count if self._owner == _ident() else 0


_flock = fcntl.flock


def coop_flock(fd, op):
    t = _me()
    if t is None:
        return _flock(fd, op)
    t.ctl.point("flock")
    if op & fcntl.LOCK_UN or op & fcntl.LOCK_NB:
        return _flock(fd, op)

    def free():
        try:
            _flock(fd, op | fcntl.LOCK_NB)
        except BlockingIOError:
            return False
        _flock(fd, fcntl.LOCK_UN)
        return True

    while True:
        try:
            return _flock(fd, op | fcntl.LOCK_NB)
        except BlockingIOError:
            t.ctl.block(free, "flock")


def install():
    # logging takes locks of its own the first time a logger is used
    logging.disable(logging.CRITICAL)
    threading.Lock = CoopLock
    threading.RLock = CoopRLock
    fcntl.flock = coop_flock


class T:
    __slots__ = ("ctl", "tid", "name", "fn", "baton", "pred", "why", "done", "exc", "result", "loc", "ident")

    def __init__(self, ctl, tid, name, fn):
        self.ctl, self.tid, self.name, self.fn = ctl, tid, name, fn
        self.baton = _allocate()
        self.baton.acquire()
        self.pred = self.why = self.exc = self.result = self.ident = None
        self.done = False
        self.loc = 0

    def ready(self):
        return not self.done and (self.pred is None or self.pred())


DIRS = tuple(str(REPO / "asyncz" / d) for d in ("schedulers", "executors", "stores", "locks.py", "file_locking.py"))


class Run:
    """One execution under one schedule."""

    def __init__(self, deviations=(), grain="line", dirs=DIRS, limit=200000):
        self.dev = dict(deviations)
        self.grain = grain
        self.dirs = dirs
        self.limit = limit
        self.threads = []
        self.by_ident = {}
        self.step = 0
        self.choices = []  # per step: (current tid or -1, enabled tids, chosen)
        self.current = None
        self.aborting = False
        self.deadlock = None
        self.diverged = None
        self.over = threading_event()
        self.codes = {}
        self.locs = set()

    # --- called by controlled threads

    def point(self, why=""):
        """The current thread may be preempted here."""
        if self.aborting:
            raise Abort()
        me = self.current
        if len(self.threads) == 1:
            return
        enabled = [t.tid for t in self.threads if t is me or t.ready()]
        self._choose(me, enabled, True)

    def block(self, pred, why):
        if self.aborting:
            raise Abort()
        me = self.current
        me.pred, me.why = pred, why
        if pred():
            me.pred = None
            return
        while True:
            enabled = [t.tid for t in self.threads if t.ready()]
            if not enabled:
                self._stuck()
                raise Abort()
            self._choose(me, enabled, False)
            if self.aborting:
                raise Abort()
            if pred():
                me.pred = None
                return

    def spawn(self, fn, name="w"):
        t = T(self, len(self.threads), name, fn)
        self.threads.append(t)
        _thread.start_new_thread(self._body, (t,))
        self.point("spawn")
        return t

    # --- internals

    def _stuck(self):
        self.deadlock = {t.name: f"waits for {t.why} at {where(t)}" for t in self.threads if not t.done}
        self.aborting = True

    def _choose(self, me, enabled, can_stay):
        s = self.step
        self.step = s + 1
        if s > self.limit:
            self.deadlock = {"livelock": f"more than {self.limit} steps"}
            self.aborting = True
            raise Abort()
        stay = me.tid if can_stay else None
        pick = self.dev.get(s)
        if pick is None:
            pick = stay if stay is not None else enabled[0]
        elif pick not in enabled:
            self.diverged = f"schedule is not reproducible at step {s}: {pick} not in {enabled}"
            self.aborting = True
            raise Abort()
        if len(enabled) > 1:
            self.choices.append((s, stay, tuple(enabled), pick))
        if pick != me.tid:
            self._switch(me, self.threads[pick])

    def _switch(self, me, to):
        self.current = to
        to.baton.release()
        if me is not None and not me.done:
            me.baton.acquire()
            if self.aborting:
                raise Abort()

    def _body(self, t):
        t.baton.acquire()
        t.ident = _ident()
        self.by_ident[t.ident] = t
        try:
            if not self.aborting:
                if self.grain:
                    sys.settrace(self._trace)
                try:
                    t.result = t.fn()
                finally:
                    sys.settrace(None)
        except Abort:
            pass
        except BaseException as exc:
            t.exc = exc
        t.done = True
        self.by_ident.pop(t.ident, None)
        self._next_after(t)

    def _next_after(self, t):
        left = [x for x in self.threads if not x.done]
        if not left:
            self.over.release()
            return
        if not self.aborting:
            enabled = [x.tid for x in left if x.ready()]
            if enabled:
                try:
                    self._choose(t, enabled, False)
                    return
                except Abort:
                    pass
            else:
                self._stuck()
        # wake one of the others to unwind, it goes on with the next
        self.current = left[0]
        left[0].baton.release()

    def _trace(self, frame, event, arg):
        code = frame.f_code
        ok = self.codes.get(code)
        if ok is None:
            ok = self.codes[code] = code.co_filename.startswith(self.dirs)
        if not ok:
            return None
        if self.grain == "opcode":
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            me = self.current
            me.loc = hash((frame.f_code.co_qualname, frame.f_lasti))
            self.locs.add(hash(tuple([t.loc for t in self.threads])))
            self.point()
        return self._local

    # --- called by the harness

    def go(self, fns, timeout=120):
        global CTL
        assert CTL is None
        for i, (name, fn) in enumerate(fns):
            self.threads.append(T(self, i, name, fn))
        CTL = self
        gc_on = gc.isenabled()
        gc.disable()
        try:
            for t in self.threads:
                _thread.start_new_thread(self._body, (t,))
            # which thread starts is a free choice
            first = self.dev.get(-1, 0)
            if len(fns) > 1:
                self.choices.append((-1, None, tuple(range(len(fns))), first))
            self.current = self.threads[first]
            self.current.baton.release()
            if not self.over.acquire(True, timeout):
                raise RuntimeError("a controlled thread does not come back: " + str([(t.name, where(t)) for t in self.threads if not t.done]))
        finally:
            CTL = None
            if gc_on:
                gc.enable()
        return self


def threading_event():
    lock = _allocate()
    lock.acquire()
    return lock


def where(t):
    fr = sys._current_frames().get(t.ident)
    out = []
    while fr is not None:
        f = fr.f_code.co_filename
        if f.startswith(str(REPO)):
            out.append(f"{os.path.basename(f)}:{fr.f_code.co_name}:{fr.f_lineno}")
        fr = fr.f_back
    return " < ".join(out[:4]) or "?"


def cost(choices, dev):
    """Preemptions of a list of deviations."""
    return sum(1 for s, stay, en, pick in choices if s in dev and stay is not None and pick != stay)


def explore(build, judge, res, *, bound=2, grain="line", dirs=DIRS, shard=(0, 1), limit=None):
    """Run every schedule with at most `bound` preemptions.

    `build()` makes a fresh system and returns (state, [(name, fn), ...]); `judge(state, run)`
    is called after each execution. With `shard` = (i, n) only every n-th branch of the
    default schedule is followed.
    """
    i, n = shard
    stack = [((), 0)]
    schedules = 0
    branch = 0
    diverged = 0
    # once for everything which is set up lazily
    state, fns = build()
    judge(state, Run((), grain, dirs).go(fns))
    while stack:
        devs, used = stack.pop()
        for _ in range(5):
            state, fns = build()
            run = Run(devs, grain, dirs).go(fns)
            if not run.diverged:
                break
        else:
            # something outside the schedule (a cache, say) decides as well
            diverged += 1
            res.count(diverged=1)
            if diverged > 50 and diverged > schedules // 20:
                raise RuntimeError(run.diverged)
            continue
        # executions without a preemption are repeated by every shard, judged by the first
        shared = used == 0
        if not shared or i == 0:
            judge(state, run)
            schedules += 1
            res.count(transitions=run.step, schedules=1)
            res.sets.setdefault("states", set()).update(run.locs)
        last = devs[-1][0] if devs else -2
        for s, stay, enabled, pick in run.choices:
            if s <= last:
                continue
            for t in enabled:
                if t == pick:
                    continue
                c = used + (1 if stay is not None else 0)
                if c > bound:
                    continue
                if shared and c:
                    branch += 1
                    if branch % n != i:
                        continue
                stack.append((devs + ((s, t),), c))
        if limit and schedules >= limit:
            res.cap(f"stopped after {limit} schedules")
            break
    return schedules


def replay(build, devs, grain="line", dirs=DIRS):
    state, fns = build()
    return state, Run(devs, grain, dirs).go(fns)


class FakePool:
    """Stands in for concurrent.futures.ThreadPoolExecutor: its workers are controlled threads."""

    def __init__(self, max_workers=None, *a, **kw):
        self._max_workers = max_workers or 4
        self._queue = []
        self._workers = 0
        self._idle = 0
        self._shut = False

    def submit(self, fn, /, *args, **kwargs):
        import concurrent.futures as cf

        if self._shut:
            raise RuntimeError("cannot schedule new futures after shutdown")
        f = cf.Future()
        self._queue.append((f, fn, args, kwargs))
        t = _me()
        if t is None:
            self._drain()
        elif self._workers < self._max_workers:
            self._workers += 1
            t.ctl.spawn(self._work, f"worker{self._workers}")
        return f

    def _run(self, item):
        f, fn, args, kwargs = item
        if not f.set_running_or_notify_cancel():
            return
        try:
            r = fn(*args, **kwargs)
        except BaseException as exc:
            if isinstance(exc, Abort):
                raise
            f.set_exception(exc)
        else:
            f.set_result(r)

    def _work(self):
        try:
            while self._queue:
                self._run(self._queue.pop(0))
        finally:
            self._workers -= 1

    def _drain(self):
        while self._queue:
            self._run(self._queue.pop(0))

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._shut = True
        if cancel_futures:
            while self._queue:
                self._queue.pop(0)[0].cancel()
        t = _me()
        if wait and t is not None:
            t.ctl.block(lambda: not self._queue and not self._workers, "pool shutdown")
        elif wait:
            self._drain()


def point():
    t = _me()
    if t is not None:
        t.ctl.point("explicit")


def block(pred, why="explicit"):
    t = _me()
    if t is not None:
        t.ctl.block(pred, why)
