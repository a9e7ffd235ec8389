"""An asyncio event loop in virtual time: waiting costs nothing, every timer fires at its instant.

The wall clock (mc.clock) moves with the loop. Work for the loop's thread pool runs at once
and its result arrives `job_time` virtual seconds later.
"""
from __future__ import annotations

import asyncio
import heapq
import selectors
from datetime import timedelta

from mc import clock


class _Idle(Exception):
    pass


class _Selector(selectors.BaseSelector):
    def __init__(self, loop):
        self.loop = loop
        self.map = {}

    def register(self, fileobj, events, data=None):
        fd = fileobj if isinstance(fileobj, int) else fileobj.fileno()
        key = selectors.SelectorKey(fileobj, fd, events, data)
        self.map[fileobj] = key
        return key

    def unregister(self, fileobj):
        return self.map.pop(fileobj, None)

    def modify(self, fileobj, events, data=None):
        return self.register(fileobj, events, data)

    def get_map(self):
        return self.map

    def get_key(self, fileobj):
        return self.map[fileobj]

    def select(self, timeout=None):
        self.loop._idle(timeout)
        return []

    def close(self):
        pass


class VLoop(asyncio.SelectorEventLoop):
    def __init__(self, start, job_time=0.0, rate=1.0):
        self.start_at = start
        self.now = 0.0
        self.limit = 0.0
        self.job_time = job_time
        self.rate = rate  # wall clock seconds per loop second
        self.turns = 0
        self.max_turns = 5000
        self.stuck = False
        self.errors = []
        super().__init__(_Selector(self))
        self._clock_resolution = 1e-9
        self.set_exception_handler(lambda loop, ctx: self.errors.append(repr(ctx.get("exception") or ctx.get("message"))))
        self._sync()

    def wall(self):
        return self.start_at + timedelta(microseconds=round(self.now * self.rate * 1e6))

    def _sync(self):
        clock.set_now(self.wall())

    def time(self):
        return self.now

    def _write_to_self(self):
        pass

    def _idle(self, timeout):
        self.turns += 1
        if self.turns > self.max_turns:
            # the code under test never rests
            self.stuck = True
            self.stop()
            return
        if timeout is not None and timeout <= 0:
            return
        # nothing is ready: on to the next timer, at most to the limit
        while self._scheduled and self._scheduled[0]._cancelled:
            h = heapq.heappop(self._scheduled)
            h._scheduled = False
            self._timer_cancelled_count -= 1
        when = self._scheduled[0]._when if self._scheduled else None
        if when is None or when > self.limit:
            self.now = max(self.now, self.limit)
            self._sync()
            self.stop()
            return
        self.now = max(self.now, when)
        self._sync()

    def until(self, seconds):
        """Run everything which happens up to that virtual time."""
        self.limit = seconds
        self.run_forever()

    def run_in_executor(self, executor, func, *args):
        fut = self.create_future()

        def work():
            if fut.cancelled():
                return
            try:
                r = func(*args)
            except BaseException as exc:
                done = lambda exc=exc: fut.cancelled() or fut.set_exception(exc)  # noqa: E731
            else:
                done = lambda: fut.cancelled() or fut.set_result(r)  # noqa: E731
            self.call_later(self.job_time, done)

        self.call_soon(work)
        return fut
