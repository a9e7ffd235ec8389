"""Runs: grace time, arguments, result and error are handled the same by every executor."""
from __future__ import annotations

import asyncio
import itertools
import time
from datetime import datetime, timedelta, timezone

from mc import clock
from mc.stores import sched_cls
from mc.vloop import VLoop

LEVEL = "model_checking"
ITEM_CPU = 600
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
US = timedelta(microseconds=1)
GRACES = (None, 1, 0.25, 3)
BOUNDS = {
    "quick": "all submissions of 1-3 run times out of 7 around the grace time (exactly, a microsecond more and less, long ago, in the future) x 4 grace times x every plan of the calls (returning or failing, taking no time or a second); inline executor, event loop with coroutine and plain functions, thread pool; all submissions of 1-2 run times in a process pool; all submissions after each other; runs which end by SystemExit, cancellation, other BaseExceptions, killed worker processes, results and errors that can't be sent, in all words of two",
    "thorough": "up to 4 run times (loop and inline), 3 (thread pool), 2 in the process pool with all plans",
}
ASSUMPTIONS = ["the clock is set by the harness, calls which take time advance it", "coroutine functions are given to the event loop executor only"]
MIN = {"executions": 5000}

PLANS = (("ret", 0), ("ret", 1), ("err", 0), ("err", 1))
CALLS = []
ADVANCE = [None]


class Failed(Exception):
    def __init__(self, n):
        super().__init__(n)
        self.n = n


def step(plan, args, kwargs):
    n = len(CALLS)
    kind, spent = plan[n % len(plan)]
    CALLS.append((args, kwargs))
    if kind == "err":
        raise Failed(n)
    return (n, args, tuple(sorted(kwargs.items())))


def spend(seconds):
    if seconds:
        ADVANCE[0](seconds)


def plain(plan, *args, **kwargs):
    spend(plan[len(CALLS) % len(plan)][1])
    return step(plan, args, kwargs)


async def coro(plan, *args, **kwargs):
    await asyncio.sleep(plan[len(CALLS) % len(plan)][1])
    return step(plan, args, kwargs)


def forward(seconds):
    clock.set_now(datetime.now(UTC) + timedelta(seconds=seconds))


def times(grace):
    g = timedelta(seconds=grace if grace is not None else 1)
    return (T - timedelta(days=400), T - g - timedelta(seconds=1), T - g - US, T - g, T - g + US, T, T + timedelta(seconds=1))


class Odd(BaseException):
    pass


def odd_end(how):
    if how == "exit":
        raise SystemExit(1)
    if how == "cancelled":
        raise asyncio.CancelledError
    if how == "odd":
        raise Odd
    if how == "killed":
        import os

        os._exit(3)
    if how == "unpicklable-result":
        return lambda: 1
    if how == "unpicklable-error":
        raise Failed(lambda: 1)
    return how


async def aodd_end(how):
    return odd_end(how)


# ends of a run which are no result and no error
ODD = {
    "coro": ("cancelled", "odd"),
    "loop-plain": ("odd",),
    "thread": ("exit", "cancelled", "odd"),
    "process": ("exit", "cancelled", "odd", "killed", "unpicklable-result", "unpicklable-error"),
}
KINDS = ("debug", "coro", "loop-plain", "thread", "process")


def submissions(kind, grace, tier):
    n = {"debug": 3, "coro": 3, "loop-plain": 3, "thread": 2, "process": 2}[kind] + (tier != "quick")
    if kind == "process":
        n = min(n, 2)
    for k in range(1, n + 1):
        for rts in itertools.combinations(times(grace), k):
            for plan in itertools.product(PLANS, repeat=k):
                if kind == "process" and tier == "quick" and any(p[1] for p in plan[1:]) and k > 1:
                    continue
                yield rts, plan


def items(tier):
    out = []
    for kind in KINDS:
        parts = {"process": 6, "thread": 3}.get(kind, 1 if tier == "quick" else 4)
        for g in GRACES:
            if kind == "process" and tier == "quick" and g == 3:
                continue
            out += [(kind, g, i, parts) for i in range(parts)]
    for kind, hows in ODD.items():
        out += [(kind, "odd", words) for n in (1, 2) for words in itertools.product(hows + ("fine",), repeat=n)]
    return out


def expected(rts, plan, grace, now=T, first=0):
    out = []
    n = first
    for rt in rts:
        if grace is not None and now - rt > timedelta(seconds=grace):
            out.append(("missed", rt))
            continue
        kind, spent = plan[n % len(plan)]
        now += timedelta(seconds=spent)
        out.append(("ret", rt, (n, (1, "b"), (("key", "v"),))) if kind == "ret" else ("err", rt, n))
        n += 1
    return out, now, n


class Sys:
    def __init__(self, kind):
        from asyncz.executors import AsyncIOExecutor, DebugExecutor, ProcessPoolExecutor, ThreadPoolExecutor
        from asyncz.schedulers.asyncio import AsyncIOScheduler

        self.kind = kind
        self.events = []
        self.loop = None
        if kind in ("coro", "loop-plain"):
            self.loop = VLoop(T)
            self.s = AsyncIOScheduler(event_loop=self.loop, timezone=UTC, executors={"e": AsyncIOExecutor()})
        else:
            ex = {"debug": DebugExecutor, "thread": lambda: ThreadPoolExecutor(1), "process": lambda: ProcessPoolExecutor(1)}[kind]()
            self.s = sched_cls()(timezone=UTC, executors={"e": ex})
        self.s.add_listener(self.events.append, 0xFFFFFFFF)
        self.s.start()
        self.ex = self.s.executors["e"]

    def send(self, task, rts):
        if self.loop:
            self.loop.call_soon(self.ex.send_task, task, list(rts))
            self.loop.until(self.loop.now + 30)
            if self.loop.errors:
                raise AssertionError(self.loop.errors)
        else:
            self.ex.send_task(task, list(rts))
            if self.kind in ("thread", "process"):
                end = time.monotonic() + 60
                # the last thing which happens is the last event
                while self.s.instances.get(task.id) or len(self.runs()) < self.want:
                    if time.monotonic() > end:
                        break
                    time.sleep(0)

    def runs(self):
        from asyncz.events.constants import TASK_ERROR, TASK_EXECUTED, TASK_MISSED

        out = []
        for e in list(self.events):
            if e.code == TASK_EXECUTED:
                out.append(("ret", e.scheduled_run_time, e.return_value))
            elif e.code == TASK_ERROR:
                n = getattr(e.exception, "n", None)
                out.append(("err", e.scheduled_run_time, n if isinstance(e.exception, Failed) else repr(e.exception)))
                if "step" not in (e.traceback or "") and self.kind != "process":
                    out.append(("no traceback", e.traceback))
            elif e.code == TASK_MISSED:
                out.append(("missed", e.scheduled_run_time))
        return out

    def close(self):
        if self.loop:
            self.s.shutdown()
            self.loop.until(self.loop.now + 1)
            self.loop.close()
        else:
            self.s.shutdown()


def explore(item, res, tier, seed):
    from asyncz.tasks import Task
    from asyncz.triggers import IntervalTrigger

    if item[1] == "odd":
        try:
            odd(item[0], item[2], res)
        finally:
            clock.off()
        return
    kind, grace, part, parts = item
    sys = None
    used = 0
    try:
        for i, (rts, plan) in enumerate(submissions(kind, grace, tier)):
            if i % parts != part:
                continue
            # the processes of a pool go on with a clock of their own
            if sys is None or kind == "process" or (kind != "debug" and used > 200):
                if sys:
                    sys.close()
                clock.set_now(T)
                sys, used = Sys(kind), 0
            used += 1
            if sys.loop:
                now = sys.loop.wall()
            else:
                clock.set_now(T)
                now = T
            base = now - T

            def ahead(sec, loop=sys.loop):
                if loop:
                    loop.now += sec
                    loop._sync()
                else:
                    forward(sec)

            ADVANCE[0] = ahead
            CALLS.clear()
            sys.events.clear()
            task = Task(fn=coro if kind == "coro" else plain, id=f"t{i}", args=[plan, 1, "b"], kwargs={"key": "v"}, trigger=IntervalTrigger(hours=1, timezone=UTC), executor="e", store_alias="default", max_instances=1, coalesce=False, mistrigger_grace_time=grace)
            task.scheduler = sys.s
            moved = [rt + base for rt in rts]
            want, after, n = expected(moved, plan, grace, now)
            where = f"{kind}, grace time {grace}, submitted {[str(r - now) for r in moved]} (relative to now), calls {plan}"
            for again in (0, 1):
                sys.want = len(want)
                sys.send(task, moved)
                got = sys.runs()
                if got != want:
                    res.violation(f"runs:{kind}:{again}", f"{where}{', second submission' if again else ''}: reported {got}, expected {want}")
                if kind != "process" and len(CALLS) != n:
                    res.violation(f"calls:{kind}", f"{where}: {len(CALLS)} calls instead of {n}")
                left = sys.s.instances.get(task.id)
                if left:
                    res.violation(f"instances:{kind}", f"{where}: {left} instances stay counted")
                others = {(e.task_id, e.store) for e in sys.events if hasattr(e, "scheduled_run_time")} - {(task.id, "default")}
                if others:
                    res.violation(f"events:{kind}", f"{where}: events for {others}")
                res.count(executions=1, traces_validated_against_impl=1, transitions=len(moved))
                res.seen("outcomes", (kind, got))
                res.seen("states", (kind, grace, rts, plan, again))
                # the same task once more, later
                sys.events.clear()
                now = sys.loop.wall() if sys.loop else after
                if not sys.loop:
                    clock.set_now(now)
                want, after, n = expected(moved, plan, grace, now, n)
            res.sample({"executor": kind, "grace": grace, "submitted": [str(r) for r in moved], "calls": plan, "reported": len(got)})
    finally:
        if sys:
            sys.close()
        clock.off()


def odd(kind, word, res):
    """Whatever ends a run, it is not counted as running afterwards and the next one is made."""
    from asyncz.tasks import Task
    from asyncz.triggers import IntervalTrigger

    clock.set_now(T)
    sys = Sys(kind)
    try:
        for n, how in enumerate(word + ("fine",)):
            task = Task(fn=aodd_end if kind == "coro" else odd_end, id="t", args=[how], trigger=IntervalTrigger(hours=1, timezone=UTC), executor="e", store_alias="default", max_instances=1, coalesce=False, mistrigger_grace_time=None)
            task.scheduler = sys.s
            sys.events.clear()
            sys.want = 1 if how == "fine" else 0
            where = f"{kind}, runs ending by {word}, run {n} ({how})"
            try:
                sys.send(task, [T])
            except Exception as exc:
                res.violation(f"odd-send:{kind}", f"{where}: not submitted: {exc!r}")
                continue
            if sys.s.instances.get("t"):
                res.violation(f"odd-instances:{kind}", f"{where}: stays counted as running")
            if how == "fine" and sys.runs() != [("ret", T, "fine")]:
                res.violation(f"odd-next:{kind}", f"{where}: reported {sys.runs()}")
            res.count(executions=1, traces_validated_against_impl=1, transitions=1)
            res.seen("states", (kind, word, n))
    finally:
        sys.close()
