"""The asyncio schedulers fire every run at its time: nobody has to wake them."""
from __future__ import annotations

import asyncio
import itertools
import logging
import math
from datetime import datetime, timedelta, timezone

logging.disable(logging.CRITICAL)

from mc import clock, targets  # noqa: E402
from mc.stores import Backend, scheduler  # noqa: E402
from mc.vloop import VLoop  # noqa: E402

LEVEL = "model_checking"
ITEM_CPU = 800
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
BOUNDS = {
    "quick": "all sequences of 2 of 18 operations at 4 placements between the due times, both asyncio schedulers, coroutine and thread tasks (job times 0 and 1.7 s), operations from inside and outside the loop, wall clock 1:1, 3 % slower, 5 % faster than the loop clock",
    "thorough": "all sequences of 3 operations at 6 placements, same configurations",
}
ASSUMPTIONS = ["the event loop is asyncio's with a selector in virtual time; loop.run_in_executor is a stand-in which runs at once and answers later"]
MIN = {"executions": 3000}
END = 38.6
RUNS = []


def work(tag):
    RUNS.append((clock_now(), tag))


async def awork(tag):
    RUNS.append((clock_now(), tag))


def clock_now():
    return datetime.now(UTC)


class Env:
    """The operations, the same for both drivers."""

    def __init__(self, fn, nth=0):
        self.fn = fn
        self.extra = Backend("memory")

    def fill(self, s):
        kw = {"mistrigger_grace_time": None, "max_instances": 4}
        s.add_task(self.fn, "interval", seconds=10, start_at=T + timedelta(seconds=10), id="a", args=["a"], **kw)
        s.add_task(self.fn, "date", run_at=T + timedelta(seconds=7), id="d", args=["d"], **kw)
        s.add_task(self.fn, "interval", seconds=6, start_at=T + timedelta(seconds=6), id="p", args=["p"], **kw)

    def op(self, s, name, t):
        now = T + timedelta(seconds=t)
        kw = {"mistrigger_grace_time": None, "max_instances": 4}
        try:
            if name == "add-date":
                s.add_task(self.fn, "date", run_at=now + timedelta(seconds=1.25), id="n", args=["n"], **kw)
            elif name == "add-past":
                s.add_task(self.fn, "date", run_at=now - timedelta(hours=1), id="o", args=["o"], **kw)
            elif name == "add-interval":
                s.add_task(self.fn, "interval", seconds=4, start_at=now + timedelta(seconds=0.3), id="i", args=["i"], **kw)
            elif name == "add-now":
                s.add_task(self.fn, id="w", args=["w"], **kw)
            elif name == "replace":
                s.add_task(self.fn, "interval", seconds=3, start_at=now + timedelta(seconds=1.1), id="a", args=["A"], replace_existing=True, **kw)
            elif name == "pause-a":
                s.pause_task("a")
            elif name == "pause-p":
                s.pause_task("p")
            elif name == "resume-p":
                s.resume_task("p")
            elif name == "delete-d":
                s.delete_task("d")
            elif name == "delete-a":
                s.delete_task("a")
            elif name == "sooner":
                s.update_task("a", next_run_time=now + timedelta(seconds=0.7))
            elif name == "later":
                s.update_task("p", next_run_time=now + timedelta(seconds=9.2))
            elif name == "reschedule":
                s.reschedule_task("a", trigger="interval", seconds=2, start_at=now + timedelta(seconds=0.4))
            elif name == "run-a":
                s.run_task("a")
            elif name == "run-d":
                s.run_task("d")
            elif name == "pause":
                s.pause()
            elif name == "resume":
                s.resume()
            elif name == "clear":
                s.remove_all_tasks(None)
            else:
                raise ValueError(name)
        except (KeyError, LookupError, RuntimeError) as exc:
            return type(exc).__name__
        except Exception as exc:
            from asyncz.exceptions import AsynczException

            if isinstance(exc, AsynczException):
                return type(exc).__name__
            raise
        return None


OPS = ["add-date", "add-past", "add-interval", "add-now", "replace", "pause-a", "pause-p", "resume-p", "delete-d", "delete-a", "sooner", "later", "reschedule", "run-a", "run-d", "pause", "resume", "clear"]
# times of the operations, away from the due times
PLACES = {
    "quick": [(0.5, 8.05), (1.1, 1.1), (8.05, 21.45), (11.15, 11.75)],
    "thorough": [(0.5, 8.05, 13.15), (1.1, 1.1, 1.1), (8.05, 21.45, 25.15), (11.15, 11.75, 12.95), (3.1, 8.05, 8.05), (19.15, 19.15, 27.5)],
}
CONFIGS = [
    # scheduler, coroutine tasks, job time, from inside the loop, clock rate, started paused
    ("asyncio", True, 0.0, True, 1.0, False),
    ("asyncio", False, 0.0, True, 1.0, False),
    ("asyncio", False, 1.7, False, 1.0, False),
    ("native", True, 0.0, True, 1.0, False),
    ("asyncio", True, 0.0, False, 0.97, False),
    ("native", False, 0.0, False, 1.05, False),
    ("asyncio", True, 0.0, True, 1.0, True),
]


def watch(s):
    got = []
    s.add_listener(lambda e: getattr(e, "task_id", None) and got.append((e.code, e.task_id, str(getattr(e, "scheduled_run_times", None) or getattr(e, "scheduled_run_time", None)))))
    return got


def ideal(script, paused, inside):
    """The same on a scheduler which is asked to process at every due instant."""
    del RUNS[:]
    env = Env(work)
    clock.set_now(T)
    s = scheduler({})
    env.fill(s)
    events = watch(s)
    s.start(paused=paused)
    answers = []

    def until(t):
        end = T + timedelta(seconds=t)
        for _ in range(1000):
            if int(s.state) != 1:
                break
            times = [x.next_run_time for x in s.get_tasks() if x.next_run_time is not None]
            if not times or min(times) > end:
                break
            clock.set_now(max(min(times), datetime.now(UTC)))
            s.process_tasks()
        clock.set_now(end)

    done = None
    for name, t in script:
        if not (inside and t == done):
            until(t)
        answers.append(env.op(s, name, t))
        done = t
    until(END)
    runs = list(RUNS)
    tasks = sorted((t.id, str(t.next_run_time)) for t in s.get_tasks())
    s.shutdown()
    return runs, sorted(events), tasks, answers


def actual(script, config):
    from asyncz.schedulers.asyncio import AsyncIOScheduler, NativeAsyncIOScheduler

    kind, coro, job_time, inside, rate, paused = config
    del RUNS[:]
    loop = VLoop(T, job_time, rate)
    asyncio.set_event_loop(loop)
    env = Env(awork if coro else work)
    answers = []
    problems = []
    try:
        if kind == "asyncio":
            s = AsyncIOScheduler(event_loop=loop, timezone=UTC)
        else:
            s = NativeAsyncIOScheduler(timezone=UTC)
        env.fill(s)
        events = watch(s)

        async def start():
            r = s.start(paused=paused)
            if asyncio.iscoroutine(r):
                r = await r

        loop.limit = 0
        loop.run_until_complete(start()) if kind == "native" else s.start(paused=paused)

        def op(name, t):
            try:
                answers.append(env.op(s, name, t))
            except Exception as exc:
                problems.append(f"{name} raised {exc!r}")

        # the times of the script are wall clock times
        if inside:
            # operations at the same time in one callback, nothing is processed in between
            for t, group in itertools.groupby(script, key=lambda x: x[1]):
                loop.call_at(t / rate, lambda group=tuple(group): [op(*x) for x in group])
            loop.until(END / rate)
        else:
            for name, t in script:
                loop.until(t / rate)
                op(name, t)
            loop.until(END / rate)
        runs = list(RUNS)
        tasks = sorted((t.id, str(t.next_run_time)) for t in s.get_tasks())
        turns = loop.turns
        got = sorted(events)
        if loop.stuck:
            return runs, got, tasks, answers, turns, [f"the loop never rests ({turns} turns)"]

        async def stop():
            r = s.shutdown()
            if asyncio.iscoroutine(r):
                await r

        loop.limit = END / rate + 60
        loop.run_until_complete(stop())
        n = len(RUNS)
        loop.until(END / rate + 120)
        if len(RUNS) != n:
            problems.append("a task ran after the shutdown")
        problems += loop.errors
        return runs, got, tasks, answers, turns, problems
    finally:
        asyncio.set_event_loop(None)
        loop.close()


def items(tier):
    k = 2 if tier == "quick" else 3
    return [(ci, pi, a) for ci in range(len(CONFIGS)) for pi in range(len(PLACES[tier])) for a in OPS]


def explore(item, res, tier, seed):
    ci, pi, first = item
    config, places = CONFIGS[ci], PLACES[tier][pi]
    n = 0
    try:
        for rest in itertools.product(OPS, repeat=len(places) - 1):
            script = list(zip((first,) + rest, places))
            run(script, config, res)
            n += 1
    finally:
        clock.off()
    res.count(executions=n, traces_validated_against_impl=n)
    res.sample({"script": list(zip((first,) + rest, places)), "config": list(config)})


def run(script, config, res):
    kind, coro, job_time, inside, rate, paused = config
    want = ideal(script, paused, inside)
    got = actual(script, config)
    where = f"{kind} scheduler, {'coroutine' if coro else 'thread'} tasks, rate {rate}, {'inside' if inside else 'outside'} the loop{', started paused' if paused else ''}: {script}"
    runs, events, tasks, answers, turns, problems = got
    res.count(states=len(events) + 1, transitions=turns)
    res.seen("outcomes", (runs, events))
    for p in problems:
        res.violation(f"problem:{p[:40]}", f"{where}: {p}")
    if problems:
        return
    if answers != want[3]:
        return res.violation("answers", f"{where}: calls answered {answers}, expected {want[3]}")
    short = lambda rs: [(round((t - T).total_seconds(), 2), x) for t, x in rs]  # noqa: E731
    mine, ref = short(runs), short(want[0])
    if rate == 1.0:
        a, b = sorted(mine), sorted(ref)
        same = len(a) == len(b) and all(x[1] == y[1] and math.isclose(x[0], y[0], abs_tol=0.02) for x, y in zip(a, b))
    else:
        # the loop clock is off: each run may be late by the drift, none is early
        same = True
        for tag in {x[1] for x in mine + ref}:
            a, b = [x[0] for x in mine if x[1] == tag], [x[0] for x in ref if x[1] == tag]
            # runs just before the end may still be missing
            same = same and len(a) <= len(b) and all(-0.01 <= x - y <= 0.6 for x, y in zip(a, b)) and all(y > END - 1 for y in b[len(a):])
    if not same:
        res.violation("times", f"{where}: runs at {mine}, expected {ref}")
    if rate == 1.0 and job_time == 0.0:
        if events != want[1]:
            res.violation("events", f"{where}: events only here {[e for e in events if e not in want[1]]}, missing {[e for e in want[1] if e not in events]}")
        if tasks != want[2]:
            res.violation("tasks", f"{where}: tasks {tasks}, expected {want[2]}")
    if turns > 1500:
        res.violation("busy", f"{where}: {turns} turns of the loop for {len(runs)} runs")
