"""Shutdown tasks run exactly once, at the shutdown, whatever the others do."""
from __future__ import annotations

import asyncio
import itertools
import logging
import threading
from datetime import datetime, timedelta, timezone

logging.disable(logging.CRITICAL)

from mc import clock, targets  # noqa: E402
from mc.stores import Backend, scheduler  # noqa: E402
from mc.vloop import VLoop  # noqa: E402

LEVEL = "model_checking"
ITEM_CPU = 600
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
BOUNDS = {
    "quick": "all multisets of 3 of 9 kinds of shutdown tasks (plain, failing, ending by StopIteration, coroutines with 0-3 suspensions, failing coroutines, using the scheduler) x 5 schedulers x memory and file store x 7 histories (deleted, replaced, paused, updated, ran by hand before; second life; nested starts)",
    "thorough": "multisets of 4 kinds, also sql, redis and mongo stores",
}
ASSUMPTIONS = ["loops in virtual time, except the scheduler which creates its own loop and thread"]
MIN = {"executions": 1000}
LOG = []
SCHED = []


def plain(tag):
    LOG.append(tag)


def failing(tag):
    LOG.append(tag)
    raise ValueError("shutdown task fails")


def stopping(tag):
    LOG.append(tag)
    raise StopIteration


def exiting(tag):
    LOG.append(tag)
    raise SystemExit(3)


def asking(tag):
    # the scheduler can be used
    SCHED[0].get_tasks()
    LOG.append(tag)


async def coro(tag):
    LOG.append(tag)


async def slow(tag):
    for _ in range(3):
        await asyncio.sleep(0.01)
    LOG.append(tag)


async def cofail(tag):
    await asyncio.sleep(0)
    LOG.append(tag)
    raise ValueError("shutdown task fails")


async def costop(tag):
    LOG.append(tag)
    raise StopAsyncIteration


KINDS = {"plain": plain, "failing": failing, "stopping": stopping, "exiting": exiting, "asking": asking, "coro": coro, "slow": slow, "cofail": cofail, "costop": costop}
SCHEDULERS = ("base", "asyncio", "native", "own-loop", "native-isolated")
HISTORIES = ("plain", "deleted", "paused", "renamed", "stopped-add", "second-life", "nested")


def items(tier):
    n = 3 if tier == "quick" else 4
    stores = ("memory", "file") if tier == "quick" else ("memory", "file", "sql", "redis", "mongo")
    out = []
    for s in SCHEDULERS:
        for st in stores:
            for h in HISTORIES:
                out.append((s, st, h, n if s not in ("own-loop", "native-isolated") else n - 1))
    return out


class Sys:
    def __init__(self, kind, store):
        from asyncz.schedulers.asyncio import AsyncIOScheduler, NativeAsyncIOScheduler

        self.kind = kind
        self.back = Backend(store)
        self.loop = VLoop(T)
        stores = {"default": self.back.open()}
        if kind == "base":
            self.s = scheduler({"default": self.back})
        elif kind == "asyncio":
            self.s = AsyncIOScheduler(event_loop=self.loop, timezone=UTC, stores=stores)
        elif kind == "own-loop":
            self.s = AsyncIOScheduler(isolated_event_loop=True, timezone=UTC, stores=stores)
        else:
            self.s = NativeAsyncIOScheduler(timezone=UTC, stores=stores, isolated_event_loop=kind == "native-isolated")

    def call(self, name):
        kind = self.kind
        thread = getattr(self.s, "event_loop_thread", None)
        if kind.startswith("native"):
            loop = self.loop
            if kind == "native-isolated":
                # threads and a real loop take part
                clock.off()
                return asyncio.run(getattr(self.s, name)())
            loop.limit = loop.now + 5
            return loop.run_until_complete(getattr(self.s, name)())
        if kind == "own-loop":
            clock.off()
        r = getattr(self.s, name)()
        if kind == "asyncio":
            self.loop.until(self.loop.now + 5)
        if kind == "own-loop" and name == "shutdown" and not r:
            # it works in the thread of the loop
            done = threading.Event()
            self.s.event_loop.call_soon_threadsafe(done.set)
            done.wait(20)
        if kind == "own-loop" and name == "shutdown" and r:
            thread.join(20)
            if thread.is_alive():
                return "the loop of the scheduler does not end"
        return r


def explore(item, res, tier, seed):
    kind, store, hist, n = item
    if store == "redis" and not Backend.available("redis"):
        return
    count = 0
    for kinds in itertools.combinations_with_replacement(KINDS, n):
        if kind == "base" and any(k.startswith("co") or k == "slow" for k in kinds):
            continue
        count += 1
        try:
            one(kind, store, hist, kinds, res)
        finally:
            clock.off()
    res.count(executions=count, states=count, traces_validated_against_impl=count)
    res.sample({"scheduler": kind, "store": store, "history": hist, "tasks": list(kinds)})


def one(kind, store, hist, kinds, res):
    del LOG[:]
    clock.set_now(T)
    sys_ = Sys(kind, store)
    s = sys_.s
    SCHED[:] = [s]
    where = f"{kind} scheduler, {store} store, {hist}: {kinds}"
    tags = [f"{i}:{k}" for i, k in enumerate(kinds)]
    asyncio.set_event_loop(sys_.loop)
    try:
        def add():
            for tag, k in zip(tags, kinds):
                s.add_task(KINDS[k], "shutdown", id=tag.replace(":", "-"), args=[tag])
            s.add_task(targets.noop, "interval", hours=5, id="other", args=["other"])

        want = sorted(tags)
        if hist == "stopped-add":
            add()
        sys_.call("start")
        if hist == "nested":
            sys_.call("start")
        if hist != "stopped-add":
            add()
        first = tags[0].replace(":", "-")
        if hist == "deleted":
            s.delete_task(first)
            want = sorted(tags[1:])
        elif hist == "paused":
            s.pause_task(first)
        elif hist == "renamed":
            s.update_task(first, name="renamed")
        if kind not in ("own-loop", "native-isolated"):
            # time alone does not run them
            if kind == "base":
                clock.set_now(T + timedelta(hours=1))
                s.process_tasks()
            else:
                sys_.loop.until(sys_.loop.now + 3600)
        if LOG:
            res.violation("early", f"{where}: {LOG} ran before the shutdown")
            return
        steps = 3
        if hist == "nested":
            r = sys_.call("shutdown")
            if LOG:
                res.violation("early", f"{where}: {LOG} ran although the scheduler is still used")
                return
            steps += 1
        r = sys_.call("shutdown")
        if r is not True:
            res.violation("answer", f"{where}: the shutdown answered {r!r}")
        if sorted(LOG) != want:
            res.violation("runs", f"{where}: ran {LOG}, expected {want}")
            return
        res.count(transitions=steps)
        res.seen("outcomes", (kind, store, hist, tuple(LOG)))
        if hist == "second-life":
            del LOG[:]
            sys_.call("start")
            left = sorted(t.id for t in s.get_tasks())
            expect = ["other"] if sys_.back.durable else []
            if left != expect:
                res.violation("left", f"{where}: {left} are there after the restart, expected {expect}")
            sys_.call("shutdown")
            if LOG:
                res.violation("again", f"{where}: {LOG} ran again at the second shutdown")
        elif sys_.back.durable:
            again = scheduler({"default": sys_.back})
            again.start()
            left = sorted(t.id for t in again.get_tasks())
            again.shutdown()
            if left != ["other"]:
                res.violation("left", f"{where}: {left} are in the store afterwards, expected the other task only")
        if sys_.loop.errors:
            res.violation("loop-error", f"{where}: {sys_.loop.errors[:2]}")
    finally:
        asyncio.set_event_loop(None)
        sys_.loop.close()
        sys_.back.drop()
