"""Hooks, registries and bootstraps the asyncz command is pointed at."""
import asyncio
import os
import signal

SEEN = []
KILL = False
SCHEDULER = None
OLD = []


def reset():
    global SCHEDULER, KILL
    SEEN.clear()
    SCHEDULER, KILL = None, False
    OLD[:] = find()


def find():
    """The running schedulers."""
    import gc

    from asyncz.schedulers import AsyncIOScheduler

    return [s for s in gc.get_objects() if isinstance(s, AsyncIOScheduler) and s.running]


def note(hook):
    global SCHEDULER
    if hook == "begin":
        live = [s for s in find() if not any(s is o for o in OLD)]
        SCHEDULER = live[0] if len(live) == 1 else None
    s = SCHEDULER
    tasks = s.get_tasks() if s else []
    SEEN.append({
        "hook": hook, "running": bool(s and s.running), "timezone": str(s.timezone) if s else None,
        "executors": {a: (type(e).__name__, getattr(getattr(e, "pool", None), "_max_workers", None)) for a, e in (s.executors if s else {}).items()},
        "tasks": [(t.fn.__name__, t.name if t.name != t.fn.__name__ else None, tuple(t.args), dict(t.kwargs)) for t in tasks],
        "times": {t.fn.__name__: t.next_run_time for t in tasks}, "all": [t.next_run_time for t in tasks],
    })
    if hook == "begin" and KILL:
        asyncio.get_running_loop().call_later(0.03, os.kill, os.getpid(), signal.SIGINT)


def begin():
    note("begin")


def end():
    note("end")


async def abegin():
    await asyncio.sleep(0)
    note("begin")


async def aend():
    await asyncio.sleep(0)
    note("end")


def fails():
    raise ValueError("hook")


def registry(scheduler=None):
    from datetime import datetime, timezone

    from asyncz.triggers import CronTrigger, DateTrigger, IntervalTrigger
    from mc import targets

    return [
        {"func": targets.record, "name": "One", "trigger": IntervalTrigger(minutes=5), "args": [1]},
        {"func": targets.two, "trigger": CronTrigger.from_crontab("0 3 * * *"), "args": [1], "kwargs": {"b": 7}},
        {"func": targets.record, "trigger": DateTrigger(run_at=datetime(2030, 1, 1, 12, 30, tzinfo=timezone.utc))},
    ]


def __getattr__(name):
    if name == "REGISTRY":
        return registry()
    raise AttributeError(name)


def make(fill, cls=None, ex=None):
    from asyncz.executors.asyncio import AsyncIOExecutor
    from asyncz.executors.debug import DebugExecutor
    from asyncz.schedulers import AsyncIOScheduler
    from asyncz.stores.memory import MemoryStore

    s = (cls or AsyncIOScheduler)(stores={"default": MemoryStore()}, executors={"default": ex or AsyncIOExecutor(), "pool": DebugExecutor()}, identity="boot")
    fill(s, "default")
    return s


class Spec:
    def get_scheduler(self):
        return SCHEDULER


OBJECT = Spec()


def factory():
    return SCHEDULER


class NotOne:
    def get_scheduler(self):
        return object()


def wrong():
    return 7
