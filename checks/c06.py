"""Task updates: all of them or none, and exactly the requested attributes."""
from __future__ import annotations

import itertools
import os
import shutil
import tempfile
from datetime import datetime, timedelta, timezone

from mc import targets

LEVEL = "model_checking"
ITEM_CPU = 90
UTC = timezone.utc
BOUNDS = {
    "quick": "every choice of up to 3 attributes out of 13 with every combination of 2 valid and 1-4 invalid values, on free tasks, tasks of a scheduler, and through a stopped/running scheduler with memory, file and SQL stores",
    "thorough": "up to 4 attributes",
}
ASSUMPTIONS = ["two values per attribute stand for all valid ones"]
MIN = {"transitions": 20000}
T1 = datetime(2031, 5, 6, 7, 8, 9, tzinfo=UTC)
T2 = datetime(2032, 1, 1, tzinfo=UTC)


def menu():
    from asyncz.triggers import CronTrigger, DateTrigger, IntervalTrigger

    return {
        "fn": ([targets.other, "mc.targets:record"], ["no.such.module:x", 5]),
        "args": ([[1, 2], (3,)], ["text", 7]),
        "kwargs": ([{"k": 1}, {}], ["text", [1]]),
        "name": (["renamed", "x"], [5]),
        "mistrigger_grace_time": ([7, None], [0, -3, "soon"]),
        "coalesce": ([False, True], []),
        "max_instances": ([4, 1], [0, -1, "2", None]),
        "trigger": ([CronTrigger(hour=3, timezone=UTC), DateTrigger(run_at=T1, timezone=UTC)], ["cron", None]),
        "executor": (["slow", "default"], [None, 3]),
        "next_run_time": ([T1, None], ["not a date", 5]),
        "store_alias": (["default"], [None, 9]),
        "id": ([], ["changed"]),
        "bogus": ([], [1]),
    }


ATTRS = ["id", "fn", "fn_reference", "args", "kwargs", "name", "mistrigger_grace_time", "coalesce", "max_instances", "trigger", "executor", "next_run_time", "store_alias"]


def snap(t):
    d = {}
    for a in ATTRS:
        v = getattr(t, a, None)
        if a == "trigger":
            v = str(v)
        elif a == "args":
            v = tuple(v)
        elif a == "kwargs":
            v = dict(v)
        d[a] = v
    return d


def expected(before, ups):
    d = dict(before)
    for k, v in ups.items():
        if k == "fn":
            fn = targets.record if isinstance(v, str) else v
            d["fn"] = fn
            d["fn_reference"] = f"mc.targets:{fn.__name__}"
        elif k == "trigger":
            d[k] = str(v)
        elif k == "args":
            d[k] = tuple(v)
        elif k == "coalesce":
            d[k] = bool(v)
        else:
            d[k] = v
    return d


def choices(depth):
    m = menu()
    for r in range(1, depth + 1):
        for names in itertools.combinations(m, r):
            opts = [[(v, True) for v in m[n][0]] + [(v, False) for v in m[n][1]] for n in names]
            if r >= 3:
                opts = [[o for o in opt if o[1]][:1] + [o for o in opt if not o[1]][:2] for opt in opts]
            for combo in itertools.product(*opts):
                # in both orders: validation must not depend on the order
                yield list(zip(names, combo))
                if r > 1:
                    yield list(zip(names, combo))[::-1]


def items(tier):
    n = 8
    return [("task", i, n) for i in range(n)] + [("sched", k, running) for k in ("memory", "file", "sql") for running in (False, True)] + [("bind",)]


def fresh(sched=None):
    from asyncz.tasks import Task
    from asyncz.triggers import IntervalTrigger

    kw = dict(
        id="t", args=(9,), kwargs={"z": 0}, name="orig", mistrigger_grace_time=3, coalesce=True, max_instances=2,
        trigger=IntervalTrigger(hours=1, start_at=T2, timezone=UTC), executor="default", store_alias="default",
    )
    if sched is not None:
        kw.update(scheduler=sched, next_run_time=T2)
    return Task(targets.noop, **kw)


def explore(item, res, tier, seed):
    from asyncz.schedulers.base import BaseScheduler

    class Sched(BaseScheduler):
        def wakeup(self):
            pass

    depth = 3 if tier == "quick" else 4
    if item[0] == "task":
        s = Sched({"asyncz.timezone": "UTC"})
        for n, ups in enumerate(choices(depth)):
            if n % item[2] != item[1]:
                continue
            for with_sched in (True, False):
                t = fresh(s if with_sched else None)
                kw = {k: v for k, (v, _) in ups}
                bad = any(not ok for _, (_, ok) in ups) or (not with_sched and "next_run_time" in kw)
                judge(res, t, lambda: t.update_task(**kw), lambda: t, kw, bad, f"task{'+scheduler' if with_sched else ''}")
        # another scheduler is refused
        t = fresh(s)
        before = snap(t)
        try:
            t.update_task(scheduler=Sched({}), name="moved")
            res.violation("scheduler-changed", "a task could be moved to another scheduler")
        except ValueError:
            if snap(t) != before:
                res.violation("partial", "refused scheduler change modified the task")
        return
    if item[0] == "bind":
        # arguments are checked against the function they are going to be used with
        from asyncz.tasks import Task

        for fn, args, kw in itertools.product((None, targets.two, targets.noop), ((), (1,), (1, 2), (1, 2, 3)), ({}, {"b": 1}, {"q": 1})):
            for base in (targets.two, targets.noop):
                t = Task(base, id="x", args=(0,), kwargs={})
                ups = dict(args=args, kwargs=kw)
                if fn is not None:
                    ups["fn"] = fn
                target = fn or base
                try:
                    target(*args, **kw)
                    ok = True
                except TypeError:
                    ok = False
                judge(res, t, lambda: t.update_task(**ups), lambda: t, ups, not ok, "bind", strict=("fn" not in ups))
        return
    _, kind, running = item
    tmp = tempfile.mkdtemp(prefix="c06")
    try:
        for n, ups in enumerate(choices(2)):
            if kind != "memory" and n % (3 if tier == "quick" else 1):
                continue
            kw = {k: v for k, (v, _) in ups}
            if "store_alias" in kw:
                continue
            s = Sched({"asyncz.timezone": "UTC"})
            s.add_executor("debug")
            s.add_executor("debug", "slow")
            if kind == "file":
                s.add_store("file", directory=os.path.join(tmp, f"d{n}"))
            elif kind == "sql":
                s.add_store("sqlalchemy", database="sqlite://")
            else:
                s.add_store("memory")
            if running:
                s.start()
            t = fresh()
            s.add_task(t, next_run_time=T2)
            bad = any(not ok for _, (_, ok) in ups)
            target = s.get_task("t") if n % 2 else "t"
            judge(res, t, lambda: s.update_task(target, **kw), lambda: s.get_task("t"), kw, bad, f"scheduler/{kind}/{'running' if running else 'stopped'}",
                  skip=("store_alias",), persisted=running and kind != "memory")
            if running:
                s.shutdown()
            if n % 50 == 0 and kind == "file":
                for d in os.listdir(tmp):
                    shutil.rmtree(os.path.join(tmp, d), ignore_errors=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def judge(res, t, act, read, kw, bad, label, skip=(), persisted=False, strict=True):
    before = snap(read())
    try:
        act()
        ok = True
    except (TypeError, ValueError, AttributeError, LookupError, Exception) as e:
        ok = False
        err = e
    after = snap(read())
    res.count(transitions=1, traces_validated_against_impl=1)
    res.seen("states", (label, tuple((k, repr(v)) for k, v in kw.items())))
    res.seen("distinct_outcomes", (ok, bad))
    for d in (before, after):
        for k in skip:
            d.pop(k, None)
        if persisted:
            # the loaded function of a store is looked up by its reference
            d.pop("fn", None)
    if bad and ok:
        res.violation("accepts-invalid", f"{label}: update {kw} was accepted")
    elif not bad and not ok:
        res.violation("rejects-valid", f"{label}: update {kw} was refused: {type(err).__name__}: {err}")
    elif not ok and after != before:
        diff = {k: (before[k], after[k]) for k in before if before[k] != after[k]}
        res.violation("partial-update", f"{label}: refused update {kw} changed {diff}")
    elif ok:
        want = expected(before, kw)
        if persisted:
            want.pop("fn", None)
        if not strict:
            for d in (want, after):
                for k in ("fn", "fn_reference"):
                    d.pop(k, None)
        if after != want:
            diff = {k: (want[k], after[k]) for k in want if want[k] != after[k]}
            res.violation("wrong-update", f"{label}: update {kw} gave (wanted, got) {diff}")
