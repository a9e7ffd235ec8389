"""Tasks added, changed and deleted before the start."""
from __future__ import annotations

import itertools
from datetime import datetime, timedelta, timezone

from mc import clock, targets
from mc.lifecycle import make
from mc.stores import sched_cls

LEVEL = "model_checking"
ITEM_CPU = 600
BOUNDS = {
    "quick": "all words of length 4 over 14 calls: adding (same id, replacing, paused, later, in two stores), deleting, changing, clearing, start, failed start, shutdown, processing (memory store), of length 3 on file, sql, redis and mongo; 5 forms of one-off tasks x 4 grace times x 3 defaults of the scheduler x starts 0 to 3600 s later",
    "thorough": "words of length 5 (memory), 4 (others)",
}
ASSUMPTIONS = ["the timer is left out, the harness calls the processing at any time"]
MIN = {"transitions": 20000}
A = ("add-a", "add-a-again", "replace-a", "add-paused", "add-later", "add-other", "add-a-other", "delete-a", "touch-a", "clear", "start", "fail-store", "shutdown", "process")
word_items, word_explore = make({"pending": (A, 4, 5, ("memory", "file", "sql", "redis", "mongo"))}, 5)

T = datetime(2030, 1, 1, 12, 0, tzinfo=timezone.utc)
FORMS = ("plain", "name", "run-at", "object", "object-run-at")


def late_starts(res):
    """Whether a one-off task added before the start runs when the start comes later than its time."""
    from asyncz.events.constants import TASK_EXECUTED, TASK_MISSED
    from asyncz.executors.debug import DebugExecutor
    from asyncz.triggers import DateTrigger

    for form, grace, default, delay, started in itertools.product(
        FORMS, ("unset", None, 2, 100), ("unset", None, 50), (0, 0.5, 1, 1.5, 3, 60, 3600), (False, True)
    ):
        clock.set_now(T)
        del targets.LOG[:]
        config = {} if default == "unset" else {"task_defaults": {"mistrigger_grace_time": default}}
        s = sched_cls()(timezone=timezone.utc, executors={"default": DebugExecutor()}, **config)
        seen = []
        s.add_listener(lambda e: seen.append(e.code), TASK_EXECUTED | TASK_MISSED)
        if started:
            s.start(paused=True)
        args = {
            "plain": lambda: {}, "name": lambda: {"trigger": "date"}, "run-at": lambda: {"trigger": "date", "run_at": T},
            "object": lambda: {"trigger": DateTrigger()}, "object-run-at": lambda: {"trigger": DateTrigger(run_at=T)},
        }[form]()
        if grace != "unset":
            args["mistrigger_grace_time"] = grace
        s.add_task(targets.record, id="a", **args)
        clock.set_now(T + timedelta(seconds=delay))
        if started:
            s.resume()
        else:
            s.start()
        s.process_tasks()
        # added to run at once it runs however late it is, unless told otherwise
        limit = grace if grace != "unset" else None if not form.endswith("run-at") else 1 if default == "unset" else default
        want = [TASK_EXECUTED if limit is None or delay <= limit else TASK_MISSED]
        res.count(transitions=1, traces_validated_against_impl=1)
        res.seen("states", ("late", form, grace, default, delay, started))
        if seen != want or len(targets.LOG) != (want == [TASK_EXECUTED]):
            res.violation(
                "late-start",
                f"one-off task ({form}, grace time {grace}, default {default}) added {'while paused' if started else 'before the start'}, {delay} s late: events {seen} instead of {want}",
            )
        s.shutdown()
    clock.off()


def items(tier):
    return word_items(tier) + [("late", 0)]


def explore(item, res, tier, seed):
    if item[0] == "late":
        late_starts(res)
    else:
        word_explore(item, res, tier, seed)
