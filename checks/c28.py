"""Listeners get exactly the events of what happened, filtered by their masks, once and in order."""
from __future__ import annotations

import itertools
import logging
from datetime import datetime, timedelta, timezone

logging.disable(logging.CRITICAL)

from mc import clock, targets  # noqa: E402
from mc.stores import sched_cls  # noqa: E402

LEVEL = "model_checking"
ITEM_CPU = 400
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
BOUNDS = {
    "quick": "all words of length 3 over 28 calls from two initial states (fresh; running with tasks); listeners for each single event code, 6 combinations and everything, failing ones, one added and removed on the way; what each event says; all words of 4 registrations, removals and events of two bound methods; all 2 and 3 listeners which react to an event by failing, leaving, removing others, adding one or causing another event",
    "thorough": "words of length 4, also 4 reacting listeners",
}
ASSUMPTIONS = ["tasks run inline; processing is started by the harness"]
MIN = {"transitions": 50000}

OPS = (
    "start", "start-paused", "shutdown", "pause", "resume", "add-a", "replace-a", "add-date", "update-a", "bad-update", "pause-a", "resume-a", "reschedule-a",
    "delete-a", "clear", "clear-extra", "add-store", "remove-store", "bad-store", "add-executor", "remove-executor", "bad-executor", "broken-store", "broken-executor", "run-a", "process", "listen", "unlisten",
)


class BrokenStart(Exception):
    pass


def names():
    from asyncz.events import constants as c

    return {
        "start": c.SCHEDULER_START, "shutdown": c.SCHEDULER_SHUTDOWN, "paused": c.SCHEDULER_PAUSED, "resumed": c.SCHEDULER_RESUMED, "executor+": c.EXECUTOR_ADDED,
        "executor-": c.EXECUTOR_REMOVED, "store+": c.STORE_ADDED, "store-": c.STORE_REMOVED, "cleared": c.ALL_TASKS_REMOVED, "added": c.TASK_ADDED, "removed": c.TASK_REMOVED,
        "modified": c.TASK_MODIFIED, "executed": c.TASK_EXECUTED, "error": c.TASK_ERROR, "missed": c.TASK_MISSED, "submitted": c.TASK_SUBMITTED, "max": c.TASK_MAX_INSTANCES,
    }


class Model:
    def __init__(self):
        self.refs = 0
        self.state = "stopped"
        self.tasks = {}  # id -> paused
        self.pending = []  # (id, replace)
        self.stores = set()
        self.executors = {"default"}
        self.events = []
        self.broken = False

    def ev(self, name, what=None):
        self.events.append((name, what))

    def find(self, ident):
        if self.state == "stopped":
            return any(p[0] == ident for p in self.pending)
        return ident in self.tasks

    def do(self, op):
        """The error which is raised, None otherwise."""
        stopped = self.state == "stopped"
        if op in ("start", "start-paused"):
            self.refs += 1
            if self.refs > 1:
                return None
            if self.broken:
                # what happens then is C22's business
                return "stop"
            if "default" not in self.stores:
                self.stores.add("default")
                self.ev("store+", "default")
            for ident, replace in self.pending:
                if ident in self.tasks and not replace:
                    continue
                self.tasks[ident] = False
                self.ev("added", ident)
            self.pending = []
            self.state = "running" if op == "start" else "paused"
            self.ev("start")
        elif op == "shutdown":
            if stopped:
                return "SchedulerNotRunningError"
            self.refs -= 1
            if self.refs:
                return None
            self.state = "stopped"
            self.tasks = {}
            self.ev("shutdown")
        elif op == "pause":
            if stopped:
                return "SchedulerNotRunningError"
            if self.state == "running":
                self.state = "paused"
                self.ev("paused")
        elif op == "resume":
            if stopped:
                return "SchedulerNotRunningError"
            if self.state == "paused":
                self.state = "running"
                self.ev("resumed")
        elif op in ("add-a", "replace-a", "add-date"):
            ident = "d" if op == "add-date" else "a"
            replace = op == "replace-a"
            if stopped:
                self.pending.append((ident, replace))
            elif ident in self.tasks and not replace:
                return "ConflictIdError"
            else:
                self.tasks[ident] = False
                self.ev("added", ident)
        elif op in ("update-a", "pause-a", "resume-a", "reschedule-a"):
            if not self.find("a"):
                return "TaskLookupError"
            if not stopped:
                self.tasks["a"] = op == "pause-a"
            self.ev("modified", "a")
        elif op == "bad-update":
            return "TaskLookupError" if not self.find("a") else "TypeError"
        elif op == "delete-a":
            if not self.find("a"):
                return "TaskLookupError"
            if stopped:
                self.pending.remove(next(p for p in self.pending if p[0] == "a"))
            else:
                del self.tasks["a"]
            self.ev("removed", "a")
        elif op == "clear":
            self.tasks, self.pending = {}, []
            self.ev("cleared", None)
        elif op == "clear-extra":
            self.ev("cleared", "extra")
        elif op == "add-store":
            if "extra" in self.stores:
                return "ValueError"
            self.stores.add("extra")
            self.ev("store+", "extra")
        elif op == "remove-store":
            if "extra" not in self.stores:
                return "KeyError"
            self.stores.remove("extra")
            self.ev("store-", "extra")
        elif op == "add-executor":
            if "x" in self.executors:
                return "ValueError"
            self.executors.add("x")
            self.ev("executor+", "x")
        elif op == "remove-executor":
            if "x" not in self.executors:
                return "KeyError"
            self.executors.remove("x")
            self.ev("executor-", "x")
        elif op in ("bad-store", "bad-executor"):
            return "error"
        elif op == "broken-store":
            # cannot be started
            if "extra" in self.stores:
                return "ValueError"
            if not stopped:
                return "BrokenStart"
            self.broken = True
            self.stores.add("extra")
            self.ev("store+", "extra")
        elif op == "broken-executor":
            if "x" in self.executors:
                return "ValueError"
            if not stopped:
                return "BrokenStart"
            self.broken = True
            self.executors.add("x")
            self.ev("executor+", "x")
        elif op == "run-a":
            if stopped:
                return "SchedulerNotRunningError"
            if "a" not in self.tasks:
                return "TaskLookupError"
            self.tasks["a"] = False
            self.ev("submitted", "a")
            self.ev("executed", "a")
        elif op == "process":
            if self.state == "running" and "d" in self.tasks:
                del self.tasks["d"]
                self.ev("submitted", "d")
                self.ev("error", "d")
                self.ev("removed", "d")
        return None


def broken(kind):
    from asyncz.executors.debug import DebugExecutor
    from asyncz.stores.memory import MemoryStore

    class BrokenStore(MemoryStore):
        def start(self, scheduler, alias):
            raise BrokenStart("the store cannot be started")

    class BrokenExecutor(DebugExecutor):
        def start(self, scheduler, alias):
            raise BrokenStart("the executor cannot be started")

    return BrokenStore() if kind == "store" else BrokenExecutor()


def call(s, op):
    if op == "start":
        s.start()
    elif op == "start-paused":
        s.start(paused=True)
    elif op in ("shutdown", "pause", "resume"):
        getattr(s, op)()
    elif op in ("add-a", "replace-a"):
        s.add_task(targets.record, "interval", hours=1, id="a", args=["a"], replace_existing=op == "replace-a")
    elif op == "add-date":
        s.add_task(targets.boom, "date", run_at=T, id="d", args=["d"], mistrigger_grace_time=None)
    elif op == "update-a":
        s.update_task("a", name="renamed", next_run_time=T + timedelta(hours=2))
    elif op == "bad-update":
        s.update_task("a", name="again", max_instances=-1)
    elif op in ("pause-a", "resume-a", "delete-a", "run-a"):
        getattr(s, op[:-2] + "_task")("a")
    elif op == "reschedule-a":
        s.reschedule_task("a", trigger="interval", hours=3)
    elif op == "clear":
        s.remove_all_tasks(None)
    elif op == "clear-extra":
        s.remove_all_tasks("extra")
    elif op == "add-store":
        s.add_store("memory", "extra")
    elif op == "remove-store":
        s.remove_store("extra")
    elif op == "bad-store":
        s.add_store("no such store", "extra2")
    elif op == "broken-store":
        s.add_store(broken("store"), "extra")
    elif op == "broken-executor":
        s.add_executor(broken("executor"), "x")
    elif op == "add-executor":
        s.add_executor("debug", "x")
    elif op == "remove-executor":
        s.remove_executor("x")
    elif op == "bad-executor":
        s.add_executor(7, "y")
    elif op == "process":
        s.process_tasks()


def run_word(initial, word, res, codes, where):
    from asyncz.executors.debug import DebugExecutor

    by_code = {v: k for k, v in codes.items()}
    s = sched_cls()(timezone=UTC, executors={"default": DebugExecutor()})
    model = Model()
    masks = {n: c for n, c in codes.items()}
    masks.update({
        "task+": codes["added"] | codes["removed"], "runs": codes["executed"] | codes["error"] | codes["missed"], "scheduler": 15, "none": 0,
        "plugins": codes["store+"] | codes["store-"] | codes["executor+"] | codes["executor-"], "sent": codes["submitted"] | codes["max"],
    })
    got = {}

    class Listener:
        """Registered as a bound method, of which there are many equal but not identical ones."""

        def __init__(self, key):
            self.key = key
            got[key] = []

        def listen(self, e):
            got[self.key].append((by_code.get(e.code, e.code), getattr(e, "task_id", None) or e.alias))
            if self.key == "failing":
                raise ValueError("the listener fails")
            if self.key == "everything":
                objects.append(e)

    objects = []

    def listener(key):
        return Listener(key).listen

    def failing(e):
        raise BrokenStart("the listener fails")

    setup = ("start", "add-a", "add-date") if initial else ()
    for op in setup:
        model.do(op)
        call(s, op)
    model.events.clear()
    s.add_listener(failing)
    for key, mask in masks.items():
        s.add_listener(listener(key), mask)
    s.add_listener(listener("failing"))
    everything = listener("everything")
    s.add_listener(everything)
    extra, extra_from, extra_events = [], None, []
    done = []
    for op in word:
        before = len(model.events)
        was_stopped = model.state == "stopped"
        want = model.do(op)
        err = None
        if want == "stop":
            model.events[before:] = []
            break
        if op == "listen":
            fn = listener(f"extra{len(extra)}")
            extra.append([fn.__self__, f"extra{len(extra)}", before, None])
            s.add_listener(fn)
        elif op == "unlisten":
            live = [x for x in extra if x[3] is None]
            if live:
                live[0][3] = before
                if s.remove_listener(live[0][0].listen) is not True:
                    res.violation("remove", f"{where}, {done}: removing a listener does not report it")
            if s.remove_listener(lambda e: None) is not False:
                res.violation("remove", f"{where}, {done}: removing an unknown listener reports success")
        else:
            try:
                call(s, op)
            except Exception as exc:
                err = type(exc).__name__
        done.append(op)
        res.count(transitions=1)
        if (err is None) != (want is None) or (want not in (None, "error") and err != want):
            res.violation(f"answer-{op}", f"{where}, {done}: raised {err}, expected {want}")
            return
        have, expect = got["everything"][before:], model.events[before:]
        if sorted(map(repr, have)) != sorted(map(repr, expect)):
            res.violation(f"events-{op}", f"{where}, {done}: events {have}, expected {expect}")
            return
        wrong = details(s, op, objects[before:], by_code, was_stopped)
        if wrong:
            res.violation(f"details-{op}", f"{where}, {done}: {wrong}")
            return
        # the order within one call is the order of the scheduler
        model.events[before:] = have
    for key, mask in masks.items():
        want = [e for e in model.events if codes[e[0]] & mask]
        if got[key] != want:
            res.violation("mask", f"{where}, {done}: the listener for {key} got {got[key]}, expected {want}")
            return
    if got["failing"] != model.events:
        res.violation("failing", f"{where}, {done}: a failing listener got {got['failing']}, expected {model.events}")
    for fn, key, a, b in extra:
        if got[key] != model.events[a:b]:
            res.violation("late", f"{where}, {done}: the listener added on the way got {got[key]}, expected {model.events[a:b]}")
    res.seen("states", (initial, model.state, model.refs, sorted(model.tasks.items()), model.pending, sorted(model.stores), sorted(model.executors)))
    while s.running and s.ref_counter:
        s.shutdown()


def details(s, op, events, by_code, was_stopped):
    """What is wrong in what the events say about what happened."""
    sent = None
    for e in events:
        name = by_code[e.code]
        if hasattr(e, "task_id") and e.scheduler_identity != s.identity:
            return f"the event {name} is from the scheduler {e.scheduler_identity}"
        if name == "added" and e.alias != "default":
            return f"added to the store {e.alias}"
        if name == "modified" and e.store != (None if was_stopped else "default"):
            return f"modified in the store {e.store}"
        if name == "removed" and e.store != "default":
            return f"removed from the store {e.store}"
        if name == "submitted":
            sent = e
        if name in ("submitted", "executed", "error") and e.store != "default":
            return f"{name} in the store {e.store}"
    for e in events:
        name = by_code[e.code]
        if name == "submitted":
            if (e.source, e.coalesced_run_count) != ("manual" if op == "run-a" else "scheduled", 0):
                return f"submitted by {e.source} leaving out {e.coalesced_run_count}"
            if e.scheduled_run_times != [T]:
                return f"submitted for {e.scheduled_run_times}"
        elif name in ("executed", "error"):
            if sent is None or [e.scheduled_run_time] != sent.scheduled_run_times:
                return f"run for {e.scheduled_run_time}, sent for {sent and sent.scheduled_run_times}"
            if name == "executed" and (e.return_value != len(targets.LOG) or e.exception is not None or e.traceback is not None):
                return f"returned {e.return_value!r}, raised {e.exception!r}"
            if name == "error" and (repr(e.exception) != "ValueError('boom')" or "boom" not in (e.traceback or "") or e.return_value is not None):
                return f"raised {e.exception!r}, traceback {e.traceback!r}, returned {e.return_value!r}"
    return None


def registrations(res, codes):
    """All words of registrations of one or two callables, with one or two masks, their removals and events."""
    from asyncz.events.base import SchedulerEvent

    class Sink:
        def __init__(self):
            self.got = []

        def take(self, e):
            self.got.append((self.name, e.code))

        def __eq__(self, other):
            return self is other

        __hash__ = None

    ops = [("add", w, m) for w in ("a", "b") for m in ("store+", "store-", None)] + [("remove", w) for w in ("a", "b")] + [("event", m) for m in ("store+", "store-")]
    for word in itertools.product(ops, repeat=4):
        if word[0][0] != "add" or word[-1][0] != "event":
            continue
        s = sched_cls()(timezone=UTC)
        sinks = {"a": Sink(), "b": Sink()}
        log = []
        for name, sink in sinks.items():
            sink.name, sink.got = name, log
        have, expect = [], []
        for op in word:
            if op[0] == "add":
                mask = None if op[2] is None else codes[op[2]]
                s.add_listener(sinks[op[1]].take, *(() if mask is None else (mask,)))
                have.append((op[1], mask))
            elif op[0] == "remove":
                first = next((h for h in have if h[0] == op[1]), None)
                if first is not None:
                    have.remove(first)
                if s.remove_listener(sinks[op[1]].take) is not (first is not None):
                    res.violation("registrations-answer", f"{word}: removing a listener says the opposite of whether it was registered")
            else:
                s.dispatch_event(SchedulerEvent(code=codes[op[1]], alias="x"))
                expect += [(w, codes[op[1]]) for w, m in have if m is None or m & codes[op[1]]]
        res.count(transitions=len(word), traces_validated_against_impl=1)
        res.seen("states", word)
        if log != expect:
            res.violation("registrations", f"{word}: the listeners got {log}, expected {expect}")


REACTIONS = ("", "raise", "leave", "remove-next", "remove-previous", "add", "nested")


def reactions(size, res):
    """Listeners which change the listeners, or cause further events, while they are notified."""
    from asyncz.events.base import SchedulerEvent
    from asyncz.events.constants import EXECUTOR_ADDED, STORE_ADDED

    n = 0
    for kinds in itertools.product(REACTIONS, repeat=size):
        s = sched_cls()(timezone=UTC)
        # per listener: events it was registered for from the start on / events during which that changed
        got, listeners, since, until = [], [], [], []
        number = [0]

        def register(kind):
            i = len(listeners)
            got.append([])

            def fn(e):
                got[i].append(e.alias)
                if e.alias != "1":
                    return
                if kind == "raise":
                    raise ValueError("listener")
                if kind == "leave":
                    remove(i)
                elif kind == "remove-next" and i + 1 < size:
                    remove(i + 1)
                elif kind == "remove-previous" and i:
                    remove(i - 1)
                elif kind == "add":
                    register("")
                elif kind == "nested" and not any("nested" in g for g in got):
                    s.dispatch_event(SchedulerEvent(code=STORE_ADDED, alias="nested"))

            listeners.append(fn)
            since.append(number[0])
            until.append(None)
            s.add_listener(fn)

        def remove(i):
            if until[i] is None:
                until[i] = number[0]
                s.remove_listener(listeners[i])

        for kind in kinds:
            register(kind)
        for number[0] in (1, 2, 3):
            s.dispatch_event(SchedulerEvent(code=EXECUTOR_ADDED, alias=str(number[0])))
        for i in range(len(listeners)):
            for x in (1, 2, 3):
                have = got[i].count(str(x))
                gone = until[i]
                if since[i] < x and (gone is None or gone > x):
                    ok = have == 1
                elif since[i] > x or (gone is not None and gone < x):
                    ok = have == 0
                else:
                    # came or went while this event was reported
                    ok = have <= 1
                    if gone == x and since[i] < x and i < size and kinds[i] == "leave":
                        ok = have == 1
                if not ok:
                    res.violation("reactions", f"listeners with the reactions {kinds}: number {i} got event {x} {have} times")
            if "nested" in kinds and i < size and until[i] is None and got[i].count("nested") != 1:
                res.violation("nested", f"listeners with the reactions {kinds}: number {i} got the event caused by a listener {got[i].count('nested')} times")
        n += 1
        res.count(transitions=3)
        res.seen("states", kinds)
    res.count(traces_validated_against_impl=n)


def items(tier):
    return [("registrations", 0)] + [("reactions", n) for n in (2, 3) + (() if tier == "quick" else (4,))] + [(initial, (a, b)) for initial in (False, True) for a in OPS for b in OPS]


def explore(item, res, tier, seed):
    initial, first = item
    if initial == "reactions":
        reactions(first, res)
        return
    codes = names()
    if initial == "registrations":
        registrations(res, codes)
        return
    clock.set_now(T)
    n = 0
    try:
        depth = 3 if tier == "quick" else 4
        for rest in itertools.product(OPS, repeat=depth - len(first)):
            word = first + rest
            run_word(initial, word, res, codes, "running with tasks" if initial else "fresh")
            n += 1
    finally:
        clock.off()
    res.count(traces_validated_against_impl=n)
    res.sample({"initial": "running" if initial else "fresh", "word": list(word)})
