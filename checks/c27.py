"""Failing stores, triggers, executors and listeners only affect what depends on them."""
from __future__ import annotations

import asyncio
import itertools
import logging
from datetime import datetime, timedelta, timezone

logging.disable(logging.CRITICAL)

from mc import clock  # noqa: E402
from mc.customtrigger import Every  # noqa: E402
from mc.stores import Backend, sched_cls  # noqa: E402
from mc.vloop import VLoop  # noqa: E402

LEVEL = "model_checking"
ITEM_CPU = 800
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
RETRY = 3.0
END = 45.3
BOUNDS = {
    "quick": "every single failing store call (7 operations x the first 6 calls x before/after its effect), every pair of them (first 3 calls), 12 outages of all/reading/writing operations, stores failing for one task; file and mongo store before or after a healthy one, 45 virtual seconds on the asyncio scheduler; failing triggers, executors and listeners",
    "thorough": "pairs among the first 8 calls, triples among the first 2, also sql and redis",
}
ASSUMPTIONS = ["faults are exceptions raised by the store operations, before or after their effect"]
MIN = {"executions": 1000}
METHODS = ("get_due_tasks", "get_next_run_time", "update_task", "delete_task", "lookup_task", "add_task", "get_all_tasks")
READS = ("get_due_tasks", "get_next_run_time", "lookup_task", "get_all_tasks")
WRITES = ("update_task", "delete_task", "add_task")


class Fault(OSError):
    pass


class Plan:
    """Which calls fail: (method, number of the call, mode), windows of time, task ids."""

    def __init__(self, calls=(), windows=(), ids=()):
        self.calls, self.windows, self.ids = set(calls), windows, ids
        self.counts = {}
        self.active = False
        self.writes = 0
        self.last = None

    def ask(self, method, args):
        if not self.active:
            return None
        n = self.counts[method] = self.counts.get(method, 0) + 1
        mode = None
        for m in ("before", "after"):
            if (method, n, m) in self.calls:
                mode = m
        now = (datetime.now(UTC) - T).total_seconds()
        for ops, a, b, m in self.windows:
            if method in ops and a <= now < b:
                mode = m
        if args and method in WRITES and getattr(args[0], "id", args[0]) in self.ids:
            mode = "before"
        if mode:
            self.last = now
            if method in WRITES or method == "lookup_task":
                # what had been sent is not noted down
                self.writes += 1
        return mode


def flaky(store, plan):
    def wrap(method):
        real = getattr(store, method)

        def call(*args, **kw):
            mode = plan.ask(method, args)
            if mode == "before":
                raise Fault(f"{method} failed")
            r = real(*args, **kw)
            if mode == "after":
                raise Fault(f"the answer of {method} got lost")
            return r

        setattr(store, method, call)

    for m in METHODS:
        wrap(m)
    return store


async def work(tag):
    pass


OPS = (None, "add", "pause-a", "delete-c", "run-a", "run-h")
INTERVALS = {"a": 5, "c": 7}
DATES = {"b": 12}
# the healthy store is asked last and busier than the failing one, or asked first and rarely has something to do
LAYOUTS = {"last": ({"h": 5}, {"k": 9}), "first": ({"h": 20}, {"k": 43})}


def due(ident, until, layout):
    healthy, hdates = LAYOUTS[layout]
    if ident in INTERVALS or ident in healthy:
        n = {**INTERVALS, **healthy}[ident]
        return [float(x) for x in range(n, int(until) + 1, n)]
    return [float({**DATES, **hdates}[ident])]


def run(kind, plan, op, layout):
    from asyncz.schedulers.asyncio import AsyncIOScheduler

    back = Backend(kind)
    loop = VLoop(T)
    asyncio.set_event_loop(loop)
    problems = []
    try:
        store = flaky(back.open(), plan)
        stores = {"flaky": store, "default": {"type": "memory"}}
        if layout == "first":
            stores = dict(reversed(stores.items()))
        s = AsyncIOScheduler(event_loop=loop, timezone=UTC, stores=stores, store_retry_interval=RETRY)
        sent = []

        def listen(e):
            from asyncz.events import constants as c

            if e.code == c.TASK_SUBMITTED:
                for rt in e.scheduled_run_times:
                    sent.append((e.task_id, (rt - T).total_seconds(), loop.now))

        s.add_listener(listen)
        s.start()
        kw = dict(mistrigger_grace_time=None, coalesce=False, max_instances=50)
        for ident, n in INTERVALS.items():
            s.add_task(work, "interval", seconds=n, start_at=T + timedelta(seconds=n), id=ident, args=[ident], store="flaky", **kw)
        for ident, n in DATES.items():
            s.add_task(work, "date", run_at=T + timedelta(seconds=n), id=ident, args=[ident], store="flaky", **kw)
        for ident, n in LAYOUTS[layout][0].items():
            s.add_task(work, "interval", seconds=n, start_at=T + timedelta(seconds=n), id=ident, args=[ident], **kw)
        for ident, n in LAYOUTS[layout][1].items():
            s.add_task(work, "date", run_at=T + timedelta(seconds=n), id=ident, args=[ident], **kw)
        loop.until(0.5)
        plan.active = True
        loop.until(6.5)
        raised = None
        try:
            if op == "add":
                s.add_task(work, "date", run_at=T + timedelta(seconds=16), id="n", args=["n"], store="flaky", **kw)
            elif op == "pause-a":
                s.pause_task("a", "flaky")
            elif op == "delete-c":
                s.delete_task("c", "flaky")
            elif op == "run-a":
                s.run_task("a", "flaky")
            elif op == "run-h":
                s.run_task("h", "default")
        except Exception as exc:
            raised = type(exc).__name__
        loop.until(END)
        plan.active = False
        if loop.stuck:
            problems.append("the loop never rests")
        problems += loop.errors[:2]
        left = {t.id: t.next_run_time for t in s.get_tasks()}
        turns = loop.turns
        s.shutdown()
        loop.until(END + 1)
        return sent, raised, left, problems, turns
    finally:
        asyncio.set_event_loop(None)
        loop.close()
        back.drop()


def judge(kind, plan, op, layout, out, res, where):
    sent, raised, left, problems, turns = out
    for p in problems:
        res.violation(f"problem:{p[:30]}", f"{where}: {p}")
    if problems:
        return
    faults = bool(plan.counts) and plan.last is not None
    times = {}
    for ident, rt, at in sent:
        times.setdefault(ident, []).append((rt, at))
    manual = {"run-a": "a", "run-h": "h"}.get(op)
    # the healthy store: as if nothing happened
    for ident in ("h", "k"):
        want = [(x, x) for x in due(ident, END, layout)]
        have = [(round(rt, 3), round(at, 3)) for rt, at in times.get(ident, [])]
        if manual == ident:
            # counts from the run by hand
            want = [(x, x) for x in [5.0, 6.5] + [6.5 + 5 * i for i in range(1, 8)]]
            if have == [(5.0, 5.0)] + [(x, 6.5) if x < 7 else (x, x) for x in [6.5] + [10.0 + 5 * i for i in range(8)]]:
                have = want
        if have != want:
            res.violation("healthy", f"{where}: the runs of {ident} in the healthy store are {have}, expected {want}")
    # the failing one: nothing lost, late by the retry at most, repeated only after lost writes
    end_of_faults = (plan.last or 0) + RETRY + 0.01
    again = set()
    for ident in ("a", "b", "c") + (("n",) if op == "add" else ()):
        if ident in plan.ids:
            continue
        if manual == ident:
            gaps = [y[0] - x[0] for x, y in zip(times.get(ident, []), times.get(ident, [])[1:])]
            if not gaps or max(gaps) > 5.02 or times[ident][-1][0] < 40:
                res.violation("manual", f"{where}: the runs of {ident} are {times.get(ident)}")
            continue
        if (op == "pause-a" and ident == "a") or (op == "delete-c" and ident == "c"):
            continue
        want = due(ident, END, layout) if ident != "n" else [16.0]
        have = times.get(ident, [])
        if ident == "n" and raised and not have:
            continue
        for rt in want:
            got = [at for r, at in have if abs(r - rt) < 0.001]
            if not got and rt > END - RETRY - 0.1 and (plan.last or 0) > END - 2 * RETRY - 0.2:
                continue
            if not got:
                res.violation("lost", f"{where}: {ident} never ran for {rt}, runs: {have}")
                continue
            if got[0] > max(rt, min(end_of_faults, END)) + 0.02 and faults:
                res.violation("late", f"{where}: {ident} ran at {got[0]} for {rt}, the last fault was at {plan.last}")
            elif not faults and got[0] > rt + 0.02:
                res.violation("late", f"{where}: {ident} ran at {got[0]} for {rt} without a fault")
            again |= {(ident, at) for at in got[1:]}
        for rt, at in have:
            if not any(abs(rt - x) < 0.001 for x in want):
                res.violation("strange", f"{where}: {ident} ran for {rt} at {at}")
    if len(again) > plan.writes:
        res.violation("repeated", f"{where}: {len(again)} repeated submissions after {plan.writes} failed writes: {sent}")
    # management: an error means that nothing changed (when the answer did not get lost)
    lossy = any(m == "after" for _, _, m in plan.calls) or any(w[3] == "after" for w in plan.windows)
    if op == "pause-a" and not lossy:
        after = [x for x in times.get("a", []) if x[0] > 6.5]
        if raised is None and after:
            res.violation("paused", f"{where}: a was paused and ran for {after}")
        if raised and "a" not in plan.ids and [round(x[0]) for x in after][-1:] != [45]:
            res.violation("half-paused", f"{where}: pausing raised {raised}, the runs are {after}")
    if op == "delete-c" and not lossy:
        after = [x for x in times.get("c", []) if x[0] > 6.5]
        if raised is None and after:
            res.violation("deleted", f"{where}: c was deleted and ran for {after}")
        if raised and "c" not in plan.ids and not after:
            res.violation("half-deleted", f"{where}: deleting raised {raised}, c never runs")
    if turns > 400:
        res.violation("busy", f"{where}: {turns} turns of the loop")
    res.seen("outcomes", (sorted(sent), raised))


def plans(tier):
    n1 = 6 if tier == "quick" else 10
    n2 = 3 if tier == "quick" else 8
    single = [(m, n, mode) for m in METHODS for n in range(1, n1 + 1) for mode in ("before", "after")]
    out = [((), (), ())] + [((x,), (), ()) for x in single]
    pair = [x for x in single if x[1] <= n2 and (tier != "quick" or x[2] == "before" or x[0] in WRITES)]
    out += [((a, b), (), ()) for a, b in itertools.combinations(pair, 2) if a[:2] != b[:2]]
    if tier != "quick":
        few = [x for x in single if x[1] <= 2]
        out += [((a, b, c), (), ()) for a, b, c in itertools.combinations(few, 3) if len({a[:2], b[:2], c[:2]}) == 3]
    for ops in (METHODS, READS, WRITES, ("update_task",), ("get_due_tasks",), ("get_next_run_time",)):
        for a, b in ((4.5, 5.5), (4.5, 13.2), (6.0, 8.0), (11.9, 33.0), (0.5, 24.7)):
            out.append(((), ((ops, a, b, "before"),), ()))
            if ops in (METHODS, WRITES):
                out.append(((), ((ops, a, b, "after"),), ()))
    out += [((), (), (i,)) for i in "abc"] + [((), (), ("a", "b"))]
    return out


def items(tier):
    kinds = ("file", "mongo") if tier == "quick" else ("file", "mongo", "sql", "redis")
    parts = 8 if tier == "quick" else 32
    out = [(k, op, i, parts) for k in kinds for op in OPS for i in range(parts) if op is None or tier != "quick" or i < 3]
    out = [(*x, "last") for x in out] + [(k, None, i, parts, "first") for k in kinds for i in range(parts)]
    return out + [("others", None, 0, 1, "")]


def explore(item, res, tier, seed):
    kind, op, part, parts, layout = item
    if kind == "others":
        others(res)
        return
    if not Backend.available(kind):
        return
    n = 0
    for i, (calls, windows, ids) in enumerate(plans(tier)):
        pairs = len(calls) > 1
        if op is None or tier != "quick":
            if i % parts != part:
                continue
        elif pairs or i % 3 != part:
            # with an operation: single faults, outages and tasks
            continue
        plan = Plan(calls, windows, ids)
        where = f"{kind} store, failing {calls or windows or ids}, operation {op}, healthy store {layout}"
        try:
            out = run(kind, plan, op, layout)
        finally:
            clock.off()
        judge(kind, plan, op, layout, out, res, where)
        n += 1
        res.count(transitions=out[4])
    res.count(executions=n, states=n, traces_validated_against_impl=n)
    res.sample({"store": kind, "operation": op, "failing": repr(calls or windows or ids)})


# --- triggers, executors and listeners which fail


class BadTrigger(Every):
    """Raises from the n-th question on (or only then)."""

    alias: str = "bad"
    nth: int = 1
    forever: bool = False
    asked: int = 0

    def get_next_trigger_time(self, timezone, previous_time, now=None):
        self.asked += 1
        if self.asked == self.nth or (self.forever and self.asked > self.nth):
            raise ValueError("the trigger fails")
        return super().get_next_trigger_time(timezone, previous_time, now)


def others(res):
    from asyncz.executors.debug import DebugExecutor

    class BadExecutor(DebugExecutor):
        n = 0

        def do_send_task(self, task, run_times):
            self.n += 1
            if self.n in self.when:
                raise RuntimeError("the executor fails")
            return super().do_send_task(task, run_times)

    from mc import targets

    n = 0
    for nth, forever, order in itertools.product((1, 2, 3, 4), (False, True), ("first", "last")):
        clock.set_now(T)
        s = sched_cls()(timezone=UTC, executors={"default": DebugExecutor()}, store_retry_interval=RETRY)
        s.start()
        del targets.LOG[:]
        try:
            trig = BadTrigger(seconds=5, nth=99)
        except TypeError:
            trig = None
        kw = dict(mistrigger_grace_time=None, coalesce=False)
        first = T + timedelta(seconds=5)

        def bad():
            s.add_task(targets.record, trig, id="bad", args=["bad"], next_run_time=first - timedelta(milliseconds=1 if order == "first" else -1), **kw)

        def good():
            s.add_task(targets.record, "interval", seconds=5, start_at=first, id="good", args=["good"], **kw)

        bad() if order == "first" else good()
        good() if order == "first" else bad()
        trig = s.get_task("bad").trigger
        trig.asked, trig.nth, trig.forever = 0, nth, forever
        waits = []
        for k in range(1, 9):
            clock.set_now(T + timedelta(seconds=5 * k, milliseconds=2))
            try:
                waits.append(s.process_tasks())
            except Exception as exc:
                res.violation("trigger-raises", f"failing trigger ({nth}, {forever}, {order}): processing raised {exc!r}")
        got = [x for x in targets.LOG if x[0] == ("good",)]
        if len(got) != 8:
            res.violation("trigger-affects", f"a trigger failing at question {nth}{' and later' if forever else ''} ({order}): the other task ran {len(got)} times instead of 8")
        if any(w is None or w > 5.01 for w in waits):
            res.violation("trigger-sleeps", f"a trigger failing at question {nth} ({order}): the waits are {waits}")
        s.shutdown()
        n += 1
    for when in [(), (1,), (2,), (1, 2), (3,), (2, 4), tuple(range(1, 30))]:
        clock.set_now(T)
        ex = BadExecutor()
        ex.when = when
        s = sched_cls()(timezone=UTC, executors={"default": DebugExecutor(), "bad": ex}, store_retry_interval=RETRY)
        s.start()
        events = []
        s.add_listener(lambda e: events.append((e.code, getattr(e, "task_id", None))))

        def listener(e):
            raise KeyError("the listener fails")

        s.add_listener(listener)
        later = []
        s.add_listener(lambda e: later.append(e.code))
        del targets.LOG[:]
        kw = dict(mistrigger_grace_time=None, coalesce=False)
        s.add_task(targets.record, "interval", seconds=5, start_at=T + timedelta(seconds=4.9), id="x", args=["x"], executor="bad", **kw)
        s.add_task(targets.record, "interval", seconds=5, start_at=T + timedelta(seconds=5), id="good", args=["good"], **kw)
        for k in range(1, 7):
            clock.set_now(T + timedelta(seconds=5 * k, milliseconds=2))
            try:
                s.process_tasks()
            except Exception as exc:
                res.violation("executor-raises", f"executor failing at {when}: processing raised {exc!r}")
        good = len([x for x in targets.LOG if x[0] == ("good",)])
        mine = len([x for x in targets.LOG if x[0] == ("x",)])
        fails = len([w for w in when if w <= 6])
        if good != 6:
            res.violation("executor-affects", f"executor failing at {when}: the task of the other executor ran {good} times instead of 6")
        if mine != 6 - fails:
            res.violation("executor-recovers", f"executor failing at {when}: its task ran {mine} times instead of {6 - fails}")
        left = {k: v for k, v in s.instances.items() if v}
        if left:
            res.violation("executor-counter", f"executor failing at {when}: {left} instances are still counted")
        if len(later) != len(events):
            res.violation("listener-affects", f"a failing listener keeps events from the next one: {len(later)} of {len(events)}")
        s.shutdown()
        n += 1
    clock.off()
    res.count(executions=n, states=n, transitions=n * 8, traces_validated_against_impl=n)
