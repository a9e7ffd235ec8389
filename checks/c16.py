"""Concurrent runs in a thread pool: instance limits, no lost or doubled run, one final event per run."""
from __future__ import annotations

import concurrent.futures
from datetime import datetime, timedelta, timezone

from mc import sched

sched.install()

from mc import clock, targets  # noqa: E402
from mc.stores import scheduler  # noqa: E402

LEVEL = "model_checking"
ITEM_CPU = 800
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
BOUNDS = {
    "quick": "16 scenarios of 2-3 calling threads (processing, manual runs, direct sends to the executor, update, delete, shutdown) with 1-3 pool workers, limits 1-2, failing runs; all schedules with up to 2 preemptions (1 in the scenarios with more than 3 threads) at lock and task granularity, 1 at line granularity in 13 and at bytecode granularity within the executors in 5 of them",
    "thorough": "3 preemptions (2 with more than 3 threads) at lock granularity, 2 (1) at line, 1 at bytecode granularity (2 within the executors); at most 400000 schedules per scenario part",
}
ASSUMPTIONS = ["the thread pool is a stand-in with the same interface whose workers the explorer controls"]
MIN = {"schedules": 3000}


class Probe:
    """Watches the runs of one execution."""

    def __init__(self):
        self.live = {}
        self.most = {}
        self.runs = []

    def enter(self, ident):
        self.live[ident] = self.live.get(ident, 0) + 1
        self.most[ident] = max(self.most.get(ident, 0), self.live[ident])
        self.runs.append(ident)

    def leave(self, ident):
        self.live[ident] -= 1


PROBE = Probe()


def body(ident, fails=False):
    PROBE.enter(ident)
    try:
        sched.point()
        if fails:
            raise ValueError("fails")
    finally:
        PROBE.leave(ident)
    return ident


# name: (tasks, calls, workers, executor options)
#   task: (id, run times due at T, coalesce, max_instances, fails)
def go(*names):
    return names


SCEN = {
    "two-manual": ([("a", 0, True, 1, False)], go("run-a", "run-a"), 2, {}),
    "two-manual-two": ([("a", 0, True, 2, False)], go("run-a", "run-a", "run-a"), 3, {}),
    "one-worker": ([("a", 0, True, 2, False)], go("run-a", "run-a"), 1, {}),
    "process+manual": ([("a", 1, True, 1, False)], go("process", "run-a"), 2, {}),
    "process+process": ([("a", 1, True, 1, False), ("b", 1, True, 1, False)], go("process", "process"), 2, {}),
    "several-times": ([("a", 3, False, 2, False)], go("process", "run-a"), 2, {}),
    "failing": ([("a", 2, False, 1, True), ("b", 1, True, 1, False)], go("process", "run-a"), 2, {}),
    "shutdown": ([("a", 1, True, 1, False)], go("process", "shutdown"), 2, {}),
    "shutdown-cancel": ([("a", 1, True, 1, False), ("b", 1, True, 1, False)], go("process", "shutdown"), 1, {"cancel_futures": True}),
    "shutdown-nowait": ([("a", 1, True, 1, False), ("b", 1, True, 1, True)], go("process", "shutdown-nowait"), 1, {}),
    "delete": ([("a", 1, True, 1, False)], go("process", "delete-a", "run-a"), 2, {}),
    "limit-change": ([("a", 1, True, 1, False)], go("process", "limit-a", "run-a"), 2, {}),
    "two-sends": ([("a", 0, True, 1, False)], go("send-a", "send-a"), 2, {}),
    "three-sends": ([("a", 0, True, 2, False)], go("send-a", "send-a", "send-a"), 3, {}),
    "sends-of-two": ([("a", 0, True, 1, False), ("b", 0, True, 1, False)], go("send-a", "send-b"), 2, {}),
    "chain": ([("a", 0, True, 1, False)], go("run-a-twice", "run-a"), 2, {}),
}


def calls(s, name):
    if name == "process":
        return s.process_tasks()
    if name == "run-a":
        s.run_task("a")
        return "sent"
    if name.startswith("send-"):
        # the executor is used by something else than the scheduler
        ident = name[-1]
        s.executors["default"].send_task(s.get_task(ident), [T])
        s.dispatch_event(submission(ident))
        return "sent"
    if name == "run-a-twice":
        n = 0
        for _ in range(2):
            try:
                s.run_task("a")
                n += 1
            except Exception:
                pass
        return n
    if name == "shutdown":
        r = s.shutdown()
        # nothing runs anymore
        return ("down", sum(PROBE.live.values()), r)
    if name == "shutdown-nowait":
        return s.shutdown(wait=False)
    if name == "delete-a":
        s.delete_task("a")
        return "deleted"
    if name == "limit-a":
        s.update_task("a", max_instances=2)
        return "changed"
    raise ValueError(name)


def submission(ident):
    from asyncz.events.base import TaskSubmissionEvent
    from asyncz.events.constants import TASK_SUBMITTED

    return TaskSubmissionEvent(code=TASK_SUBMITTED, task_id=ident, store="default", scheduled_run_times=[T])


def build(name):
    from asyncz.executors.pool import ThreadPoolExecutor

    global PROBE
    PROBE = Probe()
    tasks, names, workers, options = SCEN[name]
    real = concurrent.futures.ThreadPoolExecutor
    concurrent.futures.ThreadPoolExecutor = sched.FakePool
    try:
        ex = ThreadPoolExecutor(workers, **options)
    finally:
        concurrent.futures.ThreadPoolExecutor = real
    s = scheduler({}, executors={"default": ex})
    events = []
    s.start()
    for ident, due, coalesce, limit, fails in tasks:
        first = T - timedelta(seconds=due - 1) if due else T + timedelta(hours=1)
        s.add_task(body, "interval", seconds=1, start_at=first, next_run_time=first, args=[ident, fails], id=ident, coalesce=coalesce, max_instances=limit, mistrigger_grace_time=None)
    s.add_listener(events.append)

    def make(n):
        def run():
            try:
                return calls(s, n)
            except Exception as exc:
                return type(exc).__name__

        return run

    return (s, ex, events), [(n, make(n)) for n in names]


def judge_for(name, res, grain):
    from asyncz.events import constants as c

    tasks, names, workers, options = SCEN[name]
    limits = {t[0]: t[3] for t in tasks}
    fails = {t[0]: t[4] for t in tasks}

    def judge(state, run):
        s, ex, events = state
        info = dict(schedule=list(run.dev.items()), grain=grain)

        def bad(key, text):
            res.violation(f"{name}-{key}", f"{name} ({' | '.join(names)}, {workers} workers): {text}", **info)

        if run.deadlock:
            return bad("deadlock", f"blocked: {run.deadlock}")
        for t in run.threads:
            if t.exc is not None:
                return bad("crash", f"{t.name} raised {t.exc!r}")
        results = [t.result for t in run.threads[: len(names)]]
        for ident, most in PROBE.most.items():
            allowed = limits[ident] + (1 if "limit-a" in names and ident == "a" else 0)
            if most > allowed:
                bad("limit", f"{most} instances of {ident} at once, allowed are {allowed}")
        submitted, final = {}, {}
        refused = 0
        for e in events:
            if e.code == c.TASK_SUBMITTED:
                for rt in e.scheduled_run_times:
                    submitted.setdefault(e.task_id, []).append(rt)
            elif e.code in (c.TASK_EXECUTED, c.TASK_ERROR, c.TASK_MISSED):
                final.setdefault(e.task_id, []).append(e.scheduled_run_time)
                want = c.TASK_ERROR if fails[e.task_id] else c.TASK_EXECUTED
                if e.code != want:
                    bad("kind", f"run of {e.task_id} ended with event {e.code}")
            elif e.code == c.TASK_MAX_INSTANCES:
                refused += 1
        runs = {i: PROBE.runs.count(i) for i in set(PROBE.runs)}
        for ident in set(submitted) | set(final) | set(runs):
            sub, fin, n = sorted(submitted.get(ident, [])), sorted(final.get(ident, [])), runs.get(ident, 0)
            if len(fin) != n:
                bad("final", f"{n} runs of {ident} ended with {len(fin)} final events")
            if options.get("cancel_futures"):
                if not set(fin) <= set(sub) or len(fin) > len(sub):
                    bad("lost", f"{ident}: submitted for {sub}, ended for {fin}")
            elif fin != sub:
                bad("lost", f"{ident}: submitted for {sub}, ended for {fin}")
        errors = results.count("MaximumInstancesError") + sum(2 - r for n, r in zip(names, results) if n == "run-a-twice")
        if "process" not in names and not names[0].startswith("send") and refused != errors:
            bad("refused", f"{refused} refusals reported, {errors} raised")
        left = {k: v for k, v in s.instances.items() if v}
        if left:
            bad("counter", f"{left} instances are still counted after everything ended")
        for r in results:
            if isinstance(r, tuple) and r[0] == "down" and r[1]:
                bad("wait", f"shutdown came back with {r[1]} runs going on")
        res.seen("outcomes", (name, str(results), str(sorted(runs.items())), refused))
        if s.running:
            s.shutdown()

    return judge


HEAVY = {"three-sends", "two-manual-two", "process+process", "failing", "delete", "limit-change"}


FINE = {"two-manual", "two-sends", "sends-of-two", "chain", "one-worker"}
EXECUTORS = (str(sched.REPO / "asyncz" / "executors"),)


def items(tier):
    out = []
    for n in SCEN:
        if tier == "quick":
            heavy = n in HEAVY
            out += [(n, None, 1 if heavy else 2, 0, 1)]
            if not heavy or n in ("process+process", "delete"):
                out += [(n, "line", 1, i, 2) for i in range(2)]
            if n in FINE:
                out += [(n, "opcode-executors", 1, 0, 1)]
        else:
            out += [(n, None, 2 if n in HEAVY else 3, i, 4) for i in range(4)] + [(n, "line", 1 if n in HEAVY else 2, i, 8) for i in range(8)] + [(n, "opcode", 1, i, 2) for i in range(2)] + [(n, "opcode-executors", 2, i, 4) for i in range(4)]
    return out


def explore(item, res, tier, seed):
    name, grain, bound, part, parts = item
    dirs = sched.DIRS
    if grain == "opcode-executors":
        grain, dirs = "opcode", EXECUTORS
    clock.set_now(T)
    try:
        n = sched.explore(lambda: build(name), judge_for(name, res, grain), res, bound=bound, grain=grain, dirs=dirs, shard=(part, parts), limit=60000 if tier == "quick" else 400000)
    finally:
        clock.off()
    res.count(traces_validated_against_impl=n)
    res.sample({"scenario": name, "calls": list(SCEN[name][1]), "grain": grain or "lock", "preemptions": bound, "schedules": n})
