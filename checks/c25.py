"""Several schedulers on one store with a lock file: every due run is made exactly once, by one of them."""
from __future__ import annotations

import os
from collections import Counter
from datetime import datetime, timedelta, timezone

from mc import sched

sched.install()

from mc import clock, targets  # noqa: E402
from mc.stores import Backend, sched_cls, scratch  # noqa: E402

LEVEL = "model_checking"
ITEM_CPU = 800
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
RETRY = 7
BOUNDS = {
    "quick": "2 and 3 schedulers, 16 combinations of processing, starting with pending tasks, shutting down, deleting and adding; file, redis and SQL store; every schedule with 1 preemption at line granularity (file store, 9 combinations), up to 2 (3 schedulers, redis, SQL: 1) at lock granularity",
    "thorough": "2 (redis, SQL: 1) preemptions at line granularity, 1 at bytecode granularity, up to 3 at lock granularity",
}
ASSUMPTIONS = [
    "the processes are threads with schedulers, stores and connections of their own: file locks belong to the open file, so they exclude each other like processes",
    "SQL: only the processing itself is interleaved, sqlite makes concurrent writers wait in real time",
]
MIN = {"schedules": 2000}

# thread programs: a word of calls per scheduler, "+" starts a further scheduler
SCENES = {
    "two-process": (("process",), ("process",)),
    "twice-each": (("process", "process"), ("process", "process")),
    "three-process": (("process",), ("process",), ("process",)),
    "shutdown-while": (("process", "shutdown"), ("process",), ()),
    "shutdown-first": (("shutdown",), ("process", "process"), ()),
    "shutdown-three": (("shutdown",), ("process",), ("process",)),
    "both-shut-down": (("process", "shutdown"), ("process", "shutdown"), ()),
    "start-same-tasks": (("+start",), ("+start",)),
    "start-and-process": (("+start", "process"), ("process",)),
    "start-replacing": (("+start-replace",), ("+start-replace",)),
    "start-replacing-processed": (("+start-replace",), ("process",)),
    "delete-elsewhere": (("process",), ("delete-a",)),
    "delete-date-elsewhere": (("process",), ("delete-d",)),
    "add-elsewhere": (("process",), ("add-n",)),
    "add-same": (("add-n",), ("add-n",)),
    "clear-elsewhere": (("process",), ("clear",)),
}
FINE = ("two-process", "shutdown-while", "shutdown-first", "start-same-tasks", "start-replacing", "start-and-process", "delete-elsewhere", "clear-elsewhere", "add-same")
SQL = ("two-process", "twice-each", "three-process", "shutdown-while", "shutdown-first")
# run times of the tasks up to T + 2 h
H = timedelta(hours=1)


class World:
    def __init__(self, kind):
        self.back = Backend(kind)
        self.folder = os.path.join(scratch(), f"lock{World.n}")
        World.n += 1
        os.mkdir(self.folder)
        self.runs = []
        self.waits = []
        self.schedulers = []
        self.late = []

    n = 0

    def listen(self, s):
        from asyncz.events.constants import TASK_ERROR, TASK_EXECUTED, TASK_MISSED

        s.add_listener(lambda e: self.runs.append((e.task_id, e.scheduled_run_time)), TASK_EXECUTED | TASK_ERROR | TASK_MISSED)

    def new(self, pending=None):
        s = sched_cls()(
            timezone=UTC, executors={"default": {"type": "debug"}}, stores={"default": self.back.open()},
            lock_path=os.path.join(self.folder, "{store}.lock"), store_retry_interval=RETRY,
        )
        self.listen(s)
        self.schedulers.append(s)
        return s

    def drop(self):
        import shutil

        for s in self.schedulers:
            if int(s.state):
                s.shutdown()
        self.back.drop()
        shutil.rmtree(self.folder, ignore_errors=True)


def add_all(s):
    r = targets.record
    opts = dict(mistrigger_grace_time=None)
    s.add_task(r, "interval", hours=1, start_at=T - 4 * H, id="a", args=["a"], next_run_time=T - H, coalesce=False, **opts)
    s.add_task(r, "date", run_at=T - timedelta(minutes=1), id="d", args=["d"], **opts)
    s.add_task(r, "interval", hours=2, start_at=T - 4 * H, id="c", args=["c"], next_run_time=T - 2 * H, coalesce=True, **opts)
    s.add_task(r, "interval", hours=2, start_at=T + H, id="f", args=["f"], next_run_time=T + H, **opts)


def add_new(s, **kw):
    s.add_task(targets.record, "date", run_at=T, id="n", args=["n"], mistrigger_grace_time=None, **kw)


# what has to be run at T and at T + 1 h, by task
FIRST = {"a": [T - H, T], "d": [T - timedelta(minutes=1)], "c": [T], "f": [], "n": []}
SECOND = {"a": [T + H], "d": [], "c": [], "f": [T + H], "n": []}


def build(kind, scene):
    targets.LOG.clear()
    w = World(kind)
    words = SCENES[scene]
    keeper = w.new()
    keeper.start(paused=True)
    add_all(keeper)
    keeper.resume()
    w.keeper = keeper
    fns = []
    for i, word in enumerate(words):
        if not word:
            continue
        fresh = word[0].startswith("+")
        s = w.new()
        if fresh:
            add_new(s, replace_existing="replace" in word[0])
        else:
            s.start()

        def go(s=s, word=word):
            out = []
            for op in word:
                try:
                    if op.startswith("+"):
                        s.start()
                    elif op == "process":
                        wait = s.process_tasks()
                        out.append(("wait", wait))
                    elif op == "shutdown":
                        s.shutdown()
                    elif op.startswith("delete"):
                        s.delete_task(op[-1])
                        w.late.append(op)
                    elif op == "add-n":
                        add_new(s)
                        out.append(("added", True))
                    elif op == "clear":
                        s.remove_all_tasks(None)
                        w.late.append(op)
                except Exception as exc:
                    out.append((op, type(exc).__name__))
            return out

        fns.append((f"s{i}:{'+'.join(word) }", go))
    return w, fns


def judge_world(w, scene, results):
    """Problems of the outcome: what is still due is made by the scheduler that is left, everything exactly once."""
    problems = []
    words = SCENES[scene]
    ops = [op for word in words for op in word]
    results = [r for _, r in sorted(results.items())]
    flat = [x for r in results for x in r]
    for what, got in flat:
        if what == "wait":
            if got is None or not 0 <= got <= 3600:
                problems.append(f"a scheduler with a lock file sleeps for {got}")
        elif what == "added":
            pass
        elif what == "add-n" and got == "ConflictIdError" and ops.count("add-n") == 2:
            pass
        elif what.startswith("delete") and got == "TaskLookupError" and what == "delete-d":
            pass
        else:
            problems.append(f"{what} raised {got}")
    if ops.count("add-n") == 2 and flat.count(("added", True)) != 1:
        problems.append(f"a task with one id was added {flat.count(('added', True))} times")
    n_started = any(op.startswith("+") for op in ops)
    n_added = ops.count("add-n") > 0
    k = w.keeper
    concurrent = list(w.runs)
    if n_started:
        got = k.get_task("n")
        if got is None:
            problems.append("the task of the starting schedulers is missing")
        elif got.next_run_time != T + timedelta(seconds=1):
            problems.append(f"the task of the starting schedulers is due at {got.next_run_time}, not after the startup delay of a second")
        if len([t for t in k.get_tasks() if t.id == "n"]) != 1:
            problems.append("the task of both starting schedulers is there twice")
    deleted = {op[-1] for op in w.late if op.startswith("delete")}
    cleared = "clear" in w.late
    ids = {t.id for t in k.get_tasks()}
    for x in deleted:
        if x in ids:
            problems.append(f"{x} is back although it was deleted")
    if cleared and ids:
        problems.append(f"{sorted(ids)} are back although all tasks were removed")
    # the ones left go on one after the other
    alive = [s for s in w.schedulers if int(s.state)]
    for s in alive:
        s.process_tasks()
    first = Counter(w.runs)
    clock.set_now(T + H)
    n = len(w.runs)
    for s in alive:
        wait = s.process_tasks()
        if not s.get_tasks() and wait != RETRY:
            problems.append(f"a scheduler without tasks rechecks after {wait}, not after the retry interval")
    second = Counter(w.runs[n:])
    clock.set_now(T)
    want1, want2 = Counter(), Counter()
    for t, times in FIRST.items():
        want1.update((t, x) for x in times)
    for t, times in SECOND.items():
        want2.update((t, x) for x in times)
    if n_added:
        want1[("n", T)] += 1
    if n_started:
        want2[("n", T + timedelta(seconds=1))] += 1
    maybe = deleted | (set(FIRST) if cleared else set())
    for have, want, when in ((first, want1, "now"), (second, want2, "an hour later")):
        for run in set(have) | set(want):
            a, b = have[run], want[run]
            if a == b or (run[0] in maybe and a <= b):
                continue
            problems.append(f"the run of {run[0]} at {run[1]:%H:%M:%S} was made {a} times instead of {b} ({when})")
    if len(targets.LOG) != len(w.runs):
        problems.append(f"{len(targets.LOG)} calls of the task functions, {len(w.runs)} reported runs")
    if not n_added and not n_started and not cleared and not deleted:
        left = {t.id: t.next_run_time for t in k.get_tasks()}
        if left != {"a": T + 2 * H, "c": T + 2 * H, "f": T + 3 * H}:
            problems.append(f"afterwards the tasks are {left}")
    return problems, tuple(sorted(Counter(concurrent).items()))


# --- death of a process in the middle of its processing


def items(tier):
    out = []
    for kind in ("file", "redis", "sql"):
        for scene, words in SCENES.items():
            if kind == "sql" and scene not in SQL:
                continue
            if tier == "quick":
                grains = [("line", 1)] if kind == "file" and scene in FINE else []
                grains.append(("lock", 2 if kind == "file" and sum(1 for x in words if x) < 3 else 1))
                shards = 2
            else:
                grains = [("line", 2 if kind == "file" else 1), ("opcode", 1), ("lock", 3)]
                shards = 16
            for grain, bound in grains:
                for i in range(shards if grain == "line" else 1):
                    out.append((kind, scene, grain, bound, i, shards if grain == "line" else 1))
    return out


def explore(item, res, tier, seed):
    kind, scene, grain, bound, shard, shards = item
    clock.set_now(T)
    try:

        def judge(w, run):
            word = f"{' | '.join(t.name for t in run.threads)} on the {kind} store"
            where = dict(schedule=list(run.dev.items()), grain=grain, scene=scene, store=kind)
            try:
                if run.deadlock:
                    res.violation(f"deadlock:{scene}", f"{word}: the schedulers block each other: {run.deadlock}", **where)
                    return
                for t in run.threads:
                    if t.exc is not None:
                        res.violation(f"crash:{scene}", f"{word}: {t.name} raised {t.exc!r}", **where)
                        return
                problems, made = judge_world(w, scene, {t.tid: t.result for t in run.threads})
                res.seen("outcomes", (kind, scene, made, tuple(repr(t.result) for t in run.threads)))
                for p in problems:
                    res.violation(f"{scene}:{p[:40]}", f"{word}: {p}", **where)
            finally:
                w.drop()

        n = sched.explore(lambda: build(kind, scene), judge, res, bound=bound, grain=None if grain == "lock" else grain, shard=(shard, shards))
        res.count(traces_validated_against_impl=n)
        res.sample({"scene": scene, "calls": [list(x) for x in SCENES[scene]], "store": kind, "grain": grain, "preemptions": bound, "schedules": n})
    finally:
        clock.off()
