"""Concurrent management, manual runs and processing: every schedule ends like some order of the calls."""
from __future__ import annotations

import itertools
from datetime import datetime, timedelta, timezone

from mc import sched

sched.install()

from mc import clock, targets  # noqa: E402
from mc.stores import Backend, sched_cls  # noqa: E402

LEVEL = "model_checking"
ITEM_CPU = 800
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
BOUNDS = {
    "quick": "all pairs of 20 calls (the processing included) on the memory store, pairs with the processing on the file store; every schedule with 1 preemption at line granularity, all pairs with up to 2 preemptions at lock granularity; triples around the processing with 2 preemptions at lock granularity",
    "thorough": "pairs with up to 2 preemptions at line granularity (memory), 1 at bytecode granularity; file and sql pairs with 1 at line granularity; all triples with the processing with 3 preemptions at lock granularity",
}
ASSUMPTIONS = [
    "tasks run inline (debug executor); concurrent runs are explored by C16",
    "preemption points lie in schedulers, executors, stores and locks of the code under test",
]
MIN = {"schedules": 3000}

OPS = {
    "process": lambda s: s.process_tasks() and None,
    "rename-a": lambda s: s.update_task("a", name="renamed").id,
    "pause-a": lambda s: s.pause_task("a").id,
    "resume-p": lambda s: getattr(s.resume_task("p"), "id", None),
    "reschedule-a": lambda s: s.reschedule_task("a", trigger="interval", hours=5).id,
    "delete-a": lambda s: s.delete_task("a"),
    "delete-d": lambda s: s.delete_task("d"),
    "add-c": lambda s: s.add_task(targets.record, "interval", hours=2, id="c", args=["c"], next_run_time=T).id,
    "replace-a": lambda s: s.add_task(targets.record, "interval", hours=3, id="a", args=["A2"], replace_existing=True).id,
    "add-a": lambda s: s.add_task(targets.record, "interval", hours=3, id="a", args=["A3"]).id,
    "clear": lambda s: s.remove_all_tasks(None),
    "run-a": lambda s: getattr(s.run_task("a"), "id", None),
    "run-d": lambda s: getattr(s.run_task("d"), "id", None),
    "run-p": lambda s: getattr(s.run_task("p"), "id", None),
    "list": lambda s: sorted(t.id for t in s.get_task_infos()),
    "rename-d": lambda s: s.update_task("d", name="renamed").id,
    "shutdown": lambda s: s.shutdown(),
    "pause-all": lambda s: s.pause(),
    "resume-all": lambda s: s.resume(),
    "add-store": lambda s: s.add_store("memory", "extra"),
}


def build(kind, names):
    from asyncz.executors.debug import DebugExecutor

    targets.LOG.clear()
    back = Backend(kind)
    s = sched_cls()(timezone=UTC, executors={"default": DebugExecutor()}, stores={"default": back.open()})
    events = []
    s.start()
    s.add_task(targets.record, "interval", hours=1, id="a", args=["a"], next_run_time=T - timedelta(minutes=5), mistrigger_grace_time=None)
    s.add_task(targets.record, "date", run_at=T - timedelta(minutes=1), id="d", args=["d"], mistrigger_grace_time=None)
    s.add_task(targets.record, "interval", hours=1, id="p", args=["p"], next_run_time=None)
    s.pause_task("p")
    s.add_listener(lambda e: events.append((e.code, getattr(e, "task_id", None), str(getattr(e, "scheduled_run_times", getattr(e, "scheduled_run_time", None))))))

    def call(name):
        def go():
            try:
                return OPS[name](s)
            except Exception as exc:
                return type(exc).__name__

        return go

    return (back, s, events), [(n, call(n)) for n in names]


def outcome(state, results):
    back, s, events = state
    runs = sorted(repr(x) for x in targets.LOG)
    out = {"results": tuple(sorted(results.items())), "runs": tuple(runs), "events": tuple(sorted(map(repr, events))), "instances": dict(s.instances), "state": int(s.state)}
    tasks = s.get_tasks()
    out["tasks"] = tuple(sorted((t.id, t.name, str(t.next_run_time), str(t.trigger), repr(t.args)) for t in tasks))
    problems = []
    if int(s.state):
        # the store has to agree with itself
        for alias, store in s.stores.items():
            listed = store.get_all_tasks()
            for t in listed:
                if store.lookup_task(t.id) is None:
                    problems.append(f"{t.id} is listed but not found")
            if len({t.id for t in listed}) != len(listed):
                problems.append("a task is listed twice")
            due = {t.id for t in store.get_due_tasks(T + timedelta(days=9))}
            if due != {t.id for t in listed if t.next_run_time}:
                problems.append(f"due tasks {sorted(due)} do not fit the list")
        # everything still works afterwards
        n = len(targets.LOG)
        clock.set_now(T + timedelta(days=1))
        try:
            s.process_tasks()
        except Exception as exc:
            problems.append(f"processing afterwards raises {exc!r}")
        clock.set_now(T)
        out["later"] = tuple(sorted(repr(x) for x in targets.LOG[n:]))
        s.shutdown()
    elif s.ref_counter:
        problems.append("reference left")
    if back.durable:
        again = sched_cls()(timezone=UTC)
        store = back.open()
        store.start(again, "default")
        out["kept"] = tuple(sorted((t.id, t.name, str(t.next_run_time)) for t in store.get_all_tasks()))
        store.shutdown()
    back.drop()
    return out, problems


def normal(out):
    return repr(sorted(out.items()))


def expected(kind, names):
    outs = {}
    for order in itertools.permutations(range(len(names))):
        state, fns = build(kind, names)
        results = {}
        for i in order:
            results[f"{i}:{names[i]}"] = fns[i][1]()
        out, problems = outcome(state, results)
        assert not problems, problems
        outs[normal(out)] = [names[i] for i in order]
    return outs


def combos(tier):
    names = list(OPS)
    pairs = [p for p in itertools.combinations_with_replacement(names, 2)]
    withp = [p for p in pairs if "process" in p]
    out = []
    if tier == "quick":
        out += [("memory", p, "line", 1, 1) for p in pairs]
        out += [("memory", p, "lock", 2, 1) for p in pairs]
        out += [("file", p, "lock", 1, 1) for p in withp]
        tri = ["process", "run-a", "delete-a", "pause-a", "replace-a", "run-d", "shutdown"]
        out += [("memory", p, "lock", 2, 1) for p in itertools.combinations(tri, 3) if "process" in p]
    else:
        out += [("memory", p, "line", 2, 4 if "process" in p else 2) for p in pairs]
        out += [("memory", p, "opcode", 1, 1) for p in pairs]
        out += [("memory", p, "lock", 4, 1) for p in pairs]
        out += [(k, p, "line", 1, 1) for k in ("file", "sql") for p in pairs]
        out += [("memory", p, "lock", 3, 1) for p in itertools.combinations(names, 3) if "process" in p]
    return out


def items(tier):
    out = [(c, i) for c in combos(tier) for i in range(c[4])]
    # heavy ones spread over the workers: small groups
    k = 6 if tier == "quick" else 1
    return [tuple(out[i : i + k]) for i in range(0, len(out), k)]


def explore(item, res, tier, seed):
    for (kind, names, grain, bound, shards), shard in item:
        one(kind, names, grain, bound, shards, shard, res)


def one(kind, names, grain, bound, shards, shard, res):
    clock.set_now(T)
    try:
        allowed = expected(kind, names)

        def judge(state, run):
            ctl_results = {f"{t.tid}:{t.name}": t.result for t in run.threads}
            word = f"{' | '.join(names)} on the {kind} store"
            where = dict(schedule=list(run.dev.items()), grain=grain)
            tag = f"{'+'.join(sorted(names))}"
            if run.deadlock:
                res.violation(f"deadlock:{tag}", f"{word}: the calls block each other: {run.deadlock}", **where)
                return
            for t in run.threads:
                if t.exc is not None:
                    res.violation(f"crash:{tag}", f"{word}: {t.name} raised {t.exc!r}", **where)
                    return
            out, problems = outcome(state, ctl_results)
            for p in problems:
                res.violation(f"broken:{tag}", f"{word}: {p}", **where)
            if problems:
                return
            key = normal(out)
            res.seen("outcomes", (kind, names, key))
            if key not in allowed:
                res.violation(f"not-serializable:{tag}", f"{word}: the outcome fits no order of the calls: {out}", allowed=list(allowed)[:6], **where)

        n = sched.explore(lambda: build(kind, names), judge, res, bound=bound, grain=None if grain == "lock" else grain, shard=(shard, shards))
        res.count(traces_validated_against_impl=n)
        res.sample({"calls": list(names), "store": kind, "grain": grain, "preemptions": bound, "schedules": n})
    finally:
        clock.off()
