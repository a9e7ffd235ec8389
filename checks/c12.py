"""Several processes on one durable store: every schedule of their operations ends like some order of them."""
from __future__ import annotations

import itertools
from datetime import datetime, timedelta, timezone

from mc import sched

sched.install()

from mc import clock, targets  # noqa: E402
from mc.stores import Backend, sched_cls  # noqa: E402

LEVEL = "model_checking"
ITEM_CPU = 800
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
BOUNDS = {
    "quick": "all pairs of 14 operations (and of words of two) and triples around a change, each by a store object of its own, file and redis store; every schedule with 1 preemption at line granularity (file), up to 3 (words: 2, triples: 1) at lock granularity on files, up to 2 (words, triples: 1) between the single commands of redis",
    "thorough": "2 preemptions at line granularity, 1 at bytecode granularity, up to 4 (3) at lock granularity; also all triples of 8 operations",
}
ASSUMPTIONS = [
    "processes are threads with store objects and connections of their own; file locks belong to the open file, so they exclude each other like processes",
    "sqlite makes concurrent writers wait in real time, its transactions are not explored here",
]
MIN = {"schedules": 3000}


def put(store, op, ident, when, name):
    from asyncz.tasks import Task
    from asyncz.triggers import IntervalTrigger

    t = Task(fn=targets.noop, id=ident, name=name, trigger=IntervalTrigger(hours=1, start_at=T, timezone=UTC), executor="default", store_alias="default", max_instances=1, coalesce=True, mistrigger_grace_time=1)
    t.update_task(scheduler=store.scheduler, next_run_time=when)
    getattr(store, op)(t)


def view(tasks):
    return tuple((t.id, t.name, str(t.next_run_time)) for t in tasks)


H = timedelta(hours=1)
OPS = {
    "add-a": lambda s: put(s, "add_task", "a", T - H, "new-a"),
    "add-n": lambda s: put(s, "add_task", "n", T - H, "n1"),
    "add-n2": lambda s: put(s, "add_task", "n", T + H, "n2"),
    "later-a": lambda s: put(s, "update_task", "a", T + 5 * H, "later"),
    "pause-a": lambda s: put(s, "update_task", "a", None, "paused"),
    "now-b": lambda s: put(s, "update_task", "b", T - 2 * H, "now"),
    "update-n": lambda s: put(s, "update_task", "n", T, "n3"),
    "delete-a": lambda s: s.delete_task("a"),
    "delete-n": lambda s: s.delete_task("n"),
    "clear": lambda s: s.remove_all_tasks(),
    "lookup-a": lambda s: view([t for t in [s.lookup_task("a")] if t]),
    "list": lambda s: view(s.get_all_tasks()),
    "due": lambda s: view(s.get_due_tasks(T)),
    "next": lambda s: str(s.get_next_run_time()),
}
READS = ("lookup-a", "list", "due", "next")


def build(kind, words):
    back = Backend(kind)

    def open_store():
        s = sched_cls()(timezone=UTC)
        store = back.open()
        store.start(s, "default")
        return store

    first = open_store()
    put(first, "add_task", "a", T, "a")
    put(first, "add_task", "b", T + H, "b")

    def run(store, word):
        def go():
            out = []
            for op in word:
                try:
                    out.append(OPS[op](store))
                except Exception as exc:
                    out.append(type(exc).__name__)
            return tuple(out)

        return go

    return (back, first), [(f"p{i}:{'+'.join(w)}", run(open_store(), w)) for i, w in enumerate(words)]


def outcome(state, results):
    back, store = state
    listed = store.get_all_tasks()
    problems = []
    for t in listed:
        again = store.lookup_task(t.id)
        if again is None or view([again]) != view([t]):
            problems.append(f"{t.id} is listed as {view([t])}, looked up as {again and view([again])}")
    due = view(store.get_due_tasks(T))
    if sorted(due) != sorted(view([t for t in listed if t.next_run_time and t.next_run_time <= T])):
        problems.append(f"due are {due}, listed are {view(listed)}")
    times = [t.next_run_time for t in listed if t.next_run_time]
    nxt = store.get_next_run_time()
    if nxt != (min(times) if times else None):
        problems.append(f"the next run time is {nxt}, listed are {view(listed)}")
    return repr((sorted(results.items()), view(listed))), problems


def close(state):
    back, store = state
    store.shutdown()
    back.drop()


def expected(kind, words):
    outs = set()
    calls = [i for i, w in enumerate(words) for _ in w]
    for order in sorted(set(itertools.permutations(calls))):
        state, fns = build(kind, [()] * 0)
        # one call at a time
        stores = {}
        results = {i: [] for i in range(len(words))}
        pos = dict.fromkeys(range(len(words)), 0)
        for i in order:
            op = words[i][pos[i]]
            pos[i] += 1
            try:
                results[i].append(OPS[op](state[1]))
            except Exception as exc:
                results[i].append(type(exc).__name__)
        out, problems = outcome(state, {i: tuple(r) for i, r in results.items()})
        close(state)
        assert not problems, problems
        outs.add(out)
    return outs


def combos(tier):
    names = list(OPS)
    pairs = [((a,), (b,)) for a, b in itertools.combinations_with_replacement(names, 2) if not (a in READS and b in READS)]
    words = [((a, b), (c,)) for a, b, c in itertools.product(("delete-a", "add-n", "clear", "later-a"), ("add-a", "add-n2", "delete-n", "update-n"), ("due", "list", "add-n2", "delete-a", "later-a", "lookup-a"))]
    small = ("add-n", "add-n2", "delete-a", "later-a", "clear", "due", "list", "delete-n")
    triples = [tuple((x,) for x in p) for p in itertools.combinations(small, 3)]
    out = []
    for kind in ("file", "redis"):
        if tier == "quick":
            if kind == "file":
                out += [(kind, p, "line", 1) for p in pairs]
            out += [(kind, p, "lock", 3 if kind == "file" else 2) for p in pairs]
            out += [(kind, p, "lock", 2 if kind == "file" else 1) for p in words]
            out += [(kind, p, "lock", 1) for p in triples if any(x[0] in ("delete-a", "clear") for x in p)]
        else:
            out += [(kind, p, "line", 2) for p in pairs] + [(kind, p, "opcode", 1) for p in pairs]
            out += [(kind, p, "lock", 4) for p in pairs] + [(kind, p, "lock", 3) for p in words] + [(kind, p, "line", 1) for p in words + triples] + [(kind, p, "lock", 2) for p in triples]
    return out


def items(tier):
    out = combos(tier)
    k = len(out) // 5 + 1 if tier == "quick" else len(out)
    return [tuple(out[i::k]) for i in range(k)]


def explore(item, res, tier, seed):
    clock.set_now(T)
    try:
        for kind, words, grain, bound in item:
            if Backend.available(kind):
                one(kind, words, grain, bound, res)
    finally:
        clock.off()


def one(kind, words, grain, bound, res):
    allowed = expected(kind, words)
    text = " | ".join("+".join(w) for w in words)

    def judge(state, run):
        where = f"{text} on the {kind} store"
        info = dict(schedule=list(run.dev.items()), grain=grain)
        try:
            if run.deadlock:
                res.violation(f"deadlock:{kind}:{text}", f"{where}: {run.deadlock}", **info)
                return
            for t in run.threads:
                if t.exc is not None:
                    res.violation(f"crash:{kind}:{text}", f"{where}: {t.exc!r}", **info)
                    return
            out, problems = outcome(state, {t.tid: t.result for t in run.threads})
            for p in problems:
                res.violation(f"broken:{kind}:{text}", f"{where}: {p}", **info)
            res.seen("outcomes", (kind, words, out))
            if not problems and out not in allowed:
                res.violation(f"order:{kind}:{text}", f"{where}: results and content {out} fit no order of the operations", **info)
        finally:
            close(state)

    n = sched.explore(lambda: build(kind, words), judge, res, bound=bound, grain=None if grain == "lock" else grain)
    res.count(traces_validated_against_impl=n)
    res.sample({"operations": text, "store": kind, "grain": grain, "preemptions": bound, "schedules": n})
