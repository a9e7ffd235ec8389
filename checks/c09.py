"""Every store against one reference model: all operation sequences over a small universe."""
from __future__ import annotations

import itertools
from datetime import datetime, timedelta, timezone

from mc import targets
from mc.stores import KINDS, Backend, sched_cls

LEVEL = "model_checking"
ITEM_CPU = 300
UTC = timezone.utc
BOUNDS = {
    "quick": "all reachable states of 3 task ids x 5 run times (incl. none, ties, before 1970, fractional), every operation from each state, followed by every second operation for the memory store; memory, file, SQL (sqlite), redis (server), mongo (stand-in client)",
    "thorough": "as quick with 6 run times; all operation sequences of length 4 on 2 ids for the memory store, of length 3 for the others",
}
ASSUMPTIONS = [
    "the mongo client is a stand-in with mongo's comparison rules (no mongod here)",
    "the memory store may take an update of an unknown task as an insert, as its comment says",
]
MIN = {"transitions": 5000}
T = datetime(2030, 1, 1, 12, 0, 0, tzinfo=UTC)
TIMES = [None, T, T + timedelta(milliseconds=250), T + timedelta(days=1), datetime(1969, 12, 30, tzinfo=UTC), datetime(1970, 1, 1, tzinfo=UTC)]
IDS = ["a", "B", "c.x"]
PROBES = [datetime(1960, 1, 1, tzinfo=UTC), datetime(1969, 12, 30, tzinfo=UTC), datetime(1970, 1, 1, tzinfo=UTC), datetime(2000, 1, 1, tzinfo=UTC), T - timedelta(microseconds=1), T, T + timedelta(milliseconds=249), T + timedelta(milliseconds=250), T + timedelta(days=2)]


def ops(ids, times, versions=(0, 1)):
    out = [("clear",)]
    for i in ids:
        out.append(("delete", i))
        for t in times:
            out.append(("add", i, t, 0))
            out.append(("update", i, t, 1))
        out.append(("mutate", i, times[-1]))
        out.append(("mutate", i, None))
    return out


class Model(dict):
    """id -> (run time, version)"""

    def apply(self, op, tolerant):
        """Returns the expected exception name or None."""
        k = op[0]
        if k == "clear":
            self.clear()
        elif k == "delete":
            if op[1] not in self:
                return "TaskLookupError"
            del self[op[1]]
        elif k == "add":
            if op[1] in self:
                return "ConflictIdError"
            self[op[1]] = (op[2], op[3])
        elif k == "update":
            if op[1] not in self and not tolerant:
                return "TaskLookupError"
            self[op[1]] = (op[2], op[3])
        elif k == "mutate":
            if op[1] in self:
                self[op[1]] = (op[2], self[op[1]][1])
        return None


class Rig:
    def __init__(self, kind):
        self.kind = kind
        self.backend = Backend(kind)
        self.sched = sched_cls()(timezone=UTC)
        self.store = self.backend.open()
        self.store.start(self.sched, "default")
        from asyncz.tasks import Task
        from asyncz.triggers import DateTrigger

        self.Task = Task
        self.trigger = DateTrigger(run_at=T, timezone=UTC)

    def task(self, ident, when, version):
        return self.Task(
            targets.noop, id=ident, scheduler=self.sched, trigger=self.trigger, args=(version,), kwargs={"v": version}, name=f"n{version}",
            executor="default", store_alias="default", coalesce=bool(version), max_instances=version + 1, mistrigger_grace_time=5 + version,
            next_run_time=when,
        )

    def run(self, op):
        from asyncz.exceptions import ConflictIdError, TaskLookupError

        try:
            k = op[0]
            if k == "clear":
                self.store.remove_all_tasks()
            elif k == "delete":
                self.store.delete_task(op[1])
            elif k == "add":
                self.store.add_task(self.task(*op[1:]))
            elif k == "update":
                self.store.update_task(self.task(*op[1:]))
            elif k == "mutate":
                t = self.store.lookup_task(op[1])
                if t is not None:
                    t.update_task(next_run_time=op[2])
                    self.store.update_task(t)
            return None
        except (ConflictIdError, TaskLookupError) as exc:
            return type(exc).__name__

    def reset(self):
        self.store.remove_all_tasks()

    def close(self):
        self.store.shutdown()
        self.backend.drop()


def same(task, ident, want, alias="default"):
    when, v = want
    return (
        task.id == ident and task.next_run_time == when and tuple(task.args) == (v,) and task.kwargs == {"v": v} and task.name == f"n{v}"
        and task.coalesce == bool(v) and task.max_instances == v + 1 and task.mistrigger_grace_time == 5 + v and task.fn is targets.noop
        and task.store_alias == alias and task.executor == "default"
    )


def observe(rig, model, res, path):
    """Compares everything the store can be asked with the model."""
    st, kind = rig.store, rig.kind
    problems = []
    for i in IDS:
        t = st.lookup_task(i)
        if (t is not None) != (i in model):
            problems.append(("lookup", f"lookup of {i} gives {t}, stored: {sorted(model)}"))
        elif t is not None and not same(t, i, model[i]):
            problems.append(("content", f"{i} comes back as {t.__dict__} instead of {model[i]}"))
    if st.lookup_task("zz") is not None:
        problems.append(("lookup", "an unknown id is found"))
    tasks = st.get_all_tasks()
    if sorted(t.id for t in tasks) != sorted(model):
        problems.append(("all", f"all tasks: {[t.id for t in tasks]} instead of {sorted(model)}"))
    else:
        times = [t.next_run_time for t in tasks]
        key = [(t is None, t or T) for t in times]
        if key != sorted(key):
            problems.append(("order", f"all tasks are ordered {times}"))
        for t in tasks:
            if not same(t, t.id, model[t.id]):
                problems.append(("content", f"{t.id} listed as {t.__dict__} instead of {model[t.id]}"))
    scheduled = [w for w, _ in model.values() if w is not None]
    nxt = st.get_next_run_time()
    if nxt != (min(scheduled) if scheduled else None):
        problems.append(("next", f"next run time {nxt} instead of {min(scheduled) if scheduled else None}"))
    for now in PROBES:
        due = st.get_due_tasks(now)
        want = sorted(i for i, (w, _) in model.items() if w is not None and w <= now)
        if sorted(t.id for t in due) != want:
            problems.append(("due", f"due at {now}: {[t.id for t in due]} instead of {want}"))
        else:
            times = [t.next_run_time for t in due]
            if times != sorted(times):
                problems.append(("due-order", f"due at {now} in the order {times}"))
    res.count(observations=5 + len(PROBES))
    for key, text in problems:
        res.violation(f"{kind}-{key}", f"{kind} store after {path}: {text}", path=repr(path))
    return not problems


def step(rig, model, op, res, path):
    tolerant = rig.kind == "memory"
    want = model.apply(op, tolerant)
    got = rig.run(op)
    res.count(transitions=1)
    if tolerant and op[0] == "update" and got == "TaskLookupError":
        # either way is fine for the memory store
        model.pop(op[1], None)
        return
    if got != want:
        res.violation(f"{rig.kind}-{op[0]}-error", f"{rig.kind} store: {op} after {path[:-1]} raised {got} instead of {want}", path=repr(path))


def sequences(kind, tier):
    """Breadth first over the model states: one shortest path per state, every operation from it."""
    times = TIMES[:5] if tier == "quick" else TIMES
    if kind in ("redis", "file", "sql") and tier == "quick":
        times = [TIMES[0], TIMES[1], TIMES[2], TIMES[4]]
    alphabet = ops(IDS, times)
    start = Model()
    seen = {frozenset()}
    queue = [((), start)]
    while queue:
        path, m = queue.pop(0)
        for op in alphabet:
            n = Model(m)
            n.apply(op, kind == "memory")
            yield path + (op,)
            key = frozenset((i, w) for i, (w, _) in n.items())
            if key not in seen:
                seen.add(key)
                queue.append((path + (op,), n))


def items(tier):
    out = []
    for kind in KINDS:
        n = 4 if kind in ("file", "sql", "redis") else 2
        out += [("graph", kind, i, n) for i in range(n)]
    out += [("words", kind, i, 8 if kind == "memory" else 4) for kind in KINDS for i in range(8 if kind == "memory" else 4)]
    return out


def explore(item, res, tier, seed):
    mode, kind, part, parts = item
    if not Backend.available(kind):
        res.cap(f"{kind} is not available here")
        res.count(transitions=0, states=0, traces_validated_against_impl=0)
        return
    rig = Rig(kind)
    try:
        if mode == "graph":
            words = sequences(kind, tier)
        else:
            ids, times = IDS[:2], [None, T, T + timedelta(days=1)]
            alphabet = ops(ids, times)
            if kind == "memory":
                depth = 3 if tier == "quick" else 4
            else:
                depth = 2 if tier == "quick" else 3
            words = itertools.product(alphabet, repeat=depth)
        for n, word in enumerate(words):
            if n % parts != part:
                continue
            rig.reset()
            model = Model()
            for k, op in enumerate(word):
                step(rig, model, op, res, word[: k + 1])
            observe(rig, model, res, word)
            res.count(traces_validated_against_impl=1)
            res.seen("states", (kind, sorted(model.items())))
            if n < 3 * parts:
                res.sample({"store": kind, "operations": repr(word)})
    finally:
        rig.close()
