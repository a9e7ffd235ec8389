"""The run history: one record per run, and an outcome is never lost, whatever order the events arrive in."""
from __future__ import annotations

import itertools
from datetime import datetime, timedelta, timezone

from mc import sched

sched.install()

from mc import clock, targets  # noqa: E402
from mc.core import REPO  # noqa: E402
from mc.manual import ManualExecutor  # noqa: E402
from mc.stores import scheduler  # noqa: E402

LEVEL = "model_checking"
ITEM_CPU = 800
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
DIRS = (str(REPO / "asyncz" / "contrib" / "dashboard" / "history.py"),)
BOUNDS = {
    "quick": "all words of up to 3 out of 27 steps (five kinds of run events of two tasks at two times, batches, clearing, deleting the task, installing the listener again) against storages of 1, 2 and many records, with and without a log; all words of 4 out of 8 steps of a real scheduler (passes, manual runs, finishing runs in any order, deleting); 11 pairs and triples of concurrent events and readers, every schedule with up to 4 preemptions (three threads: 2) at lock and 1 at line granularity; 5000 queries",
    "thorough": "words of 4 out of 27 and 6 out of 8 steps; 5 (3) preemptions at lock, 2 at line and 1 at bytecode granularity",
}
ASSUMPTIONS = ["the state of a storage is read through its queries, get, latest_for_task and summary"]
MIN = {"words": 10000, "schedules": 1000}

TERMINAL = ("succeeded", "failed", "missed", "max_instances")


# ---------------------------------------------------------------- the model
# name in the words -> id and store
WHO = {"a": ("a", "default"), "b": ("b", "default"), "s": ("a", "second")}


class Model:
    def __init__(self, maxlen):
        self.maxlen = maxlen
        self.records = {}  # (task, store, time) -> dict, in the order of their first event
        self.logs = {}  # key -> [(level, status)]

    def _get(self, key):
        r = self.records.get(key)
        if r is None:
            r = self.records[key] = dict(status="running", source="unknown", coalesced=0, outcome=None)
            while len(self.records) > self.maxlen:
                del self.records[next(iter(self.records))]
        return r

    def submit(self, task, times, source="scheduled", coalesced=0, skipped=False):
        for t in times:
            key = (*WHO[task], t)
            r = self._get(key)
            logged = self.logs.setdefault(key, [])
            if skipped:
                logged.append("WARNING")
            elif r["status"] not in TERMINAL:
                logged.append("INFO")
            if r["status"] not in TERMINAL:
                r["status"] = "max_instances" if skipped else "running"
            r["source"] = source
            r["coalesced"] = max(r["coalesced"], coalesced)

    def execute(self, task, t, status, outcome):
        key = (*WHO[task], t)
        r = self._get(key)
        r["status"], r["outcome"] = status, outcome
        self.logs.setdefault(key, []).append({"succeeded": "INFO", "missed": "WARNING", "failed": "ERROR"}[status])

    def clear(self):
        self.records.clear()

    def summary(self):
        out = {"total": len(self.records)}
        for s in ("running",) + TERMINAL:
            out[s] = sum(1 for r in self.records.values() if r["status"] == s)
        return out


def listed(records):
    out = {}
    for r in records:
        key = (r.task_id, r.store, r.scheduled_run_time)
        if key in out:
            return f"two records of the run {key}"
        out[key] = dict(status=r.status, source=r.source, coalesced=r.coalesced_run_count, outcome=(r.return_value, r.exception_type, r.exception_message) if r.finished_at and r.status in ("succeeded", "failed", "missed") else None)
    return out


def compare(m, storage, log, where, res, key):
    records = storage.query(limit=100)
    got = listed(records)
    if got != m.records:
        diff = got if isinstance(got, str) else {k: (m.records.get(k), got.get(k)) for k in {*got, *m.records} if m.records.get(k) != got.get(k)}
        res.violation(f"{key}:records", f"{where}: (expected, recorded) {diff}")
        return False
    s = storage.summary()
    if s != m.summary():
        res.violation(f"{key}:summary", f"{where}: the summary says {s}, the records are {m.summary()}")
        return False
    last = None
    for r in records:
        if storage.get(r.run_id) is not r:
            res.violation(f"{key}:get", f"{where}: the record {r.run_id} is not found by its id")
        if r.submitted_at is None or (r.status in TERMINAL) != (r.finished_at is not None) or (r.finished_at and r.finished_at < r.submitted_at):
            res.violation(f"{key}:times", f"{where}: {r.status} submitted {r.submitted_at} finished {r.finished_at}")
        if (r.duration_ms is None) != (r.status == "running"):
            res.violation(f"{key}:duration", f"{where}: {r.status} took {r.duration_ms}")
        at = r.finished_at or r.submitted_at
        if last is not None and at > last:
            res.violation(f"{key}:order", f"{where}: the records are not sorted, newest first")
        last = at
        if log is not None:
            got = [e.level for e in log.query(run_id=r.run_id, limit=100)][::-1]
            k = (r.task_id, r.store, r.scheduled_run_time)
            if got != m.logs.get(k):
                res.violation(f"{key}:log", f"{where}: the log of the run {k} has the levels {got}, expected {m.logs.get(k)}")
    for task in "ab":
        r = storage.latest_for_task(task)
        mine = [x for x in records if x.task_id == task]
        if r is not (mine[0] if mine else None):
            res.violation(f"{key}:latest", f"{where}: the latest run of {task} is {r}")
    return True


# ---------------------------------------------------------------- A: words of events
# the third is the first one on another clock
TIMES = (T, T + timedelta(microseconds=1), T.astimezone(timezone(timedelta(hours=2))))
OUTCOMES = {
    "ok": ("succeeded", dict(return_value=5), ("5", None, None)),
    "none": ("succeeded", {}, (None, None, None)),
    "bad": ("failed", dict(exception=ValueError("x"), traceback="tb"), (None, "ValueError", "x")),
    "late": ("missed", {}, (None, None, None)),
}


def alphabet():
    out = []
    for task in "ab":
        for i in (0, 1):
            out += [("sub", task, (i,)), ("full", task, (i,)), ("ok", task, i), ("bad", task, i), ("late", task, i)]
        out.append(("sub", task, (0, 1)))
    out += [("manual", "a", (0,)), ("coalesced", "a", (1,)), ("full", "a", (0, 1)), ("again",), ("clear",)]
    return out


ALPHABET = alphabet()
# tasks of the same id in two stores, run times on several clocks
TWINS = [("sub", "a", (0,)), ("sub", "a", (2,)), ("ok", "a", 2), ("late", "a", 0), ("full", "a", (2,)), ("sub", "s", (0,)), ("bad", "s", 0), ("ok", "s", 2), ("full", "s", (0,)), ("clear",)]


def event(s, letter):
    from asyncz.events.base import TaskExecutionEvent, TaskSubmissionEvent
    from asyncz.events.constants import TASK_ERROR, TASK_EXECUTED, TASK_MAX_INSTANCES, TASK_MISSED, TASK_SUBMITTED

    op, task, at = letter
    if op in OUTCOMES:
        status, kw, _ = OUTCOMES[op]
        code = {"succeeded": TASK_EXECUTED, "failed": TASK_ERROR, "missed": TASK_MISSED}[status]
        return TaskExecutionEvent(code=code, task_id=WHO[task][0], store=WHO[task][1], scheduled_run_time=TIMES[at], **kw)
    kw = {"manual": dict(source="manual"), "coalesced": dict(source="scheduled", coalesced_run_count=3)}.get(op, {})
    return TaskSubmissionEvent(code=TASK_MAX_INSTANCES if op == "full" else TASK_SUBMITTED, task_id=WHO[task][0], store=WHO[task][1], scheduled_run_times=[TIMES[i] for i in at], **kw)


def step(m, letter):
    op, task, at = letter
    if op in OUTCOMES:
        status, _, outcome = OUTCOMES[op]
        m.execute(task, TIMES[at], status, outcome)
    else:
        m.submit(task, [TIMES[i] for i in at], source="manual" if op == "manual" else "scheduled", coalesced=3 if op == "coalesced" else 0, skipped=op == "full")


def history_of(s, maxlen, with_log):
    from asyncz.contrib.dashboard.history import MemoryRunHistoryStorage, install_run_history_listener
    from asyncz.contrib.dashboard.logs.storage import MemoryLogStorage

    storage = MemoryRunHistoryStorage(maxlen=maxlen)
    log = MemoryLogStorage() if with_log else None
    install = lambda: install_run_history_listener(s, storage=storage, log_storage=log)  # noqa: E731
    install()
    return storage, log, install


class Base:
    """One scheduler serves all words: the listener of the last word is taken out by the next."""

    s = None


def base():
    if Base.s is None:
        s = Base.s = scheduler({"default": {"type": "memory"}}, {"default": ManualExecutor()})
        s.start(paused=True)
        s.add_task(targets.noop, "date", run_at=T + timedelta(days=1), id="a", name="task a")
    return Base.s


def words(first, depth, maxlen, with_log, res, alphabet=ALPHABET):
    s = base()
    for n in range(1, depth + 1):
        for rest in itertools.product(alphabet, repeat=n - 1):
            word = (first,) + rest
            clock.set_now(T)
            storage, log, install = history_of(s, maxlen, with_log)
            m = Model(maxlen)
            for i, letter in enumerate(word):
                clock.set_now(T + timedelta(seconds=i + 1))
                if letter == ("again",):
                    install()
                elif letter == ("clear",):
                    storage.clear()
                    m.clear()
                else:
                    s.dispatch_event(event(s, letter))
                    step(m, letter)
            where = f"history of at most {maxlen} runs, events {' '.join(map(str, word))}"
            # shorter words have been judged on their own
            compare(m, storage, log, where, res, f"words:{word[-1][0]}")
            for r in storage.query(task_id="a"):
                if r.store == "default" and ((r.task_name, r.executor) != ("task a", "default") or "noop" not in (r.callable_reference or "")):
                    res.violation("words:metadata", f"{where}: the record of a is {r}")
            res.count(transitions=len(word), words=1)
            res.seen("states", (maxlen, tuple((k, r["status"], r["source"], r["coalesced"]) for k, r in m.records.items())))
    res.sample({"first": list(map(str, first)), "depth": depth, "maxlen": maxlen})


# ---------------------------------------------------------------- B: a real scheduler
def real(first, depth, res):
    """Passes, manual runs and runs finished in any order: the history agrees with what the executor was given."""
    from asyncz.exceptions import MaximumInstancesError

    ops = ("pass", "tick", "manual", "finish0", "finish1", "delete", "late", "cease")
    for rest in itertools.product(ops, repeat=depth - 1):
        word = (first,) + rest
        clock.set_now(T)
        s = scheduler({"default": {"type": "memory"}}, {"default": ManualExecutor()})
        s.start(paused=True)
        ex = s.executors["default"]
        storage, log, _ = history_of(s, 100, True)
        m = Model(100)
        s.add_task(targets.record, "interval", seconds=1, id="a", next_run_time=T, coalesce=False, max_instances=2, mistrigger_grace_time=100)
        s.add_task(targets.boom, "interval", seconds=1, id="b", next_run_time=T, coalesce=True, max_instances=1, mistrigger_grace_time=2)
        s.state = 1  # running, without a thread of its own
        now = T
        nxt = {"a": T, "b": T}
        live = {"a": 0, "b": 0}
        where = f"scheduler doing {' '.join(word)}"
        for i, op in enumerate(word):
            if op == "cease":
                s.pause_task("b") if "b" in nxt else None
                nxt.pop("b", None)
            elif op == "pass":
                for t in [*nxt]:
                    due = []
                    while nxt[t] <= now:
                        due.append(nxt[t])
                        nxt[t] += timedelta(seconds=1)
                    if not due:
                        continue
                    times, extra = (due, 0) if t == "a" else (due[-1:], len(due) - 1)
                    skipped = live[t] >= (2 if t == "a" else 1)
                    m.submit(t, times, coalesced=extra, skipped=skipped)
                    live[t] += not skipped
                s.process_tasks()
            elif op in ("tick", "late"):
                now += timedelta(seconds=1 if op == "tick" else 5)
            elif op == "manual":
                if "a" in nxt:
                    full = live["a"] >= 2
                    due = []
                    while nxt["a"] <= now:
                        due.append(nxt["a"])
                        nxt["a"] += timedelta(seconds=1)
                    m.submit("a", due or [now], source="manual", skipped=full)
                    live["a"] += not full
                    try:
                        s.run_task("a")
                    except MaximumInstancesError:
                        if not full:
                            raise
            elif op.startswith("finish"):
                k = int(op[-1])
                if len(ex.queue) > k:
                    task, times = ex.queue[k]
                    for t in times:
                        grace = task.mistrigger_grace_time
                        if grace is not None and now - t > timedelta(seconds=grace):
                            m.execute(task.id, t, "missed", (None, None, None))
                        elif task.id == "a":
                            m.execute("a", t, "succeeded", (str(len(targets.LOG) + 1 + times.index(t)), None, None))
                        else:
                            m.execute("b", t, "failed", (None, "ValueError", "boom"))
                    live[task.id] -= 1
                    ex.finish(k)
            elif op == "delete":
                if "a" in nxt:
                    s.delete_task("a")
                    nxt.pop("a")
            clock.set_now(now)
            res.count(transitions=1)
            if not compare(m, storage, log, where + f" (step {i})", res, f"real:{op}"):
                break
        res.count(words=1)
        res.seen("real", (tuple(nxt.items()), tuple((k, r["status"]) for k, r in m.records.items())))
        targets.LOG.clear()
        s.state = 2
        s.shutdown()
    res.sample({"real": first, "depth": depth})


# ---------------------------------------------------------------- C: concurrent events
PROGRAMS = [
    (("sub", "a", (0,)), ("ok", "a", 0)),
    (("sub", "a", (0,)), ("bad", "a", 0)),
    (("sub", "a", (0, 1)), ("ok", "a", 1)),
    (("full", "a", (0,)), ("ok", "a", 0)),
    (("coalesced", "a", (1,)), ("late", "a", 1)),
    (("sub", "a", (0,)), ("sub", "a", (1,))),
    (("ok", "a", 0), ("bad", "a", 1)),
    (("sub", "a", (0,)), ("ok", "a", 0), "summary"),
    (("sub", "a", (0,)), ("ok", "b", 0), "query"),
    (("sub", "a", (0, 1)), ("ok", "a", 0), ("bad", "a", 1)),
    (("sub", "a", (0,)), ("ok", "a", 0), "clear"),
]


class World:
    pass


def build(program, maxlen):
    w = World()
    w.s = base()
    clock.set_now(T)
    w.storage, w.log, _ = history_of(w.s, maxlen, False)
    w.read = []

    def fn(letter):
        if letter == "summary":
            return lambda: w.read.append(w.storage.summary())
        if letter == "query":
            return lambda: w.read.append([(r.task_id, r.status) for r in w.storage.query()])
        if letter == "clear":
            return w.storage.clear
        e = event(w.s, letter)
        return lambda: w.s.dispatch_event(e)

    return w, [(str(p), fn(p)) for p in program]


def orders(program, maxlen):
    """The histories which the events may leave, one after the other in any order."""
    out = []
    events = [p for p in program if isinstance(p, tuple) or p == "clear"]
    for perm in itertools.permutations(events):
        m = Model(maxlen)
        for p in perm:
            if p == "clear":
                m.clear()
            else:
                step(m, p)
        out.append(m)
    return out


def concurrent(program, maxlen, grain, bound, res, limit):
    allowed = orders(program, maxlen)
    partial = [m.records for n in range(len(program)) for sub in itertools.combinations([p for p in program if isinstance(p, tuple)], n) for m in orders(sub, maxlen)] + [m.records for m in allowed]
    clears = "clear" in program

    def judge(w, run):
        where = f"history of at most {maxlen} runs, at once: {' | '.join(map(str, program))}"
        info = dict(schedule=list(run.dev.items()), grain=grain)
        if run.deadlock:
            res.violation("race:deadlock", f"{where}: {run.deadlock}", **info)
            return
        for t in run.threads:
            if t.exc is not None:
                res.violation("race:crash", f"{where}: {t.exc!r}", **info)
                return
        got = listed(w.storage.query(limit=100))
        if got not in [m.records for m in allowed] and not (clears and isinstance(got, dict) and all(got[k] in [m.records[k] for m in orders([p for p in program if p != "clear"], maxlen)] for k in got)):
            # a batch is recorded run by run: single runs may have been seen in between
            if isinstance(got, str) or any(v not in [m.records.get(k) for m in allowed] for k, v in got.items()) or len(got) not in {len(m.records) for m in allowed}:
                res.violation("race:records", f"{where}: recorded {got}, in no order of the events", **info)
        s = w.storage.summary()
        if s["total"] != len(got) or sum(v for k, v in s.items() if k != "total") != s["total"]:
            res.violation("race:summary", f"{where}: summary {s} of {got}", **info)
        for r in w.read:
            if isinstance(r, dict):
                if sum(v for k, v in r.items() if k != "total") != r["total"]:
                    res.violation("race:torn-summary", f"{where}: the summary {r} counts a run twice or not at all", **info)
            else:
                for task, status in r:
                    if not any(status == rec["status"] for records in partial for k, rec in records.items() if k[0] == task):
                        res.violation("race:read", f"{where}: a query shows {task} as {status}", **info)
        res.seen("outcomes", (program, maxlen, repr(got), repr(w.read)))

    n = sched.explore(lambda: build(program, maxlen), judge, res, bound=bound, grain=None if grain == "lock" else grain, dirs=DIRS, limit=limit)
    res.count(traces_validated_against_impl=n)
    res.sample({"at once": list(map(str, program)), "grain": grain, "preemptions": bound, "schedules": n})


# ---------------------------------------------------------------- D: queries
def queries(res):
    s = base()
    storage, _, _ = history_of(s, 100, False)
    from asyncz.contrib.dashboard.history import logs_for_run
    from asyncz.contrib.dashboard.logs.storage import MemoryLogStorage

    steps = [("sub", "a", (0,)), ("ok", "a", 0), ("coalesced", "a", (1,)), ("manual", "b", (0,)), ("bad", "b", 0), ("full", "b", (1,)), ("late", "b", 1)][:7]
    for i, letter in enumerate(steps):
        clock.set_now(T + timedelta(seconds=60 * i))
        s.dispatch_event(event(s, letter))
    everything = storage.query(limit=100)
    when = lambda r: r.finished_at or r.submitted_at  # noqa: E731
    if sorted(everything, key=when, reverse=True) != everything or len(everything) != 4:
        res.violation("query:all", f"the unfiltered query returns {everything}")
    fields = ("task_id", "task_name", "callable_reference", "scheduler_identity", "status", "source", "run_id")
    for task, status, source, q, limit in itertools.product((None, "", "a", "b", "c"), (None, "", "running", "succeeded", "FAILED", " missed ", "max_instances", "x"), (None, "manual", "Scheduled", "unknown"), (None, "", "a", "TASK A", "noop", "coalesced", "b", "zz"), (1, 2, 3, 100)):
        expected = []
        for r in everything:
            text = " ".join([str(getattr(r, f) or "") for f in fields] + ["coalesced" if r.coalesced_run_count else ""]).lower()
            words_ = (q or "").strip().lower()
            if task and r.task_id != task or (status or "").strip() and r.status != status.strip().lower() or source and r.source != source.lower():
                continue
            if words_ and words_ not in text and not any(words_ in str(getattr(r, f) or "").lower() for f in fields):
                continue
            expected.append(r)
        got = storage.query(task_id=task, status=status, source=source, q=q, limit=limit)
        res.count(transitions=1)
        if [r.run_id for r in got] != [r.run_id for r in expected[:limit]]:
            res.violation("query", f"query(task_id={task!r}, status={status!r}, source={source!r}, q={q!r}, limit={limit}) returns {[(r.task_id, r.status) for r in got]}, expected {[(r.task_id, r.status) for r in expected[:limit]]}")
    # the logs of a run: its own ones first, then what its task said meanwhile; nothing of others, nothing twice
    log = MemoryLogStorage()
    run = next(r for r in everything if r.task_id == "a" and r.finished_at)
    other = next(r for r in everything if r.task_id == "b")
    for i, (task, rid, off) in enumerate(itertools.product((None, "a", "b"), (None, run.run_id, other.run_id), (-3600, 0, 1, 3600))):
        log.append(dict(ts=when(run) + timedelta(seconds=off), level="INFO", message=f"m{i}", logger="x", task_id=task, extra={"run_id": rid} if rid else None))
    all_ = log.query(limit=1000)
    own = [e for e in all_ if (e.extra or {}).get("run_id") == run.run_id]
    for limit in (1, 3, 12, 13, 100):
        got = logs_for_run(run, log, limit=limit)
        res.count(transitions=1)
        if len(got) > limit or len({e.message for e in got}) != len(got) or got[:len(own)] != own[:limit]:
            res.violation("logs", f"logs_for_run(limit={limit}): {[e.message for e in got]}, own {[e.message for e in own]}")
        if any(e not in own and (e.task_id != "a" or abs(e.ts - when(run)) > timedelta(minutes=10)) for e in got):
            res.violation("logs:foreign", f"logs_for_run(limit={limit}) shows entries of others: {got}")
        if limit == 100 and not all(e in got for e in all_ if e.task_id == "a" and abs(e.ts - when(run)) <= timedelta(seconds=1) and (e.extra or {}).get("run_id") in (None, run.run_id)):
            res.violation("logs:missing", f"logs_for_run misses entries: {got}")
    res.sample({"queries": 4 * 5 * 8 * 4 * 8})


def items(tier):
    depth = 3 if tier == "quick" else 4
    out = [("words", w, depth, maxlen, log) for w in ALPHABET for maxlen, log in ((100, True), (2, True), (1, False))]
    out += [("twins", w, depth, maxlen) for w in TWINS for maxlen in (100, 2)]
    out += [("real", op, 4 if tier == "quick" else 6) for op in ("pass", "tick", "manual", "delete", "late", "cease")]
    for p in PROGRAMS:
        for maxlen in (100, 1):
            out += [("race", p, maxlen, "lock", (4 if len(p) == 2 else 2) + (tier != "quick")), ("race", p, maxlen, "line", 1 if tier == "quick" else 2)]
            if tier != "quick":
                out += [("race", p, maxlen, "opcode", 1)]
    return out + [("queries",)]


def explore(item, res, tier, seed):
    kind, *rest = item
    if kind == "words":
        words(*rest, res)
    elif kind == "twins":
        words(*rest, True, res, TWINS)
    elif kind == "real":
        real(*rest, res)
    elif kind == "race":
        concurrent(*rest, res, 20000 if tier == "quick" else 300000)
    else:
        queries(res)
