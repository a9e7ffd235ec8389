"""Logs, audit trail and scheduler events of the dashboard: everything is kept once, newest first, up to the limit."""
from __future__ import annotations

import itertools
import logging
import threading
from datetime import datetime, timedelta, timezone

from mc import sched

sched.install()

from mc import clock, targets  # noqa: E402
from mc.core import REPO  # noqa: E402
from mc.manual import ManualExecutor  # noqa: E402
from mc.stores import scheduler  # noqa: E402

logging.lastResort = None

LEVEL = "model_checking"
ITEM_CPU = 800
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
D = REPO / "asyncz" / "contrib" / "dashboard"
DIRS = tuple(str(D / p) for p in ("audit.py", "events.py", "logs"))
BOUNDS = {
    "quick": "three storages (logs, audit trail, scheduler events) of 1, 2 and many entries: all words of up to 3 out of 12 entries, all 1000-2000 combinations of filters over them; all words of up to 3 out of 14 uses of task loggers and handlers; all words of up to 4 out of 14 actions on a real scheduler; two and three threads appending, asking and clearing: every schedule with up to 3 (three threads: 2) preemptions at lock and 1 at line granularity",
    "thorough": "words of 4 entries, 4 logger uses and 5 actions; 4 (3) preemptions at lock, 2 at line and 1 at bytecode granularity",
}
ASSUMPTIONS = []
MIN = {"words": 3000, "schedules": 300}


# ------------------------------------------------------------ the storages behind one face
class Logs:
    name = "log"
    entries = [dict(level=lv, message=msg, logger="x", task_id=t, extra={"run_id": r} if r else None) for lv, msg, t, r in (("INFO", "Hello a", "a", None), ("error", "hello b", "b", "r1"), ("WARNING", "", None, "r2"), ("ERROR", "Bye a", "a", "r1"))]
    entries += [dict(entries[0], ts=T - timedelta(seconds=5)), dict(entries[1], ts=T + timedelta(seconds=1)), dict(entries[3], ts=(T - timedelta(seconds=1)).replace(tzinfo=None))]
    filters = dict(task_id=(None, "", "a", "b", "x"), run_id=(None, "r1", "r2", "x"), level=(None, "ERROR", "info", "x"), q=(None, "", " HELLO ", "bye", "a"), since=(None, T - timedelta(seconds=1), T), until=(None, T, T + timedelta(seconds=1)))

    def make(self, maxlen):
        from asyncz.contrib.dashboard.logs.storage import MemoryLogStorage

        return MemoryLogStorage(maxlen=maxlen)

    def append(self, st, e, frozen=False):
        from asyncz.contrib.dashboard.logs.storage import LogEntry

        st.append(LogEntry(**{"ts": T, **e}) if frozen else {"ts": T, **e})

    def show(self, r):
        if r.ts.tzinfo is None:
            return "a naive time"
        return (r.ts, r.level, r.message, r.logger, r.task_id, (r.extra or {}).get("run_id"))

    def expect(self, e):
        ts = e.get("ts", T)
        return (ts if ts.tzinfo else ts.replace(tzinfo=UTC), e["level"], e["message"], e["logger"], e["task_id"], (e["extra"] or {}).get("run_id"))

    def match(self, e, task_id, run_id, level, q, since, until):
        ts, lv, msg, _, task, run = self.expect(e)
        return not (task_id and task != task_id or run_id and run != run_id or level and lv.upper() != level.upper() or q and q.strip().lower() not in msg.lower() or since and ts < since or until and ts > until)

    def summary(self, st, entries):
        return None


class Audit:
    name = "audit"
    entries = [dict(action=a, status=s, target_id=t, message=m) for a, s, t, m in (("task.run", "succeeded", "a", None), ("task.pause", "failed", "b", "No such"), ("task.run", "warning", None, "half"), ("task.remove", "succeeded", "a", ""))]
    entries += [dict(action="logs.clear", status="succeeded", target_type="logs", actor="Bob", details={"n": 1}), dict(action="task.run", status="odd")]
    filters = dict(action=(None, "", "task.run", " TASK.RUN ", "x"), status=(None, "succeeded", "FAILED", "warning", "x"), q=(None, "", "bob", " NO such ", "a", "logs", "zz"))

    def make(self, maxlen):
        from asyncz.contrib.dashboard.audit import MemoryAuditTrailStorage

        return MemoryAuditTrailStorage(maxlen=maxlen)

    def append(self, st, e, frozen=False):
        from asyncz.contrib.dashboard.audit import get_audit_storage, record_audit_event

        if frozen:
            get_audit_storage(st)
            record_audit_event(e["action"], **{k: v for k, v in e.items() if k != "action"})
        else:
            st.append(**e)

    def show(self, r):
        return (r.action, r.status, r.target_type, r.target_id, r.message, r.actor, tuple(r.details.items()))

    def expect(self, e):
        return (e["action"], e["status"], e.get("target_type", "task"), e.get("target_id"), e.get("message"), e.get("actor", "dashboard"), tuple(e.get("details", {}).items()))

    def match(self, e, action, status, q):
        x = self.expect(e)
        return not (action and x[0] != action.strip().lower() or status and x[1] != status.lower() or q and not any(q.strip().lower() in str(v or "").lower() for v in x[:6]))

    def summary(self, st, entries):
        want = {"total": len(entries), **{k: sum(e["status"] == k for e in entries) for k in ("succeeded", "failed", "warning")}}
        return (st.summary(), want)


class Events:
    name = "event"
    entries = [("scheduler", 1, None), ("scheduler", 2, None), ("executor", 16, "ex"), ("store", 64, "other"), ("task", 512, "a"), ("task", 1024, "b"), ("submission", 32768, "a"), ("execution", 4096, "a"), ("execution", 8192, "b"), ("submission", 65536, "b")]
    names = {1: "scheduler.started", 2: "scheduler.shutdown", 16: "executor.added", 64: "store.added", 512: "task.added", 1024: "task.removed", 32768: "task.submitted", 4096: "task.executed", 8192: "task.error", 65536: "task.max_instances"}
    filters = dict(category=(None, "", "task", "STORE", "scheduler", "executor", "x"), name=(None, "task.added", " Task.Executed ", "x"), task_id=(None, "a", "b", "x"), q=(None, "", "ValueError", "manual", " OTHER ", ".added", "zz"))
    s = None

    def make(self, maxlen):
        from asyncz.contrib.dashboard.events import MemorySchedulerEventStorage

        if Events.s is None:
            Events.s = scheduler({"default": {"type": "memory"}})
        return MemorySchedulerEventStorage(maxlen=maxlen)

    def append(self, st, e, frozen=False):
        from asyncz.contrib.dashboard.events import install_scheduler_event_listener
        from asyncz.events.base import SchedulerEvent, TaskEvent, TaskExecutionEvent, TaskSubmissionEvent

        kind, code, what = e
        if kind == "task":
            ev = TaskEvent(code=code, task_id=what, store="default")
        elif kind == "submission":
            ev = TaskSubmissionEvent(code=code, task_id=what, store="default", scheduled_run_times=[T], source="manual")
        elif kind == "execution":
            ev = TaskExecutionEvent(code=code, task_id=what, store="default", scheduled_run_time=T, **({"return_value": 5} if code == 4096 else {"exception": ValueError("oops")}))
        else:
            ev = SchedulerEvent(code=code, alias=what)
        if frozen:
            install_scheduler_event_listener(self.s, storage=st)
            self.s.dispatch_event(ev)
        else:
            st.append(ev, scheduler=self.s)

    def show(self, r):
        return (r.category, r.code, r.name, r.alias, r.task_id)

    def expect(self, e):
        kind, code, what = e
        task = kind in ("task", "submission", "execution")
        return ("task" if task else kind, code, self.names[code], None if task else what, what if task else None)

    def match(self, e, category, name, task_id, q):
        cat, code, nm, alias, task = self.expect(e)
        text = [nm, cat, alias, task, "default" if task else None, {4096: "5", 8192: "ValueError oops"}.get(code)]
        if e[0] == "submission":
            text.append("source manual")
        return not (category and cat != category.lower() or name and nm != name.strip().lower() or task_id and task != task_id or q and not any(q.strip().lower() in str(v or "").lower() for v in text))

    def summary(self, st, entries):
        shown = [self.expect(e) for e in entries]
        want = {"total": len(entries), "scheduler": sum(x[0] == "scheduler" for x in shown), "task": sum(x[0] == "task" for x in shown), "terminal": sum(x[1] in (4096, 8192, 16384, 65536, 2) for x in shown)}
        return (st.summary(), want)


KINDS = {k.name: k() for k in (Logs, Audit, Events)}


def check(kind, st, entries, where, key, res):
    """`entries`: what is kept, oldest first."""
    got = [kind.show(r) for r in st.query(limit=1000)]
    want = [kind.expect(e) for e in reversed(entries)]
    if got != want:
        res.violation(f"{key}:entries", f"{where}: holds {got}, expected {want}")
        return False
    s = kind.summary(st, entries)
    if s and s[0] != s[1]:
        res.violation(f"{key}:summary", f"{where}: the summary is {s[0]}, expected {s[1]}")
    return True


def filtered(kind, st, entries, where, key, res):
    for values in itertools.product(*kind.filters.values()):
        f = dict(zip(kind.filters, values))
        want = [kind.expect(e) for e in reversed(entries) if kind.match(e, **f)]
        for limit in (1, 2, 100):
            try:
                got = [kind.show(r) for r in st.query(limit=limit, **f)]
            except Exception as exc:
                got = repr(exc)
            res.count(transitions=1)
            if got != want[:limit]:
                res.violation(f"{key}:query", f"{where}: query({f}, limit={limit}) returns {got}, expected {want[:limit]}")


def storage_words(name, first, depth, res):
    kind = KINDS[name]
    letters = [*range(len(kind.entries)), "clear"]
    for maxlen in (1, 2, 100):
        for n in range(1, depth + 1):
            for rest in itertools.product(letters, repeat=n - 1):
                word = (first,) + rest
                for frozen in (False, True):
                    st = kind.make(maxlen)
                    kept = []
                    for x in word:
                        if x == "clear":
                            st.clear()
                            kept = []
                        else:
                            kind.append(st, kind.entries[x], frozen)
                            kept = (kept + [kind.entries[x]])[-maxlen:]
                    check(kind, st, kept, f"{name} storage of {maxlen} after {word}", f"{name}:words", res)
                    res.count(transitions=len(word), words=1)
                    res.seen("states", (name, maxlen, tuple(map(repr, kept))))
    res.sample({"storage": name, "first": str(first), "depth": depth})


def storage_queries(name, res):
    kind = KINDS[name]
    for frozen in (False, True):
        for maxlen in (3, 100):
            st = kind.make(maxlen)
            for e in kind.entries:
                kind.append(st, e, frozen)
            filtered(kind, st, kind.entries[-maxlen:], f"{name} storage of {maxlen}", f"{name}", res)
    res.sample({"storage": name, "filters": {k: list(map(str, v)) for k, v in kind.filters.items()}})


def storage_full(name, res):
    """A storage with many entries: the one entry a filter asks for may be anywhere among them; and the default size."""
    kind = KINDS[name]
    n = 1001
    for special in range(1, len(kind.entries)):
        for at in (0, 1, 2, 49, 50, 51, 99, 100, 101, 199, 200, 201, 249, 250, 499, 500, 501, 999, 1000):
            st = kind.make(n)
            kept = [kind.entries[0]] * n
            kept[n - 1 - at] = kind.entries[special]
            for e in kept:
                kind.append(st, e)
            res.seen("states", (name, "full", special, at))
            for key, values in kind.filters.items():
                for value in values:
                    f = {k: value if k == key else None for k in kind.filters}
                    hit = [kind.match(e, **f) for e in kind.entries]
                    want = [kind.expect(kept[n - 1 - i]) for i in range(n) if hit[special if i == at else 0]]
                    for limit in (1, 10, 250, 2000):
                        got = [kind.show(r) for r in st.query(limit=limit, **f)]
                        res.count(transitions=1)
                        if got != want[:limit]:
                            res.violation(f"{name}:full", f"{name} storage of {n} entries with {kind.entries[special]} at {at} from the newest: query({key}={value!r}, limit={limit}) returns {len(got)} entries beginning {got[:1]}, expected {len(want[:limit])} beginning {want[:1]}")
    for size in (50, 1000):
        st = kind.make(size)
        for i in range(size + 3):
            kind.append(st, kind.entries[1 if i in (2, 3) else 0])
            res.count(transitions=1)
        check(kind, st, [kind.entries[1]] + [kind.entries[0]] * (size - 1), f"{name} storage of {size} after {size + 3} entries", f"{name}:full", res)
    res.sample({"storage": name, "entries": n})


# ------------------------------------------------------------ task loggers and the handler
def logger_uses():
    """name -> (use(ctx), expected entries [(level, message, task id, extra)])"""
    shared = {"k": 1}

    def plain(lv, msg, *args, **kw):
        def use(c):
            getattr(c.a, lv)(msg, *args, **kw)

        return use

    out = {
        "a": (lambda c: c.a.info("one %s", 1), [("INFO", "one 1", "a", {})]),
        "b": (lambda c: c.b.warning("two"), [("WARNING", "two", "b", {})]),
        "debug": (lambda c: c.a.debug("hidden"), []),
        "extra": (lambda c: c.a.info("x", extra={"run_id": "r", "n": 2}), [("INFO", "x", "a", {"run_id": "r", "n": 2})]),
        "own": (lambda c: c.a.info("x", extra={"task_id": "z"}), [("INFO", "x", "z", {})]),
        "shared-a": (lambda c: c.a.info("s", extra=shared), [("INFO", "s", "a", {"k": 1})]),
        "shared-b": (lambda c: c.b.info("s", extra=shared), [("INFO", "s", "b", {"k": 1})]),
        "engine": (lambda c: logging.getLogger("asyncz.x").error("e"), [("ERROR", "e", None, {})]),
        "job": (lambda c: logging.getLogger("asyncz").info("j", extra={"job_id": "j7"}), [("INFO", "j", "j7", {})]),
        "foreign": (lambda c: logging.getLogger("elsewhere").error("no"), []),
        "none": (lambda c: c.b.info("n", extra=None), [("INFO", "n", "b", {})]),
        "bad": (lambda c: c.a.info("%d", "no number"), []),
        "again": (lambda c: c.install(c.storage), []),
        "other": (lambda c: c.swap(), []),
    }
    return out


def handler_words(first, depth, res):
    from asyncz.contrib.dashboard.logs import handler as h
    from asyncz.contrib.dashboard.logs.storage import MemoryLogStorage

    uses = logger_uses()
    root = logging.getLogger("asyncz")
    before = (root.level, list(root.handlers), logging.raiseExceptions, logging.root.level)
    logging.raiseExceptions = False
    disabled = root.manager.disable
    logging.disable(logging.NOTSET)

    class Ctx:
        def __init__(self):
            self.storages = [MemoryLogStorage(), MemoryLogStorage()]
            self.at = 0
            self.a, self.b = h.get_task_logger("a"), h.get_task_logger("b", "asyncz.deep")
            self.install(self.storages[0])

        @property
        def storage(self):
            return self.storages[self.at]

        def install(self, st):
            h.install_task_log_handler(st, level=logging.INFO)

        def swap(self):
            self.at = 1 - self.at
            self.install(self.storage)

    try:
        for n in range(1, depth + 1):
            for rest in itertools.product(uses, repeat=n - 1):
                word = (first,) + rest
                h._handler = None
                root.handlers[:] = []
                root.setLevel(logging.NOTSET)
                clock.set_now(T)
                c = Ctx()
                want = [[], []]
                for use in word:
                    fn, entries = uses[use]
                    try:
                        fn(c)
                    except Exception as exc:
                        res.violation(f"handler:{use}:raises", f"task loggers, {word}: {use} raises {exc!r}")
                    want[c.at] += entries
                for i, st in enumerate(c.storages):
                    got = [(e.level, e.message, e.task_id, {k: v for k, v in (e.extra or {}).items() if k in ("run_id", "n", "k")}) for e in reversed(list(st.query(limit=1000)))]
                    if got != want[i]:
                        res.violation(f"handler:{word[-1]}", f"task loggers, {word}: storage {i} holds {got}, expected {want[i]}")
                    if any(e.ts != T for e in st.query(limit=1000)):
                        res.violation("handler:time", f"task loggers, {word}: wrong times")
                res.count(transitions=len(word), words=1)
                res.seen("states", ("handler", repr(want)))
    finally:
        h._handler = None
        root.handlers[:] = before[1]
        root.setLevel(before[0])
        logging.raiseExceptions = before[2]
        logging.disable(disabled)
    res.sample({"logger uses": first, "depth": depth})


# ------------------------------------------------------------ the events of a real scheduler
ACTIONS = ("start", "pause", "resume", "add", "date", "modify", "reset", "hold", "delete", "clear", "executor", "store", "manual", "pass")


def actions(first, depth, res):
    """What the operator sees of a scheduler is exactly what its listeners saw, in that order."""
    from asyncz.contrib.dashboard.events import MemorySchedulerEventStorage, install_scheduler_event_listener

    for rest in itertools.product(ACTIONS, repeat=depth - 1):
        word = (first,) + rest
        clock.set_now(T)
        s = scheduler({"default": {"type": "memory"}}, {"default": ManualExecutor()})
        seen = []
        st = MemorySchedulerEventStorage(maxlen=100)
        install_scheduler_event_listener(s, storage=st)
        s.add_listener(lambda e: seen.append(e))
        n = 0
        for i, a in enumerate(word):
            clock.set_now(T + timedelta(seconds=i))
            try:
                n += 1
                if a == "start":
                    s.start(paused=True)
                elif a == "pause":
                    s.pause()
                elif a == "resume":
                    s.resume()
                elif a == "add":
                    s.add_task(targets.noop, "interval", seconds=1, id="a", replace_existing=True)
                elif a == "date":
                    s.add_task(targets.boom, "date", run_at=T, id="d", replace_existing=True, mistrigger_grace_time=None)
                elif a == "modify":
                    s.update_task("a", name=f"n{i}")
                elif a == "reset":
                    s.reschedule_task("a", trigger="interval", seconds=2)
                elif a == "hold":
                    s.pause_task("a")
                elif a == "delete":
                    s.delete_task("a")
                elif a == "clear":
                    s.remove_all_tasks()
                elif a == "executor":
                    s.add_executor(ManualExecutor(), f"e{n}")
                elif a == "store":
                    s.add_store("memory", f"s{n}")
                elif a == "manual":
                    s.run_task("a")
                elif a == "pass":
                    s.process_tasks()
                    ex = s.executors.get("default")
                    while ex is not None and getattr(ex, "queue", None):
                        ex.finish()
            except Exception as exc:
                res.seen("refused", (a, type(exc).__name__))
        records = list(reversed(st.query(limit=1000)))
        got = [(r.code, r.alias, r.task_id, r.store) for r in records]
        want = [(e.code, e.alias, getattr(e, "task_id", None), getattr(e, "store", None)) for e in seen]
        if got != want:
            res.violation(f"events:{word[-1]}", f"scheduler doing {word}: the dashboard recorded {got}, the listeners saw {want}")
        ids = {r.event_id for r in records}
        identity = s.get_scheduler_info().identity
        if any(r.scheduler_identity != identity for r in records):
            res.violation("events:identity", f"scheduler doing {word}: the records name {[r.scheduler_identity for r in records]}, it is {identity}")
        res.count(transitions=len(word), words=1)
        res.seen("states", ("events", tuple(want), len(ids)))
        if s.state:
            s.shutdown()
    res.sample({"actions": first, "depth": depth})


# ------------------------------------------------------------ concurrency
PROGRAMS = (("1", "2"), ("1", "q"), ("12", "q"), ("12", "3"), ("1", "c"), ("1", "s"), ("1", "2", "q"), ("1", "c", "q"))


def concurrent(name, program, maxlen, grain, bound, res, limit):
    kind = KINDS[name]

    class W:
        pass

    def build():
        w = W()
        w.st = kind.make(maxlen)
        kind.append(w.st, kind.entries[0])
        w.read = []

        def fn(word):
            def go():
                for x in word:
                    if x == "q":
                        w.read.append([kind.show(r) for r in w.st.query(limit=100)])
                    elif x == "c":
                        w.st.clear()
                    elif x == "s":
                        w.read.append(w.st.summary() if hasattr(w.st, "summary") else None)
                    else:
                        kind.append(w.st, kind.entries[int(x)])

            return go

        return w, [(word, fn(word)) for word in program]

    # every merge of the threads, the readings at their places
    def merges(threads):
        if not any(threads):
            yield ()
        for i, t in enumerate(threads):
            if t:
                for rest in merges(threads[:i] + (t[1:],) + threads[i + 1:]):
                    yield (t[0],) + rest

    allowed = set()
    for m in merges(program):
        kept, read = [kind.entries[0]], []
        for x in m:
            if x == "q":
                read.append(repr([kind.expect(e) for e in reversed(kept)]))
            elif x == "s":
                pair = kind.summary(kind.make(1), kept)
                read.append(repr(pair[1] if pair else None))
            elif x == "c":
                kept = []
            else:
                kept = (kept + [kind.entries[int(x)]])[-maxlen:]
        allowed.add((repr([kind.expect(e) for e in reversed(kept)]), tuple(read)))

    def judge(w, run):
        where = f"{name} storage of {maxlen}, at once {' | '.join(program)}"
        info = dict(schedule=list(run.dev.items()), grain=grain)
        if run.deadlock:
            res.violation(f"{name}:race:deadlock", f"{where}: {run.deadlock}", **info)
            return
        for t in run.threads:
            if t.exc is not None:
                res.violation(f"{name}:race:crash", f"{where}: {t.exc!r}", **info)
                return
        got = (repr([kind.show(r) for r in w.st.query(limit=100)]), tuple(map(repr, w.read)))
        res.seen("outcomes", (name, program, maxlen, got))
        if got not in allowed:
            res.violation(f"{name}:race", f"{where}: it holds {got[0]} and the readers saw {got[1]}, in no order of the calls", **info)

    n = sched.explore(build, judge, res, bound=bound, grain=None if grain == "lock" else grain, dirs=DIRS, limit=limit)
    res.count(traces_validated_against_impl=n)
    res.sample({"storage": name, "at once": list(program), "grain": grain, "preemptions": bound, "schedules": n})


def items(tier):
    q = tier == "quick"
    out = []
    for name, kind in KINDS.items():
        out += [("words", name, x, 3 if q else 4) for x in [*range(len(kind.entries)), "clear"]]
        out.append(("queries", name))
        out.append(("full", name))
        for p in PROGRAMS:
            for maxlen in (2, 100):
                out += [("race", name, p, maxlen, "lock", (3 if len(p) == 2 else 2) + (not q)), ("race", name, p, maxlen, "line", 1 if q else 2)]
                if not q:
                    out.append(("race", name, p, maxlen, "opcode", 1))
    out += [("handler", u, 3 if q else 4) for u in logger_uses()]
    out += [("actions", a, 4 if q else 5) for a in ACTIONS]
    return out


def explore(item, res, tier, seed):
    kind, *rest = item
    if kind == "words":
        storage_words(*rest, res)
    elif kind == "queries":
        storage_queries(*rest, res)
    elif kind == "full":
        storage_full(*rest, res)
    elif kind == "handler":
        handler_words(*rest, res)
    elif kind == "actions":
        actions(*rest, res)
    else:
        concurrent(*rest, res, 20000 if tier == "quick" else 300000)
