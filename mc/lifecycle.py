"""Lifecycle of a scheduler (start, pause, resume, shutdown, pending tasks, gating) against a reference model."""
from __future__ import annotations

import itertools
import logging
from datetime import datetime, timedelta, timezone

from mc import clock, targets
from mc.stores import Backend, scheduler

UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
H = timedelta(hours=1)
logging.getLogger("asyncz").setLevel(logging.CRITICAL + 1)


class Boom(Exception):
    pass


class Model:
    def __init__(self, durable):
        self.durable = durable
        self.state = "stopped"
        self.refs = 0
        self.pending = []  # [id, tag, nrt, started, replace, store, kind]
        self.stores = {"default": {}, "other": {}}  # id -> [tag, nrt, kind]
        self.extra = []
        self.runs = []
        self.events = []
        self.fail_start = 0
        self.fail_exec = 0
        self.wake = False  # the scheduler has to be notified by this call
        self.now = T

    # tasks: kind "i" hourly interval starting at the time of creation, "s" shutdown trigger
    def find(self, ident):
        for alias, st in self.stores.items():
            if ident in st:
                return alias, st[ident]
        return None, None

    def add(self, ident, tag, nrt, replace, store="default", kind="i"):
        """nrt: 'auto', None (paused) or a time."""
        entry = [ident, tag, nrt, replace, store, kind, self.now]
        if self.state == "stopped":
            self.pending.append(entry)
            return "ok"
        return self.commit(entry)

    def commit(self, e):
        ident, tag, nrt, replace, store, kind, made = e
        if nrt == "auto":
            nrt = None if kind == "s" else made + -((made - self.now) // H) * H
        st = self.stores[store]
        if ident in st and not replace:
            return "ConflictIdError"
        st[ident] = [tag, nrt, kind]
        self.events.append(("added", ident))
        if self.state == "running" and e[2] is not None:
            self.wake = True
        return "ok"

    def start(self, paused):
        self.refs += 1
        if self.refs > 1:
            return False
        if self.fail_start or self.fail_exec:
            if self.fail_exec:
                self.fail_exec -= 1
            else:
                self.fail_start -= 1
            self.refs -= 1
            return "Boom"
        for e in self.pending:
            self.commit(e)
        self.pending = []
        self.state = "paused" if paused else "running"
        self.events.append(("start", None))
        if not paused:
            self.wake = True
        return True

    def shutdown(self):
        self.refs = max(self.refs - 1, 0)
        if self.refs:
            return False
        if self.state == "stopped":
            return "SchedulerNotRunningError"
        self.state = "stopped"
        for st in self.stores.values():
            for ident in [i for i, t in st.items() if t[2] == "s"]:
                self.runs.append(st.pop(ident)[0])
            if not self.durable:
                st.clear()
        self.events.append(("shutdown", None))
        return True

    def pause(self):
        if self.state == "stopped":
            return "SchedulerNotRunningError"
        if self.state == "running":
            self.state = "paused"
            self.events.append(("paused", None))

    def resume(self):
        if self.state == "stopped":
            return "SchedulerNotRunningError"
        if self.state == "paused":
            self.state = "running"
            self.events.append(("resumed", None))
            self.wake = True

    def process(self):
        if self.state != "running":
            return None
        left = []
        for st in self.stores.values():
            for ident, t in st.items():
                if t[1] is not None and t[1] <= self.now:
                    self.runs.append(t[0])
                    n = t[1]
                    while n <= self.now:
                        n += H
                    t[1] = n
                if t[1] is not None:
                    left.append(t[1])
        return (min(left) - self.now).total_seconds() if left else None

    def delete(self, ident):
        if self.state == "stopped":
            for k, e in enumerate(self.pending):
                if e[0] == ident:
                    del self.pending[k]
                    self.events.append(("removed", ident))
                    return None
        else:
            alias, t = self.find(ident)
            if alias:
                del self.stores[alias][ident]
                self.events.append(("removed", ident))
                return None
        return "TaskLookupError"

    def update(self, ident, nrt):
        if self.state == "stopped":
            for e in self.pending:
                if e[0] == ident:
                    e[2] = nrt if nrt is not None else "auto-or-none"
                    self.events.append(("modified", ident))
                    return "ok"
            return "TaskLookupError"
        alias, t = self.find(ident)
        if alias is None:
            return "TaskLookupError"
        t[1] = nrt
        self.events.append(("modified", ident))
        if self.state == "running":
            self.wake = True
        return "ok"

    def clear(self):
        if self.state == "stopped":
            self.pending = []
        else:
            for st in self.stores.values():
                st.clear()
        self.events.append(("cleared", None))

    def listed(self):
        if self.state == "stopped":
            return sorted((e[0], e[1]) for e in self.pending)
        return sorted((i, t[0], str(t[1])) for st in self.stores.values() for i, t in st.items())


def flaky(store):
    """Makes the next starts of a store fail."""
    start = store.start

    def go(*a, **k):
        if store.__dict__.get("mc_fail", 0):
            store.__dict__["mc_fail"] -= 1
            raise Boom("start")
        return start(*a, **k)

    object.__setattr__(store, "start", go)


class System:
    def __init__(self, kind):
        from asyncz.events import constants as c
        from asyncz.executors.debug import DebugExecutor

        clock.set_now(T)
        targets.LOG.clear()
        self.backs = {"default": Backend(kind), "other": Backend(kind)}
        self.ex = DebugExecutor()
        self.s = scheduler(self.backs, executors={"default": self.ex})
        self.events = []
        names = {c.TASK_ADDED: "added", c.SCHEDULER_START: "start", c.SCHEDULER_SHUTDOWN: "shutdown", c.SCHEDULER_PAUSED: "paused", c.SCHEDULER_RESUMED: "resumed", c.TASK_REMOVED: "removed", c.TASK_MODIFIED: "modified", c.ALL_TASKS_REMOVED: "cleared"}
        self.s.add_listener(lambda e: names.get(e.code) and self.events.append((names[e.code], getattr(e, "task_id", None))))
        for obj in [self.s.stores["other"], self.ex]:
            flaky(obj)

    def add(self, ident, tag, replace=False, store="default", kind="i", **kw):
        fn = targets.record
        trig = dict(trigger="shutdown") if kind == "s" else dict(trigger="interval", hours=1, start_at=datetime.now(UTC))
        self.s.add_task(fn, id=ident, args=[tag], replace_existing=replace, store=store, mistrigger_grace_time=None, **trig, **kw)
        return "ok"

    def listed(self):
        ts = self.s.get_tasks()
        if not self.s.running:
            return sorted((t.id, t.args[0]) for t in ts)
        return sorted((t.id, t.args[0], str(t.next_run_time)) for t in ts)

    def close(self):
        try:
            self.s.ref_counter = min(self.s.ref_counter, 1)
            if self.s.running:
                self.s.shutdown()
        finally:
            for b in self.backs.values():
                b.drop()


def later(r, m):
    m.now += timedelta(minutes=90)
    clock.set_now(m.now)


def _fail(attr):
    def real(r):
        obj = r.s.stores["other"] if attr == "fail_start" else r.ex
        obj.__dict__["mc_fail"] = 1

    def model(m):
        setattr(m, attr, 1)

    return real, model


def same_or(m):
    return None


# name -> (on the real scheduler, on the model)
OPS = {
    "start": (lambda r: r.s.start(), lambda m: m.start(False)),
    "start-paused": (lambda r: r.s.start(paused=True), lambda m: m.start(True)),
    "shutdown": (lambda r: r.s.shutdown(), lambda m: m.shutdown()),
    "pause": (lambda r: r.s.pause(), lambda m: m.pause()),
    "resume": (lambda r: r.s.resume(), lambda m: m.resume()),
    "process": (lambda r: r.s.process_tasks(), lambda m: m.process()),
    "add-a": (lambda r: r.add("a", "a1"), lambda m: m.add("a", "a1", "auto", False)),
    "add-a-again": (lambda r: r.add("a", "a2"), lambda m: m.add("a", "a2", "auto", False)),
    "replace-a": (lambda r: r.add("a", "a3", replace=True), lambda m: m.add("a", "a3", "auto", True)),
    "add-paused": (lambda r: r.add("p", "p", next_run_time=None), lambda m: m.add("p", "p", None, False)),
    "add-later": (lambda r: r.add("l", "l", next_run_time=T + H / 2), lambda m: m.add("l", "l", T + H / 2, False)),
    "add-other": (lambda r: r.add("o", "o", store="other"), lambda m: m.add("o", "o", "auto", False, store="other")),
    "add-a-other": (lambda r: r.add("a", "a4", store="other"), lambda m: m.add("a", "a4", "auto", False, store="other")),
    "add-stop": (lambda r: r.add("s", "s", kind="s"), lambda m: m.add("s", "s", "auto", False, kind="s")),
    "delete-a": (lambda r: r.s.delete_task("a"), lambda m: m.delete("a")),
    "touch-a": (lambda r: r.s.update_task("a", next_run_time=T + H / 4) and "ok", lambda m: m.update("a", T + H / 4)),
    "clear": (lambda r: r.s.remove_all_tasks(None), lambda m: m.clear()),
    "fail-store": _fail("fail_start"),
    "fail-executor": _fail("fail_exec"),
    "later": None,
}


def run_word(kind, word, res, tag):
    m = Model(kind != "memory")
    r = System(kind)
    done = []
    try:
        for name in word:
            m.wake = False
            wakeups = r.s.wakeups
            if name == "later":
                later(r, m)
                got = want = None
            else:
                real, model = OPS[name]
                want = model(m)
                try:
                    got = real(r)
                except Exception as exc:
                    got = type(exc).__name__
            done.append(name)
            res.count(transitions=1)
            bad = None
            if got != want:
                bad = ("result", f"{name} gives {got!r} instead of {want!r}")
            elif {0: "stopped", 1: "running", 2: "paused"}[int(r.s.state)] != m.state or r.s.running != (m.state != "stopped"):
                bad = ("state", f"the state is {r.s.state!r} instead of {m.state}")
            elif r.listed() != m.listed():
                bad = ("tasks", f"the tasks are {r.listed()} instead of {m.listed()}")
            elif sorted(x[0][0] for x in targets.LOG) != sorted(m.runs):
                bad = ("runs", f"ran {[x[0][0] for x in targets.LOG]} instead of {m.runs}")
            elif sorted(map(str, r.events)) != sorted(map(str, m.events)):
                bad = ("events", f"events {r.events} instead of {m.events}")
            elif m.wake and r.s.wakeups == wakeups:
                bad = ("wakeup", f"{name} does not wake up the scheduler")
            if bad:
                res.violation(f"{kind}-{bad[0]}-{name}", f"{kind} store, after {done}: {bad[1]}", word=list(word), store=kind)
                return
            res.seen("states", (kind, m.state, m.refs, m.listed(), sorted(m.runs), m.now, str(m.pending)))
    finally:
        r.close()
    res.count(traces_validated_against_impl=1)


def words(alphabet, depth, first):
    for w in itertools.product(alphabet, repeat=depth - 1):
        yield (first,) + w


def make(alphabets, deep):
    """items() and explore() of a check: {name: (alphabet, quick depth, thorough depth, kinds)}"""

    def items(tier):
        out = []
        for name, (alphabet, q, t, kinds) in alphabets.items():
            for kind in kinds:
                for first in alphabet:
                    if tier == "quick":
                        out.append((name, kind, first, None, q if kind == "memory" else max(q - 1, 1)))
                    else:
                        out += [(name, kind, first, second, t if kind == "memory" else max(t - 1, 1)) for second in alphabet]
        return out

    def explore(item, res, tier, seed):
        name, kind, first, second, depth = item
        if not Backend.available(kind):
            res.cap(f"{kind} is not available here")
            res.count(transitions=0, states=0, traces_validated_against_impl=0)
            return
        alphabet = alphabets[name][0]
        pre = (first,) if second is None else (first, second)
        try:
            for n, w in enumerate(itertools.product(alphabet, repeat=max(depth - len(pre), 0))):
                run_word(kind, pre + w, res, name)
                if n < 1:
                    res.sample({"store": kind, "calls": list(pre + w)})
        finally:
            clock.off()

    return items, explore
