"""Runs by hand against the reference model of the processing."""
from __future__ import annotations

import itertools
import logging
from datetime import datetime, timedelta, timezone

logging.disable(logging.CRITICAL)

from checks import c19  # noqa: E402
from checks.c19 import SETS, Model, T, codes  # noqa: E402
from mc import clock, targets  # noqa: E402
from mc.manual import ManualExecutor  # noqa: E402
from mc.stores import Backend, scheduler  # noqa: E402

LEVEL = "model_checking"
ITEM_CPU = 400
BOUNDS = {
    "quick": "14 task sets x all words of length 4 over run (forced, only if due, keeping finished tasks, by task object), processing after 3 advances, finishing a run, pausing and resuming; memory store, words of length 2 on the others",
    "thorough": "words of length 5 on the memory store, 3 on file, sql, redis and mongo",
}
ASSUMPTIONS = ["runs start when the harness lets them; the clock is set by the harness"]
MIN = {"transitions": 20000}
NAMES = ("interval", "interval-all", "interval-all-grace", "interval-bounded", "interval-one-left", "interval-later", "date", "date-late", "date-later", "cron", "explicit-past", "failing", "no-executor", "two-stores")
WORDS = ("run", "run-due", "run-keep", "run-object", "go:30s", "go:4m", "go:11m", "wait:5m", "first", "pause", "resume")


class Manual(Model):
    def run(self, ident, force=True, keep=False):
        if ident not in self.next:
            return "TaskLookupError"
        s = self.specs[ident]
        times = []
        n = self.next[ident]
        while n is not None and n <= self.now:
            times.append(n)
            n = s.after(n, self.now)
        skipped = 0
        if not times:
            if not force:
                return "task"
            times = [self.now]
        elif s.coalesce:
            skipped = len(times) - 1
            times = times[-1:]
        if s.executor not in self.queues:
            return "KeyError"
        if self.running.get(ident, 0) >= s.max_instances:
            self.events.append(("max", ident, tuple(times), skipped, "manual"))
            return "MaximumInstancesError"
        self.running[ident] = self.running.get(ident, 0) + 1
        self.queues[s.executor].append((ident, times))
        self.events.append(("submitted", ident, tuple(times), skipped, "manual"))
        n = s.after(times[-1], self.now)
        if n is None and not keep:
            del self.next[ident]
            self.events.append(("removed", ident))
            return None
        self.next[ident] = n
        return "task"

    def process(self):
        at = len(self.events)
        r = super().process()
        self.events[at:] = [e + ("scheduled",) if e[0] in ("max", "submitted") else e for e in self.events[at:]]
        return r

    def pause(self, ident):
        if ident not in self.next:
            return "TaskLookupError"
        self.next[ident] = None
        return "task"

    def resume(self, ident):
        if ident not in self.next:
            return "TaskLookupError"
        n = self.specs[ident].after(None, self.now)
        if n is None:
            del self.next[ident]
            self.events.append(("removed", ident))
            return None
        self.next[ident] = n
        return "task"


def view(e, names):
    v = c19.view(e, names)
    if v and v[0] in ("max", "submitted"):
        v += (e.source,)
    return v


def run_word(name, kind, word, res):
    specs = SETS[name]
    targets.LOG.clear()
    clock.set_now(T)
    backs = {"default": Backend(kind), "other": Backend(kind)}
    ex = {"default": ManualExecutor(), "second": ManualExecutor()}
    s = scheduler(backs, executors=ex)
    events = []
    names = codes()
    s.start()
    m = Manual(specs)
    for sp in specs:
        sp.add(s)
    s.add_listener(lambda e: events.append(view(e, names)) if view(e, names) else None)
    ident = specs[0].id

    def call(fn, *a, **kw):
        try:
            r = fn(*a, **kw)
        except Exception as exc:
            return type(exc).__name__
        return None if r is None else "task" if r.id == ident else f"another task: {r}"

    done = []
    try:
        for op in word:
            ret = want = None
            if op.startswith("go:"):
                m.now += timedelta(minutes=c19.ADVANCE[op[3:]])
                clock.set_now(m.now)
                ret, want = s.process_tasks(), m.process()
            elif op == "wait:5m":
                m.now += timedelta(minutes=5)
                clock.set_now(m.now)
            elif op == "first":
                for alias, e in ex.items():
                    if e.queue:
                        t, times = e.queue[0]
                        if (t.id, times) in m.queues[alias]:
                            m.finish(alias, t.id, times)
                        e.finish(0)
            elif op == "run":
                ret, want = call(s.run_task, ident), m.run(ident)
            elif op == "run-due":
                ret, want = call(s.run_task, ident, force=False), m.run(ident, force=False)
            elif op == "run-keep":
                ret, want = call(s.run_task, ident, specs[0].store, remove_finished=False), m.run(ident, keep=True)
            elif op == "run-object":
                t = s.get_task(ident)
                if t is not None:
                    ret, want = call(s.run_task, t), m.run(ident)
            elif op == "pause":
                ret, want = call(s.pause_task, ident), m.pause(ident)
            elif op == "resume":
                ret, want = call(s.resume_task, ident), m.resume(ident)
            done.append(op)
            res.count(transitions=1)
            stored = {t.id: t.next_run_time for t in s.get_tasks()}
            bad = None
            if ret != want:
                bad = ("answer", f"answers {ret!r} instead of {want!r}")
            elif stored != m.next:
                bad = ("schedule", f"the tasks are {stored} instead of {m.next}")
            elif sorted(map(repr, events)) != sorted(map(repr, m.events)):
                extra = [e for e in events if e not in m.events]
                lack = [e for e in m.events if e not in events]
                bad = ("events", f"unexpected events {extra}, missing events {lack}, {len(events)} instead of {len(m.events)}")
            elif sorted(x[0][0] for x in targets.LOG) != sorted(m.runs):
                bad = ("runs", f"runs {targets.LOG} instead of {m.runs}")
            elif [sorted((t.id, r) for t, r in e.queue) for e in ex.values()] != [sorted(q) for q in m.queues.values()]:
                bad = ("submitted", f"submitted {[[(t.id, r) for t, r in e.queue] for e in ex.values()]} instead of {m.queues}")
            if bad:
                res.violation(f"{name}-{bad[0]}", f"task set {name} on the {kind} store, after {done} (clock {m.now}): {bad[1]}", word=list(word), store=kind)
                return
            res.seen("states", (name, kind, sorted(map(str, m.next.items())), sorted(m.running.items()), m.now))
        s.shutdown()
        if call(s.run_task, ident) != "SchedulerNotRunningError":
            res.violation("stopped", "a task can be run by hand although the scheduler is shut down")
    finally:
        if s.running:
            s.shutdown()
        for b in backs.values():
            b.drop()
    res.count(traces_validated_against_impl=1)


def items(tier):
    k = 4 if tier == "quick" else 5
    out = [(n, "memory", k, first) for n in NAMES for first in WORDS]
    if tier == "quick":
        out += [(n, kind, 2, None) for n in ("interval-all-grace", "interval-one-left", "date-later", "explicit-past", "two-stores") for kind in ("file", "sql", "redis", "mongo")]
    else:
        out += [(n, kind, 3, first) for n in NAMES for kind in ("file", "sql", "redis", "mongo") for first in WORDS]
    return out


def explore(item, res, tier, seed):
    name, kind, depth, first = item
    if not Backend.available(kind):
        res.cap(f"{kind} is not available here")
        return
    try:
        for n, w in enumerate(itertools.product(WORDS, repeat=depth - (first is not None))):
            word = ((first,) if first else ()) + w
            run_word(name, kind, word, res)
            if n < 1:
                res.sample({"tasks": name, "store": kind, "word": list(word)})
    finally:
        clock.off()
