"""The processing against a reference model: what is submitted when, what is run, what is left."""
from __future__ import annotations

import itertools
import logging
from datetime import datetime, timedelta, timezone

from mc import clock, targets
from mc.manual import ManualExecutor
from mc.stores import Backend, scheduler

LEVEL = "model_checking"
ITEM_CPU = 400
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
M = timedelta(minutes=1)
BOUNDS = {
    "quick": "22 task sets (interval, date, cron, bounded, paused, explicit first run; coalescing, grace times, instance limits, unknown executor, two stores) x all words of length 4 over 7 clock advances with processing, finishing the oldest or the newest run",
    "thorough": "words of length 5 on the memory store, of length 3 on file, sql, redis and mongo",
}
ASSUMPTIONS = ["runs start when the harness lets them; the clock is set by the harness"]
MIN = {"transitions": 20000}
logging.getLogger("asyncz").setLevel(logging.CRITICAL + 1)

ADVANCE = {"now": 0, "30s": 0.5, "1m": 1, "4m": 4, "5m": 5, "11m": 11, "2h": 120}
WORDS = [f"go:{k}" for k in ADVANCE] + ["first", "last"]


class Spec:
    """A task and its reference behaviour. kind: ('interval', minutes, start, end) | ('date', at) | ('cron', minutes)"""

    def __init__(self, ident, kind, nrt="auto", coalesce=True, grace=None, max_instances=1, executor="default", store="default", fails=False):
        self.id, self.kind, self.nrt, self.coalesce, self.grace = ident, kind, nrt, coalesce, grace
        self.max_instances, self.executor, self.store, self.fails = max_instances, executor, store, fails

    def trigger(self):
        from asyncz.triggers import CronTrigger, DateTrigger, IntervalTrigger

        k = self.kind
        if k[0] == "interval":
            return IntervalTrigger(minutes=k[1], start_at=T + k[2] * M, end_at=None if k[3] is None else T + k[3] * M, timezone=UTC)
        if k[0] == "date":
            return DateTrigger(run_at=T + k[1] * M, timezone=UTC)
        return CronTrigger(minute=f"*/{k[1]}", timezone=UTC)

    def after(self, prev, now):
        """Next fire time after prev (None: the first one, seen from now)."""
        k = self.kind
        if k[0] == "date":
            return T + k[1] * M if prev is None else None
        if k[0] == "interval":
            step, start = k[1] * M, T + k[2] * M
            if prev is not None:
                n = prev + step
            elif start >= now:
                n = start
            else:
                n = start + -((start - now) // step) * step
            return n if k[3] is None or n <= T + k[3] * M else None
        step = k[1] * M
        base = now if prev is None else prev + timedelta(microseconds=1)
        return T + -((T - base) // step) * step

    def add(self, s):
        kw = {}
        if self.nrt != "auto":
            kw["next_run_time"] = None if self.nrt is None else T + self.nrt * M
        s.add_task(
            targets.boom if self.fails else targets.record, self.trigger(), args=[self.id], id=self.id, coalesce=self.coalesce,
            mistrigger_grace_time=self.grace, max_instances=self.max_instances, executor=self.executor, store=self.store, **kw,
        )


def I(ident, step, start=0, end=None, **kw):
    return Spec(ident, ("interval", step, start, end), **kw)


def D(ident, at, **kw):
    return Spec(ident, ("date", at), **kw)


def C(ident, step, **kw):
    return Spec(ident, ("cron", step), **kw)


SETS = {
    "interval": [I("i", 5)],
    "interval-all": [I("i", 1, coalesce=False, max_instances=2)],
    "interval-all-grace": [I("i", 1, coalesce=False, grace=90, max_instances=3)],
    "interval-grace": [I("i", 5, grace=60, max_instances=2)],
    "interval-bounded": [I("i", 5, 0, 10, coalesce=False, max_instances=9)],
    "interval-one-left": [I("i", 5, 0, 4, coalesce=True)],
    "interval-later": [I("i", 5, 4, 14, coalesce=False)],
    "date": [D("d", 0)],
    "date-late": [D("d", -30)],
    "date-grace": [D("d", 0, grace=30)],
    "date-later": [D("d", 5), D("e", 5)],
    "cron": [C("c", 5)],
    "cron-all": [C("c", 1, coalesce=False, max_instances=2)],
    "explicit": [I("i", 5, nrt=3, coalesce=False, max_instances=5)],
    "explicit-cron": [C("c", 5, nrt=3, coalesce=False, max_instances=5)],
    "explicit-past": [I("i", 5, nrt=-7, coalesce=False, max_instances=2), C("c", 2, nrt=-3, coalesce=True)],
    "failing": [I("f", 1, coalesce=False, fails=True, max_instances=2), I("i", 1)],
    "no-executor": [I("x", 5, executor="gone"), I("i", 5)],
    "two-executors": [I("i", 1, executor="second"), I("j", 1, executor="default"), D("d", 1, executor="second")],
    "two-stores": [I("i", 5, store="other"), I("j", 4), D("d", 1, store="other")],
    "same-time": [I("b", 5, coalesce=False), I("a", 5), C("c", 5), D("d", 5)],
    "never": [I("n", 5, 0, -10, nrt=0)],
}


class Model:
    def __init__(self, specs):
        self.specs = {s.id: s for s in specs}
        self.now = T
        self.next = {}
        self.running = {}
        self.queues = {"default": [], "second": []}
        self.events = []
        self.runs = []
        for s in specs:
            nrt = s.after(None, T) if s.nrt == "auto" else (T + s.nrt * M)
            self.next[s.id] = nrt

    def process(self):
        for ident in sorted((i for i, n in self.next.items() if n is not None and n <= self.now), key=lambda i: (list(STORE_ORDER).index(self.specs[i].store), self.next[i])):
            s = self.specs[ident]
            if s.executor not in self.queues:
                del self.next[ident]
                self.events.append(("removed", ident))
                continue
            times = []
            n = self.next[ident]
            while n is not None and n <= self.now:
                times.append(n)
                n = s.after(n, self.now)
            skipped = 0
            if s.coalesce:
                skipped = len(times) - 1
                times = times[-1:]
            if self.running.get(ident, 0) >= s.max_instances:
                self.events.append(("max", ident, tuple(times), skipped))
            else:
                self.running[ident] = self.running.get(ident, 0) + 1
                self.queues[s.executor].append((ident, times))
                self.events.append(("submitted", ident, tuple(times), skipped))
            n = s.after(times[-1], self.now)
            if n is None:
                del self.next[ident]
                self.events.append(("removed", ident))
            else:
                self.next[ident] = n
        left = [n for n in self.next.values() if n is not None]
        return max((min(left) - self.now).total_seconds(), 0) if left else None

    def finish(self, alias, ident, times):
        self.queues[alias].remove((ident, times))
        s = self.specs[ident]
        for rt in times:
            if s.grace is not None and self.now - rt > timedelta(seconds=s.grace):
                self.events.append(("missed", ident, rt))
            else:
                if not s.fails:
                    self.runs.append(ident)
                self.events.append(("error" if s.fails else "executed", ident, rt))
        self.running[ident] -= 1


STORE_ORDER = ("default", "other")


def codes():
    from asyncz.events import constants as c

    return {c.TASK_REMOVED: "removed", c.TASK_MAX_INSTANCES: "max", c.TASK_SUBMITTED: "submitted", c.TASK_MISSED: "missed", c.TASK_ERROR: "error", c.TASK_EXECUTED: "executed"}


def view(e, names):
    n = names.get(e.code)
    if n is None:
        return None
    if n == "removed":
        return (n, e.task_id)
    if n in ("max", "submitted"):
        return (n, e.task_id, tuple(e.scheduled_run_times), e.coalesced_run_count)
    return (n, e.task_id, e.scheduled_run_time)


def run_word(name, kind, word, res):
    specs = SETS[name]
    targets.LOG.clear()
    clock.set_now(T)
    backs = {"default": Backend(kind), "other": Backend(kind)}
    ex = {"default": ManualExecutor(), "second": ManualExecutor()}
    s = scheduler(backs, executors=ex)
    events = []
    names = codes()
    s.start()
    m = Model(specs)
    for sp in specs:
        sp.add(s)
    s.add_listener(lambda e: events.append(view(e, names)) if view(e, names) else None)
    done = []
    try:
        for op in word + ("check",):
            ret = want = None
            if op.startswith("go:"):
                m.now += timedelta(minutes=ADVANCE[op[3:]])
                clock.set_now(m.now)
                ret, want = s.process_tasks(), m.process()
            elif op in ("first", "last"):
                i = 0 if op == "first" else -1
                for alias, e in ex.items():
                    if e.queue:
                        t, times = e.queue[i]
                        if (t.id, times) in m.queues[alias]:
                            m.finish(alias, t.id, times)
                        e.finish(i)
            done.append(op)
            res.count(transitions=1)
            stored = {t.id: t.next_run_time for t in s.get_tasks()}
            bad = None
            if ret != want:
                bad = ("wait", f"returns {ret} seconds instead of {want}")
            elif stored != m.next:
                bad = ("schedule", f"the tasks are {stored} instead of {m.next}")
            elif sorted(map(repr, events)) != sorted(map(repr, m.events)):
                extra = [e for e in events if e not in m.events]
                lack = [e for e in m.events if e not in events]
                bad = ("events", f"unexpected events {extra}, missing events {lack}, {len(events)} instead of {len(m.events)}")
            elif sorted(x[0][0] for x in targets.LOG) != sorted(m.runs):
                bad = ("runs", f"runs {targets.LOG} instead of {m.runs}")
            elif [sorted((t.id, r) for t, r in e.queue) for e in ex.values()] != [sorted(q) for q in m.queues.values()]:
                bad = ("submitted", f"submitted {[[(t.id, r) for t, r in e.queue] for e in ex.values()]} instead of {m.queues}")
            if bad:
                res.violation(f"{name}-{bad[0]}", f"task set {name} on the {kind} store, after {done} (clock {m.now}): {bad[1]}", word=list(word), store=kind)
                return
            res.seen("states", (name, kind, sorted(map(str, m.next.items())), sorted(m.running.items()), m.now))
    finally:
        s.shutdown()
        for b in backs.values():
            b.drop()
    res.count(traces_validated_against_impl=1)


def items(tier):
    out = [(n, "memory", 3 if tier == "quick" else 5, first) for n in SETS for first in WORDS]
    if tier == "quick":
        out = [(n, "memory", 4, first) for n in SETS for first in WORDS]
        out += [(n, k, 2, None) for n in ("interval-all-grace", "date-later", "explicit-past", "no-executor", "two-stores") for k in ("file", "sql", "redis", "mongo")]
    else:
        out += [(n, k, 3, first) for n in SETS for k in ("file", "sql", "redis", "mongo") for first in WORDS]
    return out


def explore(item, res, tier, seed):
    name, kind, depth, first = item
    if not Backend.available(kind):
        res.cap(f"{kind} is not available here")
        res.count(transitions=0, states=0, traces_validated_against_impl=0)
        return
    try:
        rest = itertools.product(WORDS, repeat=depth - (first is not None))
        for n, w in enumerate(rest):
            word = ((first,) if first else ()) + w
            run_word(name, kind, word, res)
            if n < 1:
                res.sample({"tasks": name, "store": kind, "word": list(word)})
    finally:
        clock.off()
