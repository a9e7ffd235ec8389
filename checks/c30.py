"""Inspection: queries, previews and scheduler information tell what is there, and change nothing."""
from __future__ import annotations

import itertools
from datetime import datetime, timedelta, timezone

from mc import clock, targets
from mc.stores import Backend, scheduler

LEVEL = "model_checking"
ITEM_CPU = 800
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
H = timedelta(hours=1)
M = timedelta(minutes=1)
BOUNDS = {
    "quick": "a running and a stopped scheduler with 11 tasks (three states, three stores, three executors, five trigger kinds, ties, upper and lower case): every combination of up to 3 of 3 stores, 5 states, 4 executors, 9 triggers and 20 texts, with 8 sort keys in both directions; previews of 17 triggers x 3 task states x 5 stores x counts 1-4 and the real runs at the previewed instants; all words of 4 of 14 calls with all information after each",
    "thorough": "all combinations of 4 conditions, previews of up to 8 runs, words of 5 calls",
}
ASSUMPTIONS = ["the runs are made exactly at their times", "order among equal keys is left open"]
MIN = {"queries": 20000}


def items(tier):
    out = [("query", running, i) for running in (True, False) for i in range(6)]
    out += [("preview", kind) for kind in ("memory", "file", "sql", "redis", "mongo")]
    n = 4 if tier == "quick" else 5
    out += [("words", w, n) for w in itertools.product(CALLS, repeat=2)]
    return out


def explore(item, res, tier, seed):
    clock.set_now(T)
    try:
        {"query": query, "preview": preview, "words": words}[item[0]](item, res, tier)
    finally:
        clock.off()


# ---------------------------------------------------------------- queries
def helper(x=None):
    return x


# id, name, fn, trigger alias+class, description part, executor, store, paused, next run
TASKS = [
    ("a1", "Alpha", targets.noop, "interval", "default", "default", T + 2 * H),
    ("a2", "alpha", targets.noop, "interval", "default", "second", T + 2 * H),
    ("B1", "beta", targets.other, "cron", "Pool", "default", T + 1 * H),
    ("b2", "Beta two", targets.record, "date", "Pool", "Third", T + 3 * H),
    ("c1", "paused-one", targets.noop, "interval", "default", "default", None),
    ("C2", "Paused-Two", helper, "cron", "x", "second", None),
    ("d1", "scheduled", targets.Holder.smeth, "or", "default", "default", T + 2 * H),
    ("d2", "and-task", targets.Holder("h").meth, "and", "x", "second", T + 30 * M),
    ("e1", "same", targets.noop, "interval", "default", "default", T + 5 * H),
    ("e2", "same", targets.noop, "interval", "default", "default", T + 5 * H),
    ("f_%", "Cron in the name", targets.boom, "date", "x", "default", T + 4 * H),
]
STATES = {True: "scheduled", False: "paused"}


def trigger(kind, when=None):
    from asyncz.triggers import AndTrigger, CronTrigger, DateTrigger, IntervalTrigger, OrTrigger

    every = IntervalTrigger(hours=1, start_at=T, timezone=UTC)
    return {
        "interval": lambda: every,
        "cron": lambda: CronTrigger(hour="*", timezone="UTC"),
        "date": lambda: DateTrigger(when or T + H, timezone=UTC),
        "or": lambda: OrTrigger([every, CronTrigger(hour="*/3", timezone="UTC")]),
        "and": lambda: AndTrigger([every, CronTrigger(hour="*/3", timezone="UTC")]),
    }[kind]()


CLASSES = {"interval": "IntervalTrigger", "cron": "CronTrigger", "date": "DateTrigger", "or": "OrTrigger", "and": "AndTrigger"}


def world(running):
    from asyncz.executors import DebugExecutor
    from asyncz.stores.memory import MemoryStore

    s = scheduler({"default": MemoryStore(), "second": MemoryStore(), "Third": MemoryStore()}, executors={"default": DebugExecutor(), "Pool": DebugExecutor(), "x": DebugExecutor()})
    if running:
        s.start()
    facts = []
    for ident, name, fn, kind, executor, store, when in TASKS:
        t = s.add_task(fn, trigger(kind), id=ident, name=name, executor=executor, store=store, next_run_time=when)
        state = "pending" if not running else "paused" if when is None else "scheduled"
        facts.append(
            {
                "id": ident, "name": name, "executor": executor, "store": store, "state": state, "next": when,
                "alias": kind if t.trigger.alias else "", "class": CLASSES[kind], "text": [ident, name, fn.__qualname__, f"{fn.__module__}:{fn.__qualname__}", t.trigger.alias or "", CLASSES[kind], str(t.trigger), executor, store, state],
            }
        )
    return s, facts


def query(item, res, tier):
    from asyncz.enums import TaskScheduleState

    _, running, part = item
    s, facts = world(running)
    stores = (None, "default", "second", "Third")
    states = (None, "scheduled", "paused", "pending", " Paused ", TaskScheduleState.SCHEDULED)
    executors = (None, "default", "Pool", "pool", "x")
    triggers = (None, "interval", "Cron", " date ", "CronTrigger", "ortrigger", "AndTrigger", "or", "tr", "nothing")
    texts = (None, "", " ", "a", "ALPHA", "beta", " two ", "same", "noop", "mc.targets:noop", "cron", "Trigger", "interval[", "pool", "second", "paused", "sched", "Smeth", "_%", "%", "no such thing")
    sorts = ("id", "name", "next_run_time", "schedule_state", "executor", "store", "trigger", None)
    keys = {
        "id": lambda f: f["id"].lower(),
        "name": lambda f: f["name"].lower(),
        "next_run_time": lambda f: (f["next"] is None, f["next"] or T),
        "schedule_state": lambda f: f["state"],
        "executor": lambda f: f["executor"].lower(),
        "store": lambda f: f["store"].lower(),
        "trigger": lambda f: (f["alias"] or f["class"]).lower(),
    }
    before = [(t.id, t.next_run_time, t.pending) for t in s.get_tasks()]
    by_id = {f["id"]: f for f in facts}
    most = 3 if tier == "quick" else 4
    combos = list(itertools.product(stores, states, executors, triggers))
    for n, (store, state, executor, trig) in enumerate(combos):
        if n % 6 != part:
            continue
        used = sum(x is not None for x in (store, state, executor, trig))
        if used > most:
            continue
        for q in texts if used < most else texts[:1]:
            want = set()
            st = state.value if isinstance(state, TaskScheduleState) else state and state.strip().lower()
            for f in facts:
                if store and f["store"] != store or st and f["state"] != st or executor and f["executor"] != executor:
                    continue
                if trig and trig.strip().lower() not in (f["alias"].lower(), f["class"].lower()):
                    continue
                if q and not any(q.strip().lower() in x.lower() for x in f["text"]):
                    continue
                want.add(f["id"])
            for k, sort in enumerate(sorts):
                # all sort keys where there is something to sort
                if len(want) < 2 and k != n % len(sorts):
                    continue
                for desc in (False, True):
                    kw = {"schedule_state": state, "executor": executor, "trigger": trig, "q": q, "descending": desc}
                    if sort:
                        kw["sort_by"] = sort
                    got = s.get_task_infos(store, **kw)
                    res.count(queries=1, transitions=1)
                    where = f"{'running' if running else 'stopped'} scheduler, get_task_infos({store!r}, {kw})"
                    ids = [i.id for i in got]
                    if set(ids) != want or len(ids) != len(want):
                        res.violation(f"found:{'text' if q else 'filter'}", f"{where}: {ids} instead of {sorted(want)}")
                        continue
                    ks = [keys[sort or "next_run_time"](by_id[i]) for i in ids]
                    if any((b < a) if not desc else (a < b) for a, b in zip(ks, ks[1:])):
                        res.violation(f"order:{sort}", f"{where}: {ids} are not in order")
                    if n % 7 == 0:
                        for i in got:
                            f = by_id[i.id]
                            if (i.name, i.executor, i.store_alias, i.schedule_state.value, i.next_run_time, i.trigger_name, i.callable_name, i.paused, i.pending) != (f["name"], f["executor"], f["store"], f["state"], f["next"], f["class"], f["text"][2], f["state"] == "paused", f["state"] == "pending"):
                                res.violation("content", f"{where}: {i!r} does not describe {f}")
    for bad in ("nope", "", "ID", "next"):
        try:
            s.get_task_infos(sort_by=bad)
            res.violation("bad-sort", f"sort key {bad!r} is accepted")
        except ValueError:
            pass
    for bad in ("running", "nope", "sched"):
        try:
            s.get_task_infos(schedule_state=bad)
            res.violation("bad-state", f"state {bad!r} is accepted")
        except ValueError:
            pass
    if [(t.id, t.next_run_time, t.pending) for t in s.get_tasks()] != before:
        res.violation("changed", "queries change the tasks")
    res.count(traces_validated_against_impl=1)
    res.seen("states", item)
    res.sample({"running": running, "tasks": len(facts)})
    if running:
        s.shutdown()


# ---------------------------------------------------------------- previews
def triggers_to_preview():
    from asyncz.triggers import AndTrigger, CronTrigger, DateTrigger, IntervalTrigger, OrTrigger

    I, C, D = IntervalTrigger, CronTrigger, DateTrigger  # noqa: E741
    return {
        "i1": lambda: I(hours=1, start_at=T, timezone=UTC),
        "i-past": lambda: I(minutes=7, start_at=T - timedelta(days=1, seconds=3), timezone=UTC),
        "i-free": lambda: I(minutes=50, timezone=UTC),
        "i-end": lambda: I(hours=1, start_at=T, end_at=T + 2 * H, timezone=UTC),
        "i-ended": lambda: I(hours=1, start_at=T - 5 * H, end_at=T - H, timezone=UTC),
        "i-later": lambda: I(hours=1, start_at=T + 10 * H, timezone=UTC),
        "i-zone": lambda: I(days=1, start_at="2030-03-29 12:00:00", timezone="Europe/Berlin"),
        "c5": lambda: C(minute="*/5", timezone="UTC"),
        "c-sec": lambda: C(second="*/13", timezone="UTC"),
        "c-zone": lambda: C(hour="2", minute="30", month="3,10", day="last sun", timezone="Europe/Berlin"),
        "c-end": lambda: C(hour="*", end_at=T + 3 * H, timezone="UTC"),
        "c-year": lambda: C(year="2031", timezone="UTC"),
        "d": lambda: D(T + H, timezone=UTC),
        "d-now": lambda: D(T, timezone=UTC),
        "or": lambda: OrTrigger([I(hours=2, start_at=T, timezone=UTC), C(minute="0,30", timezone="UTC"), D(T + M, timezone=UTC)]),
        "or-ends": lambda: OrTrigger([D(T + H, timezone=UTC), D(T + 2 * H, timezone=UTC)]),
        "and": lambda: AndTrigger([I(minutes=40, start_at=T, timezone=UTC), C(minute="0", timezone="UTC")]),
    }


def preview(item, res, tier):
    kind = item[1]
    if not Backend.available(kind):
        return
    top = 4 if tier == "quick" else 8
    for name, make in triggers_to_preview().items():
        for state in ("scheduled", "paused", "explicit", "pending", "stopped-paused"):
            for count in range(1, top + 1):
                one_preview(kind, name, make, state, count, res)
    back = Backend(kind)
    s = scheduler({"default": back})
    s.start()
    s.add_task(targets.noop, "interval", hours=1, id="a")
    for bad in (0, -1, 51, 1000):
        try:
            s.preview_task_runs("a", count=bad)
            res.violation("count", f"{bad} runs can be previewed")
        except ValueError:
            pass
    if len(s.preview_task_runs("a", count=50).run_times) != 50:
        res.violation("count", "50 runs can't be previewed")
    if s.preview_task_runs("missing") is not None:
        res.violation("missing", "a missing task has a preview")
    s.shutdown()
    back.drop()


def one_preview(kind, name, make, state, count, res):
    lives = []
    for look in (True, False):
        clock.set_now(T)
        targets.LOG.clear()
        back = Backend(kind)
        s = scheduler({"default": back})
        kw = {}
        if state in ("paused", "stopped-paused"):
            kw["next_run_time"] = None
        if state == "explicit":
            kw["next_run_time"] = T + 10 * M
        if state not in ("pending", "stopped-paused"):
            s.start()
        s.add_task(targets.record, make(), id="t", max_instances=1, coalesce=False, mistrigger_grace_time=None, **kw)
        shown = None
        before = s.get_task("t")
        state_before = before and (before.next_run_time, str(before.trigger), before.pending)
        if look:
            shown = s.preview_task_runs("t", count=count)
            again = s.preview_task_runs("t", count=count)
            if before and (shown.run_times, shown.exhausted) != (again.run_times, again.exhausted):
                res.violation(f"repeat:{name}", f"{kind} store, {name}, {state}: a second preview shows {again.run_times} after {shown.run_times}")
        after = s.get_task("t")
        if (after and (after.next_run_time, str(after.trigger), after.pending)) != state_before:
            res.violation(f"changes:{name}", f"{kind} store, {name}, {state}: the preview changes the task")
        if state in ("pending", "stopped-paused"):
            s.start()
        if state in ("paused", "stopped-paused") and before:
            s.resume_task("t")
        runs = []
        for _ in range(count + 1):
            t = s.get_task("t")
            if t is None or t.next_run_time is None:
                break
            runs.append(t.next_run_time)
            clock.set_now(t.next_run_time)
            n = len(targets.LOG)
            s.process_tasks()
            if len(targets.LOG) != n + 1:
                res.violation(f"runs:{name}", f"{kind} store, {name}, {state}: {len(targets.LOG) - n} runs at {runs[-1]}")
                break
        lives.append(runs)
        s.shutdown()
        back.drop()
        if look:
            first = shown
    where = f"{kind} store, trigger {name}, task {state}, preview of {count}"
    if lives[0] != lives[1]:
        res.violation(f"influence:{name}", f"{where}: runs at {lives[0]}, without the preview {lives[1]}")
    if first is None:
        if lives[1]:
            res.violation(f"none:{name}", f"{where}: nothing is shown, runs at {lives[1]}")
    else:
        if list(first.run_times) != lives[1][:count]:
            res.violation(f"shown:{name}", f"{where}: shows {[str(x) for x in first.run_times]}, runs at {[str(x) for x in lives[1][:count]]}")
        if first.exhausted != (len(lives[1]) <= count):
            res.violation(f"exhausted:{name}", f"{where}: exhausted is {first.exhausted}, runs at {[str(x) for x in lives[1]]}")
        if first.requested_count != count or first.task.id != "t" or first.generated_at != T:
            res.violation(f"head:{name}", f"{where}: {first!r}")
    res.count(queries=2, transitions=count, traces_validated_against_impl=1)
    res.seen("states", (kind, name, state, count))
    res.seen("outcomes", tuple(lives[1]))


# ---------------------------------------------------------------- words
CALLS = ("start", "start-paused", "pause", "resume", "shutdown", "time", "add", "add-paused", "pause-task", "resume-task", "delete", "store", "executor", "process")
FIELDS = ("id", "name", "executor", "store_alias", "next_run_time", "coalesce", "max_instances", "mistrigger_grace_time", "pending", "submitted", "schedule_state", "paused")


def words(item, res, tier):
    _, first, n = item
    for rest in itertools.product(CALLS, repeat=n - 2):
        word = first + rest
        life(word, res)


def life(word, res):
    from asyncz.executors import DebugExecutor
    from asyncz.stores.memory import MemoryStore

    now = T
    clock.set_now(now)
    s = scheduler({"default": MemoryStore()})
    started, state, depth = None, "stopped", 0
    for i, op in enumerate(word):
        try:
            if op in ("start", "start-paused"):
                s.start(paused=op == "start-paused")
                depth += 1
                if started is None:
                    started = now
                    state = "paused" if op == "start-paused" else "running"
            elif op == "shutdown":
                s.shutdown()
                depth -= 1
                if depth == 0:
                    started, state = None, "stopped"
            elif op == "pause":
                s.pause()
                state = "paused"
            elif op == "resume":
                s.resume()
                state = "running"
            elif op == "time":
                now += timedelta(seconds=100.5)
                clock.set_now(now)
            elif op == "add":
                s.add_task(targets.noop, "interval", minutes=1, id="a", args=[[1]], kwargs={"k": 1}, replace_existing=True)
            elif op == "add-paused":
                s.add_task(targets.noop, "interval", minutes=1, id="p", next_run_time=None, store="more" if "more" in s.stores else None, replace_existing=True)
            elif op == "pause-task":
                s.pause_task("a")
            elif op == "resume-task":
                s.resume_task("p")
            elif op == "delete":
                s.delete_task("a")
            elif op == "store":
                if "more" in s.stores:
                    s.remove_store("more")
                else:
                    s.add_store(MemoryStore(), "more")
            elif op == "executor":
                if "more" in s.executors:
                    s.remove_executor("more")
                else:
                    s.add_executor(DebugExecutor(), "more")
            elif op == "process":
                s.process_tasks()
        except Exception:
            pass
        if i < len(word) - 2 and i > 0:
            continue  # seen as a shorter word already
        where = f"after {word[: i + 1]}"
        # before the start a replacing task waits beside the one it is going to replace
        tasks, infos = [], []
        for values, into in ((s.get_tasks(), tasks), (s.get_task_infos(), infos)):
            seen = {}
            for v in values:
                k = (v.store_alias, v.id)
                seen[k] = seen.get(k, 0) + 1
                into.append(((*k, seen[k]), v))
        tasks, infos = dict(tasks), dict(infos)
        if set(tasks) != set(infos):
            res.violation("infos", f"{where}: information about {sorted(map(str, infos))}, tasks are {sorted(map(str, tasks))}")
            continue
        count = {"pending": 0, "paused": 0, "scheduled": 0}
        for k, t in tasks.items():
            x = infos[k]
            want = "pending" if t.pending else "paused" if t.next_run_time is None else "scheduled"
            count[want] += 1
            bad = [f for f in FIELDS if getattr(x, f) != getattr(t, f)]
            if bad or x.schedule_state.value != want or x.args != tuple(t.args) or x.kwargs != dict(t.kwargs) or x.trigger_description != str(t.trigger):
                res.violation("info", f"{where}: {x!r} differs from its task in {bad}")
            if (t.store_alias, t.id, 2) not in tasks and s.get_task_info(t.id, t.store_alias) != x:
                res.violation("info-one", f"{where}: get_task_info and get_task_infos differ for {k}")
            x.kwargs["new"] = 1
            if "new" in t.kwargs:
                res.violation("info-linked", f"{where}: changing the information changes the task")
            for f in ("next_run_time", "id"):
                try:
                    setattr(x, f, None)
                    res.violation("info-mutable", f"{where}: {f} of the information can be set")
                except Exception:
                    pass
        info = s.get_scheduler_info()
        want = {
            "state_label": state,
            "running": state != "stopped",
            "started_at": started,
            "uptime_seconds": None if started is None else (now - started).total_seconds(),
            "task_count": len(tasks),
            "scheduled_task_count": count["scheduled"],
            "paused_task_count": count["paused"],
            "pending_task_count": count["pending"],
            "submitted_task_count": sum(1 for t in tasks.values() if t.submitted),
            "executor_aliases": tuple(sorted(s.executors)),
            "store_aliases": tuple(sorted(s.stores)),
            "identity": s.identity,
        }
        for where2, x in ((where, info), (f"{where}, instances", s.get_scheduler_instance_infos()[0])):
            have = {k: getattr(x, k, want[k]) for k in want}
            if have != want:
                res.violation(f"scheduler:{sorted(k for k in want if have[k] != want[k])}", f"{where2}: scheduler information {[(k, have[k], want[k]) for k in want if have[k] != want[k]]} (got, expected)")
        if len(s.get_scheduler_instance_infos()) != 1 or x.active != (state != "stopped") or x.stale != (state == "stopped") or x.last_seen_at != now or x.heartbeat_age_seconds:
            res.violation("instance", f"{where}: instance information {x!r}")
        res.count(queries=3)
        res.seen("outcomes", tuple(sorted((k, str(v)) for k, v in want.items() if k != "identity")))
    res.count(transitions=len(word), traces_validated_against_impl=1)
    res.seen("states", word)
    while s.running:
        s.shutdown()
