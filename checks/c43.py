"""What the pages of the dashboard show: each cell, count and order as the scheduler and the storages report them."""
from __future__ import annotations

import contextlib
import itertools
import json
import urllib.parse
from datetime import datetime, timedelta, timezone

from checks.c36 import Page, World, add, follow, resolve
from mc import clock, targets

LEVEL = "model_checking"
ITEM_CPU = 400
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
S = timedelta(seconds=1)
BOUNDS = {
    "quick": "the overview, task, detail, timeline, runtime and instance pages for 3 states of the scheduler x 6 sets of tasks (0 to 51) x 4 histories; history, event, audit and log pages and their tables for all values of the filters, two off at a time, over a history of every kind of run; every page of the task list, forwards, backwards and by number, for 12 sizes around the page size, and what each button and bulk action leaves of page and filters; every run and every task opened",
    "thorough": "three filters off at a time",
}
ASSUMPTIONS = ["the words around the values are not judged, the values and their order are", "runs of the same task id in two stores are not told apart"]
MIN = {"requests": 1500}
LABEL = {"succeeded": "Succeeded", "failed": "Failed", "missed": "Missed", "max_instances": "Max Instances", "running": "Running", "manual": "Manual", "scheduled": "Scheduled", "unknown": "Unknown", "paused": "Paused", "pending": "Pending"}


def norm(text):
    return " ".join(str(text).split())


class Shown(Page):
    def inside(self, e):
        return [x for x in self.elements if any(e is u for u in x["up"])]

    def tables(self):
        """The cells of each table body, by row."""
        out = []
        for body in [e for e in self.elements if e["tag"] == "tbody"]:
            rows = []
            for row in [e for e in self.inside(body) if e["tag"] == "tr"]:
                cells = [e for e in self.inside(row) if e["tag"] == "td"]
                if "colspan" not in cells[0]["attrs"]:
                    rows.append([norm(c["text"]) for c in cells])
            out.append(rows)
        return out

    def stats(self):
        """label -> (value, the numbers of the detail)"""
        out = {}
        for card in [e for e in self.elements if "az-stat-card" in e["attrs"].get("class", "").split()]:
            parts = {x["attrs"].get("class"): norm(x["text"]) for x in self.inside(card)}
            out[parts["az-stat-label"]] = (parts["az-stat-value"], tuple(w.strip(",") for w in parts["az-stat-detail"].split() if w.strip(",").isdigit()))
        return out

    def pairs(self):
        out = {}
        for e in [e for e in self.elements if e["attrs"].get("class") == "az-kv"]:
            a, b = [x for x in self.inside(e) if x["tag"] in ("span", "strong")][:2]
            out[norm(a["text"])] = norm(b["text"])
        return out

    def link(self, text):
        return [e for e in self.elements if e["tag"] == "a" and norm(e["text"]) == text]

    def field(self, name):
        return next(e for e in self.elements if e["attrs"].get("name") == name)

    def chosen(self, name):
        """What a filter form shows."""
        e = self.field(name)
        if e["tag"] != "select":
            return e["attrs"].get("value", "")
        on = [o for o in self.inside(e) if o["tag"] == "option" and "selected" in o["attrs"]]
        return on[-1]["attrs"].get("value", norm(on[-1]["text"])) if on else ""

    def options(self, name):
        return [o["attrs"].get("value", norm(o["text"])) for o in self.inside(self.field(name)) if o["tag"] == "option"]


def stamp(t):
    return t.astimezone(UTC).strftime("%Y-%m-%d %H:%M:%S") if t else None


def took(r):
    if r.submitted_at is None or r.finished_at is None:
        return "-"
    return f"{max((r.finished_at - r.submitted_at) // timedelta(milliseconds=1), 0)} ms"


# ---------------------------------------------------------------- a world with a past
def ensure(res, got, want, key, where):
    res.count(transitions=1)
    if got != want:
        if isinstance(got, list) and isinstance(want, list):
            i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
            got, want = f"{len(got)} rows, row {i}: {got[i:i + 1]}", f"{len(want)} rows: {want[i:i + 1]}"
        elif isinstance(got, dict) and isinstance(want, dict):
            k = {k for k in {*got, *want} if got.get(k) != want.get(k)}
            got, want = {x: got.get(x) for x in sorted(k)}, {x: want.get(x) for x in sorted(k)}
        res.violation(key, f"{where}: shows {got}, expected {want}")
        return False
    return True


def fetch(d, path, res, where):
    r = d.get(path)
    res.count(requests=1, traces_validated_against_impl=1)
    if r.status != 200:
        res.violation("status", f"{where}: {path} answers {r}")
        return None
    return Shown(r.text)


def sets(w, n):
    """Tasks of all kinds."""
    for i in range(n):
        kw = {"store": ("default", "second")[i % 2], "executor": ("default", "pool", "pool")[i % 3], "name": (None, "Name & <b>", "zeta")[i % 3]}
        if i % 4 == 1:
            kw["next_run_time"] = None
        if i % 5 == 2:
            w.s.add_task(targets.record, "cron", minute=str(i), id=f"t{i:02}", args=[i], kwargs={"k": [i]}, timezone=UTC, max_instances=i, **kw)
        elif i % 5 == 3:
            kw.pop("next_run_time", None)
            w.s.add_task(targets.noop, "date", run_at=T + (60 + i) * S, id=f"t{i:02}", timezone=UTC, coalesce=False, mistrigger_grace_time=None, **kw)
        else:
            add(w, f"t{i:02}", seconds=i + 5, mistrigger_grace_time=i + 0.5, **kw)


def past(w, kind):
    """Runs of every source and end; recorded by the dashboard."""
    ids = [t.id for t in w.s.get_tasks()]
    if kind == "none" or not ids or w.s.state == 0:
        return
    ex = w.s.executors
    now = T
    for k, i in enumerate(ids[:3] * (3 if kind == "long" else 1)):
        now += timedelta(milliseconds=1250 * (k + 1))
        clock.set_now(now)
        with contextlib.suppress(Exception):
            w.s.run_task(i, remove_finished=False)
        for a in ("default", "pool"):
            if ex[a].queue and (kind != "open" or k % 2):
                now += timedelta(milliseconds=333)
                clock.set_now(now)
                ex[a].finish()


def task_cells(i, latest, base):
    last = "Never"
    if latest is not None:
        last = f"{(latest.finished_at or latest.submitted_at).isoformat()} {LABEL[latest.status]}"
    return [
        f"{i.id} {norm(i.name or '-')} {i.callable_reference or i.callable_name or '-'}",
        f"{i.trigger_alias or i.trigger_name} {norm(i.trigger_description or '-')}",
        i.next_run_time.isoformat() if i.next_run_time else "-",
        last,
        f"{i.store_alias or 'default'} {i.executor or 'default'}",
    ]


def run_cells(r):
    return [
        f"{stamp(r.submitted_at) or '-'} UTC",
        f"{r.task_id} {norm(r.task_name or '-')} {r.callable_reference or '-'} Run {r.run_id}",
        LABEL[r.source] + (f" {r.coalesced_run_count} coalesced" if r.coalesced_run_count else ""),
        r.scheduler_identity or "-",
        LABEL[r.status],
        took(r),
        "Inspect Logs",
    ]


def log_cells(e):
    x = e.extra or {}
    return [stamp(e.ts), e.level, e.task_id or "-", x.get("run_id") or "-", x.get("scheduler_identity") or "-", e.logger, norm(e.message)]


def latest(d, id):
    return next(iter(d.history.query(task_id=id, limit=1)), None)


SETS = (0, 1, 4, 10, 11, 51)


def live(state, n, kind, res):
    w = World(state, dashboard=True)
    d = w.dashboard
    sets(w, n)
    if n > 3 and state != "stopped":
        w.s.add_store("memory", "more")
    past(w, kind)
    clock.set_now(T + 100 * S)
    s = w.s
    infos = s.get_task_infos()
    about = s.get_scheduler_info()
    count = {k: sum(i.schedule_state.value == k for i in infos) for k in ("scheduled", "paused", "pending")}
    words = lambda *v: tuple(map(str, v))  # noqa: E731
    world = f"scheduler {state}, {n} tasks, {kind} history"
    runs = d.history.query(limit=10**6)
    # the overview
    where = f"{world}: the overview"
    if p := fetch(d, "/", res, where):
        ensure(res, p.stats(), {
            "Scheduler": ("Stopped" if state == "stopped" else "Running", ()),
            "Total Tasks": (str(len(infos)), words(count["scheduled"], count["paused"])),
            "Scheduled": (str(count["scheduled"]), ()), "Stores / Executors": (f"{len(s.stores)} / {len(s.executors)}" if state != "stopped" else f"{len(about.store_aliases)} / {len(about.executor_aliases)}", ()),
            "Paused": (str(count["paused"]), ()), "Pending": (str(count["pending"]), ()), "Timezone": (str(s.timezone), ()),
            "Runs": (str(len(runs)), words(sum(r.status == "succeeded" for r in runs), sum(r.status == "failed" for r in runs))),
        }, "overview:numbers", where)
        tasks, recent = p.tables()
        ensure(res, tasks, [task_cells(i, latest(d, i.id), d.base) + [LABEL[i.schedule_state.value]] for i in infos[:10]], "overview:tasks", where)
        ensure(res, recent, [run_cells(r) for r in runs[:6]], "overview:runs", where)
    # the first page of the tasks
    where = f"{world}: the tasks page"
    if p := fetch(d, "/tasks/", res, where):
        ensure(res, p.stats(), {"Visible": (str(len(infos)), words(len(infos))), "Scheduled": (str(count["scheduled"]), ()), "Paused": (str(count["paused"]), ()), "Pending": (str(count["pending"]), ())}, "tasks:numbers", where)
        rows = p.tables()[0]
        listed = s.get_task_infos(sort_by="next_run_time")[:50]
        ensure(res, [r[1:6] for r in rows], [task_cells(i, latest(d, i.id), d.base) for i in listed], "tasks:rows", where)
        ensure(res, [(r[6].split()[-1], "Pause" in r[6].split(), "Resume" in r[6].split()) for r in rows], [(LABEL[i.schedule_state.value], i.schedule_state.value == "scheduled", i.schedule_state.value != "scheduled") for i in listed], "tasks:state", where)
        ensure(res, p.options("executor"), ["", *sorted({i.executor for i in infos})], "tasks:executors", where)
        ensure(res, p.options("trigger"), ["", *sorted({i.trigger_alias for i in infos})], "tasks:triggers", where)
    # each task
    for i in infos:
        where = f"{world}: the page of the task {i.id}"
        if not (p := fetch(d, f"/tasks/{i.id}", res, where)):
            continue
        task = s.get_task(i.id)
        ensure(res, p.pairs(), {
            "State": i.schedule_state.value, "Next Run": str(i.next_run_time) if i.next_run_time else "-", "Store / Executor": f"{i.store_alias} / {i.executor}",
            "Trigger": norm(i.trigger_description), "Coalesce": str(task.coalesce), "Max Instances": str(task.max_instances),
            "Misfire Grace": "-" if task.mistrigger_grace_time is None else f"{task.mistrigger_grace_time}s", "Callable": task.fn_reference,
        }, "detail:values", where)
        pres = [e["text"] for e in p.elements if e["tag"] == "pre"]
        ensure(res, [json.loads(x) for x in pres], [list(task.args), dict(task.kwargs)], "detail:arguments", where)
        preview, recent, logs = p.tables()
        want = s.preview_task_runs(i.id, count=5).run_times
        ensure(res, preview, [[str(k + 1), str(t)] for k, t in enumerate(want)], "detail:preview", where)
        ensure(res, recent, [[f"{stamp(r.submitted_at)} UTC" if r.submitted_at else "-", LABEL[r.status], LABEL[r.source], took(r), "Inspect"] for r in runs if r.task_id == i.id][:6], "detail:runs", where)
        ensure(res, logs, [[stamp(e.ts), e.level, e.logger, norm(e.message)] for e in d.log.query(task_id=i.id, limit=10**6)][:6], "detail:logs", where)
    # what comes next
    for per, limit in (("", ""), (1, 5), (10, 500), (3, 1), (0, 0), (11, 501), ("x", "-1")):
        where = f"{world}: the timeline with per_task={per}, limit={limit}"
        if not (p := fetch(d, f"/timeline/?per_task={per}&limit={limit}", res, where)):
            continue
        n_per = {"": 3, "x": 3, 0: 1, 11: 10}.get(per, per)
        n_all = {"": 100, 0: 1, "-1": 1, 501: 500}.get(limit, limit)
        previews = [(i, s.preview_task_runs(i.id, i.store_alias, count=n_per)) for i in infos]
        want = sorted(((t, i) for i, v in previews for t in v.run_times), key=lambda x: x[0])
        full = [[t.isoformat(timespec="seconds"), f"{i.id} {norm(i.name or i.id)} {i.callable_reference or '-'}", f"{i.trigger_alias} {norm(i.trigger_description)}", f"{i.store_alias} {i.executor}", LABEL[i.schedule_state.value]] for t, i in want]
        rows = p.tables()[0]
        ok = ensure(res, [r[0] for r in rows], [r[0] for r in full][:n_all], "timeline:times", where)
        if ok:
            # of runs at the same time any may be the last one shown
            tail = rows[-1][0] if rows else None
            ensure(res, sorted(r for r in rows if r[0] != tail), sorted(r for r in full[:n_all] if r[0] != tail), "timeline:rows", where)
            ensure(res, all(r in full for r in rows) and len({tuple(r) for r in rows}) == len(rows), True, "timeline:last", where)
        ends = sum(v.exhausted for _, v in previews)
        stats = p.stats()
        ensure(res, {k: stats[k][0] for k in ("Upcoming Runs", "Tasks Scanned", "Exhausted")}, {"Upcoming Runs": str(len(want)), "Tasks Scanned": str(len(infos)), "Exhausted": str(ends)}, "timeline:numbers", where)
        ensure(res, (stats["Upcoming Runs"][1], stats["Tasks Scanned"][1], stats["Next Due"][0]), (words(min(len(want), n_all)), words(n_per), full[0][0] if full else "None"), "timeline:details", where)
        ensure(res, (p.chosen("per_task"), p.chosen("limit")), (str(n_per), str(n_all)), "timeline:form", where)
    # the scheduler
    where = f"{world}: the runtime page"
    if p := fetch(d, "/runtime/", res, where):
        ensure(res, p.stats(), {
            "Scheduler": ("Stopped" if state == "stopped" else "Running", words(int(about.state))), "Task Inventory": (str(len(infos)), words(count["scheduled"], count["paused"], count["pending"])),
            "Registered": (str(sum(i.submitted for i in infos)), ()), "Components": (f"{len(s.stores)} / {len(s.executors)}", ()),
        }, "runtime:numbers", where)
        pairs = p.pairs()
        up = "-" if about.uptime_seconds is None else f"{about.uptime_seconds:.3f}s"
        ensure(res, pairs, {
            "Scheduler ID": "the-identity", "Started At": about.started_at.isoformat(timespec="seconds") if about.started_at else "-", "Uptime": up, "Timezone": str(s.timezone),
            "Store Retry": f"{s.store_retry_interval}s", "Startup Delay": f"{s.startup_delay}s", "Snapshot Time": (T + 100 * S).isoformat(timespec="seconds"),
        }, "runtime:values", where)
        stores, executors = p.tables()
        for rows, parts, key in ((stores, s.stores, "store_alias"), (executors, s.executors, "executor")):
            ensure(res, [(r[0], r[1].split()[:2], r[2]) for r in rows], [(a, [type(c).__name__, type(c).__module__], str(sum(getattr(i, key) == a for i in infos))) for a, c in sorted(parts.items())], f"runtime:{key}", where)
    where = f"{world}: the instances page"
    if p := fetch(d, "/instances/", res, where):
        (x,) = s.get_scheduler_instance_infos()
        sec = lambda v: "-" if v is None else f"{v:.3f}s"  # noqa: E731
        when = lambda v: v.isoformat(timespec="seconds") if v else "-"  # noqa: E731
        stats = p.stats()
        ensure(res, {k: stats[k][0] for k in ("Visible Instances", "Active", "Stale")}, {"Visible Instances": "1", "Active": str(int(x.active)), "Stale": str(int(x.stale))}, "instances:numbers", where)
        badge = "Active" if x.active else "Stale" if x.stale else LABEL.get(x.state_label, x.state_label.title())
        ensure(res, p.tables()[0], [[
            f"the-identity {x.scope}", f"{badge} State: {x.state_label}", f"{sec(x.heartbeat_age_seconds)} Last seen {when(x.last_seen_at)} Stale after {sec(x.stale_after_seconds)}",
            f"{sec(x.uptime_seconds)} Started {when(x.started_at)} {s.timezone}", f"Stores {', '.join(x.store_aliases) or '-'} Executors {', '.join(x.executor_aliases) or '-'}",
            f"{len(infos)} {count['scheduled']} scheduled {count['paused']} paused · {count['pending']} pending",
        ]], "instances:row", where)
    res.seen("states", (state, n, kind, len(runs)))
    res.sample({"state": state, "tasks": n, "history": kind, "runs": len(runs)})


# ---------------------------------------------------------------- what was recorded
def eventful():
    """Every kind of run, event, audit and log record."""
    w = World(dashboard=True)
    d, s = w.dashboard, w.s
    ex = s.executors["default"]
    s.add_task(targets.noop, "interval", seconds=5, id="a", name="Alpha", timezone=UTC, max_instances=1, coalesce=True, mistrigger_grace_time=1000)
    s.add_task(targets.boom, "interval", seconds=7, id="b", timezone=UTC, max_instances=2, coalesce=False, mistrigger_grace_time=1)
    s.add_task(targets.noop, "date", run_at=T + 3 * S, id="once", name="A <i>name</i> & more", timezone=UTC)
    now = T

    def at(seconds):
        nonlocal now
        now = now + timedelta(seconds=seconds)
        clock.set_now(now)

    at(1)
    d.post("/tasks/a/run")
    at(0.25)
    ex.finish()
    at(1)
    d.post("/tasks/a/run")
    at(0.1)
    d.post("/tasks/a/run")  # refused: it runs
    at(2)
    s.process_tasks()  # once
    at(6)
    s.process_tasks()  # a: full, b: due
    at(0.5)
    while ex.queue:
        at(0.3)
        ex.finish()
    at(12)
    s.process_tasks()  # a: coalesced, b: late
    at(5)
    while ex.queue:
        at(0.7)
        ex.finish()
    at(1)
    d.post("/tasks/gone/run")
    d.post("/tasks/b/pause")
    at(1)
    d.post("/tasks/b/resume")
    at(1)
    s.pause()
    s.resume()
    d.post("/tasks/a/run")
    s.add_store("memory", "more")
    s.remove_store("more")
    at(30)
    d.post("/tasks/hx/bulk/pause", {"ids": "b,gone"})
    d.post("/tasks/b/remove")
    runs = d.history.query(limit=1000)
    for k in range(30):
        run = runs[k % len(runs)]
        d.log.append({"ts": T + timedelta(seconds=k / 2), "level": ("DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL")[k % 5], "message": f"message {k} <b> ALPHA", "logger": ("asyncz.x", "other")[k % 2], "task_id": (run.task_id, None)[k % 3 == 2], "extra": ({"run_id": run.run_id, "scheduler_identity": "me"}, None, {"other": 1})[k % 3]})
    return w


LIMITS = ("", "1", "3", "1000", "0", "-4", "1001", "x", " 2 ")


def bounded(text):
    try:
        return max(1, min(int(text.strip() or 200), 1000))
    except ValueError:
        return 200


def listings(w):
    """path -> (parts, the filters, what the storage returns, the cells of a row)"""
    from asyncz.contrib.dashboard.events import EVENT_NAMES, get_scheduler_event_storage

    d = w.dashboard
    runs = d.history.query(limit=1000)
    audits = d.audit.query(limit=1000)
    logs = list(d.log.query(limit=1000))
    events = get_scheduler_event_storage().query(limit=1000)
    has = lambda q, *parts: q in " ".join(p or "" for p in parts).lower()  # noqa: E731

    def of_runs(task_id, status, source, q, n):
        return [r for r in runs if (not task_id or r.task_id == task_id) and (not status or r.status == status.lower()) and (not source or r.source == source.lower()) and has(q.lower(), r.task_id, r.task_name, r.callable_reference, r.scheduler_identity, "coalesced" if r.coalesced_run_count else "", r.status, r.source, r.run_id)][:n]

    def of_events(category, name, task_id, q, n):
        return [e for e in get_scheduler_event_storage().query(category=category.lower() or None, name=name.lower() or None, task_id=task_id or None, q=q or None, limit=1000) if (not category or e.category == category.lower()) and (not name or e.name == name.lower()) and (not task_id or e.task_id == task_id)][:n]

    def of_audit(action, status, q, n):
        return [r for r in audits if (not action or r.action == action.lower()) and (not status or r.status == status.lower()) and has(q.lower(), r.event_id, r.action, r.status, r.target_type, r.target_id, r.message, r.actor)][:n]

    def of_logs(task_id, run_id, level, q, n):
        return [e for e in logs if (not task_id or e.task_id == task_id) and (not run_id or (e.extra or {}).get("run_id") == run_id) and (not level or e.level == level.upper()) and q.lower() in e.message.lower()][:n]

    def event_cells(e):
        details = " ".join(f"{k}: {norm(v)}" for k, v in e.details.items() if v is not None) if e.details else "-"
        return [f"{stamp(e.observed_at)} UTC", f"{e.name.replace('.', ' ').replace('_', ' ').title()} {e.event_id}", e.category.title(), f"{e.task_id or e.alias or '-'} {e.store or '-'}", e.scheduler_identity or "-", details]

    def audit_cells(r):
        return [f"{r.created_at.isoformat(timespec='seconds')} {r.actor}", f"{r.action.replace('.', ' ').replace('_', ' ').title()} {r.event_id}", f"{r.target_id or '-'} {r.target_type}", norm(r.message or "-"), r.status.replace("_", " ").title()]

    count = lambda rows, **kw: sum(all(getattr(r, k) == v for k, v in kw.items()) for r in rows)  # noqa: E731
    terminal = ("task.executed", "task.error", "task.missed", "task.max_instances", "scheduler.shutdown")
    return {
        "history": (("/history/", "/history/partials/table"), {"task_id": ("", "a", "b", "A", " once ", "zzz"), "status": ("", "running", "succeeded", "failed", "missed", "max_instances", "FAILED", "zzz"), "source": ("", "manual", "scheduled", "Manual", "zzz"), "q": ("", "alpha", " ALPHA ", "coalesced", "<i>", "mc.targets", "%")}, of_runs, run_cells,
                    {"Recorded Runs": len(runs), "Running": count(runs, status="running"), "Succeeded": count(runs, status="succeeded"), "Failed / Missed": count(runs, status="failed") + count(runs, status="missed") + count(runs, status="max_instances")}),
        "events": (("/events/",), {"category": ("", "task", "store", "Scheduler", "executor", "zzz"), "name": ("", *sorted({e.name for e in events}), "TASK.ADDED", "zzz"), "task_id": ("", "a", "B", " b ", "zzz"), "q": ("", "noop", "default", "the-identity", "zzz")}, of_events, event_cells,
                   {"Observed Events": len(events), "Task Events": count(events, category="task"), "Scheduler Events": count(events, category="scheduler"), "Terminal Events": sum(e.name in terminal for e in events)}),
        "audit": (("/audit/",), {"action": ("", "task.run", "task.pause", "task.remove", "task.resume", "TASK.RUN", "zzz"), "status": ("", "succeeded", "failed", "warning", " Failed ", "zzz"), "q": ("", "gone", "GONE", " not found ", "dashboard", "zzz")}, of_audit, audit_cells,
                  {"Audit Events": len(audits), "Succeeded": count(audits, status="succeeded"), "Failed": count(audits, status="failed"), "Warnings": count(audits, status="warning")}),
        "logs": (("/logs/", "/logs/partials/table"), {"task_id": ("", "a", "once", "A", "zzz"), "run_id": ("", runs[0].run_id, f" {runs[-1].run_id} ", runs[0].run_id[:-1], "zzz"), "level": ("", "DEBUG", "info", "WARNING", "ERROR", "CRITICAL", "zzz"), "q": ("", "message 1", "MESSAGE 12", "alpha", " <b> ", "zzz")}, of_logs, log_cells, {}),
    }, EVENT_NAMES


def records(page, part, parts, off, res):
    w = eventful()
    d = w.dashboard
    pages, names = listings(w)
    paths, filters, select, cells, numbers = pages[page]
    space = list(itertools.product(*filters.values(), LIMITS))
    first = {}
    for k, values in enumerate(space):
        if sum(bool(v) for v in values) > off or k % parts != part:
            continue
        *given, limit = values
        query = urllib.parse.urlencode({k: v for k, v in zip((*filters, "limit"), values) if v or k != "limit"})
        clean = [v.strip() for v in given]
        want = select(*clean, bounded(limit))
        for path in paths:
            where = f"{path}?{query}"
            if not (p := fetch(d, where, res, "the records")):
                continue
            rows = p.tables()[0]
            ensure(res, rows, [cells(x) for x in want], f"{page}:rows", where)
            if path == paths[0]:
                stats = {a: b[0] for a, b in p.stats().items()}
                ensure(res, stats, {a: str(b) for a, b in numbers.items()}, f"{page}:numbers", where)
                for name, value in zip(filters, clean):
                    f = p.field(name)
                    if f["tag"] != "select":
                        ensure(res, p.chosen(name), value, f"{page}:form", where)
                    else:
                        folded = {o.lower(): o for o in p.options(name)}
                        ensure(res, p.chosen(name), folded.get(value.lower(), ""), f"{page}:form", where)
            first[tuple(map(tuple, rows))] = 1
    for rows in first:
        res.seen("lists", rows)
    res.seen("states", (page, part))
    res.sample({"page": page, "lists": len(first)})


def opened(res):
    """Every recorded run, opened: its values and its log."""
    from asyncz.contrib.dashboard.history import logs_for_run

    w = eventful()
    d = w.dashboard
    runs = d.history.query(limit=1000)
    kinds = set()
    for r in runs:
        where = f"the run {r.run_id} ({r.task_id}, {r.status}, {r.source})"
        kinds.add((r.status, r.source))
        if not (p := fetch(d, f"/history/{r.run_id}", res, where)):
            continue
        want = {
            "Status": LABEL[r.status], "Source": LABEL[r.source], "Submitted": f"{stamp(r.submitted_at)} UTC" if r.submitted_at else "-", "Finished": f"{stamp(r.finished_at)} UTC" if r.finished_at else "-",
            "Duration": took(r), "Scheduler ID": r.scheduler_identity or "-", "Store / Executor": f"{r.store or '-'} / {r.executor or '-'}", "Coalesced Runs": str(r.coalesced_run_count), "Task ID": r.task_id, "Callable": r.callable_reference or "-",
        }
        if r.exception_type:
            want["Exception Type"] = r.exception_type
        if r.exception_message:
            want["Exception Message"] = norm(r.exception_message)
        ensure(res, p.pairs(), want, "run:values", where)
        title = [norm(e["text"]) for e in p.elements if e["attrs"].get("class") == "az-panel-title"]
        ensure(res, title[0], norm(r.task_name or r.task_id), "run:title", where)
        ensure(res, p.tables()[0], [log_cells(e) for e in logs_for_run(r, d.log)], "run:log", where)
        pres = [norm(e["text"]) for e in p.elements if e["tag"] == "pre"]
        ensure(res, pres, [norm(x) for x in (r.exception, r.traceback) if x], "run:error", where)
        (link,) = p.link("Open Logs")
        x, _ = follow(d, "GET", d.base + f"/history/{r.run_id}", link["attrs"]["href"])
        ensure(res, Shown(x.text).tables()[0] if x.status == 200 else x.status, [log_cells(e) for e in d.log.query(run_id=r.run_id, limit=1000)], "run:link", where)
        res.seen("states", (r.status, r.source, bool(r.exception)))
    res.count(kinds=len(kinds))
    for path in ("/history/gone", "/tasks/gone"):
        r = d.get(path)
        res.count(requests=1, transitions=1)
        if r.status != 404:
            res.violation("run:unknown", f"{path} answers {r}")
    res.sample({"runs": len(runs), "kinds": sorted(map(str, kinds))})


# ---------------------------------------------------------------- page by page
def paged(size, n, res):
    """Every page of the task list: forwards, backwards, by number; and what an action leaves of it."""
    w = World(dashboard=True)
    d, s = w.dashboard, w.s
    for i in range(n):
        add(w, f"t{i:03}", seconds=i + 5, executor=("default", "pool")[i % 2])
    for query in ({}, {"executor": "pool"}, {"sort": "name", "direction": "desc"}, {"q": "t", "state": "scheduled"}):
        infos = s.get_task_infos(sort_by=query.get("sort", "next_run_time"), descending="direction" in query, executor=query.get("executor"), q=query.get("q"))
        total = len(infos)
        count = max(1, -(-total // size))
        for path, number in itertools.product(("/tasks/", "/tasks/partials/table"), ("", *range(-1, count + 3), "x", 10**9)):
            page = max(1, min(number, count)) if isinstance(number, int) else 1
            want = [i.id for i in infos[(page - 1) * size : page * size]]
            url = f"{path}?" + urllib.parse.urlencode({**query, "page": number, "per_page": size})
            where = f"{n} tasks, {url}"
            if not (p := fetch(d, url, res, where)):
                continue
            rows = p.tables()[0]
            ensure(res, [r[1].split()[0] for r in rows], want, "page:rows", where)
            meta = next(norm(e["text"]) for e in p.elements if e["attrs"].get("class") == "az-panel-meta" and "matching" in e["text"])
            numbers = [int(x) for x in meta.replace("-", " ").split() if x.isdigit()]
            ensure(res, numbers, [(page - 1) * size + 1 if total else 0, min(page * size, total), total] + ([page, count] if count > 1 else []), "page:numbers", where)
            for text, near in (("Previous", page - 1), ("Next", page + 1)):
                (a,) = p.link(text)
                there = 1 <= near <= count
                ensure(res, ("hx-get" in a["attrs"], "aria-disabled" in a["attrs"]), (there, not there), "page:near", f"{where}: {text}")
                if not there:
                    continue
                for ref in (a["attrs"]["href"], a["attrs"]["hx-get"]):
                    to = resolve(d.base + url, ref)
                    x = d.browser.get(to[0] + "?" + to[1])
                    res.count(requests=1)
                    ensure(res, [r[1].split()[0] for r in Shown(x.text).tables()[0]] if x.status == 200 else x.status, [i.id for i in infos[(near - 1) * size : near * size]], "page:step", f"{where}: {text} leads to {to}")
            # the table as an action leaves it
            if number == page and want and path == "/tasks/":
                forms = [e["attrs"]["hx-post"] for e in p.elements if e["tag"] == "form" and e["attrs"].get("hx-post", "").split("?")[0].endswith("/run")]
                bulk = [e["attrs"]["hx-post"] for e in p.elements if e["tag"] == "button" and "/bulk/run" in e["attrs"].get("hx-post", "")]
                polls = [e["attrs"]["hx-get"] for e in p.elements if e["attrs"].get("id") == "tasks-table"]
                for method, ref, form in [("POST", forms[-1], {}), ("POST", bulk[0], {"ids": want[-1]})] + [("GET", x, None) for x in polls]:
                    to = resolve(d.base + url, ref)
                    x = d.browser.request(method, to[0] + ("?" + to[1] if to[1] else ""), form=form)
                    res.count(requests=1)
                    if query.get("sort") == "name":
                        ensure(res, [r[1].split()[0] for r in Shown(x.text).tables()[0]] if x.status == 200 else x.status, want, "page:kept", f"{where}: after {method} {ref}")
                    else:
                        infos2 = s.get_task_infos(sort_by=query.get("sort", "next_run_time"), descending="direction" in query, executor=query.get("executor"), q=query.get("q"))
                        ensure(res, [r[1].split()[0] for r in Shown(x.text).tables()[0]] if x.status == 200 else x.status, [i.id for i in infos2[(page - 1) * size : page * size]], "page:kept", f"{where}: after {method} {ref}")
                        infos = infos2
        res.seen("states", (size, n, str(query)))
    res.sample({"size": size, "tasks": n})


def navigation(res):
    """Every page leads to every other, and marks itself."""
    for mount in ("prefix", "root", "deep", "below", "found"):
        w = World(dashboard=True, mount=mount)
        d = w.dashboard
        add(w, "a")
        pages = ["/", "/tasks/", "/runtime/", "/instances/", "/timeline/", "/events/", "/history/", "/audit/", "/logs/"]
        names = ["Overview", "Tasks", "Runtime", "Instances", "Timeline", "Events", "History", "Audit", "Logs"]
        for path, name in zip(pages, names):
            where = f"mounted {mount}, {path}"
            if not (p := fetch(d, path, res, where)):
                continue
            links = [e for e in p.elements if e["tag"] == "a" and "az-nav-link" in e["attrs"].get("class", "")]
            marked = {norm(e["text"]) for e in links if e["attrs"].get("aria-current") or "az-nav-link--active" in e["attrs"]["class"] or "active" in e["attrs"]["class"]}
            ensure(res, marked, {name}, "nav:marked", where)
            for e in p.elements:
                for attr in ("href", "src"):
                    ref = e["attrs"].get(attr)
                    if not ref or ref.startswith(("#", "javascript", "data:", "https:")) or "disabled" in e["attrs"].get("class", ""):
                        continue
                    to = resolve(d.base + path, ref)
                    ok = to is not None and (to[0].startswith(d.base + "/") or to[0] == d.base)
                    x = d.browser.get(to[0] + ("?" + to[1] if to[1] else "")) if ok else None
                    if x is not None and x.status in (301, 302, 303, 307, 308):
                        back = resolve(to[0], x.get("location"))
                        x = d.browser.get(back[0] + ("?" + back[1] if back[1] else "")) if back else None
                    res.count(requests=1, transitions=1)
                    if x is None or x.status != 200:
                        res.violation("nav:link", f"{where}: {e['tag']} {attr}={ref!r} leads to {to}: {x}")
                    elif e in links and norm(e["text"]) in names:
                        title = Shown(x.text)
                        heads = {norm(a["text"]) for a in title.elements if a["tag"] == "a" and a["attrs"].get("aria-current")}
                        ensure(res, heads or {norm(e["text"])}, {norm(e["text"])}, "nav:target", f"{where}: {ref}")
        res.seen("states", mount)
    res.sample({"mounts": 5})


def items(tier):
    off = 2 if tier == "quick" else 3
    out = [("live", state, n, kind) for state in ("running", "paused", "stopped") for n in SETS for kind in (("none", "one", "open", "long") if state != "stopped" else ("none",)) if n or kind == "none"]
    out += [("records", page, i, 2, off) for page in ("history", "events", "audit", "logs") for i in range(2)]
    out += [("opened",), ("navigation",)]
    out += [("paged", size, n) for size in (1, 3, 25) for n in ((0, 1, 2, 3, 4, 6, 7) if size < 25 else (24, 25, 26, 50, 51))]
    return out


def explore(item, res, tier, seed):
    kind, *rest = item
    globals()[kind](*rest, res)
