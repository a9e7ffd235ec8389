"""The asyncz command does what the scheduler's own calls do, and says so with its exit code and output."""
from __future__ import annotations

import asyncio
import contextlib
import io
import itertools
import json
import logging
import os
import re
import shutil
import signal
import socket
import subprocess
import sys
import time
from datetime import datetime, timedelta, timezone

logging.disable(logging.CRITICAL)

from mc import clock, targets  # noqa: E402
from mc.stores import FakeMongo, sched_cls, scratch  # noqa: E402

LEVEL = "model_checking"
ITEM_CPU = 600
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
M = timedelta(minutes=1)
BOUNDS = {
    "quick": "every store content reachable within 3 commands over 4 tasks x 30 commands, on SQLite and file stores; all additions with up to 2 of 24 options, all updates with up to 2 of 25 options x 4 ways to confirm, all lists with up to 3 of 22 filters in JSON and text, all views of 3 store sets, 45 store and 14 executor specifications, 4 bootstraps x 16 commands x 3 states, 40 starts with modules, files, hooks and Ctrl+C, 26 ids and names of every command, all durations of up to 4 of 9 characters",
    "thorough": "store contents within 4 commands, additions and updates with up to 3 options",
}
ASSUMPTIONS = ["the command runs in the process of the check, as the console script calls it; Ctrl+C is a real SIGINT", "mongo is an in-memory stand-in behind pymongo's client, redis a real server on the loopback network"]
MIN = {"commands": 5000}


def items(tier):
    q = tier == "quick"
    out = [("walk", kind, i, 8, 3 if q else 4) for kind in ("sql", "file") for i in range(8)]
    out += [("add", i, 8, 2 if q else 3) for i in range(8)] + [("update", i, 12, 2 if q else 3) for i in range(12)]
    out += [("list", i, 8, 3) for i in range(8)] + [("views", i) for i in range(3)]
    out += [("stores",), ("executors",), ("text", 0), ("text", 1), ("durations",)]
    out += [("bootstrap", k) for k in ("Spec", "OBJECT", "factory", "running")] + [("starts", i, 4) for i in range(4)]
    return out


# ---------------------------------------------------------------- the command
N = [0]


class Done:
    def __init__(self, code, out, err, exc):
        self.code, self.out, self.err, self.exc = code, out, err, exc

    @property
    def ok(self):
        return self.code == 0

    def json(self):
        # the whole output, something else reads it
        with contextlib.suppress(ValueError):
            return json.loads(self.out)
        return None


def cli(*argv, answer=""):
    """What the console script does: sys.exit(main())."""
    from asyncz.cli import app, bootstrap_loader

    N[0] += 1
    bootstrap_loader.clear_bootstrap_cache()
    os.environ.update(COLUMNS="1000", NO_COLOR="1", TERM="dumb")
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    out, err = io.StringIO(), io.StringIO()
    sys.argv, sys.stdin, sys.stdout, sys.stderr = ["asyncz", *argv], io.StringIO(answer), out, err
    exc = None
    try:
        code = app.main()
        code = 0 if code is None else code if isinstance(code, int) else 1
    except SystemExit as e:
        code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
    except BaseException as e:  # the interpreter prints it and ends with 1
        code, exc = 1, e
        err.write(f"{type(e).__name__}: {e}")
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old
        with contextlib.suppress(RuntimeError):
            loop = asyncio.get_event_loop_policy().get_event_loop()
            if not loop.is_running() and not loop.is_closed():
                pending = asyncio.all_tasks(loop)
                for t in pending:  # the process ends here
                    t.cancel()
                loop.run_until_complete(asyncio.gather(*pending, return_exceptions=True)) if pending else None
                loop.close()
            asyncio.set_event_loop(None)
    return Done(code, out.getvalue(), err.getvalue(), exc)


# ---------------------------------------------------------------- places
class Place:
    def __init__(self, kind, name):
        self.kind = kind
        self.path = os.path.join(scratch(), f"c37-{name}-{os.getpid()}")
        self.set(None)

    @property
    def spec(self):
        return f"durable=sqlite:///{self.path}" if self.kind == "sql" else f"durable=file://{self.path}"

    def store(self):
        if self.kind == "sql":
            from sqlalchemy import create_engine
            from sqlalchemy.pool import NullPool

            from asyncz.stores.sqlalchemy import SQLAlchemyStore

            return SQLAlchemyStore(database=create_engine(f"sqlite:///{self.path}", poolclass=NullPool))
        from asyncz.stores.file import FileStore

        return FileStore(self.path)

    def get(self):
        """What is at rest."""
        if self.kind == "sql":
            import sqlite3

            if not os.path.exists(self.path):
                return None
            con = sqlite3.connect(self.path)
            try:
                return tuple(con.execute("select * from asyncz_store order by id"))
            finally:
                con.close()
        if not os.path.isdir(self.path):
            return None
        return tuple((f, open(os.path.join(self.path, f), "rb").read()) for f in sorted(os.listdir(self.path)) if not f.startswith("."))

    def set(self, content):
        if os.path.isdir(self.path):
            shutil.rmtree(self.path)
        elif os.path.exists(self.path):
            os.unlink(self.path)
        if content is None:
            return
        if self.kind == "sql":
            import sqlite3

            con = sqlite3.connect(self.path)
            con.execute("CREATE TABLE asyncz_store (id VARCHAR(255) NOT NULL, next_run_time FLOAT, state BLOB NOT NULL, PRIMARY KEY (id))")
            con.execute("CREATE INDEX ix_asyncz_store_next_run_time ON asyncz_store (next_run_time)")
            con.executemany("insert into asyncz_store values (?,?,?)", content)
            con.commit()
            con.close()
            return
        os.mkdir(self.path)
        for f, data in content:
            with open(os.path.join(self.path, f), "wb") as fh:
                fh.write(data)


def executor():
    from asyncz.executors.base import BaseExecutor, run_coroutine_task, run_task

    class Runs(BaseExecutor):
        """Finishes every run, coroutines too, when the harness says so."""

        def start(self, scheduler, alias):
            super().start(scheduler, alias)
            self.queue = []

        def do_send_task(self, task, run_times):
            self.queue.append((task, list(run_times)))

        def finish(self):
            loop = asyncio.new_event_loop()
            try:
                while self.queue:
                    task, run_times = self.queue.pop(0)
                    try:
                        if asyncio.iscoroutinefunction(task.fn):
                            events = loop.run_until_complete(run_coroutine_task(task, task.store_alias, run_times, self.logger))
                        else:
                            events = run_task(task, task.store_alias, run_times, self.logger)
                    except BaseException:
                        self.run_task_error(task.id)
                    else:
                        self.run_task_success(task.id, events)
            finally:
                loop.close()

    return Runs()


@contextlib.contextmanager
def direct(stores, start=True, **kw):
    """A scheduler on the places, without a timer."""
    ex = executor()
    extra = kw.pop("executors", {})
    s = sched_cls()(executors={"default": ex, **extra}, stores=stores, **kw)
    if start:
        s.start()
    try:
        yield s
        ex.finish() if start else None
    finally:
        if start:
            s.shutdown()


def view(info):
    return {
        "id": info.id, "name": info.name, "trigger": info.trigger_name, "trigger_alias": info.trigger_alias, "trigger_description": info.trigger_description,
        "next_run_time": info.next_run_time, "state": info.schedule_state.value, "store": info.store_alias, "executor": info.executor,
        "callable_name": info.callable_name, "callable_reference": info.callable_reference,
    }


def plain(x):
    return json.loads(json.dumps(x, default=str))


def full(task):
    state = dict(task.__getstate__())
    trigger = state.pop("trigger", None)
    return {**{k: repr(utc(v)) for k, v in state.items()}, "trigger": f"{type(trigger).__name__} {sorted((k, utc(v)) for k, v in vars(trigger).items())}"}


def utc(x):
    return x.astimezone(UTC) if isinstance(x, datetime) else x


def tasks_of(place):
    if place.get() is None:
        return []
    with direct({"durable": place.store()}) as s:
        return sorted((full(t) for t in s.get_tasks()), key=lambda t: t["id"])


def call(fn, /, *args, **kw):
    try:
        return True, fn(*args, **kw)
    except Exception as exc:
        return False, exc


def runs():
    out = list(targets.LOG)
    targets.LOG.clear()
    return out


# ---------------------------------------------------------------- walk: every command on every store content
IDS = ("a", "c", "d", "x")
ADD = {
    "a": (["mc.targets:record", "--interval", "5m", "--args", "[1]"], lambda s: s.add_task("mc.targets:record", trigger=trig("interval", 300), id="a", args=[1], kwargs={}, name=None, store="durable")),
    "c": (["mc.targets:slow", "--cron", "0 * * * *", "--name", "Coro"], lambda s: s.add_task("mc.targets:slow", trigger=trig("cron", "0 * * * *"), id="c", args=[], kwargs={}, name="Coro", store="durable")),
    "d": (["mc.targets:record", "--at", "2030-01-01T12:10:00+00:00", "--kwargs", '{"k": "v"}'], lambda s: s.add_task("mc.targets:record", trigger=trig("date", T + 10 * M), id="d", args=[], kwargs={"k": "v"}, name=None, store="durable")),
}


def trig(kind, value):
    from asyncz.triggers import CronTrigger, DateTrigger, IntervalTrigger

    if kind == "interval":
        return IntervalTrigger(seconds=value)
    if kind == "cron":
        return CronTrigger.from_crontab(value)
    return DateTrigger(run_at=value)


def walk_ops():
    out = {}
    for i, (argv, fn) in ADD.items():
        out[f"add {i}"] = (["add", *argv, "--id", i], fn, i)
    for i in IDS:
        out[f"run {i}"] = (["run", i], lambda s, i=i: s.run_task(i), i)
        out[f"pause {i}"] = (["pause", i], lambda s, i=i: s.pause_task(i), i)
        out[f"resume {i}"] = (["resume", i], lambda s, i=i: s.resume_task(i), i)
        out[f"remove {i}"] = (["remove", i], lambda s, i=i: s.delete_task(i), i)
        out[f"update {i}"] = (["update", i, "--name", "new", "--yes"], lambda s, i=i: s.update_task(i, name="new"), i)
        out[f"inspect {i}"] = (["inspect", i], lambda s, i=i: s.lookup_task(i, None), i)
        out[f"preview {i}"] = (["preview", i], lambda s, i=i: s.lookup_task(i, None), i)
        out[f"try {i}"] = (["update", i, "--name", "newer", "--dry-run"], lambda s, i=i: s.lookup_task(i, None), i)
    for c in ("list", "timeline", "status", "doctor", "instances"):
        out[c] = ([c], lambda s: None, "")
    return out


READ = ("inspect", "preview", "try", "list", "timeline", "status", "doctor", "instances")


def one_step(content, name, op, place, ref, res, at):
    argv, fn, ident = op
    place.set(content)
    ref.set(content)
    clock.set_now(at)
    runs()
    done = cli(*argv, "--store", place.spec)
    ran = runs()
    clock.set_now(at)
    with direct({"durable": ref.store()}) as s:
        ok, what = call(fn, s)
    want = runs()
    res.count(commands=1)
    where = f"{name!r} on a {place.kind} store with {[t['id'] for t in tasks_of(ref)]}"
    if done.ok != ok:
        res.violation(f"walk-exit-{name.split()[0]}", f"{where}: exit code {done.code} ({done.err.strip()[-200:] or done.out.strip()[-200:]}), while the scheduler's call {'succeeds' if ok else f'raises {what!r}'}")
    elif not ok and not (done.err + done.out).strip():
        res.violation("walk-silent", f"{where}: fails without a message")
    elif ok and ident not in done.out:
        res.violation(f"walk-mute-{name.split()[0]}", f"{where}: the output {done.out.strip()!r} does not mention the task")
    if sorted(map(repr, ran)) != sorted(map(repr, want)):
        res.violation(f"walk-runs-{name.split()[0]}", f"{where} ran {ran}, the scheduler's call runs {want}")
    after = place.get()
    if name.split()[0] in READ or not ok:
        if (content or ()) != (after or ()):
            res.violation(f"walk-read-{name.split()[0]}", f"{where} changed the stored tasks")
    else:
        x, y = tasks_of(place), tasks_of(ref)
        if x != y:
            diff = [(t["id"], {k: (t[k], u.get(k)) for k in t if t[k] != u.get(k)}) for t, u in zip(x, y)] if len(x) == len(y) else [[t["id"] for t in x], [t["id"] for t in y]]
            res.violation(f"walk-tasks-{name.split()[0]}", f"{where} leaves other tasks than the scheduler's call: {diff}"[:600])
    return after


def explore_walk(kind, part, parts, depth, res):
    place, ref = Place(kind, f"w{part}"), Place(kind, f"v{part}")
    ops = walk_ops()
    names = list(ops)
    place.set(None)
    clock.set_now(T)
    with direct({"durable": place.store()}) as s:
        for _, fn in ADD.values():
            fn(s)
        s.pause_task("c")
    level, seen = [(None, ()), (place.get(), ("all",))], {}
    for d in range(depth):
        nxt = []
        for content, path in level:
            for n, name in enumerate(names):
                # part by the first command; the read only commands of a content are checked with it
                if d == 0 and n % parts != part:
                    continue
                # later commands run when the tasks are due
                for at in ((T,) if d == 0 else (T, T + 5 * M + timedelta(seconds=1)) if d == 1 else (T + 11 * M,)):
                    after = one_step(content, name, ops[name], place, ref, res, at)
                    key = digest(place, after)
                    if key not in seen and d + 1 < depth:
                        seen[key] = 1
                        nxt.append((after, (*path, name)))
        level = nxt
        res.count(contents=len(level))


def digest(place, content):
    place.set(content)
    return json.dumps(tasks_of(place), sort_keys=True)


# ---------------------------------------------------------------- add
BAD = object()
ADD_OPTIONS = [
    ("id", ["--id", "job-1"], {"id": "job-1"}), ("id", ["--id", "a b/ü"], {"id": "a b/ü"}),
    ("name", ["--name", "My job"], {"name": "My job"}), ("name", ["--name", "[b]x[/b]"], {"name": "[b]x[/b]"}),
    ("trigger", ["--cron", "*/5 2 * * mon-fri"], ("cron", "*/5 2 * * mon-fri")), ("trigger", ["--cron", "0 0 30 2"], BAD), ("trigger", ["--cron", "61 * * * *"], BAD),
    ("trigger", ["--interval", "10s"], ("interval", 10)), ("trigger", ["--interval", "2H"], ("interval", 7200)), ("trigger", ["--interval", " 7 m "], ("interval", 420)),
    ("trigger", ["--interval", "-5s"], BAD), ("trigger", ["--interval", "1d"], BAD), ("trigger", ["--interval", ""], BAD),
    ("trigger", ["--at", "2031-01-01T10:00:00"], ("date", datetime(2031, 1, 1, 10, tzinfo=UTC))), ("trigger", ["--at", "2031-01-01T10:00:00+02:00"], ("date", datetime(2031, 1, 1, 8, tzinfo=UTC))),
    ("trigger", ["--at", "2031-01-01"], ("date", datetime(2031, 1, 1, tzinfo=UTC))), ("trigger", ["--at", "tomorrow"], BAD),
    ("args", ["--args", "[1, \"x\", null]"], {"args": [1, "x", None]}), ("args", ["--args", "{\"a\": 1}"], BAD), ("args", ["--args", "[1"], BAD), ("args", ["--args", "\"ab\""], BAD),
    ("kwargs", ["--kwargs", "{\"k\": [1]}"], {"kwargs": {"k": [1]}}), ("kwargs", ["--kwargs", "[1]"], BAD), ("kwargs", ["--kwargs", "7"], BAD),
]
CALLABLES = [("mc.targets:record", True), ("mc.targets:slow", True), ("mc.targets:two", True), ("mc.targets.record", False), ("mc.nowhere:x", False), ("mc.targets:nothing", False), ("mc.targets:", False)]


def explore_add(part, parts, most, res):
    place, ref = Place("sql", f"a{part}"), Place("sql", f"b{part}")
    extra = [o for o in ADD_OPTIONS if o[0] != "trigger"]
    triggers = [o for o in ADD_OPTIONS if o[0] == "trigger"]
    combos = []
    for k in range(most + 1):
        combos += [(CALLABLES[0], t, c) for t in triggers for c in itertools.combinations(extra, k) if k < 2 or t[2] is not BAD]
    combos += [(f, triggers[3], c) for f in CALLABLES[1:] for k in range(2) for c in itertools.combinations(extra, k)]
    # none or two triggers
    combos += [(CALLABLES[0], None, ())] + [(CALLABLES[0], t, (u,)) for t in triggers for u in triggers if t < u and t[1][0] != u[1][0]]
    for n, ((path, real), trigger, opts) in enumerate(combos):
        if n % parts != part or len({o[0] for o in opts}) != len(opts):
            continue
        argv = list(trigger[1]) if trigger else []
        kw = {"id": None, "args": [], "kwargs": {}, "name": None}
        bad = not real or trigger is None or trigger[2] is BAD
        for kind, a, v in opts:
            argv += a
            if v is BAD or kind == "trigger":
                # an empty value is no trigger at all
                bad = bad or not (kind == "trigger" and a[1] == "")
            else:
                kw.update(v)
        if trigger and trigger[1][1] == "" and any(k == "trigger" for k, _, _ in opts):
            continue
        content = None
        place.set(content), ref.set(content)
        clock.set_now(T)
        done = cli("add", path, *argv, "--store", place.spec)
        res.count(commands=1)
        where = "add " + " ".join(map(repr, [path, *argv]))
        if bad:
            if done.ok or place.get():
                res.violation("add-accepts", f"{where}: exit code {done.code}, tasks {[r[0] for r in place.get() or ()]}")
            continue
        with direct({"durable": ref.store()}) as s:
            ok, what = call(s.add_task, path, trigger=trig(*trigger[2]), store="durable", **kw)
        if done.ok != ok:
            res.violation("add-exit", f"{where}: exit code {done.code} {done.err.strip()[-200:]}, while add_task {'works' if ok else f'raises {what!r}'}")
            continue
        x, y = tasks_of(place), tasks_of(ref)
        if kw["id"] is None:
            if ok and (len(x) != 1 or x[0]["id"].strip("'") not in done.out):
                res.violation("add-id", f"{where}: {done.out.strip()!r} does not name the task {x}")
            for t in x + y:
                t.pop("id")
        elif ok and kw["id"] not in done.out:
            res.violation("add-id", f"{where}: {done.out.strip()!r} does not name the task")
        if ok and kw["name"] and kw["name"] not in done.out:
            res.violation("add-name", f"{where}: {done.out.strip()!r} does not show the name")
        if x != y:
            res.violation("add-task", f"{where} stores {x}, add_task {y}"[:700])
    # an id which is taken stays what it was
    if part == 0:
        for i in IDS[:3]:
            for j in IDS[:3]:
                place.set(None)
                cli("add", *ADD[i][0], "--id", "t", "--store", place.spec)
                before = place.get()
                done = cli("add", *ADD[j][0], "--id", "t", "--store", place.spec)
                res.count(commands=2)
                if done.ok or place.get() != before or not before:
                    res.violation("add-twice", f"add with the id of a stored task: exit code {done.code}, tasks changed: {place.get() != before}")
    place.set(None), ref.set(None)


# ---------------------------------------------------------------- update
UPDATE = [
    ("name", ["--name", "new"], {"name": "new"}), ("name", ["--name", "Alpha"], {"name": "Alpha"}), ("name", ["--name", "[i]n"], {"name": "[i]n"}),
    ("fn", ["--callable", "mc.targets:noop"], {"fn": "mc.targets:noop"}), ("fn", ["--callable", "mc.targets:two"], {"fn": "mc.targets:two"}), ("fn", ["--callable", "mc.nowhere:x"], {"fn": "mc.nowhere:x"}),
    ("args", ["--args", "[1, 2]"], {"args": [1, 2]}), ("args", ["--args", "[]"], {"args": []}), ("args", ["--args", "\"ab\""], BAD), ("args", ["--args", "{}"], BAD), ("args", ["--args", "["], BAD),
    ("kwargs", ["--kwargs", "{\"b\": 3}"], {"kwargs": {"b": 3}}), ("kwargs", ["--kwargs", "[]"], BAD),
    ("executor", ["--executor", "other"], {"executor": "other"}), ("executor", ["--executor", "default"], {"executor": "default"}),
    ("coalesce", ["--coalesce", "off"], {"coalesce": False}), ("coalesce", ["--coalesce", " Yes "], {"coalesce": True}), ("coalesce", ["--coalesce", "maybe"], BAD),
    ("max", ["--max-instances", "3"], {"max_instances": 3}), ("max", ["--max-instances", "0"], {"max_instances": 0}), ("max", ["--max-instances", "two"], BAD),
    ("grace", ["--mistrigger-grace-time", "30"], {"mistrigger_grace_time": 30.0}), ("grace", ["--mistrigger-grace-time", "0"], {"mistrigger_grace_time": 0.0}), ("grace", ["--mistrigger-grace-time", "2.5"], {"mistrigger_grace_time": 2.5}),
    ("grace", ["--clear-mistrigger-grace-time"], {"mistrigger_grace_time": None}),
]
CONFIRM = [(["--yes"], "", True), (["--dry-run"], "", False), ([], "y\n", True), ([], "n\n", False), ([], "", False), (["--yes", "--json"], "", True), (["--dry-run", "--json"], "", False), (["-y", "--dry-run"], "", False)]


def shown(t):
    return {"name": t.name, "executor": t.executor, "callable_reference": t.fn_reference, "args": list(t.args), "kwargs": dict(t.kwargs), "coalesce": t.coalesce, "max_instances": t.max_instances, "mistrigger_grace_time": t.mistrigger_grace_time}


def explore_update(part, parts, most, res):
    place, ref = Place("sql", f"u{part}"), Place("sql", f"x{part}")
    clock.set_now(T)
    with direct({"durable": ref.store()}) as s:
        s.add_task("mc.targets:record", "interval", minutes=5, id="a", name="Alpha", args=[1], kwargs={"b": 2}, mistrigger_grace_time=30)
        s.add_task("mc.targets:record", "interval", minutes=5, id="z", name="Zeta")
    # the default store of the scheduler is another one, so the tasks lie where the command looks
    ref.set(None)
    with direct({"durable": ref.store()}) as s:
        s.add_task("mc.targets:record", trigger=trig("interval", 300), id="a", name="Alpha", args=[1], kwargs={"b": 2}, mistrigger_grace_time=30, store="durable")
        s.add_task("mc.targets:record", trigger=trig("interval", 300), id="z", name="Zeta", store="durable")
    start = ref.get()
    combos = [c for k in range(most + 1) for c in itertools.combinations(UPDATE, k) if len({o[0] for o in c}) == len(c)]
    n = 0
    for opts in combos:
        for confirm, answer, applies in CONFIRM:
            n += 1
            if n % parts != part or (len(opts) > 1 and (confirm, answer) not in (([], "y\n"), (["--yes", "--json"], ""), (["--dry-run", "--json"], ""), ([], "n\n"))):
                continue
            place.set(start), ref.set(start)
            argv, kw, bad = [], {}, not opts
            for _, a, v in opts:
                argv += a
                if v is BAD:
                    bad = True
                else:
                    kw.update(v)
            done = cli("update", "a", *argv, *confirm, "--store", place.spec, answer=answer)
            res.count(commands=1)
            where = "update a " + " ".join(map(repr, [*argv, *confirm])) + (f" answered {answer!r}" if answer else "")
            if bad:
                if done.ok or place.get() != start:
                    res.violation("update-accepts", f"{where}: exit code {done.code}, changed: {place.get() != start}")
                continue
            with direct({"durable": ref.store()}) as s:
                task = s.lookup_task("a", None)[0]
                before = shown(task)
                ok, what = call(s.update_task, "a", "durable", **kw)
                after = shown(s.lookup_task("a", None)[0])
            diff = {k: {"before": before[k], "after": after[k]} for k in before if before[k] != after[k]}
            if not ok:
                if done.ok or place.get() != start:
                    res.violation("update-refused", f"{where}: exit code {done.code}, while update_task raises {what!r}")
                continue
            asked = not confirm and diff
            if done.ok != (applies or not asked):
                res.violation("update-exit", f"{where}: exit code {done.code} {done.err.strip()[-200:]}")
                continue
            if not applies or not diff:
                if place.get() != start and not (applies and tasks_of(place) == tasks_of(ref)):
                    res.violation("update-unasked", f"{where} changed the task")
            else:
                x, y = tasks_of(place), tasks_of(ref)
                if x != y:
                    res.violation("update-task", f"{where}: stores {x[0]}, update_task {y[0]}"[:700])
            if "--json" in confirm:
                out = done.json() or {}
                want = {"id": "a", "store": "durable", "dry_run": "--dry-run" in confirm, "applied": bool(applies and diff), "changed": bool(diff), "diff": diff}
                got = {k: out.get(k) for k in want}
                if got != plain(want) or (want["applied"] and out.get("after") != plain(after)):
                    res.violation("update-json", f"{where}: {got}, expected {want}"[:700])
            elif diff:
                for k, ch in diff.items():
                    if f"{k}: {ch['before']!r} -> {ch['after']!r}" not in done.out:
                        res.violation("update-text", f"{where}: {done.out!r} does not show the change of {k} to {ch['after']!r}")
    place.set(None), ref.set(None)


# ---------------------------------------------------------------- list
FILTERS = [("state", "pending"), ("state", "paused"), ("state", "scheduled"), ("state", " Paused "), ("state", "gone"), ("executor", "default"), ("executor", "pool"), ("executor", "none"),
           ("trigger", "interval"), ("trigger", "CronTrigger"), ("trigger", "nothing"), ("query", "alp"), ("query", "TWO"), ("query", "zzz"),
           ("sort-by", "id"), ("sort-by", "name"), ("sort-by", "schedule_state"), ("sort-by", "executor"), ("sort-by", "store"), ("sort-by", "trigger"), ("sort-by", "age"), ("desc", None)]


def fill(s, alias="durable", second=None):
    s.add_task("mc.targets:record", trigger=trig("interval", 300), id="a", name="Alpha", store=alias)
    s.add_task("mc.targets:two", trigger=trig("cron", "30 * * * *"), id="b", name="beta", args=[1], executor="pool", store=second or alias)
    s.add_task("mc.targets:slow", trigger=trig("date", T + 7 * M), id="d", store=alias)
    s.add_task("mc.targets:noop", trigger=trig("interval", 3600), id="p", name="paused", next_run_time=None, store=second or alias)
    s.add_task("mc.targets:noop", trigger=trig("date", T + M), id="z", name="alphabet", store=alias)
    if second:
        s.add_task("mc.targets:noop", trigger=trig("interval", 60), id="a", name="other a", store=second)


def explore_list(part, parts, most, res):
    from asyncz.enums import TaskScheduleState

    p, q = Place("sql", f"l{part}"), Place("file", f"m{part}")
    clock.set_now(T)
    with direct({"one": p.store(), "two": q.store()}, executors={"pool": executor()}) as s:
        fill(s, "one", "two")
    specs = ["--store", p.spec.replace("durable", "one", 1), "--store", q.spec.replace("durable", "two", 1)]
    before = p.get(), q.get()
    combos = [c for k in range(most + 1) for c in itertools.combinations(FILTERS, k) if len({o[0] for o in c}) == len(c)]
    for n, opts in enumerate(combos):
        if n % parts != part:
            continue
        argv, kw = [], {"sort_by": "next_run_time"}
        for k, v in opts:
            argv += ["--" + k] + ([v] if v is not None else [])
            kw[{"state": "schedule_state", "query": "q", "sort-by": "sort_by", "desc": "descending"}.get(k, k)] = True if v is None else v
        with direct({"one": p.store(), "two": q.store()}) as s:
            def ask():
                if "schedule_state" in kw:
                    kw["schedule_state"] = TaskScheduleState(kw["schedule_state"].strip().lower())
                return [view(i) for i in s.get_task_infos(**kw)]

            ok, want = call(ask)
        for js in ([True] if len(opts) > 2 else [True, False]):
            done = cli("list", *argv, *(["--json"] if js else []), *specs)
            res.count(commands=1)
            where = "list " + " ".join(map(repr, argv)) + (" --json" if js else "")
            if done.ok != ok:
                res.violation("list-exit", f"{where}: exit code {done.code}, {done.err[-200:]!r}, scheduler: {want!r}"[:500])
            elif ok and js and done.json() != plain(want):
                res.violation("list-json", f"{where}: {[t['id'] for t in done.json() or []]}, expected {[t['id'] for t in want]} {want}"[:900])
            elif ok and not js:
                lines = done.out.splitlines()
                if len(lines) != len(want) or any(not all(str(w[k] if w[k] is not None else "-") in line for k in ("id", "name", "state", "trigger", "store", "executor")) or str(w["next_run_time"]) not in line for w, line in zip(want, lines)):
                    res.violation("list-text", f"{where}: {lines}, expected {want}"[:900])
    if (p.get(), q.get()) != before or targets.LOG:
        res.violation("list-changes", f"listing changed the stores or ran tasks: {runs()}")
    p.set(None), q.set(None)


# ---------------------------------------------------------------- views
def explore_views(which, res):
    p, q = Place("sql", f"v{which}p"), Place("file", f"v{which}q")
    stores = {0: {"one": p, "two": q}, 1: {"one": p}, 2: {}}[which]
    clock.set_now(T)
    if stores:
        with direct({a: pl.store() for a, pl in stores.items()}, executors={"pool": executor()}) as s:
            fill(s, "one", "two" if which == 0 else None)
    specs = [x for a, pl in stores.items() for x in ("--store", pl.spec.replace("durable", a, 1))]
    at_rest = {a: pl.get() for a, pl in stores.items()}
    for at in (T, T + 6 * M, T + 90 * M):
        with direct({a: pl.store() for a, pl in stores.items()} or {"default": {"type": "memory"}}) as s:
            ids = ("a", "b", "d", "p", "z", "nope", "")
            for i in ids:
                for count in (None, 1, 3, 50, 0, -1, 51, "x"):
                    for js in (True, False):
                        clock.set_now(at)
                        argv = ([] if count is None else ["--count", str(count)]) + (["--json"] if js else [])
                        _, task = call(s.get_task, i)
                        task = None if isinstance(task, Exception) else task
                        legal = not isinstance(count, str)
                        ok, pv = call(s.preview_task_runs, i, count=5 if count is None else count) if legal else (False, None)
                        for cmd in ("inspect", "preview"):
                            done = cli(cmd, i, *argv, *specs)
                            res.count(commands=1)
                            where = f"{cmd} {i!r} {argv} at {at:%H:%M}"
                            good = ok and task is not None
                            if done.ok != good:
                                res.violation(f"{cmd}-exit", f"{where}: exit code {done.code} {done.err[-200:]!r}, scheduler {pv!r}"[:500])
                                continue
                            if not good:
                                continue
                            times = [str(t) for t in pv.run_times]
                            if js:
                                out = done.json() or {}
                                got = (out.get("run_times"), out.get("exhausted"), out.get("returned_count"), out.get("requested_count"), out.get("task", {}).get("id"))
                                asked = pv.requested_count if cmd == "preview" else 5 if count is None else count
                                if got != (times, pv.exhausted, len(times), asked, i):
                                    res.violation(f"{cmd}-json", f"{where}: {got}, expected {times}, exhausted {pv.exhausted}, asked {asked}")
                                want = plain(view(task.snapshot()))
                                if any(k in want and out["task"][k] != want[k] for k in out.get("task", {})):
                                    res.violation(f"{cmd}-task", f"{where}: {out['task']}, expected {want}")
                                if cmd == "preview" and (out["timezone"] != pv.timezone or str(out["generated_at"]) != str(pv.generated_at)):
                                    res.violation("preview-head", f"{where}: {out['timezone']} {out['generated_at']}, expected {pv.timezone} {pv.generated_at}")
                            else:
                                listed = re.findall(r"^ℹ\s+(\d+)\. (.*?)\s*$", done.out, re.M)
                                if [x[1] for x in listed] != times or [int(x[0]) for x in listed] != list(range(1, len(times) + 1)) or i not in done.out:
                                    res.violation(f"{cmd}-text", f"{where}: {done.out!r}, expected {times}"[:600])
            for per, limit in itertools.product((None, 0, 1, 2, 10, 11, -3), (None, 0, 1, 5, 500, 501, -1)):
                for js in (True, False):
                    clock.set_now(at)
                    argv = ([] if per is None else ["--per-task", str(per)]) + ([] if limit is None else ["--limit", str(limit)])
                    done = cli("timeline", *argv, *(["--json"] if js else []), *specs)
                    res.count(commands=1)
                    p1, l1 = max(1, min(3 if per is None else per, 10)), max(1, min(100 if limit is None else limit, 500))
                    infos = s.get_task_infos(sort_by="next_run_time")
                    rows, finished = [], 0
                    for info in infos:
                        pv = s.preview_task_runs(info.id, info.store_alias, count=p1)
                        finished += pv.exhausted
                        rows += [(str(t), info.id, info.store_alias) for t in pv.run_times]
                    rows.sort(key=lambda r: r[0])
                    where = f"timeline {argv} at {at:%H:%M}"
                    if not done.ok:
                        res.violation("timeline-exit", f"{where}: {done.code} {done.err[-200:]!r}")
                    elif js:
                        out = done.json()
                        got = [(r["run_time"], r["task"]["id"], r["task"]["store"]) for r in out["rows"]]
                        heads = (out["task_count"], out["total_count"], out["returned_count"], out["exhausted_task_count"], out["requested_per_task"], out["limit"])
                        # rows of one moment have no order
                        if sorted(got) != sorted(rows)[: len(got)] and sorted(r[0] for r in got) != [r[0] for r in rows[:l1]] or [r[0] for r in got] != [r[0] for r in rows[:l1]] or not set(got) <= set(rows):
                            res.violation("timeline-rows", f"{where}: {got}, expected {rows[:l1]}"[:900])
                        elif heads != (len(infos), len(rows), len(rows[:l1]), finished, p1, l1):
                            res.violation("timeline-head", f"{where}: {heads}, expected {(len(infos), len(rows), len(rows[:l1]), finished, p1, l1)}")
                    else:
                        if len(done.out.splitlines()) != 1 + len(rows[:l1]) or f"tasks={len(infos)}" not in done.out or f"upcoming={len(rows)}" not in done.out:
                            res.violation("timeline-text", f"{where}: {done.out!r}"[:600])
            clock.set_now(at)
            info = s.get_scheduler_info()
            for cmd, extra in (("status", []), ("doctor", []), ("doctor", ["--strict"]), ("instances", [])):
                for js in (True, False):
                    done = cli(cmd, *extra, *(["--json"] if js else []), *specs)
                    res.count(commands=1)
                    if not done.ok:
                        res.violation(f"{cmd}-exit", f"{cmd} {extra}: exit code {done.code} {done.err[-200:]!r}")
                        continue
                    if not js:
                        if cmd == "status" and f"tasks={info.task_count} scheduled={info.scheduled_task_count} paused={info.paused_task_count} pending=0" not in done.out:
                            res.violation("status-text", f"{cmd}: {done.out!r}, expected {info}"[:500])
                        continue
                    out = done.json()
                    if cmd == "doctor" and (out["health"], out["ready"], {c["status"] for c in out["checks"]}) != ("ok", True, {"ok"}):
                        res.violation("doctor-health", f"{out}"[:500])
                    body = out if cmd == "status" else out["scheduler"] if cmd == "doctor" else out["instances"][0]
                    want = {"stores": sorted(info.store_aliases), "task_count": info.task_count, "scheduled_task_count": info.scheduled_task_count, "paused_task_count": info.paused_task_count, "pending_task_count": 0, "submitted_task_count": info.submitted_task_count, "timezone": info.timezone}
                    got = {k: sorted(body[k]) if k == "stores" else body[k] for k in want}
                    if got != want or body.get("running", True) is not True:
                        res.violation(f"{cmd}-json", f"{cmd}: {got}, expected {want}")
    if {a: pl.get() for a, pl in stores.items()} != at_rest or targets.LOG:
        res.violation("views-change", f"looking at the tasks changed the stores or ran {runs()}")
    for pl in (p, q):
        pl.set(None)


# ---------------------------------------------------------------- store specifications
def redis_tcp():
    exe = shutil.which("redis-server")
    if exe is None:
        return None, None
    with socket.socket() as so:
        so.bind(("127.0.0.1", 0))
        port = so.getsockname()[1]
    proc = subprocess.Popen([exe, "--port", str(port), "--bind", "127.0.0.1", "--save", "", "--appendonly", "no", "--dir", scratch()], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env={k: v for k, v in os.environ.items() if k != "LD_PRELOAD"})
    for _ in range(500):
        with contextlib.suppress(OSError), socket.create_connection(("127.0.0.1", port), 1):
            return proc, port
        time.sleep(0.01)
    proc.kill()
    return None, None


def explore_stores(res):
    import asyncz.stores.mongo as mongo_module

    proc, port = redis_tcp()
    d = scratch()
    servers = {}

    def client(host=None, *a, **k):
        return servers.setdefault(str(host), FakeMongo())

    mongo_module.MongoClient = client
    same = []  # groups: (kind, specs which mean the same place and alias)
    for n, alias in enumerate(("default", "durable", "mine", "sqlalchemy", "Cache", "file", "redis")):
        sql, folder = f"{d}/spec{n}.sqlite", f"{d}/specdir{n}"
        same.append((alias.strip(), "sql", [f"{alias}=sqlite:///{sql}", f"{alias}= sqlite:///{sql}"]))
        same.append((alias, "file", [f"{alias}=file://{folder}"]))
        if port:
            same.append((alias, "redis", [f"{alias}=redis://127.0.0.1:{port}/{n}", f"{alias}=redis://localhost:{port}/{n}"]))
        same.append((alias, "mongo", [f"{alias}=mongodb://localhost:27017/db{n}", f"{alias}=mongo://localhost:27017/db{n}"]))
    shown = {}
    try:
        for alias, kind, specs in same:
            clock.set_now(T)
            before = cli("list", "--json", "--store", specs[0])
            done = cli("add", "mc.targets:record", "--interval", "5m", "--id", "t", "--store", specs[0])
            res.count(commands=2)
            if not done.ok:
                res.violation(f"store-{kind}", f"--store {specs[0].replace(d, '')} is refused: {done.err.strip()[-200:] or done.out.strip()[-200:]}")
                continue
            if before.json() != []:
                res.violation("store-shared", f"--store {specs[0].replace(d, '')} shows tasks of another place: {before.json()}")
            for spec in specs:
                got = cli("list", "--json", "--store", spec)
                res.count(commands=1)
                rows = got.json()
                if not got.ok or [(t["id"]) for t in rows] != ["t"]:
                    res.violation(f"store-{kind}", f"--store {spec.replace(d, '')} lists {rows}, expected the task added with {specs[0].replace(d, '')}: {got.err[-200:]}")
                else:
                    shown.setdefault((alias, kind), set()).add(rows[0]["store"])
        for (alias, kind), names in shown.items():
            if {x.lower() for x in names} - {alias.lower(), "default"}:
                res.violation("store-alias", f"--store {alias}=<{kind}> calls the store {names}")
        # memory stores keep nothing, two stores lie side by side
        for spec in ("memory", "default=memory", "durable=memory", "x=memory"):
            done = cli("add", "mc.targets:record", "--interval", "5m", "--id", "t", "--store", spec)
            after = cli("list", "--json", "--store", spec)
            res.count(commands=2)
            if not done.ok or after.json() != []:
                res.violation("store-memory", f"--store {spec}: exit code {done.code}, then {after.json()} {done.err[-100:]}")
        for spec in ("sqlalchemy", "durable", "nothing", "x=", "file", "sqlalchemy=", "=sqlite://"):
            done = cli("add", "mc.targets:record", "--interval", "5m", "--id", "t", "--store", spec)
            res.count(commands=1)
            if done.ok and spec in ("sqlalchemy", "durable", "nothing", "sqlalchemy="):
                res.violation("store-none", f"--store {spec} is no place, but the command reports success: {done.out!r}")
    finally:
        if proc:
            proc.kill()
            proc.wait()


def explore_executors(res):
    """start --executor: the job runs on an executor of the kind."""
    kinds = {
        "asyncio": "AsyncIOExecutor", "thread": "ThreadPoolExecutor", "threads": "ThreadPoolExecutor", "pool": "ThreadPoolExecutor", "THREAD": "ThreadPoolExecutor",
        "process": "ProcessPoolExecutor", "proc": "ProcessPoolExecutor", "processpool": "ProcessPoolExecutor", "debug": "DebugExecutor",
    }
    import mc.clihooks as hooks

    for alias in ("default", "io"):
        for kind, cls in kinds.items():
            for workers in (None, "2", "x", "0"):
                if workers is not None and kind in ("asyncio", "debug") and workers != "x":
                    continue
                spec = f"{alias}={kind}" + (f":{workers}" if workers else "")
                hooks.reset()
                done = cli("start", "--executor", spec, "--on-start", "mc.clihooks:begin", "--on-stop", "mc.clihooks:end")
                res.count(commands=1)
                if workers in ("x", "0"):
                    if done.ok:
                        res.violation("executor-workers", f"--executor {spec} is accepted")
                    continue
                ex = hooks.SEEN[0]["executors"].get(alias) if hooks.SEEN else None
                if not done.ok or not ex or ex[0] != cls or (workers and ex[1] not in (None, int(workers))):
                    res.violation("executor-kind", f"--executor {spec}: exit code {done.code}, runs on {ex} {done.err[-200:]}")
    for spec in ("default", "default=", "default=carrier", "=thread:two"):
        done = cli("start", "--executor", spec)
        res.count(commands=1)
        if done.ok:
            res.violation("executor-unknown", f"--executor {spec} is accepted")


# ---------------------------------------------------------------- start
def start_cases():
    import mc.clihooks as hooks

    d = scratch()
    jobs = [
        {"func": "mc.targets:record", "name": "One", "interval": "5m", "args": [1]},
        {"func": "mc.targets:two", "cron": "0 3 * * *", "args": [1], "kwargs": {"b": 7}},
        {"func": "mc.targets:record", "at": "2030-01-01T23:30:00"},
    ]
    cfg = {}
    for ext, text in (("json", json.dumps({"jobs": jobs})), ("yaml", "jobs:\n" + "".join("  - " + json.dumps(j) + "\n" for j in jobs))):
        cfg[ext] = os.path.join(d, f"c37-jobs-{os.getpid()}.{ext}")
        with open(cfg[ext], "w") as f:
            f.write(text)
    empty = os.path.join(d, f"c37-empty-{os.getpid()}.json")
    with open(empty, "w") as f:
        f.write("{}")
    broken = os.path.join(d, f"c37-broken-{os.getpid()}.json")
    with open(broken, "w") as f:
        f.write('{"jobs": [{"func": "mc.targets:record", "interval": "5m", "cron": "* * * * *"}]}')
    three = [("record", "One", (1,), {}), ("two", None, (1,), {"b": 7}), ("record", None, (), {})]
    sources = [([], []), (["--module", "mc.clihooks:REGISTRY"], three), (["--module", "mc.clihooks:registry"], three)]
    sources += [(["--config", cfg["json"]], three), (["--config", cfg["yaml"]], three), (["--config", empty], [])]
    wrong = [["--module", "mc.clihooks:nothing"], ["--module", "mc.nowhere:x"], ["--config", os.path.join(d, "c37-none.json")], ["--config", broken], ["--timezone", "Mars/Base"], ["--on-start", "mc.clihooks"], ["--on-start", "mc.clihooks:fails"]]
    out = []
    for argv, want in sources:
        for zone in (None, "Asia/Tokyo"):
            for mode in ("once", "interrupt"):
                for hook in ("begin", "abegin"):
                    out.append((argv, want, zone, mode, hook))
    return out, wrong, hooks


def explore_starts(part, parts, res):
    cases, wrong, hooks = start_cases()
    for n, (argv, want, zone, mode, hook) in enumerate(cases):
        if n % parts != part:
            continue
        if not hasattr(hooks, "REGISTRY"):
            continue
        hooks.reset()
        clock.set_now(T)
        hooks.KILL = mode == "interrupt"
        line = ["start", *argv, "--on-start", f"mc.clihooks:{hook}", "--on-stop", f"mc.clihooks:{'a' if hook == 'abegin' else ''}end"]
        line += ["--timezone", zone] if zone else []
        line += ["--standalone", "--watch-interval", "0.02"] if mode == "interrupt" else []
        old = signal.signal(signal.SIGINT, signal.default_int_handler)
        try:
            done = cli(*line)
        finally:
            signal.signal(signal.SIGINT, old)
        res.count(commands=1)
        where = " ".join(x.replace(scratch(), "") for x in line) + (" and Ctrl+C" if mode == "interrupt" else "")
        if not done.ok and not (mode == "interrupt" and done.code == 130):
            res.violation("start-exit", f"{where}: exit code {done.code} {done.err[-300:]}")
            continue
        if [s["hook"] for s in hooks.SEEN] != ["begin", "end"]:
            res.violation("start-hooks", f"{where}: hooks ran {[s['hook'] for s in hooks.SEEN]}")
            continue
        if not all(s["running"] for s in hooks.SEEN):
            res.violation("start-hook-state", f"{where}: the scheduler ran at the hooks: {[s['running'] for s in hooks.SEEN]}")
        if hooks.SCHEDULER.running:
            res.violation("start-leaves", f"{where}: the scheduler still runs")
        got = hooks.SEEN[0]["tasks"]
        if sorted(got, key=repr) != sorted(want, key=repr):
            res.violation("start-tasks", f"{where}: loaded {got}, expected {want}")
        if zone and hooks.SEEN[0]["timezone"] != zone:
            res.violation("start-zone", f"{where}: timezone {hooks.SEEN[0]['timezone']}")
        if "--config" in argv and want:
            from zoneinfo import ZoneInfo

            tz = ZoneInfo(zone) if zone else UTC
            first = {"at": datetime(2030, 1, 1, 23, 30, tzinfo=tz), "cron": datetime(2030, 1, 2, 3, tzinfo=tz)}
            if first["cron"] - T > timedelta(days=1):
                first["cron"] -= timedelta(days=1)
            times = hooks.SEEN[0]["times"]
            if times["two"] != first["cron"]:
                res.violation("start-cron", f"{where}: cron job '0 3 * * *' runs first at {times['two']}, expected {first['cron']}")
            if first["at"] not in hooks.SEEN[0]["all"]:
                res.violation("start-at", f"{where}: date job of 23:30 runs at {hooks.SEEN[0]['all']}")
    for n, argv in enumerate(wrong):
        if n % parts == part:
            done = cli("start", *argv)
            res.count(commands=1)
            if done.ok:
                res.violation("start-wrong", f"start {' '.join(argv).replace(scratch(), '')} reports success: {done.out!r}")


# ---------------------------------------------------------------- bootstrap
def explore_bootstrap(kind, res):
    import mc.clihooks as hooks

    ops = {
        "list": (["list", "--json"], None), "inspect": (["inspect", "a", "--json"], None), "preview": (["preview", "a"], None), "timeline": (["timeline"], None), "status": (["status", "--json"], None),
        "doctor": (["doctor"], None), "instances": (["instances"], None), "try": (["update", "a", "--name", "new", "--dry-run"], None),
        "add": (["add", "mc.targets:record", "--interval", "5m", "--id", "n"], lambda s: s.add_task("mc.targets:record", trigger=trig("interval", 300), id="n", args=[], kwargs={})),
        "run": (["run", "a"], lambda s: s.run_task("a")), "coro": (["run", "d"], lambda s: s.run_task("d")), "pause": (["pause", "a"], lambda s: s.pause_task("a")), "resume": (["resume", "p"], lambda s: s.resume_task("p")),
        "remove": (["remove", "z"], lambda s: s.delete_task("z")), "update": (["update", "a", "--name", "new", "--yes"], lambda s: s.update_task("a", name="new")),
        "missing": (["pause", "nope"], lambda s: s.pause_task("nope")),
    }
    for state in (["running"] if kind == "running" else ["fresh"]):
        for at in (T, T + 90 * M):
            for name, (argv, fn) in ops.items():
                clock.set_now(T)
                s = hooks.make(fill)
                hooks.SCHEDULER = s
                loop = None
                if state == "running":
                    # an application which runs already, its loop is not the command's
                    loop = asyncio.new_event_loop()
                    asyncio.set_event_loop(loop)

                    async def up():
                        s.start(paused=True)

                    loop.run_until_complete(up())
                clock.set_now(at)
                runs()
                path = "mc.clihooks:" + (kind if kind != "running" else "factory")
                done = cli(*argv, "--bootstrap", path)
                ran = runs()
                res.count(commands=1)
                where = f"{' '.join(argv)} --bootstrap {kind} at {at:%H:%M}"
                clock.set_now(T)
                r = hooks.make(fill, sched_cls(), executor())
                if kind != "running":
                    clock.set_now(at)
                r.start(paused=True)
                clock.set_now(at)
                ok, what = call(fn, r) if fn else (True, None)
                r.executors["default"].finish()
                want = runs()
                if done.ok != ok:
                    res.violation("bootstrap-exit", f"{where}: exit code {done.code} {done.err[-200:]!r}, scheduler: {what!r}")
                if sorted(map(repr, ran)) != sorted(map(repr, want)) and not (kind == "running" and name in ("run", "coro")):
                    res.violation("bootstrap-runs", f"{where} ran {ran}, expected {want}")
                looks = name in ("status", "doctor", "instances")
                if looks and s.running != (kind == "running"):
                    res.violation("bootstrap-start", f"{where} started the scheduler")
                x, y = ([view(i) for i in sc.get_task_infos(sort_by="id")] for sc in (s, r))
                for v in x + y:
                    v.pop("trigger_description")
                    if looks:
                        # still pending
                        v.pop("next_run_time"), v.pop("state")
                if plain(x) != plain(y):
                    res.violation("bootstrap-tasks", f"{where}: tasks {x}, expected {y}"[:900])
                rows = done.json()
                if name == "list" and (not isinstance(rows, list) or sorted(t["id"] for t in rows) != ["a", "b", "d", "p", "z"]):
                    res.violation("bootstrap-list", f"{where}: {rows}"[:300])
                strict = cli("doctor", "--strict", "--bootstrap", path)
                res.count(commands=1)
                if strict.ok != s.running:
                    res.violation("bootstrap-strict", f"doctor --strict of a scheduler which is {'running' if s.running else 'not running'}: exit code {strict.code}")
                r.shutdown()
                with contextlib.suppress(Exception):
                    s.shutdown(wait=False)
                if loop:
                    loop.close()
                asyncio.set_event_loop(None)
    # a store which is ignored is not touched, and JSON stays JSON
    ignored = Place("sql", f"ignored-{kind}")
    ignored.set(None)
    for argv in (["list"], ["inspect", "a"], ["preview", "a"], ["timeline"], ["status"], ["doctor"], ["instances"], ["update", "a", "--name", "new", "--dry-run"]):
        clock.set_now(T)
        hooks.SCHEDULER = s = hooks.make(fill)
        path = "mc.clihooks:" + (kind if kind != "running" else "factory")
        plain_done = cli(*argv, "--json", "--bootstrap", path)
        done = cli(*argv, "--json", "--bootstrap", path, "--store", ignored.spec)
        text = cli(*argv, "--bootstrap", path, "--store", ignored.spec)
        res.count(commands=3)
        where = f"{' '.join(argv)} --json --bootstrap {kind} --store {ignored.spec}"
        if not (plain_done.ok and done.ok and text.ok):
            res.violation("bootstrap-store-exit", f"{where}: exit codes {plain_done.code}, {done.code}, {text.code} {done.err[-200:]!r}")
        elif done.json() is None or type(done.json()) is not type(plain_done.json()) or len(done.json()) != len(plain_done.json()):
            res.violation("bootstrap-store-json", f"{where} prints {done.out[:300]!r} instead of {plain_done.out[:300]!r}")
        if ignored.get() not in ((), None):
            res.violation("bootstrap-store", f"{where} changed the store which is ignored")
        with contextlib.suppress(Exception):
            s.shutdown(wait=False)
        asyncio.set_event_loop(None)
    for path in ("mc.clihooks:nothing", "mc.clihooks", "mc.nowhere:X", "mc.clihooks:NotOne", "mc.clihooks:wrong", "mc.clihooks:KILL"):
        for cmd in (["list"], ["status"], ["run", "a"], ["start"], ["remove", "a"]):
            done = cli(*cmd, "--bootstrap", path)
            res.count(commands=1)
            if done.ok:
                res.violation("bootstrap-wrong", f"{cmd} --bootstrap {path} reports success: {done.out!r}")


# ---------------------------------------------------------------- text
HOSTILE = ["a[b]", "[/x]", "[bold]x[/bold]", ":smile:", "[red", "x]", "a b", "ü€", "%s{0}", "<b>&amp;", "a\\[b]", "[link=http://x]y[/link]", "'q\"", "a=b", "1", "[[x]]", "[@click=a]z[/]", "tab\tx", ":a:b:", "None", "#1", "/p/q", "..", "a" * 200, "[]"]


def explore_text(part, res):
    p = Place("sql", f"t{part}")
    for n, word in enumerate(HOSTILE):
        if n % 2 != part:
            continue
        p.set(None)
        clock.set_now(T)
        steps = [
            (["add", "mc.targets:record", "--interval", "5m", f"--id={word}", f"--name={word}!"], [word, word + "!"]),
            (["list"], [word, word + "!"]), (["inspect", "--", word], [word, word + "!"]), (["preview", "--", word], [word, word + "!"]), (["timeline"], [word, word + "!"]),
            (["pause", "--", word], [word]), (["resume", "--", word], [word]), (["run", "--", word], [word]), (["update", f"--name={word}?", "--yes", "--", word], [word, repr(word + "?")]),
            (["update", f"--name={word}?", "--yes", "--", word], [word]), (["remove", "--", word], [word]), (["pause", "--", word], None),
        ]
        for argv, words in steps:
            done = cli(argv[0], "--store", p.spec, *argv[1:])
            res.count(commands=1)
            if done.ok != (words is not None):
                res.violation(f"text-exit-{argv[0]}", f"{argv}: exit code {done.code} {done.err[-200:]!r}")
            elif words and not all(w.expandtabs(8).replace("\t", " ") in done.out or w in done.out or "\t" in w for w in words):
                res.violation(f"text-{argv[0]}", f"{argv} prints {done.out!r} without {words}")
        if p.get() not in ((), None):
            res.violation("text-left", f"after the removal of {word!r}: {[r[0] for r in p.get()]}")
        runs()
    p.set(None)


# ---------------------------------------------------------------- durations
def explore_durations(res):
    from asyncz.cli.types import parse_interval

    for n in range(5):
        for chars in itertools.product("015smHd. ", repeat=n):
            text = "".join(chars)
            m = re.match(r"^\s*([0-9]+)\s*([smhSMH])\s*$", text)
            want = int(m[1]) * {"s": 1, "m": 60, "h": 3600}[m[2].lower()] if m else None
            ok, got = call(parse_interval, text)
            res.count(durations=1)
            if ok != (want is not None) or (ok and got != want):
                res.violation("duration", f"parse_interval({text!r}) = {got!r}, expected {want}")


def explore(item, res, tier, seed):
    kind, *rest = item
    asyncio.set_event_loop(None)
    globals()["explore_" + kind](*rest, res)
    res.count(states=N[0])
    res.count(transitions=N[0])
    res.count(traces_validated_against_impl=N[0])
    N[0] = 0
