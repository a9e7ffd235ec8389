"""Durable stores: a restart changes nothing, whatever the task and whatever happened before."""
from __future__ import annotations

import functools
import itertools
import os
from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo

from mc import clock, targets
from mc.stores import Backend, scheduler

LEVEL = "model_checking"
ITEM_CPU = 400
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
KINDS = ("file", "sql", "redis", "mongo")
KEY = "ASYNCZ_STORE_ENCRYPTION_KEY"
BOUNDS = {
    "quick": "25 odd callables (private, overridden, local, objects, builtin, by name) x 6 ways to give them or their arguments x 0-2 restarts; 16 kinds of callables x 5 argument lists x 9 triggers x 4 option sets on 4 durable stores with and without encryption and for pickle protocols 2-5, each restarted and run; all histories of 2 steps of 16 with a restart after every step and of 3 steps (memory-speed stores), against a memory store which is never restarted",
    "thorough": "histories of 3 steps on all stores, 4 on the file store",
}
ASSUMPTIONS = ["mongo client stand-in", "a restart is a shutdown and a new scheduler and store object in the same process"]
MIN = {"transitions": 3000}


def fns():
    h = targets.Holder("kept")
    return {
        "function": (targets.record, (1,)),
        "text": ("mc.targets:record", (1,)),
        "method": (h.meth, (1,)),
        "classmethod": (targets.Holder.cmeth, (1,)),
        "static": (targets.Holder.smeth, (1,)),
        "nested": (targets.Holder.Inner.deep, (1,)),
        "inherited": (targets.Heir.cmeth, (1,)),
        "inherited-static": (targets.Heir.smeth, (1,)),
        "heir": (targets._Heir2.cmeth, (1,)),
        "private-class": (targets.Heir.private_class(), (1,)),
        "private-static": (targets.Heir.private_static(), (1,)),
        "metaclass": (targets.WithMeta.on_class, (1,)),
        "decorated": (targets.decorated, (1,)),
        "class": (targets.Holder, ("made",)),
        "builtin": (len, ([1, 2],)),
        "failing": (targets.boom, (1,)),
    }


ARGS = [
    ((), {}),
    ((1, "x", None), {"k": [1, {"n": (2, 3)}]}),
    ((b"\x00\xff", 1.5), {"when": T}),
    (({"a": {1, 2}},), {"ünï": "\N{SNOWMAN}"}),
    ((targets.Holder("arg"),), {}),
]


def triggers():
    from asyncz.triggers import AndTrigger, CronTrigger, DateTrigger, IntervalTrigger, OrTrigger

    ny = ZoneInfo("America/New_York")
    return [
        DateTrigger(run_at=T, timezone=UTC),
        DateTrigger(run_at=T + timedelta(hours=2, microseconds=7), timezone=ny),
        IntervalTrigger(minutes=7, start_at=T, timezone=UTC),
        IntervalTrigger(hours=1, start_at=T, end_at=T + timedelta(hours=2), timezone=ny),
        CronTrigger(minute="*/5", timezone=UTC),
        CronTrigger(hour="9-17/2", day_of_week="mon-fri", timezone=ny, end_at=T + timedelta(days=40)),
        CronTrigger(day="last fri", hour=1, timezone=UTC),
        OrTrigger([IntervalTrigger(minutes=7, start_at=T, timezone=UTC), CronTrigger(minute=3, timezone=UTC)]),
        AndTrigger([IntervalTrigger(minutes=2, start_at=T, timezone=UTC), CronTrigger(minute="*/6", timezone=UTC)]),
    ]


OPTIONS = [
    {},
    {"name": "näme", "mistrigger_grace_time": 2.5, "coalesce": True, "max_instances": 7},
    {"mistrigger_grace_time": None, "coalesce": False, "max_instances": 1},
    {"executor": "other", "next_run_time": T + timedelta(minutes=5, microseconds=250000)},
    {"next_run_time": None},
]
ATTRS = ("id", "name", "fn_reference", "mistrigger_grace_time", "coalesce", "max_instances", "executor", "store_alias", "next_run_time", "pending", "submitted")


def snap(t):
    d = {a: getattr(t, a, None) for a in ATTRS}
    d["trigger"] = repr(t.trigger)
    d["kwargs"] = dict(t.kwargs)
    # a bound method of an instance is stored as function plus instance
    fn, args = t.fn, tuple(t.args)
    if hasattr(fn, "__self__") and isinstance(fn.__self__, targets.Holder):
        args = (fn.__self__, *args)
        fn = fn.__func__
    d["fn"] = fn
    d["args"] = args
    return d


def odd():
    """Callables which can't all be stored: refused or kept, never exchanged for another one."""
    c = targets.Callable_("own")
    return {
        "private": targets.Heir("p").private(),
        "heirs-own": targets._Heir2("p").meth,
        "parents-method": targets._Heir2("p").parents_own(),
        "unbound-private": targets.Holder._Holder__hidden,
        "parents-class-method": targets._Heir2.parents(),
        "callable-object": c,
        "callable-in-module": targets.callable_object,
        "call-of-object": c.__call__,
        "partial": functools.partial(targets.record, "p"),
        "lambda": lambda *a, **k: targets.record(*a, **k),
        "local": local(),
        "local-class": local_class().cm,
        "builtin-method": [].append,
        "method": targets.Holder("m").meth,
        "text-of-partial": "mc.targets:partial_record",
        "text-of-lambda": "mc.targets:lambda_record",
        "text-of-decorated": "mc.targets:decorated",
        "text-of-renamed": "mc.targets:renamed",
        "text-of-local": "mc.targets:local_object.go",
        "text-of-append": "mc.targets:LOG.append",
        "text-of-unpicklable": "mc.targets:service.tick",
        "text-of-private": "mc.targets:Holder._Holder__chidden",
        "text-of-inherited": "mc.targets:Heir.cmeth",
        "text-of-object": "mc.targets:callable_object",
        "text-of-bound": "mc.targets:callable_object.__call__",
    }


def local():
    def inner(*args, **kwargs):
        return targets.record(*args, **kwargs)

    return inner


def local_class():
    class Here(targets.Holder):
        @classmethod
        def cm(cls, *args, **kwargs):
            return targets.record(*args, **kwargs)

    return Here


def callables(kind, res, tier, key):
    """Every callable runs as itself or is refused when it is given: by add_task, update_task, replacing, late starts."""
    from asyncz.triggers import IntervalTrigger

    set_key(key)
    ways = ("add", "late", "update", "replace", "args", "kwargs")
    for name, way, restarts in itertools.product(odd(), ways, (0, 1, 2)):
        case = {"store": kind, "encrypted": bool(key), "callable": name, "way": way, "restarts": restarts}
        seen = []
        for durable in (False, True):
            clock.set_now(T)
            targets.LOG.clear()
            back = Backend(kind if durable else "memory")
            events = []
            try:
                fn = odd()[name]
                args = (targets.Holder("self"), 5) if name == "unbound-private" else (5,)
                s = sched(back)
                trigger = IntervalTrigger(minutes=10, start_at=T, timezone=UTC)
                if way != "late":
                    s.start()
                if way in ("update", "replace"):
                    s.add_task(targets.two, trigger, args=(1,), id="t")
                s_add = lambda: s.add_task(fn, trigger, args=args, id="t", replace_existing=way == "replace")
                refused = None
                try:
                    if way == "update":
                        s.update_task("t", fn=fn, args=args)
                    else:
                        s_add()
                    if way == "late":
                        s.start()
                except Exception as exc:
                    refused = type(exc).__name__
                if way in ("args", "kwargs") and not refused:
                    # other arguments for the same callable, also for a task which was restored
                    if durable and restarts:
                        s.shutdown()
                        s = sched(back)
                        s.start()
                    try:
                        s.update_task("t", **({"args": (*args[:-1], 6)} if way == "args" else {"kwargs": {} if name in ("builtin-method", "text-of-append") else {"k": 7}}))
                    except Exception as exc:
                        refused = f"update: {type(exc).__name__}"
                if refused and way == "late":
                    # the start which could not store it is given up
                    seen.append(("refused", None))
                    continue
                for _ in range(restarts if durable else 0):
                    s.shutdown()
                    s = sched(back)
                    s.start()
                s.add_listener(lambda e: events.append((e.code, getattr(e, "task_id", None), str(getattr(e, "scheduled_run_time", None)), str(getattr(e, "return_value", None)), type(getattr(e, "exception", None)).__name__)))
                for dt in (0, 600, 1200):
                    clock.set_now(T + timedelta(seconds=dt))
                    s.process_tasks()
                    res.count(transitions=1)
                seen.append((refused, (sorted(map(repr, targets.LOG)), events, [(t.id, str(t.next_run_time)) for t in s.get_tasks()])))
                s.shutdown()
            finally:
                back.drop()
        (r0, m), (r1, d) = seen
        res.count(traces_validated_against_impl=1)
        res.seen("states", (name, way, restarts, kind, bool(key)))
        if r0 is not None and r1 is None:
            res.violation(f"{kind}-callable-taken", f"the {kind} store takes a callable which is refused otherwise ({r0}): {case}", **case)
        elif r1 is None and m != d:
            res.violation(f"{kind}-callable-{name}", f"the {kind} store exchanges the callable: {d} instead of {m} for {case}", **case)
        elif r1 not in (None, "refused") and r0 is None:
            # refused: what was there before goes on
            want = [] if way in ("add", "args", "kwargs") else ["(1, 2)"] * 3
            if d[0] != want:
                res.violation(f"{kind}-refused-{name}", f"after the {kind} store refused a callable ({r1}) the runs are {d[0]} instead of {want} for {case}", **case)
        if name.startswith(("heirs-own", "method", "private", "text", "parents-method", "unbound")) and name != "text-of-object" and r1 is not None and r0 is None:
            res.violation(f"{kind}-callable-refused", f"the {kind} store refuses a callable which can be found by name ({r1}): {case}", **case)
        res.sample(case)


def sched(back):
    from asyncz.executors.debug import DebugExecutor

    return scheduler({"default": back}, executors={"default": DebugExecutor(), "other": DebugExecutor()})


def set_key(key):
    if key:
        os.environ[KEY] = key
    else:
        os.environ.pop(KEY, None)


def explore(item, res, tier, seed):
    mode, kind, *rest = item
    if not Backend.available(kind):
        res.cap(f"{kind} is not available here")
        res.count(transitions=0, states=0, traces_validated_against_impl=0)
        return
    try:
        {"shapes": shapes, "histories": histories, "callables": callables}[mode](kind, res, tier, *rest)
    finally:
        set_key(None)
        clock.off()


def shape_cases(tier):
    names = list(fns())
    ntr = len(triggers())
    for f in names:
        for a in range(len(ARGS)):
            if f in ("class", "builtin") and a:
                continue
            yield f, a, 0, 0
    for t in range(ntr):
        for o in range(len(OPTIONS)):
            yield "function", 1, t, o
            if tier == "thorough":
                yield "method", 4, t, o


def shapes(kind, res, tier, key, protocol):
    set_key(key)
    extra = {} if protocol is None else {"pickle_protocol": protocol}
    for f, a, tr, o in shape_cases(tier):
        case = {"store": kind, "encrypted": bool(key), "protocol": protocol, "callable": f, "arguments": a, "trigger": tr, "options": OPTIONS[o]}
        logs = []
        snaps = []
        for durable in (False, True):
            clock.set_now(T)
            back = Backend(kind if durable else "memory")
            if extra and durable:
                plain = back.open
                back.open = lambda plain=plain, **kw: plain(**extra, **kw)
            fn, fargs = fns()[f]
            args, kwargs = ARGS[a]
            if f in ("class", "builtin"):
                args, kwargs = fargs, {}
            events = []
            s = sched(back)
            s.start()
            task = s.add_task(fn, triggers()[tr], args=args, kwargs=kwargs, id="t", **OPTIONS[o])
            before = snap(task)
            if durable:
                for _ in range(2):
                    s.shutdown()
                    s = sched(back)
                    s.start()
                    got = s.get_tasks()
                    if len(got) != 1:
                        res.violation(f"{kind}-lost", f"the {kind} store returns {len(got)} tasks after a restart for {case}", **case)
                        break
                    after = snap(got[0])
                    res.count(transitions=1)
                    for k in before:
                        if before[k] != after[k]:
                            res.violation(f"{kind}-{k}", f"after a restart of the {kind} store {k} is {after[k]!r} instead of {before[k]!r} for {case}", **case)
            s.add_listener(lambda e: events.append((e.code, getattr(e, "task_id", None), str(getattr(e, "scheduled_run_time", None)), str(getattr(e, "return_value", None)) if f != "class" else "")))
            targets.LOG.clear()
            seq = []
            for dt in (0, 300, 301, 3600, 3600 * 5, 86400 * 30):
                clock.set_now(T + timedelta(seconds=dt))
                s.process_tasks()
                res.count(transitions=1)
                left = s.get_tasks()
                seq.append((dt, [str(t.next_run_time) for t in left]))
            logs.append((seq, [repr(x) for x in targets.LOG] if f != "method" else len(targets.LOG), events))
            snaps.append(before)
            s.shutdown()
            back.drop()
        if repr(logs[0]) != repr(logs[1]):
            res.violation(f"{kind}-runs", f"a restarted task of the {kind} store runs differently: {logs[1]} instead of {logs[0]} for {case}", **case)
        res.count(traces_validated_against_impl=1)
        res.seen("states", repr(case))
        res.sample(case)


def steps():
    from asyncz.triggers import CronTrigger, DateTrigger, IntervalTrigger

    def at(minutes):
        def go(s):
            clock.set_now(max(datetime.now(UTC), T + timedelta(minutes=minutes)))
            s.process_tasks()

        return go

    return {
        "add-i": lambda s: s.add_task(targets.record, IntervalTrigger(minutes=10, start_at=T, timezone=UTC), id="i", args=["i"], coalesce=False),
        "add-d": lambda s: s.add_task(targets.record, DateTrigger(run_at=T + timedelta(minutes=15), timezone=UTC), id="d", args=["d"]),
        "add-c": lambda s: s.add_task(targets.record, CronTrigger(minute="*/20", timezone=UTC), id="c", args=["c"], mistrigger_grace_time=3600 * 3, coalesce=True),
        "put-i": lambda s: s.add_task(targets.record, IntervalTrigger(minutes=3, start_at=T, timezone=UTC), id="i", args=["i2"], replace_existing=True),
        "rename": lambda s: s.update_task("i", name="other", args=["x"], max_instances=4),
        "pause": lambda s: s.pause_task("i"),
        "resume": lambda s: s.resume_task("i"),
        "again": lambda s: s.reschedule_task("c", trigger="interval", minutes=4),
        "del-i": lambda s: s.delete_task("i"),
        "del-d": lambda s: s.delete_task("d"),
        "run-i": lambda s: s.run_task("i"),
        "run-d": lambda s: s.run_task("d"),
        "keep-d": lambda s: s.run_task("d", remove_finished=False),
        "at5": at(5),
        "at21": at(21),
        "at90": at(90),
    }


def play(word, restart, kind):
    """Observations after each step; `restart`: None or the step after which to restart (-1: every)."""
    clock.set_now(T)
    targets.LOG.clear()
    ops = steps()
    back = Backend(kind)
    s = sched(back)
    s.start()
    out = []
    try:
        for n, name in enumerate(word):
            try:
                ops[name](s)
                r = None
            except Exception as exc:
                r = type(exc).__name__
            if restart is not None and (restart == -1 or restart == n):
                s.shutdown()
                s = sched(back)
                s.start()
            out.append((name, r, sorted((repr(sorted((k, repr(v)) for k, v in snap(t).items()))) for t in s.get_tasks()), sorted(map(repr, targets.LOG))))
        clock.set_now(T + timedelta(hours=3))
        s.process_tasks()
        out.append(("end", None, sorted((t.id, str(t.next_run_time)) for t in s.get_tasks()), sorted(map(repr, targets.LOG))))
        s.shutdown()
    finally:
        back.drop()
    return out


def starts():
    """One base per kind of task, so that short histories act on something."""
    return [("add-i",), ("add-d",), ("add-c",), ("add-i", "add-d", "add-c")]


def histories(kind, res, tier, key, depth, part, parts):
    set_key(key)
    names = list(steps())
    for n, (base, word) in enumerate(itertools.product(starts(), itertools.product(names, repeat=depth))):
        if n % parts != part:
            continue
        word = base + word
        want = play(word, None, "memory")
        modes = [-1] if depth > 1 else [-1, 0]
        for m in modes:
            got = play(word, m, kind)
            res.count(transitions=len(word), traces_validated_against_impl=1)
            for i, (g, w) in enumerate(zip(got, want)):
                if g != w:
                    res.violation(f"{kind}-history-{g[0]}", f"the {kind} store with restarts after {word[: i + 1]}: {g} instead of {w}", history=list(word))
                    break
            for g in got:
                res.seen("states", g[2:])
        if part == 0 and n < 3:
            res.sample({"history": list(word), "store": kind})


def items(tier):
    out = []
    for kind in KINDS:
        out += [("shapes", kind, None, None), ("shapes", kind, "secret", None)]
        if kind != "redis":
            out += [("shapes", kind, None, p) for p in (2, 4)]
        else:
            out += [("shapes", kind, None, p) for p in (2, 4)]
        out += [("callables", kind, None), ("callables", kind, "secret")]
    q = {"file": 2, "sql": 2, "redis": 2, "mongo": 2}
    for kind in KINDS:
        d = q[kind] + (1 if tier == "thorough" else 0)
        parts = 4 if tier == "quick" else 24
        out += [("histories", kind, None, d, i, parts) for i in range(parts)]
        out += [("histories", kind, "secret", 1, 0, 1)]
    if tier == "thorough":
        out += [("histories", "file", None, 4, i, 64) for i in range(64)]
    else:
        out += [("histories", "mongo", None, 3, i, 16) for i in range(16)]
    return out
