"""Configuration: every spelling builds the same scheduler, and task defaults and shapes keep values as they are."""
from __future__ import annotations

import copy
import dataclasses
import itertools
import os
import pickle
from collections.abc import Mapping
from datetime import datetime, timedelta, timezone
from typing import Any, Optional
from zoneinfo import ZoneInfo

from mc import clock, stores, targets

LEVEL = "model_checking"
ITEM_CPU = 700
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
BOUNDS = {
    "quick": "every combination of 4 spellings per group of 6 configurations, with 5 prefixes; every pair of a global and an overriding group; 60 values of the scalars; 40 invalid configurations; 12 task defaults x 6 shapes x 40 explicit arguments x 4 triggers x 5 ways to add; models of up to 2 of 9 fields in 5 libraries x all values of their fields from 5; records of 8 writers under 8 readers in 4 stores and 18 foreign records; all words of 4 out of 15 registry operations",
    "thorough": "models of up to 3 fields, registry words of 5",
}
ASSUMPTIONS = ["what pydantic, attrs and msgspec accept as a value of a field is theirs; the same values are given to their own constructors", "configurations in which a key is both given whole and in parts are left out (which one counts is not documented)"]
MIN = {"configurations": 1500, "tasks": 3000, "models": 2000, "records": 300, "words": 5000}


def outcome(fn):
    try:
        return ("ok", fn())
    except Exception as e:
        return ("raised", type(e).__name__, e)


# ---------------------------------------------------------------- spellings
def groups():
    """Configurations: group -> (value, what of the scheduler must come out)."""
    d = os.path.join(stores.scratch(), "c39")
    from asyncz.executors.asyncio import AsyncIOExecutor
    from asyncz.executors.debug import DebugExecutor
    from asyncz.executors.pool import ThreadPoolExecutor
    from asyncz.stores.file import FileStore
    from asyncz.stores.memory import MemoryStore

    F, M = "asyncz.stores.file:FileStore", "asyncz.stores.memory:MemoryStore"
    P, A = "asyncz.executors.pool:ThreadPoolExecutor", "asyncz.executors.asyncio:AsyncIOExecutor"
    fs = ("FileStore", d, ".task")
    yield {
        "stores": ({"default": {"type": "file", "directory": d}}, {"default": fs}),
        "executors": ({"default": {"type": "threadpool", "max_workers": "20"}}, {"default": ("ThreadPoolExecutor", 20)}),
        "task_defaults": ({"coalesce": "false", "max_instances": "3"}, (1.0, False, 3)),
        "timezone": ("UTC", "UTC"),
    }
    yield {
        "stores": ({"default": {"class": F, "directory": d, "suffix": ".x"}, "more": {"class": MemoryStore}}, {"default": ("FileStore", d, ".x"), "more": ("MemoryStore",)}),
        "executors": ({"pool": {"max_workers": "7", "class": P}, "default": {"class": A}}, {"pool": ("ThreadPoolExecutor", 7), "default": ("AsyncIOExecutor",)}),
        "task_defaults": ({"mistrigger_grace_time": "30", "timezone": "UTC"}, (30.0, True, 1)),
        "timezone": (ZoneInfo("Europe/Berlin"), "Europe/Berlin"),
    }
    yield {
        "stores": ({"a": MemoryStore(), "b": {"type": "memory"}, "c": {"type": "sqlalchemy", "database": "sqlite:///" + d + ".db"}}, {"a": ("MemoryStore",), "b": ("MemoryStore",), "c": ("SQLAlchemyStore", "asyncz_store")}),
        "executors": ({"x": DebugExecutor(), "y": {"class": "asyncz.executors.debug:DebugExecutor"}, "z": {"type": "pool"}}, {"x": ("DebugExecutor",), "y": ("DebugExecutor",), "z": ("ThreadPoolExecutor", 10)}),
        "lock_path": ("/tmp/{store}.pid", "/tmp/{store}.pid"),
        "startup_delay": ("2", 2.0),
        "identity": ("worker", "worker"),
    }
    yield {
        "stores": ({"default": {"type": "redis", "database": "0"}, "other": {"type": "redis", "database": 3, "tasks_key": "k"}}, {"default": ("RedisStore", 0, "asyncz.tasks"), "other": ("RedisStore", 3, "k")}),
        "executors": ({"default": {"type": "asyncio"}, "p": {"type": "pool", "max_workers": 3, "cancel_futures": True}}, {"default": ("AsyncIOExecutor",), "p": ("ThreadPoolExecutor", 3, True)}),
        "lock_path": ("/tmp/x.pid", "/tmp/x.pid"),
        "logger_name": ("n", "asyncz.schedulers.n"),
        "store_retry_interval": ("3", 3.0),
    }
    yield {
        "task_defaults": ({"mistrigger_grace_time": None, "coalesce": True, "max_instances": 2}, (None, True, 2)),
        "timezone": (timezone.utc, "UTC"),
        "shape": ("any", "any"),
        "heartbeat_stale_after": ("4.5", 4.5),
        "identity": ("x", "x"),
    }
    yield {"stores": ({}, {}), "executors": ({}, {}), "task_defaults": ({}, (1.0, True, 1)), "startup_delay": (5, 5.0), "shape": ("dataclass", "dataclass")}


GROUPS = 6
ATTR = {"logger_name": "logger_name", "lock_path": "lock_path", "startup_delay": "startup_delay", "identity": "identity", "store_retry_interval": "store_retry_interval", "heartbeat_stale_after": "heartbeat_stale_after"}


def describe(obj):
    name = type(obj).__name__
    if name == "FileStore":
        return (name, str(obj.directory), obj.suffix)
    if name == "RedisStore":
        return (name, obj.database, obj.tasks_key)
    if name == "SQLAlchemyStore":
        return (name, obj.table.name)
    if name == "ThreadPoolExecutor":
        return (name, obj.pool._max_workers) + ((True,) if obj.cancel_futures else ())
    return (name,)


def observe(s, group):
    if group in ("stores", "executors"):
        return {a: describe(o) for a, o in getattr(s, group).items()}
    if group == "task_defaults":
        t = s.task_defaults
        return (t.mistrigger_grace_time, t.coalesce, t.max_instances)
    if group == "timezone":
        return str(s.timezone)
    if group == "shape":
        return s.shape.name
    return getattr(s, ATTR[group])


def same(a, b):
    return a == b and type(a) is type(b)


def spell(prefix, group, value, style):
    """(part of global_config, options)"""
    if style == 0:
        return {}, {group: value}
    if style == 1 or not isinstance(value, dict) or not value:
        return {prefix + group: value}, {}
    out = {}
    for k, v in value.items():
        if style == 2 or not isinstance(v, dict) or not v:
            out[f"{prefix}{group}.{k}"] = v
        else:
            for k2, v2 in v.items():
                out[f"{prefix}{group}.{k}.{k2}"] = v2
    return out, {}


def frozen(v):
    """Comparable copy of a configuration: mappings deeply, all else by identity."""
    return {k: frozen(x) for k, x in v.items()} if isinstance(v, dict) else id(v)


def copied(v):
    """Own mappings, same values."""
    return {k: copied(x) for k, x in v.items()} if isinstance(v, dict) else v


def make(cls, *a, **kw):
    return cls(*a, **kw)


def spellings(res, n):
    from asyncz.schedulers import AsyncIOScheduler

    cfg = list(groups())[n]
    names = list(cfg)
    for prefix, styles in itertools.product(("asyncz.", "my.app.", "", None, "x"), itertools.product(range(4), repeat=len(names))):
        if prefix != "asyncz." and sum(styles) % 3:
            continue
        glob, opts = {}, {}
        for g, st in zip(names, styles):
            a, b = spell(prefix or "", g, copied(cfg[g][0]), st)
            glob.update(a)
            opts.update(b)
        if prefix:
            glob["zz." + "timezone"] = "Asia/Tokyo"  # of something else
            glob["timezone"] = "Asia/Tokyo"
        before = frozen(glob), frozen(opts)
        kw = {} if prefix == "asyncz." else {"prefix": prefix}
        for how in ("init", "setup", "again"):
            if how == "init":
                got = outcome(lambda: AsyncIOScheduler(glob, **kw, **opts))
            else:
                def f():
                    s = AsyncIOScheduler(stores={"old": {"type": "memory"}}, executors={"old": {"type": "debug"}}, timezone="Asia/Tokyo") if how == "again" else AsyncIOScheduler()
                    s.setup(glob, **kw, **opts)
                    return s

                got = outcome(f)
            res.count(traces_validated_against_impl=1, configurations=1, transitions=1)
            if got[0] != "ok":
                res.violation(f"refused:{n}:{got[1]}", "a spelling of a valid configuration is refused", styles=dict(zip(names, styles)), prefix=prefix, how=how, error=repr(got[2]))
                continue
            for g in names:
                seen = observe(got[1], g)
                res.seen("states", repr((g, seen)))
                if not same(seen, cfg[g][1]):
                    res.violation(f"spelling:{g}:{n}", "a spelling of a configuration builds another scheduler", group=g, value=cfg[g][0], style=styles[names.index(g)], prefix=prefix, how=how, got=seen, expected=cfg[g][1])
            for g in ("stores", "executors"):
                if g not in names and observe(got[1], g) != {}:
                    res.violation(f"left-over:{g}", "a new configuration keeps stores or executors of the old one", how=how, got=observe(got[1], g))
            if "startup_delay" not in names and not same(got[1].startup_delay, 1.0 if "lock_path" in names else 0.0) and got[1].startup_delay != (1 if "lock_path" in names else 0):
                res.violation("startup-delay", "the startup delay is not the documented one", got=got[1].startup_delay)
            if (frozen(glob), frozen(opts)) != before:
                res.violation(f"mutated:{n}", "building a scheduler changes the configuration it was given", styles=dict(zip(names, styles)), how=how, config=glob)
                break
    res.sample({"config": n, "groups": names})


def overrides(res):
    """An option replaces the value of the global configuration, whatever the spelling of that."""
    from asyncz.schedulers import AsyncIOScheduler

    cfgs = list(groups())
    for (i, a), (j, b) in itertools.product(enumerate(cfgs), repeat=2):
        for style in (1, 2, 3):
            for over in itertools.chain([()], ((g,) for g in b), [tuple(b)]):
                glob = {}
                for g, (v, _) in a.items():
                    glob.update(spell("asyncz.", g, copied(v), style)[0])
                opts = {g: copied(b[g][0]) for g in over}
                got = outcome(lambda: AsyncIOScheduler(glob, **opts))
                res.count(traces_validated_against_impl=1, configurations=1, transitions=1)
                if got[0] != "ok":
                    res.violation("override-refused:" + got[1], "options over a global configuration are refused", config=glob, options=opts, error=repr(got[2]))
                    continue
                for g in set(a) | set(over):
                    exp = b[g][1] if g in over else a[g][1]
                    if not same(observe(got[1], g), exp):
                        res.violation(f"override:{g}", "an option does not replace the global configuration (or something else does)", group=g, config=glob, options=opts, got=observe(got[1], g), expected=exp)


def scalars(res):
    from asyncz.schedulers import AsyncIOScheduler
    from pathlib import Path

    yes = ["1", "true", "True", "TRUE", "t", "yes", "Yes", "y", "on", "ON", True, 1, " true "]
    no = ["0", "false", "False", "FALSE", "f", "no", "No", "n", "off", "OFF", False, 0, " false "]
    cases = [({"task_defaults": {"coalesce": v}}, "task_defaults", (1.0, True, 1)) for v in yes]
    cases += [({"task_defaults": {"coalesce": v}}, "task_defaults", (1.0, False, 1)) for v in no]
    cases += [({"task_defaults": {"max_instances": v}}, "task_defaults", (1.0, True, int(v))) for v in (1, "1", 4, "20")]
    cases += [({"task_defaults": {"mistrigger_grace_time": v}}, "task_defaults", (None if v is None else float(v), True, 1)) for v in (None, 1, "1", 0.5, "0.5", 3600)]
    cases += [({"task_defaults": None}, "task_defaults", (1.0, True, 1)), ({}, "task_defaults", (1.0, True, 1))]
    cases += [({"lock_path": v}, "lock_path", str(v)) for v in ("/a", Path("/a/b"), "")]
    cases += [({"lock_path": None}, "lock_path", "")]
    cases += [({"startup_delay": v, **m}, "startup_delay", float(v)) for v in (0, "0", 1.5, "1.5", 30) for m in ({}, {"lock_path": "/x"})]
    cases += [({"store_retry_interval": v}, "store_retry_interval", float(v)) for v in (1, "1", 0.25, "60")] + [({}, "store_retry_interval", 10.0)]
    cases += [({"heartbeat_stale_after": v}, "heartbeat_stale_after", float(v)) for v in (1, "2.5", 60)] + [({}, "heartbeat_stale_after", 30.0)]
    cases += [({"timezone": v}, "timezone", str(v)) for v in ("UTC", "America/New_York", ZoneInfo("Asia/Kolkata"), timezone(timedelta(hours=3)))]
    cases += [({"logger_name": v}, "logger_name", "asyncz.schedulers" + (f".{v}" if v else "")) for v in (None, "", "a", "a.b")]
    cases += [({"identity": v}, "identity", str(v)) for v in ("a", "host:1", 7)]
    cases += [({"shape": v}, "shape", v or "pydantic") for v in (None, "pydantic", "any", "dataclass", "attrs", "msgspec")]
    for opts, g, exp in cases:
        for how in range(3):
            if how == 0:
                got = outcome(lambda: AsyncIOScheduler(**copied(opts)))
            elif how == 1:
                got = outcome(lambda: AsyncIOScheduler({"asyncz." + k: copied(v) for k, v in opts.items()}))
            else:
                def f():
                    s = AsyncIOScheduler()
                    s.setup(**copied(opts))
                    return s

                got = outcome(f)
            res.count(traces_validated_against_impl=1, configurations=1, transitions=1)
            if got[0] != "ok" or not same(observe(got[1], g), exp):
                res.violation(f"value:{g}:{sorted(opts.items(), key=str)!r}"[:120], "a value of the configuration is not used as documented", options=opts, how=how, got=repr(got[2]) if got[0] != "ok" else observe(got[1], g), expected=exp)
    # without a name every scheduler has its own, which stays
    ids = {AsyncIOScheduler().identity for _ in range(50)}
    s = AsyncIOScheduler()
    old = s.identity
    s.setup()
    if len(ids) != 50 or s.identity != old:
        res.violation("identity", "generated identities are not unique or change", ids=len(ids))


def invalid(res):
    from asyncz.exceptions import SchedulerAlreadyRunningError
    from asyncz.schedulers import AsyncIOScheduler

    bad = [
        {"stores": {"a": {}}}, {"stores": {"a": {"directory": "/x"}}}, {"stores": {"a": {"type": "nope"}}}, {"stores": {"a": {"class": "nope.nope:X"}}},
        {"stores": {"a": {"class": "asyncz.stores.memory:Nope"}}}, {"stores": {"a": 3}}, {"stores": {"a": "file"}}, {"stores": {"a": None}}, {"stores": {"a": ["memory"]}},
        {"stores": {"a": {"type": "file"}}}, {"stores": {"a": {"class": "asyncz.executors.debug:DebugExecutor"}}}, {"stores": {"a": object()}},
        {"stores": {"a": {"type": "memory"}, "b": {}}}, {"stores": {"default": {"type": "redis", "database": "x"}}},
        {"executors": {"a": {}}}, {"executors": {"a": {"max_workers": 2}}}, {"executors": {"a": {"type": "nope"}}}, {"executors": {"a": {"class": "nope:X"}}},
        {"executors": {"a": {"class": "asyncz.executors.pool:Nope"}}}, {"executors": {"a": 3}}, {"executors": {"a": "pool"}}, {"executors": {"a": None}},
        {"executors": {"a": {"type": "pool", "max_workers": "x"}}}, {"executors": {"a": {"type": "pool", "max_workers": 0}}}, {"executors": {"a": {"class": "asyncz.stores.memory:MemoryStore"}}},
        {"task_defaults": "x"}, {"task_defaults": 3}, {"task_defaults": ["coalesce"]}, {"task_defaults": {"max_instances": "many"}}, {"task_defaults": {"mistrigger_grace_time": "soon"}},
        {"timezone": "Nowhere/Nothing"}, {"timezone": 3}, {"startup_delay": "soon"}, {"store_retry_interval": "x"}, {"heartbeat_stale_after": "x"},
        {"shape": "nope"}, {"shape": 3}, {"shape": dict}, {"loggers_class": "nope.nope:X"},
    ]
    for opts in bad:
        for how in range(2):
            got = outcome(lambda: AsyncIOScheduler(**copied(opts)) if how == 0 else AsyncIOScheduler({"asyncz." + k: copied(v) for k, v in opts.items()}))
            res.count(traces_validated_against_impl=1, configurations=1, transitions=1)
            if got[0] == "ok":
                res.violation(f"accepted:{opts!r}"[:90], "an invalid configuration is accepted", options=opts, how=how)
    # a running scheduler is not reconfigured
    cfgs = list(groups())
    for i, cfg in enumerate(cfgs):
        for paused in (False, True):
            s = stores.scheduler()
            s.setup(stores={"default": {"type": "memory"}}, executors={"default": {"type": "debug"}}, timezone="UTC")
            s.start(paused=paused)
            s.add_task(targets.noop, "interval", hours=1, id="t")
            before = {g: observe(s, g) for g in ("stores", "executors", "task_defaults", "timezone", "shape", *ATTR)}, id(s.stores["default"])
            got = outcome(lambda: s.setup(**{g: copied(v) for g, (v, _) in cfg.items()}))
            after = {g: observe(s, g) for g in ("stores", "executors", "task_defaults", "timezone", "shape", *ATTR)}, id(s.stores["default"])
            res.count(traces_validated_against_impl=1, configurations=1, transitions=1)
            if got[0] == "ok" or not isinstance(got[2], SchedulerAlreadyRunningError) or before != after or s.get_task("t") is None:
                res.violation("running-setup", "a running scheduler is reconfigured or refuses with another error", config=i, got=got[:2], before=before, after=after)
            s.shutdown()
            got = outcome(lambda: s.setup(**{g: copied(v) for g, (v, _) in cfg.items()}))
            if got[0] != "ok":
                res.violation("stopped-setup", "a stopped scheduler can not be configured again", config=i, error=repr(got[2]))


# ---------------------------------------------------------------- task defaults
def holders(values):
    """The same defaults in every representation of the shapes."""
    import attr
    import msgspec
    from pydantic import create_model

    from asyncz.schedulers.datastructures import TaskDefaultStruct

    names = list(values)
    yield "mapping", None, dict(values)
    yield "pydantic", "pydantic", create_model("D", **{k: (Any, v) for k, v in values.items()})()
    yield "dataclass", "dataclass", dataclasses.make_dataclass("D", [(k, Any, dataclasses.field(default=v)) for k, v in values.items()])()
    yield "attrs", "attrs", attr.make_class("D", {k: attr.ib(default=v) for k, v in values.items()})()
    yield "msgspec", "msgspec", msgspec.defstruct("D", [(k, Any, v) for k, v in values.items()])()
    yield "any", "any", dict(values)
    if not isinstance(values.get("max_instances", 1), str) and not isinstance(values.get("coalesce", True), str):
        yield "struct", "pydantic", TaskDefaultStruct(**values)


DEFAULTS = [
    {}, {"coalesce": False}, {"coalesce": True}, {"max_instances": 3}, {"mistrigger_grace_time": 5}, {"mistrigger_grace_time": None}, {"mistrigger_grace_time": 0.5, "max_instances": "4"},
    {"coalesce": "false", "max_instances": "3"}, {"mistrigger_grace_time": None, "coalesce": False, "max_instances": 2}, {"mistrigger_grace_time": 7.5, "coalesce": True, "max_instances": 1},
    {"coalesce": "no", "mistrigger_grace_time": "12"}, {"max_instances": 9, "coalesce": "1"},
]
NONE = object()


def truth(v):
    return v.strip().lower() in ("1", "true", "yes", "on", "y", "t") if isinstance(v, str) else bool(v)


def effective(defaults, explicit, lenient):
    """The documented values of a new task."""
    d = dict(mistrigger_grace_time=1.0, coalesce=True, max_instances=1)
    if "mistrigger_grace_time" in defaults:
        v = defaults["mistrigger_grace_time"]
        d["mistrigger_grace_time"] = None if v is None else float(v)
    if "coalesce" in defaults:
        d["coalesce"] = truth(defaults["coalesce"])
    if "max_instances" in defaults:
        d["max_instances"] = int(defaults["max_instances"])
    if lenient:
        d["mistrigger_grace_time"] = None
    d.update(explicit)
    return d


def task_defaults(res, part):
    explicit = []
    for g, c, m in itertools.product((NONE, None, 3, 0.5), (NONE, True, False), (NONE, 1, 5)):
        e = {}
        if g is not NONE:
            e["mistrigger_grace_time"] = g
        if c is not NONE:
            e["coalesce"] = c
        if m is not NONE:
            e["max_instances"] = m
        explicit.append(e)
    triggers = {
        "date": (False, lambda: ("date", {"run_at": T + timedelta(hours=1)})),
        "now": (True, lambda: ("date", {})),
        "interval": (False, lambda: ("interval", {"minutes": 5})),
        "shutdown": (None, lambda: ("shutdown", {})),
    }
    del triggers["shutdown"]
    from asyncz.triggers import CronTrigger, DateTrigger

    triggers["cron"] = (False, lambda: (CronTrigger(hour="3", timezone=UTC), {}))
    for defaults in DEFAULTS[part::4]:
        for kind, shape, holder in holders(defaults):
            for state in ("stopped", "paused"):
                s = stores.scheduler()
                got = outcome(lambda: s.setup(executors={"default": {"type": "debug"}}, timezone="UTC", task_defaults=holder, **({"shape": shape} if shape else {})))
                if got[0] != "ok":
                    res.violation(f"defaults-refused:{kind}", "task defaults in this representation are refused", kind=kind, defaults=defaults, error=repr(got[2]))
                    continue
                if state == "paused":
                    s.start(paused=True)
                n = 0
                wanted = {}
                for name, (lenient, mk) in triggers.items():
                    for e in explicit:
                        for way in ("call", "decorator", "decorator-id", "reuse"):
                            if way == "reuse" and len(e) > 1:
                                continue
                            trig, targs = mk()
                            if lenient is True:
                                lenient_now = trig_lenient(trig, targs)
                            else:
                                lenient_now = False
                            n += 1
                            tid = f"t{n}"
                            exp = effective(defaults, e, lenient_now and "mistrigger_grace_time" not in e)
                            if way == "call":
                                got = outcome(lambda: s.add_task(targets.noop, trig, id=tid, **e, **targs))
                                ids = [tid]
                            else:
                                def fn():
                                    return None

                                if way == "decorator-id":
                                    got = outcome(lambda: s.add_task(trigger=trig, id=tid, **e, **targs)(fn))
                                    ids = [tid]
                                else:
                                    def f():
                                        deco = s.add_task(trigger=trig, **e, **targs)
                                        deco(fn)
                                        if way == "reuse":
                                            deco(fn)
                                        return [t.id for t in fn.asyncz_tasks]

                                    got = outcome(f)
                                    ids = got[1] if got[0] == "ok" else []
                                    if got[0] == "ok" and len(set(ids)) != (2 if way == "reuse" else 1):
                                        res.violation("decorated-tasks", "a decorator does not add exactly one task per use", ids=ids, way=way)
                            res.count(traces_validated_against_impl=1, tasks=1, transitions=1)
                            if got[0] != "ok":
                                res.violation(f"add:{kind}:{got[1]}", "a task can not be added under these defaults", kind=kind, defaults=defaults, explicit=e, way=way, error=repr(got[2]))
                                continue
                            for i in ids:
                                wanted[i] = (exp, name, e, way)
                if state == "stopped":
                    s.start(paused=True)
                have = {t.id: t for t in s.get_tasks()}
                if set(have) != set(wanted):
                    res.violation(f"tasks:{state}", "tasks are missing or doubled", missing=sorted(set(wanted) - set(have))[:5], more=sorted(set(have) - set(wanted))[:5])
                for i, (exp, name, e, way) in wanted.items():
                    t = have.get(i)
                    if t is None:
                        continue
                    seen = dict(mistrigger_grace_time=t.mistrigger_grace_time, coalesce=t.coalesce, max_instances=t.max_instances)
                    res.seen("states", repr(seen))
                    if seen != exp or type(seen["coalesce"]) is not bool or type(seen["max_instances"]) is not int:
                        res.violation(f"default:{','.join(k for k in exp if seen[k] != exp[k])}:{way}:{name}", "a task does not have its explicit values and the defaults for all others", kind=kind, defaults=defaults, explicit=e, way=way, trigger=name, state=state, got=seen, expected=exp)
                s.shutdown()
    res.sample({"defaults": DEFAULTS[part::4]})


def trig_lenient(trig, targs):
    """Tasks of a date trigger without a time are meant for right now, however late that is."""
    return trig == "date" and not targs


# ---------------------------------------------------------------- shapes
@dataclasses.dataclass
class F:
    name: str
    ann: Any
    default: Any = NONE
    factory: Any = None
    good: tuple = ()
    bad: tuple = ()


FIELDS = [
    F("a", int, good=(0, 5), bad=("x",)),
    F("b", int, default=3, good=(3, 0), bad=(None,)),
    F("c", Optional[int], default=None, good=(None, 7)),
    F("d", list, factory=list, good=([], [1, [2, None]])),
    F("e", dict, factory=dict, good=({}, {"k": None, "l": [1]})),
    F("f", str, default="", good=("", "text")),
    F("g", Any, default=None, good=(None, (1, 2))),
    F("h", bool, default=False, good=(True, False)),
    F("i", float, good=(0.5, 0.0)),
]


def build(kind, fields):
    import attr
    import msgspec
    from pydantic import Field, create_model

    fields = sorted(fields, key=lambda f: f.default is not NONE or f.factory is not None)
    if kind == "pydantic":
        return create_model("M", **{f.name: (f.ann, Field(default_factory=f.factory) if f.factory else ... if f.default is NONE else f.default) for f in fields})
    if kind == "dataclass":
        return dataclasses.make_dataclass("M", [(f.name, f.ann, dataclasses.field(default_factory=f.factory) if f.factory else dataclasses.field() if f.default is NONE else dataclasses.field(default=f.default)) for f in fields])
    if kind == "attrs":
        return attr.make_class("M", {f.name: attr.ib(type=f.ann, factory=f.factory) if f.factory else attr.ib(type=f.ann) if f.default is NONE else attr.ib(type=f.ann, default=f.default) for f in fields})
    if kind == "msgspec":
        return msgspec.defstruct("M", [(f.name, f.ann) if f.default is NONE and not f.factory else (f.name, f.ann, msgspec.field(default_factory=f.factory) if f.factory else f.default) for f in fields])
    if kind == "plain":
        names = [f.name for f in fields]

        class M:
            def __init__(self, **kw):
                for f in fields:
                    if f.name in kw:
                        v = kw.pop(f.name)
                    elif f.factory:
                        v = f.factory()
                    elif f.default is not NONE:
                        v = f.default
                    else:
                        raise TypeError(f.name)
                    setattr(self, f.name, v)
                if kw:
                    raise TypeError("unknown")

            def __eq__(self, other):
                return type(other) is M and vars(self) == vars(other)

        return M
    raise AssertionError(kind)


def plain_dump(v, exclude_none=False):
    """What a dump of plain values looks like: mappings without None where asked for."""
    if isinstance(v, Mapping):
        return {k: plain_dump(x, exclude_none) for k, x in v.items() if not exclude_none or x is not None}
    if isinstance(v, list):
        return [plain_dump(x, exclude_none) for x in v]
    if isinstance(v, tuple):
        return tuple(plain_dump(x, exclude_none) for x in v)
    return v


def leaks(v):
    """Whether a value is a marker of a library."""
    import attr
    import msgspec
    from pydantic_core import PydanticUndefined

    return v is dataclasses.MISSING or v is attr.NOTHING or v is PydanticUndefined or v is msgspec.NODEFAULT or isinstance(v, attr.Factory)


def models(res, tier, kind):
    from asyncz.shapes import ShapeCapabilityError, ShapeError, resolve_shape

    depth = 3 if tier == "thorough" else 2
    shape = resolve_shape(kind if kind != "plain" else "any")
    for k in range(0, depth + 1):
        for fields in itertools.combinations(FIELDS, k):
            M = build(kind, fields)
            # fields
            got = outcome(lambda: shape.fields(M))
            if kind == "plain":
                if got[0] == "ok" or not isinstance(got[2], ShapeCapabilityError):
                    res.violation("fields-any", "a shape without fields does not say so", got=got)
            elif got[0] != "ok":
                res.violation(f"fields:{kind}", "the fields of a model can not be listed", fields=[f.name for f in fields], error=repr(got[2]))
            else:
                by = {f.name: f for f in got[1]}
                if set(by) != {f.name for f in fields} or len(got[1]) != len(fields):
                    res.violation(f"fields-names:{kind}", "the fields of a model are not exactly its fields", got=sorted(by), expected=[f.name for f in fields])
                for f in fields:
                    g = by.get(f.name)
                    if g is None:
                        continue
                    req = f.default is NONE and f.factory is None
                    if g.required is not req or g.annotation != f.ann:
                        res.violation(f"field:{kind}:{f.name}", "a field is described wrongly", field=f.name, got=repr(g))
                    if leaks(g.default):
                        res.violation(f"field-default:{kind}:{'factory' if f.factory else 'required' if req else 'default'}", "the default of a field is a marker of its library", field=f.name, got=repr(g))
                    elif req and g.default is not None or f.default is not NONE and not same(g.default, f.default) or f.factory and g.default is not None and g.default != f.factory():
                        res.violation(f"field-value:{kind}:{f.name}", "the default of a field is not its default", field=f.name, got=repr(g))
            # values
            for choice in itertools.product(*[[NONE, *[("good", v) for v in f.good], *[("bad", v) for v in f.bad]] for f in fields]):
                values = {f.name: copy.deepcopy(c[1]) for f, c in zip(fields, choice) if c is not NONE}
                kept = copy.deepcopy(values)
                native = outcome(lambda: M.model_validate(copy.deepcopy(values)) if kind == "pydantic" else native_msgspec(M, values) if kind == "msgspec" else M(**copy.deepcopy(values)))
                for op in ("construct", "load", "validate"):
                    got = outcome(lambda: getattr(shape, op)(M, values))
                    res.count(traces_validated_against_impl=1, models=1, transitions=1)
                    if got[0] != native[0]:
                        res.violation(f"{op}:{kind}:{'accepted' if got[0] == 'ok' else 'refused'}", "a shape accepts or refuses other values than its library", kind=kind, values=values, got=repr(got), native=repr(native))
                    elif got[0] == "ok":
                        if got[1] != native[1]:
                            res.violation(f"{op}-value:{kind}", "a shape builds another value than its library", values=values, got=repr(got[1]), native=repr(native[1]))
                        again = outcome(lambda: getattr(shape, op)(M, got[1]))
                        if again[0] != "ok" or again[1] != got[1]:
                            res.violation(f"{op}-instance:{kind}", "an instance is not taken as it is", again=repr(again))
                    elif not isinstance(got[2], ShapeError) or got[2].__cause__ is None:
                        res.violation(f"{op}-error:{kind}:{got[1]}", "a refused value is not told by a shape error with its cause", values=values, error=repr(got[2]))
                if values != kept:
                    res.violation(f"values:{kind}", "constructing changes the values", values=values, before=kept)
                if native[0] != "ok" or kind == "plain":
                    continue
                inst = native[1]
                full = {f.name: getattr(inst, f.name) for f in fields}
                for en in (False, True):
                    got = outcome(lambda: shape.dump(inst, exclude_none=en))
                    exp = plain_dump(full, en)
                    res.count(traces_validated_against_impl=1, models=1, transitions=1)
                    if got[0] != "ok":
                        res.violation(f"dump:{kind}:{got[1]}", "a model can not be dumped", values=full, error=repr(got[2]))
                        continue
                    flat = loose(got[1])
                    # nested values of mappings: libraries differ in what they leave out
                    ok = flat == loose(exp) or en and flat == loose({k: v for k, v in full.items() if v is not None})
                    if not ok:
                        res.violation(f"dump-value:{kind}:{'compact' if en else 'full'}", "a dump is not the content of the model", got=got[1], expected=exp)
                    if not en:
                        back = outcome(lambda: shape.load(M, got[1]))
                        if back[0] != "ok" or not alike(back[1], inst, fields):
                            res.violation(f"round-trip:{kind}", "a dump does not load as the same value", dump=got[1], back=repr(back), value=repr(inst))
                    res.seen("states", repr((kind, got[1])))
            for wrong in (None, 3, "x", [1], object()):
                if kind == "plain":
                    continue
                got = outcome(lambda: shape.load(M, wrong))
                if got[0] == "ok" or not isinstance(got[2], ShapeError):
                    res.violation(f"load-wrong:{kind}", "something which is no mapping is loaded or fails with another error", value=repr(wrong), got=repr(got))
    # nested models
    for outer, inner in itertools.product(("pydantic", "dataclass", "attrs"), ("pydantic", "dataclass", "attrs")):
        if kind not in (outer, "plain"):
            continue
        I = build(inner, FIELDS[1:3])
        for inst_kw in ({}, {"b": 8, "c": 9}):
            i = I(**inst_kw)
            exp_i = {"b": 3, "c": None, **inst_kw}
            for wrap, unwrap in ((lambda x: x, lambda x: x), (lambda x: [x, x], lambda x: [x, x]), (lambda x: {"k": x}, lambda x: {"k": x})):
                if outer == "pydantic":
                    continue
                O = build(outer, [F("z", Any, default=None)])
                got = outcome(lambda: shape.dump(O(z=wrap(i))))
                res.count(traces_validated_against_impl=1, models=1, transitions=1)
                if got[0] != "ok" or got[1] != {"z": unwrap(exp_i)}:
                    res.violation(f"nested:{outer}:{inner}", "a nested model is not dumped as plain values", got=repr(got), expected={"z": unwrap(exp_i)})
    res.sample({"kind": kind})


def native_msgspec(M, values):
    import msgspec

    return msgspec.convert(copy.deepcopy(values), type=M)


def loose(v):
    """Equal up to the kind of sequence."""
    if isinstance(v, Mapping):
        return {k: loose(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [loose(x) for x in v]
    return v


def alike(a, b, fields):
    return type(a) is type(b) and all(loose(getattr(a, f.name)) == loose(getattr(b, f.name)) for f in fields)


# ---------------------------------------------------------------- records
def custom_shapes():
    from asyncz.shapes import AnyShape, DataclassShape, Shape, ShapeRegistry

    class Company(AnyShape):
        name = "company"

    class Strict(DataclassShape):
        name = "strict"

    ShapeRegistry.register("company", Company, replace=True)
    ShapeRegistry.register("strict", Strict, replace=True)
    return {"pydantic": "pydantic", "dataclass": "dataclass", "attrs": "attrs", "msgspec": "msgspec", "any": "any", "company": Company, "strict": Strict(), "none": None}


def task_view(t):
    return (t.id, t.name, t.fn_reference, tuple(t.args), dict(t.kwargs), t.coalesce, t.max_instances, t.mistrigger_grace_time, t.executor, t.store_alias, t.next_run_time, repr(t.trigger), type(t.trigger).__name__)


def records(res, kind):
    from asyncz.datastructures import TaskState
    from asyncz.shapes import ShapeError, ShapeRegistry
    from asyncz.stores.persistence import TaskStateEnvelope

    shapes = custom_shapes()
    try:
        for key in (None, "secret"):
            if key:
                os.environ["ASYNCZ_STORE_ENCRYPTION_KEY"] = key
            else:
                os.environ.pop("ASYNCZ_STORE_ENCRYPTION_KEY", None)
            for w, writer in shapes.items():
                b = stores.Backend(kind)
                try:
                    s = stores.scheduler()
                    s.setup(stores={"default": b.open()}, executors={"default": {"type": "debug"}}, timezone="UTC", shape=writer)
                    s.start(paused=True)
                    s.add_task(targets.noop, "interval", minutes=5, id="a", args=[1, None], kwargs={"k": [1, {"x": None}]}, name="An a", mistrigger_grace_time=None, coalesce=False, max_instances=4)
                    s.add_task(targets.two, "date", run_at=T + timedelta(days=1), id="b", args=[targets.Holder("q")], executor="other")
                    s.add_task(targets.noop, "cron", hour="*/2", id="c", next_run_time=None)
                    exp = sorted(map(task_view, s.get_tasks()))
                    s.shutdown()
                    for r, reader in shapes.items():
                        s2 = stores.scheduler()
                        s2.setup(stores={"default": b.open()}, executors={"default": {"type": "debug"}}, timezone="UTC", shape=reader)
                        s2.start(paused=True)
                        got = outcome(lambda: sorted(map(task_view, s2.get_tasks())))
                        one = outcome(lambda: sorted(task_view(s2.get_task(i)) for i in "abc"))
                        due = outcome(lambda: sorted(task_view(t) for t in s2.stores["default"].get_due_tasks(T + timedelta(days=400))))
                        res.count(traces_validated_against_impl=1, records=1, transitions=1)
                        for what, g, e in (("list", got, exp), ("lookup", one, exp), ("due", due, [x for x in exp if x[10] is not None])):
                            res.seen("states", repr(g)[:300])
                            if g[0] != "ok" or g[1] != e:
                                res.violation(f"record:{what}:{w}:{r}", "a task stored under one shape is not the same under another", kind=kind, got=repr(g), expected=repr(e), encrypted=bool(key))
                        # the reader writes it again under its own shape
                        for i in "abc":
                            s2.update_task(i, max_instances=s2.get_task(i).max_instances)
                        got = outcome(lambda: sorted(map(task_view, s2.get_tasks())))
                        if got[0] != "ok" or got[1] != exp:
                            res.violation(f"rewritten:{w}:{r}", "a task written again under another shape is not the same", kind=kind, got=repr(got), expected=repr(exp))
                        s2.shutdown()
                finally:
                    b.drop()
        os.environ.pop("ASYNCZ_STORE_ENCRYPTION_KEY", None)
        # foreign records never become tasks
        b = stores.Backend(kind)
        try:
            s = stores.scheduler()
            s.setup(stores={"default": b.open()}, executors={"default": {"type": "debug"}}, timezone="UTC")
            s.start(paused=True)
            t = s.add_task(targets.noop, "interval", minutes=5, id="a")
            store = s.stores["default"]
            env = store.serialize_task_state(t)
            good = [env, env.payload, dataclasses.replace(env, shape="any"), dataclasses.replace(env, shape="strict")]
            for g in good:
                got = outcome(lambda: store.deserialize_task_state(pickle.loads(pickle.dumps(g))))
                res.count(traces_validated_against_impl=1, records=1, transitions=1)
                if got[0] != "ok" or not isinstance(got[1], TaskState) or got[1].id != "a":
                    res.violation("record-refused", "a valid record is refused", record=repr(g), got=repr(got))
            bad = [dataclasses.replace(env, **kw) for kw in (
                {"shape": "nope"}, {"shape": ""}, {"version": 0}, {"version": 2}, {"version": None}, {"version": "1"}, {"entity": "task"}, {"entity": ""}, {"entity": None},
                {"payload": None}, {"payload": 3}, {"payload": [1]},
            )] + [None, 3, {}, {"entity": "task_state"}, t.trigger, "x", b"x"]
            for g in bad:
                got = outcome(lambda: store.deserialize_task_state(pickle.loads(pickle.dumps(g))))
                res.count(traces_validated_against_impl=1, records=1, transitions=1)
                if got[0] == "ok" or not isinstance(got[2], ShapeError):
                    res.violation(f"record-accepted:{g!r}"[:80], "a record of an unknown kind is restored or fails with another error", record=repr(g), got=repr(got))
            ShapeRegistry.unregister("strict")
            got = outcome(lambda: store.deserialize_task_state(dataclasses.replace(env, shape="strict")))
            if got[0] == "ok" or not isinstance(got[2], ShapeError):
                res.violation("unregistered", "a record of a shape which is gone is restored", got=repr(got))
            s.shutdown()
        finally:
            b.drop()
    finally:
        os.environ.pop("ASYNCZ_STORE_ENCRYPTION_KEY", None)
        ShapeRegistry._registry.pop("company", None)
        ShapeRegistry._registry.pop("strict", None)


# ---------------------------------------------------------------- registry
def registry(res, tier, first):
    from asyncz.schedulers import AsyncIOScheduler
    from asyncz.shapes import AnyShape, DataclassShape, PydanticShape, ShapeError, ShapeNotFoundError, ShapeRegistrationError, ShapeRegistry, register_shape, resolve_shape

    class A(AnyShape):
        name = "a"

    class B(DataclassShape):
        name = "b"

    builtin = dict(ShapeRegistry._registry)
    ops = [
        ("reg", "x", A, False), ("reg", "x", B, False), ("reg", "x", B, True), ("reg", "y", A, False), ("reg", "any", B, False), ("reg", "any", B, True), ("deco", "x", A, False), ("deco", "y", B, True),
        ("reg", "", A, False), ("reg", None, A, True), ("reg", "x", A(), True), ("reg", "y", dict, True), ("unreg", "x"), ("unreg", "y"), ("unreg", "any"),
    ]
    n = 5 if tier == "thorough" else 4
    words = [w for k in range(1, n + 1) for w in itertools.product(range(len(ops)), repeat=k) if w[0] == first and (k == n or k == 1)]
    try:
        for w in words:
            ShapeRegistry._registry.clear()
            ShapeRegistry._registry.update(builtin)
            model = dict(builtin)
            for i in w:
                op = ops[i]
                if op[0] == "unreg":
                    err = None if op[1] in model else ShapeNotFoundError
                    got = outcome(lambda: ShapeRegistry.unregister(op[1]))
                    if err is None:
                        del model[op[1]]
                else:
                    _, name, cls, replace = op
                    ok = isinstance(name, str) and name and isinstance(cls, type) and issubclass(cls, (A, B)) and (replace or name not in model)
                    err = None if ok else ShapeRegistrationError
                    got = outcome(lambda: ShapeRegistry.register(name, cls, replace=replace) if op[0] == "reg" else register_shape(name, replace=replace)(cls))
                    if ok:
                        model[name] = cls
                        if got[0] == "ok" and got[1] is not cls:
                            res.violation("register-result", "registering does not return the class", op=repr(op))
                if (got[0] == "ok") != (err is None) or err and not isinstance(got[2], err):
                    res.violation(f"registry:{op[0]}", "a registration is accepted or refused wrongly", word=[repr(ops[j]) for j in w], op=repr(op), got=repr(got), expected=err and err.__name__)
                res.count(transitions=1)
            res.count(traces_validated_against_impl=1, words=1)
            if ShapeRegistry.available() != tuple(sorted(model)):
                res.violation("available", "the registered names are wrong", got=ShapeRegistry.available(), expected=sorted(model))
            for name in ("x", "y", "any", "pydantic", "nope"):
                for how in (ShapeRegistry.get, resolve_shape):
                    got = outcome(lambda: how(name))
                    if (got[0] == "ok") != (name in model) or (type(got[1]) is not model[name] if got[0] == "ok" else not isinstance(got[2], ShapeNotFoundError)):
                        res.violation("lookup", "a registered shape is not found or another one is", name=name, got=repr(got), expected=repr(model.get(name)))
            res.seen("states", repr(sorted((k, v.__name__) for k, v in model.items())))
        ShapeRegistry._registry.clear()
        ShapeRegistry._registry.update(builtin)
        a = A()
        for arg, exp in ((None, PydanticShape), (A, A), (a, A), ("any", AnyShape)):
            got = resolve_shape(arg)
            if type(got) is not exp or arg is a and got is not a:
                res.violation("resolve", "a shape is resolved wrongly", arg=repr(arg), got=repr(got))
        for arg in (3, dict, object(), [], b"any"):
            got = outcome(lambda: resolve_shape(arg))
            if got[0] == "ok" or not isinstance(got[2], ShapeError):
                res.violation("resolve-wrong", "something which is no shape is resolved", arg=repr(arg), got=repr(got))
    finally:
        ShapeRegistry._registry.clear()
        ShapeRegistry._registry.update(builtin)
    res.sample({"words": len(words)})


def items(tier):
    out = [("spell", n) for n in range(GROUPS)] + [("override", 0), ("scalars", 0), ("invalid", 0)]
    out += [("defaults", p) for p in range(4)]
    out += [("models", k) for k in ("pydantic", "dataclass", "attrs", "msgspec", "plain")]
    out += [("records", k) for k in ("memory", "file", "sql", "redis", "mongo") if k != "memory"]
    out += [("registry", i) for i in range(15)]
    return out


def explore(item, res, tier, seed):
    kind, arg = item
    clock.set_now(T)
    try:
        if kind == "spell":
            spellings(res, arg)
        elif kind == "override":
            overrides(res)
        elif kind == "scalars":
            scalars(res)
        elif kind == "invalid":
            invalid(res)
        elif kind == "defaults":
            task_defaults(res, arg)
        elif kind == "models":
            models(res, tier, arg)
        elif kind == "records":
            records(res, arg)
        elif kind == "registry":
            registry(res, tier, arg)
    finally:
        clock.off()
