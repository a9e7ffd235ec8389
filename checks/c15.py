"""Records which can't be restored only concern their own task; records of older versions restore like new ones."""
from __future__ import annotations

import itertools
import os
import pickle
from datetime import datetime, timedelta, timezone

from mc import clock, targets
from mc.stores import Backend, scheduler, sched_cls

LEVEL = "model_checking"
ITEM_CPU = 800
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
H = timedelta(hours=1)
VAR = "ASYNCZ_STORE_ENCRYPTION_KEY"
BOUNDS = {
    "quick": "file, SQL, redis and mongo store, plain and encrypted: 27 kinds of broken records in each place among 3 tasks (alone, and every pair of places) x all words of 2 of 12 store operations, (encrypted and SQL: every third word) and all words of 2 of 9 scheduler calls (encrypted: every fourth kind); records of older versions for 8 kinds of tasks and 4 pickle protocols",
    "thorough": "all pairs of kinds of broken records, words of 3 operations",
}
ASSUMPTIONS = ["mongo client stand-in"]
MIN = {"records": 2000}
KINDS = ("file", "sql", "redis", "mongo")
IDS = ("a", "b", "c")
WHEN = {"a": T, "b": T - H, "c": T + H}


def task(ident, name=None, trigger=None, **kw):
    from asyncz.tasks import Task
    from asyncz.triggers import IntervalTrigger

    kw = {"fn": targets.record, "args": [ident], "executor": "default", "store_alias": "default", "max_instances": 1, "coalesce": True, "mistrigger_grace_time": None, **kw}
    return Task(id=ident, name=name or ident, trigger=trigger or IntervalTrigger(hours=3, start_at=T - H, timezone=UTC), **kw)


class Gone:
    """Its class is not there anymore when it is restored."""

    def __reduce__(self):
        return find, ("missing",)


def find(name):
    raise ImportError(name)


def interrupt():
    raise RuntimeError("restoring fails")


class Failing:
    def __reduce__(self):
        return interrupt, ()


def broken(state):
    """kind -> record, made from a good task state."""
    from asyncz.stores.persistence import TaskStateEnvelope

    def env(**kw):
        return pickle.dumps(TaskStateEnvelope(**{"entity": "task_state", "version": 1, "shape": "pydantic", "payload": state, **kw}))

    good = env(shape=SHAPE[0])
    moved = pickle.loads(pickle.dumps(state))
    out = {
        "empty": b"",
        "one byte": b"x",
        "garbage": b"\xff" * 64,
        "text": b"not a pickle at all",
        "half": good[: len(good) // 2],
        "all but one byte": good[:-1],
        "number": pickle.dumps(5),
        "none": pickle.dumps(None),
        "dict": pickle.dumps({"id": "a"}),
        "string": pickle.dumps("task_state"),
        "version 0": env(version=0),
        "version 2": env(version=2),
        "version text": env(version="1.0"),
        "no version": env(version=None),
        "other entity": env(entity="scheduler"),
        "no entity": env(entity=""),
        "unknown shape": env(shape="no-such-shape"),
        "no payload": env(payload=None),
        "payload dict": env(payload={"id": "a"}),
        "payload text": env(payload="x"),
        "payload envelope": env(payload=TaskStateEnvelope("task_state", 1, SHAPE[0], state)),
        "class gone": pickle.dumps(Gone()),
        "restoring fails": pickle.dumps(Failing()),
    }
    for what, ref in (("module gone", "no_such_module_at_all:fn"), ("function gone", "mc.targets:no_such_function"), ("bad reference", "nonsense"), ("not callable", "mc.targets:LOG.nothing")):
        moved.fn = moved.fn_reference = ref
        out[what] = pickle.dumps(TaskStateEnvelope("task_state", 1, SHAPE[0], pickle.loads(pickle.dumps(moved))))
    return out


SHAPE = [None]
KIND_NAMES = 27

STORE_OPS = {
    "list": lambda s: view(s.get_all_tasks()),
    "due": lambda s: view(s.get_due_tasks(T)),
    "next": lambda s: s.get_next_run_time() and "some",
    "lookup-a": lambda s: view([t for t in [s.lookup_task("a")] if t]),
    "lookup-b": lambda s: view([t for t in [s.lookup_task("b")] if t]),
    "lookup-c": lambda s: view([t for t in [s.lookup_task("c")] if t]),
    "update-a": lambda s: put(s, "update_task", "a"),
    "update-b": lambda s: put(s, "update_task", "b"),
    "add-a": lambda s: put(s, "add_task", "a"),
    "add-d": lambda s: put(s, "add_task", "d"),
    "delete-b": lambda s: s.delete_task("b"),
    "delete-c": lambda s: s.delete_task("c"),
}


def put(s, op, ident, name=None, when=""):
    t = task(ident, name or f"{ident}-new")
    t.update_task(scheduler=s.scheduler, next_run_time=WHEN.get(ident, T) if when == "" else when)
    getattr(s, op)(t)


def view(tasks):
    return tuple((t.id, t.name) for t in tasks)


def items(tier):
    out = []
    for kind in KINDS:
        for crypt in (False, True):
            for i in range(KIND_NAMES):
                out.append(("store", kind, crypt, i))
                if tier != "quick" or not crypt or i % 4 == 0:
                    out.append(("sched", kind, crypt, i))
            out.append(("old", kind, crypt))
    return out


def start(back):
    store = back.open()
    store.start(sched_cls()(timezone=UTC), "default")
    return store


def explore(item, res, tier, seed):
    if not Backend.available(item[1]):
        return
    old = os.environ.get(VAR)
    if item[2]:
        os.environ[VAR] = "secret"
    else:
        os.environ.pop(VAR, None)
    clock.set_now(T)
    try:
        {"store": on_store, "sched": on_scheduler, "old": older}[item[0]](item, res, tier)
    finally:
        clock.off()
        if old is None:
            os.environ.pop(VAR, None)
        else:
            os.environ[VAR] = old


def kinds_of(store):
    SHAPE[0] = store.shape.name
    return list(broken(task("a").__getstate__()).items())


def places(tier):
    return [("a",), ("b",), ("c",), ("a", "b"), ("b", "c"), ("a", "c"), ("a", "b", "c")]


def on_store(item, res, tier):
    _, kind, crypt, i = item
    n = 2 if tier == "quick" else 3
    back = Backend(kind)
    store = start(back)
    all_kinds = kinds_of(store)
    assert len(all_kinds) == KIND_NAMES, len(all_kinds)
    what, record = all_kinds[i]
    second = all_kinds[(i + 7) % KIND_NAMES][1]
    try:
        for at in places(tier):
            if len(at) == 1:
                words = list(itertools.product(STORE_OPS, repeat=n))
            else:
                words = [(x,) for x in STORE_OPS] + [("list", x) for x in STORE_OPS]
            if tier == "quick" and (kind == "sql" or crypt):
                words = words[:: 3]
            for word in words:
                store.remove_all_tasks()
                for ident in IDS:
                    put(store, "add_task", ident, ident)
                raw = back.raw()
                good = {i for i in IDS if i not in at}
                for k, ident in enumerate(at):
                    back.put_raw(ident, store.conditional_encrypt(record if k == 0 else second))
                model = {i: i for i in good}
                bad = set(at)
                run(store, back, kind, word, model, bad, at, what, res)
        res.sample({"store": kind, "encrypted": crypt, "record": what, "words": len(words)})
    finally:
        store.shutdown()
        back.drop()


def run(store, back, kind, word, model, bad, at, what, res):
    where = f"{kind} store, {what} in place of {at}, {word}"
    for step, op in enumerate(word):
        try:
            got = STORE_OPS[op](store)
            exc = None
        except Exception as e:
            got, exc = None, type(e).__name__
        verb, _, ident = op.partition("-")
        if exc and not ident:
            res.violation(f"{verb}:{kind}:{what}", f"{where}: {op} fails with {exc}")
        elif verb in ("list", "due"):
            want = {(i, n) for i, n in model.items() if verb == "list" or WHEN.get(i, T) <= T}
            if set(got) != want or len(got) != len(want):
                res.violation(f"{verb}:{kind}:{what}", f"{where}: {op} gives {got} instead of {sorted(want)}")
            if verb == "list":
                bad.clear()  # unreadable records are removed
        elif verb == "next":
            if not got and model:
                res.violation(f"next:{kind}:{what}", f"{where}: no next run time")
        elif verb == "lookup":
            want = ((ident, model[ident]),) if ident in model else ()
            if exc and ident in model or not exc and got != want:
                res.violation(f"lookup:{kind}:{what}", f"{where}: {op} gives {got} {exc}")
        elif ident not in bad:
            want = {"update": None if ident in model else "TaskLookupError", "add": "ConflictIdError" if ident in model else None, "delete": None if ident in model else "TaskLookupError"}[verb]
            if exc != want:
                res.violation(f"{verb}:{kind}:{what}", f"{where}: {op} ends with {exc} instead of {want}")
        if not exc and verb in ("update", "add"):
            model[ident] = f"{ident}-new"
            bad.discard(ident)
        if not exc and verb == "delete":
            model.pop(ident, None)
            bad.discard(ident)
        res.count(transitions=1)
    listed = store.get_all_tasks()
    if sorted(view(listed)) != sorted(model.items()):
        res.violation(f"rest:{kind}:{what}", f"{where}: afterwards listed {view(listed)} instead of {sorted(model.items())}")
    ahead(store, where, f"{kind}:{what}", listed, res)
    # the place of a broken record can be taken again
    paused = hash_of(word) % 2 == 0
    for ident in at:
        if ident not in model:
            try:
                put(store, "add_task", ident, when=None if paused else T)
            except Exception as e:
                res.violation(f"place:{kind}:{what}", f"{where}: afterwards {ident} can't be added: {e!r}")
    listed = store.get_all_tasks()
    ahead(store, f"{where}, then {at} added again{' as paused' if paused else ''}", f"{kind}:{what}", listed, res)
    want = {(t.id, t.name) for t in listed if t.next_run_time and t.next_run_time <= T}
    due = view(store.get_due_tasks(T))
    if set(due) != want or len(due) != len(want):
        res.violation(f"place:{kind}:{what}", f"{where}, then {at} added again{' as paused' if paused else ''}: due are {due} instead of {sorted(want)}")
    res.count(records=1, traces_validated_against_impl=1)
    res.seen("states", (kind, what, at, word))


def ahead(store, where, what, listed, res):
    """Once the broken records are removed the next run time is the one of a task."""
    times = [t.next_run_time for t in listed if t.next_run_time]
    got = store.get_next_run_time()
    if got != (min(times) if times else None):
        res.violation(f"ahead:{what}", f"{where}: afterwards the next run time is {got}, the tasks run at {times}")


def hash_of(word):
    return sum(len(w) * (i + 1) for i, w in enumerate(word)) + list(STORE_OPS).index(word[-1])


CALLS = ("process", "later", "list", "add", "update", "pause", "run", "delete", "restart")


def on_scheduler(item, res, tier):
    _, kind, crypt, i = item
    n = 2 if tier == "quick" else 3
    for at in (("a",), ("b",), ("a", "b")) if tier == "quick" else places(tier):
        for word in itertools.product(CALLS, repeat=n):
            if tier == "quick" and len(at) == 2 and word[0] not in ("process", "restart"):
                continue
            one(kind, i, at, word, res)


def one(kind, i, at, word, res):
    """The same as if the broken tasks were not there at all."""
    clock.set_now(T)
    what, got = history(kind, i, at, word)
    _, want = history(kind, None, at, word)
    if got != want:
        res.violation(f"sched:{kind}:{what}", f"{kind} store, {what} in place of {at}, scheduler calls {word}: {got}, without these tasks {want}")
    res.count(records=1, traces_validated_against_impl=1, transitions=len(word) + 1)
    res.seen("states", (kind, what, at, word, "s"))
    res.seen("outcomes", got)


def history(kind, i, at, word):
    from asyncz.executors import DebugExecutor

    clock.set_now(T)
    back = Backend(kind)
    store = start(back)
    what = None
    for ident in IDS:
        if i is not None or ident not in at:
            put(store, "add_task", ident, ident)
    if i is not None:
        what, record = kinds_of(store)[i]
        for ident in at:
            back.put_raw(ident, store.conditional_encrypt(record))
    store.shutdown()
    targets.LOG.clear()

    def life():
        s = scheduler({"default": back}, executors={"default": DebugExecutor()})
        s.start()
        return s

    now = T
    s = life()
    errors = []
    try:
        for op in word + ("process", "list"):
            try:
                if op == "later":
                    now += 3 * H
                    clock.set_now(now)
                if op in ("process", "later"):
                    s.process_tasks()
                elif op == "list":
                    errors.append(sorted((t.id, t.next_run_time) for t in s.get_tasks()))
                elif op == "add":
                    s.add_task(targets.record, "interval", hours=3, start_at=T - H, args=["d"], id="d", coalesce=True, replace_existing=True, next_run_time=now)
                elif op == "update":
                    s.update_task("c", name="new")
                elif op == "pause":
                    s.pause_task("c")
                elif op == "delete":
                    s.delete_task("c")
                elif op == "run":
                    s.run_task("c")
                elif op == "restart":
                    s.shutdown()
                    s = life()
            except Exception as exc:
                errors.append((op, type(exc).__name__))
    finally:
        s.shutdown()
        back.drop()
    return what, (errors, sorted(x[0][0] for x in targets.LOG))


def called(t, f):
    """Function and arguments of a call, a bound instance is the first argument."""
    v = getattr(t, f)
    if f not in ("fn", "args"):
        return v
    me = getattr(t.fn, "__self__", None)
    if isinstance(me, targets.Holder):
        return t.fn.__func__ if f == "fn" else (me, *v)
    return v if f == "fn" else tuple(v)


def older(item, res, tier):
    """Records without an envelope."""
    from asyncz.triggers import AndTrigger, CronTrigger, DateTrigger, IntervalTrigger, OrTrigger

    _, kind, crypt = item
    every = IntervalTrigger(hours=1, start_at=T, timezone=UTC)
    made = {
        "interval": lambda: task("x", trigger=every),
        "cron": lambda: task("x", trigger=CronTrigger(minute="*/5", timezone="UTC")),
        "date": lambda: task("x", trigger=DateTrigger(T + H, timezone=UTC)),
        "or": lambda: task("x", trigger=OrTrigger([every, DateTrigger(T + H, timezone=UTC)])),
        "and": lambda: task("x", trigger=AndTrigger([every, CronTrigger(minute="0", timezone="UTC")])),
        "method": lambda: task("x", fn=targets.Holder("q").meth, args=[1]),
        "options": lambda: task("x", max_instances=4, coalesce=False, mistrigger_grace_time=7, kwargs={"k": [1]}, args=(1, 2)),
        "coroutine": lambda: task("x", fn=targets.arecord),
    }
    for what, m in made.items():
        for protocol, aged in itertools.product(range(2, 6), (False, True)):
            for when in (None, T, T + timedelta(microseconds=1)):
                back = Backend(kind)
                store = start(back)
                t = m()
                t.update_task(scheduler=store.scheduler, next_run_time=when)
                store.add_task(t)
                new = store.lookup_task("x")
                state = t.__getstate__()
                if aged:
                    # a field which older versions did not have
                    state.__dict__.pop("bound", None)
                    state.__pydantic_fields_set__.discard("bound")
                back.put_raw("x", store.conditional_encrypt(pickle.dumps(state, protocol)))
                seen = [store.lookup_task("x"), *store.get_all_tasks(), *(store.get_due_tasks(T) if when == T else [])]
                if len(seen) != 2 + (when == T) or None in seen:
                    res.violation(f"old:{kind}:{what}", f"{kind} store: a record without envelope ({what}, protocol {protocol}) is restored as {seen}")
                else:
                    for o in seen:
                        for f in ("id", "name", "fn", "fn_reference", "args", "kwargs", "executor", "coalesce", "max_instances", "mistrigger_grace_time", "next_run_time", "store_alias"):
                            if called(o, f) != called(new, f):
                                res.violation(f"old:{kind}:{what}:{f}", f"{kind} store: a record without envelope ({what}, protocol {protocol}, older fields {aged}) has {f} {getattr(o, f)!r} instead of {getattr(new, f)!r}")
                        a = b = T
                        for _ in range(3):
                            a = a and o.trigger.get_next_trigger_time(UTC, a, a)
                            b = b and new.trigger.get_next_trigger_time(UTC, b, b)
                            if a != b:
                                res.violation(f"old:{kind}:{what}:runs", f"{kind} store: a record without envelope ({what}, protocol {protocol}) runs at {a} instead of {b}")
                    store.update_task(seen[0])
                    if [x.id for x in store.get_all_tasks()] != ["x"]:
                        res.violation(f"old:{kind}:{what}:written", f"{kind} store: a record without envelope ({what}) is lost when it is written again")
                res.count(records=1, traces_validated_against_impl=1, transitions=4)
                res.seen("states", (kind, what, protocol, when))
                store.shutdown()
                back.drop()
