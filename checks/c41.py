"""Decorators, task objects and life cycle generators: submitted exactly as declared, once per use."""
from __future__ import annotations

import asyncio
import itertools
from datetime import datetime, timedelta, timezone

from mc import clock, stores, targets

LEVEL = "model_checking"
ITEM_CPU = 700
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
BOUNDS = {
    "quick": "definitions with up to 2 of 22 options x 4 triggers x 3 scheduler states x 3 stores, used as decorator once, twice and on two functions, and as task object with up to 1 of 14 overrides; all words of up to 4 out of 11 steps (uses of 3 definitions on 2 functions, start, shutdown, passes, deletions); life cycle generators of 4 kinds under all words of up to 5 out of 7 steps",
    "thorough": "definitions with up to 3 options, words of 5 and 6 steps",
}
ASSUMPTIONS = ["a definition with a paused start (next_run_time=None) is left out: the decorator is documented to simply start its tasks"]
MIN = {"definitions": 3000, "words": 5000, "lifecycles": 1000}

OPTIONS = [
    ("id", "fixed"), ("id", "other-id"), ("name", "a name"), ("name", ""), ("args", [1]), ("args", (1, [2])), ("args", []), ("kwargs", {"k": 1}), ("kwargs", {}),
    ("mistrigger_grace_time", None), ("mistrigger_grace_time", 7), ("coalesce", False), ("coalesce", True), ("max_instances", 3), ("next_run_time", T + timedelta(hours=3)), ("next_run_time", "2030-02-01T00:00:00"),
    ("store", "second"), ("executor", "second"), ("store", "default"), ("executor", "default"), ("args", [1, 2, 3]), ("kwargs", {"nope": 1}),
]
TRIGGERS = {
    "interval": lambda: ("interval", {"minutes": 5}),
    "now": lambda: ("date", {}),
    "cron": lambda: ("cron", {"hour": "4"}),
    "none": lambda: (None, {}),
}


def fn1(a=None, b=None, *, k=None):
    targets.LOG.append(("fn1", a, b, k))


def fn2(a=None, b=None, *, k=None):
    targets.LOG.append(("fn2", a, b, k))


def tick():
    return None


def outcome(f):
    try:
        return ("ok", f())
    except Exception as e:
        return ("raised", type(e).__name__, str(e).split("(")[0])


def view(t):
    return dict(name=t.name, fn=t.fn, args=tuple(t.args), kwargs=dict(t.kwargs), coalesce=t.coalesce, max=t.max_instances, grace=t.mistrigger_grace_time, executor=t.executor, store=t.store_alias, next=t.next_run_time, trigger=str(t.trigger), pending=t.pending)


def tasks(s):
    return {t.id: view(t) for t in s.get_tasks()}


def new(kind, state, **kw):
    backends = {a: stores.Backend(kind) for a in ("default", "second")}
    from asyncz.executors.debug import DebugExecutor

    s = stores.scheduler(backends, executors={"default": DebugExecutor(), "second": DebugExecutor()}, **kw)
    s.backends = backends
    if state != "stopped":
        s.start(paused=state == "paused")
    return s


def end(s):
    try:
        s.shutdown()
    except Exception:
        pass
    for b in s.backends.values():
        b.drop()


def clean():
    for f in (fn1, fn2):
        if hasattr(f, "asyncz_tasks"):
            del f.asyncz_tasks


def compare(res, key, a, b, **detail):
    if a != b:
        diff = sorted({k for i in set(a) | set(b) for k in set(a.get(i, {})) | set(b.get(i, {})) if a.get(i, {}).get(k) != b.get(i, {}).get(k)}) if all(isinstance(x, dict) for x in (a, b)) else "?"
        res.violation(key, "a declared task is not the one a direct call adds", differs=diff, got=a, expected=b, **detail)
        return False
    return True


def combos(depth):
    for k in range(depth + 1):
        for c in itertools.combinations(OPTIONS, k):
            if len({o for o, _ in c}) == k:
                yield dict(c)


def define(res, tier, kind, state, trig):
    for opts in combos(3 if tier == "thorough" else 2):
        for use in (("f1",), ("f1", "f1"), ("f1", "f2")):
            clean()
            s, twin = new(kind, state), new(kind, state)
            try:
                name, targs = TRIGGERS[trig]()
                got = outcome(lambda: s.add_task(trigger=name, **{k: copy_of(v) for k, v in opts.items()}, **targs))
                res.count(traces_validated_against_impl=1, definitions=1, transitions=len(use))
                if got[0] == "ok" and tasks(s):
                    res.violation("defined-runs", "a definition is a task before it is used", opts=opts)
                deco = got[1] if got[0] == "ok" else None
                for n, u in enumerate(use):
                    f = fn1 if u == "f1" else fn2
                    before = tasks(s)
                    listed = list(getattr(f, "asyncz_tasks", ()))
                    if deco is not None:
                        got = outcome(lambda: deco(f))
                    now_listed = list(getattr(f, "asyncz_tasks", ()))
                    fresh = [t.id for t in now_listed[len(listed):]]
                    tid = opts.get("id") or (fresh[0] if fresh else f"none{n}")
                    t_name, t_args = TRIGGERS[trig]()
                    direct = {k: copy_of(v) for k, v in opts.items() if k != "id"}
                    exp = outcome(lambda: twin.add_task(f, t_name, id=tid, replace_existing="id" in opts, **direct, **t_args))
                    detail = dict(options=opts, use=use, trigger=trig, state=state, store=kind)
                    if got[0] != exp[0]:
                        res.violation(f"decorate:{got[1] if got[0] != 'ok' else 'accepted'}", "a decorator is accepted or refused other than the direct call", got=repr(got), expected=repr(exp), **detail)
                        break
                    if got[0] != "ok":
                        if tasks(s) != before or now_listed != listed:
                            res.violation("refused-changes", "a refused decorator changes something", **detail)
                        break
                    if got[1] is not f:
                        res.violation("function", "a decorator does not return the function as it is", got=repr(got[1]), **detail)
                    if "id" not in opts and len(fresh) != 1 or "id" in opts and fresh:
                        res.violation("listed", "a function does not list exactly its own copies", fresh=fresh, **detail)
                    if not compare(res, f"decorated:{trig}", tasks(s), tasks(twin), **detail):
                        break
                    if fresh and s.get_task(fresh[0]) is None:
                        res.violation("copy", "the listed copy is not the submitted task", **detail)
                if state == "stopped":
                    a, b = outcome(s.start), outcome(twin.start)
                    if a[:2] != b[:2] or a[0] == "ok" and not compare(res, f"started:{trig}", tasks(s), tasks(twin), options=opts, use=use, state=state, store=kind):
                        res.violation("start", "a start with declared tasks differs from one with added tasks", got=repr(a), expected=repr(b), options=opts, use=use)
                res.seen("states", repr(sorted(map(str, tasks(twin).values()))))
                # the runs are those of the function with its arguments
                if s.state == twin.state and state != "paused" and len(use) == 1 and kind == "memory":
                    logs = []
                    for x in (s, twin):
                        targets.LOG.clear()
                        clock.set_now(T + timedelta(seconds=0.5))
                        x.process_tasks()
                        clock.set_now(T)
                        logs.append(list(targets.LOG))
                    if logs[0] != logs[1]:
                        res.violation("runs", "a declared task runs other than an added one", got=logs[0], expected=logs[1], options=opts)
            finally:
                end(s)
                end(twin)
    clean()
    res.sample({"store": kind, "state": state, "trigger": trig})


def copy_of(v):
    return list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v


OVERRIDES = [None, ("name", "b"), ("args", [7]), ("kwargs", {"k": 9}), ("mistrigger_grace_time", 4), ("mistrigger_grace_time", None), ("coalesce", False), ("max_instances", 5), ("next_run_time", T + timedelta(hours=9)), ("next_run_time", None), ("store", "second"), ("executor", "second"), ("trigger", "cron"), ("args", [1, 2, 3])]


def objects(res, tier, kind, state):
    """Task objects: submitted with their own values and the overrides, once."""
    from asyncz.tasks import Task

    plain = [o for o in OPTIONS if o[0] not in ("id", "store", "executor", "next_run_time", "name") or o == ("name", "a name")]
    for k in range(3 if tier == "thorough" else 2):
        for chosen in itertools.combinations(plain, k):
            if len({o for o, _ in chosen}) < k:
                continue
            for over in OVERRIDES:
                for existing in (None, False, True):
                    s, twin = new(kind, state), new(kind, state)
                    try:
                        values = {k: copy_of(v) for k, v in chosen}
                        got = outcome(lambda: Task(fn1, id="t", trigger=s.create_trigger("interval", {"minutes": 5}), **values))
                        exp_values = dict(mistrigger_grace_time=1, coalesce=True, max_instances=1, **{}) | {k: copy_of(v) for k, v in chosen}
                        res.count(traces_validated_against_impl=1, definitions=1, transitions=1)
                        if got[0] != "ok":
                            direct = outcome(lambda: twin.add_task(fn1, "interval", minutes=5, id="t", **exp_values))
                            if direct[0] == "ok" or direct[1] != got[1]:
                                res.violation("object-refused", "a task object is refused other than the same task added", values=chosen, got=repr(got), expected=repr(direct))
                            continue
                        task = got[1]
                        if existing is not None:
                            for x in (s, twin):
                                x.add_task(fn2, "interval", hours=1, id="t")
                        kw = {}
                        if over:
                            kw = {over[0]: copy_of(over[1])}
                            exp_values[over[0]] = copy_of(over[1])
                            if over[0] == "trigger":
                                kw["hour"] = "4"
                        trig_kw = dict(trigger="cron", hour="4") if over and over[0] == "trigger" else dict(trigger="interval", minutes=5)
                        exp_values.pop("trigger", None)
                        got = outcome(lambda: s.add_task(task, replace_existing=bool(existing), **kw))
                        exp = outcome(lambda: twin.add_task(fn1, id="t", replace_existing=bool(existing), **exp_values, **trig_kw))
                        detail = dict(values=chosen, override=over, existing=existing, state=state, store=kind)
                        if got[0] != exp[0] or got[0] != "ok" and got[1] != exp[1]:
                            res.violation("submit", "a task object is accepted or refused other than the same task added", got=repr(got), expected=repr(exp), **detail)
                            continue
                        if got[0] == "ok" and got[1] is not task:
                            res.violation("submitted", "submitting a task object gives another one", **detail)
                        if state == "stopped":
                            s.start(paused=True)
                            twin.start(paused=True)
                        compare(res, f"object:{over and over[0]}", tasks(s), tasks(twin), **detail)
                        before = tasks(s)
                        again = outcome(lambda: s.add_task(task))
                        if got[0] == "ok" and (again[0] == "ok" or tasks(s) != before):
                            res.violation("again", "a task object can be submitted twice", got=repr(again), **detail)
                        res.seen("states", repr(sorted(map(str, before.values()))))
                    finally:
                        end(s)
                        end(twin)
    # what is no complete task is refused
    for bad in ("no-trigger", "no-fn", "foreign"):
        s, twin = new(kind, state), new(kind, state)
        try:
            if bad == "no-trigger":
                t = Task(fn1, id="x")
            elif bad == "no-fn":
                t = s.add_task(trigger="interval", minutes=5)
            else:
                t = Task(fn1, id="x", trigger=twin.create_trigger("interval", {"minutes": 5}), scheduler=twin)
            try:
                s.add_task(t)
            except (AssertionError, ValueError):
                pass
            else:
                res.violation(f"incomplete:{bad}", "a task object which is none is accepted", state=state)
            if tasks(s):
                res.violation(f"incomplete-added:{bad}", "a refused task object is added", state=state)
        finally:
            end(s)
            end(twin)


def words(res, tier, kind, first):
    """Uses of definitions in any order with starts, shutdowns, passes and deletions."""
    steps = [("use", d, f) for d in range(3) for f in (0, 1)] + [("start",), ("stop",), ("pass",), ("delete", 0), ("delete", 1)]
    depth = 5 if tier == "thorough" else 4
    fns = (fn1, fn2)
    defs = [dict(minutes=5, max_instances=2), dict(minutes=10, id="same", args=[5]), dict(seconds=30, coalesce=False, mistrigger_grace_time=None, name="third", kwargs={"k": 3})]
    for word in itertools.product(range(len(steps)), repeat=depth):
        if word[0] != first:
            continue
        clean()
        s, twin = new(kind, "stopped"), new(kind, "stopped")
        now = T
        clock.set_now(now)
        try:
            decos = [s.add_task(trigger="interval", **copy_of(d)) for d in defs]
            # a definition counts its intervals from when it is made
            triggers = [twin.create_trigger("interval", {k: v for k, v in d.items() if k in ("minutes", "seconds")}) for d in defs]
            made = {0: [], 1: []}
            for pos, i in enumerate(word):
                step = steps[i]
                res.count(transitions=1)
                if step[0] == "use":
                    f, d = fns[step[2]], dict(defs[step[1]])
                    n = len(getattr(f, "asyncz_tasks", ()))
                    a = outcome(lambda: decos[step[1]](f))
                    fresh = [t.id for t in getattr(f, "asyncz_tasks", ())[n:]]
                    tid = d.pop("id", None) or (fresh[0] if fresh else "?")
                    made[step[2]] += fresh
                    b = outcome(lambda: twin.add_task(f, triggers[step[1]], id=tid, replace_existing=tid == "same", **{k: v for k, v in d.items() if k not in ("minutes", "seconds")}))
                elif step[0] == "start":
                    a, b = outcome(s.start), outcome(twin.start)
                elif step[0] == "stop":
                    a, b = outcome(s.shutdown), outcome(twin.shutdown)
                elif step[0] == "pass":
                    now += timedelta(minutes=6)
                    clock.set_now(now)
                    out = []
                    for x in (s, twin):
                        targets.LOG.clear()
                        if x.running:
                            x.process_tasks()
                        out.append(sorted(map(repr, targets.LOG)))
                    a, b = out
                else:
                    ids = made[step[1]]
                    tid = ids[-1] if ids else "same"
                    a, b = outcome(lambda: s.delete_task(tid)), outcome(lambda: twin.delete_task(tid))
                ok = a == b if isinstance(a, list) else a[0] == b[0] and (a[0] == "ok" or a[1] == b[1])
                if not ok or not compare(res, f"word:{step[0]}", tasks(s), tasks(twin), word=[steps[j] for j in word], at=pos, store=kind):
                    if not ok:
                        res.violation(f"word-result:{step[0]}", "a use of a definition ends other than the direct call", word=[steps[j] for j in word], at=pos, got=repr(a), expected=repr(b))
                    break
            for j, f in enumerate(fns):
                if [t.id for t in getattr(f, "asyncz_tasks", ())] != made[j] or len(set(made[j])) != len(made[j]):
                    res.violation("listing", "a function does not list each copy once", word=[steps[j] for j in word])
            res.count(traces_validated_against_impl=1, words=1)
            res.seen("states", repr(sorted(map(str, tasks(twin).values()))))
        finally:
            end(s)
            end(twin)
    clean()
    clock.set_now(T)


# ---------------------------------------------------------------- life cycles
def lifecycle(res, tier, first):
    """The documented generator tasks: set up once, a step per run, cleaned up once at the shutdown."""
    from asyncz.utils import make_function

    steps = ("start", "pass", "run", "pause", "resume", "stop", "renew")
    depth = 6 if tier == "thorough" else 5
    for how in ("inner", "outer", "ends", "raises"):
        for word in itertools.product(range(len(steps)), repeat=depth):
            if word[0] != first:
                continue
            log = []
            exp = []
            s = new("memory", "stopped")
            now = T
            clock.set_now(now)

            def make():
                def life():
                    log.append("setup")
                    if how == "inner":
                        s.add_task(make_function(gen.send), args=[False], trigger="shutdown", id="bye", replace_existing=True)
                    n = 0
                    running = yield
                    while running:
                        n += 1
                        log.append("step")
                        if how == "ends" and n == 2:
                            return
                        if how == "raises" and n == 2:
                            raise ValueError("x")
                        running = yield
                    log.append("cleanup")

                gen = life()
                gen.send(None)
                if how != "inner":
                    s.add_task(make_function(gen.send), args=[False], trigger="shutdown", id="bye", replace_existing=True)
                s.add_task(make_function(gen.send), args=[True], trigger="interval", minutes=5, id="tick", next_run_time=now, replace_existing=True)
                exp.append("setup")
                return gen

            # model
            alive = {"live": True, "n": 0, "next": now, "tick": True, "bye": True, "state": 0, "starts": 0}

            def model_step():
                if alive["live"]:
                    alive["n"] += 1
                    exp.append("step")
                    if how in ("ends", "raises") and alive["n"] == 2:
                        alive["live"] = False

            def model_pass(at):
                if alive["tick"] and alive["next"] <= at:
                    late = None
                    while alive["next"] <= at:
                        late = alive["next"]
                        alive["next"] += timedelta(minutes=5)
                    if at - late <= timedelta(seconds=1):
                        model_step()

            try:
                make()
                for pos, i in enumerate(word):
                    op = steps[i]
                    res.count(transitions=1)
                    if op == "start":
                        s.start()
                        alive["starts"] += 1
                        if alive["starts"] == 1:
                            alive["state"] = 1
                    elif op == "pass":
                        now += timedelta(minutes=5)
                        clock.set_now(now)
                        if s.running:
                            s.process_tasks()
                        if alive["state"] == 1:
                            model_pass(now)
                    elif op == "run":
                        if alive["state"] and alive["tick"]:
                            s.run_task("tick", force=True)
                            due = alive["next"] <= now
                            if due:
                                model_pass(now)
                            else:
                                model_step()
                    elif op == "pause":
                        if alive["state"]:
                            s.pause()
                            alive["state"] = 2
                    elif op == "resume":
                        if alive["state"]:
                            s.resume()
                            alive["state"] = 1
                    elif op == "stop":
                        if alive["starts"]:
                            s.shutdown()
                            alive["starts"] -= 1
                            if alive["starts"] == 0:
                                alive["state"] = 0
                                if alive["bye"] and alive["live"]:
                                    exp.append("cleanup")
                                    alive["live"] = False
                                alive.update(tick=False, bye=False)
                    else:
                        if not alive["tick"]:
                            # a new life after the old one has ended
                            alive.update(live=True, n=0, next=now, tick=True, bye=True)
                            make()
                    if log != exp:
                        res.violation(f"life:{how}:{op}", "a life cycle task is not set up, stepped and cleaned up once each as documented", word=[steps[j] for j in word], at=pos, got=list(log), expected=list(exp))
                        break
                res.count(traces_validated_against_impl=1, lifecycles=1)
                res.seen("states", (how, len(log), s.running, tuple(log[-3:])))
            finally:
                while s.running:
                    s.shutdown()
    clock.set_now(T)
    res.sample({"first": steps[first]})


def alife(res, tier):
    """Async generators on the native scheduler."""
    from asyncz.schedulers import NativeAsyncIOScheduler
    from asyncz.utils import make_async_function

    async def one(word, rounds):
        log, exp = [], []
        s = NativeAsyncIOScheduler(timezone=UTC)
        for _ in range(rounds):
            async def life():
                log.append("setup")
                s.add_task(make_async_function(gen.asend), args=[False], trigger="shutdown", id="bye")
                running = yield
                while running:
                    log.append("step")
                    running = yield
                await asyncio.sleep(0)
                log.append("cleanup")

            gen = life()
            await gen.asend(None)
            s.add_task(make_async_function(gen.asend), args=[True], trigger="interval", hours=5, id="tick")
            exp.append("setup")
            running = paused = False
            for op in word:
                if op == "start" and not running:
                    await s.start()
                    running = True
                elif op == "run" and running:
                    s.run_task("tick", force=True)
                    for _ in range(6):
                        await asyncio.sleep(0)
                    exp.append("step")
                elif op == "toggle" and running:
                    (s.resume if paused else s.pause)()
                    paused = not paused
                res.count(transitions=1)
            if not running:
                await s.start()
            await s.shutdown()
            exp.append("cleanup")
            if log != exp:
                res.violation("alife", "an async life cycle task is not set up, stepped and cleaned up once each", word=word, got=list(log), expected=list(exp))
                return
        res.count(traces_validated_against_impl=1, lifecycles=1)
        res.seen("states", (word, rounds))

    async def all_():
        for n in range(0, 6 if tier == "thorough" else 5):
            for word in itertools.product(("start", "run", "toggle"), repeat=n):
                for rounds in (1, 2):
                    await one(word, rounds)

    asyncio.run(all_())


def items(tier):
    out = [("define", (k, st, tr)) for k, st, tr in itertools.product(("memory", "file", "sql"), ("stopped", "paused", "running"), TRIGGERS) if k == "memory" or tr == "interval"]
    out += [("objects", (k, st)) for k, st in itertools.product(("memory", "file"), ("stopped", "paused"))]
    out += [("words", ("memory", i)) for i in range(11)]
    out += [("life", i) for i in range(7)] + [("alife", 0)]
    return out


def explore(item, res, tier, seed):
    import logging

    logging.disable(logging.CRITICAL)
    kind, arg = item
    clock.set_now(T)
    try:
        if kind == "define":
            define(res, tier, *arg)
        elif kind == "objects":
            objects(res, tier, *arg)
        elif kind == "words":
            words(res, tier, *arg)
        elif kind == "life":
            lifecycle(res, tier, arg)
        else:
            alife(res, tier)
    finally:
        clean()
        clock.off()
