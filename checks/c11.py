"""Crashes and failing writes at every point: a stored task is the old or the new one, never torn or lost."""
from __future__ import annotations

import errno
import logging
from datetime import datetime, timedelta, timezone

logging.disable(logging.CRITICAL)

from mc import clock, targets, vfs  # noqa: E402
from mc.stores import Backend, scheduler, sched_cls, scratch  # noqa: E402

LEVEL = "model_checking"
ITEM_CPU = 600
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
BOUNDS = {
    "quick": "file, sqlite and redis store, plain and encrypted; 4 contents x every operation x a crash or an I/O error at every call that changes files (or sends to the server), writes torn after 0, 1, half, all but one and all bytes; after it every operation again, with a second crash for the file store; a scheduler crashing at every such call while it processes due tasks, updates and is shut down",
    "thorough": "second crashes for all stores, torn writes at 12 lengths, 6 contents, two processings",
}
ASSUMPTIONS = [
    "a crash ends the process between two system calls or within a write; what the kernel has accepted is kept (no power loss, no lost page cache)",
    "the calls are counted in the C library, the code under test runs unchanged",
]
MIN = {"crash_points": 300}
ENV = "ASYNCZ_STORE_ENCRYPTION_KEY"
KEY = "x" * 32


class Rig:
    def __init__(self, kind, content, secret):
        from asyncz.tasks import Task
        from asyncz.triggers import IntervalTrigger

        self.Task = Task
        self.trigger = IntervalTrigger(hours=1, start_at=T, timezone=UTC)
        self.kind = kind
        Backend.real_journal = True
        self.back = Backend(kind)
        if kind == "redis":
            import redis.retry

            # the client waits before it tries again
            redis.retry.sleep = lambda seconds: None
        self.prefix = {"file": lambda: self.back.dir, "sql": scratch, "redis": lambda: self.back.sock}[kind]()
        vfs.watch(self.prefix)
        self.sched = sched_cls()(timezone=UTC)
        self.store = None
        self.open()
        for ident, spec in content.items():
            self.store.add_task(self.task(ident, *spec))

    def open(self):
        self.store = self.back.open()
        self.store.start(self.sched, "default")

    def task(self, ident, when, size):
        return self.Task(
            id=ident, fn="mc.targets:record", args=["v" * size], kwargs={}, name=ident, trigger=self.trigger, executor="default", scheduler=self.sched, store_alias="default",
            mistrigger_grace_time=1, coalesce=False, max_instances=1, next_run_time=None if when is None else T + timedelta(seconds=when),
        )

    def do(self, op):
        k = op[0]
        try:
            if k == "add":
                self.store.add_task(self.task(op[1], op[2], op[3]))
            elif k == "update":
                self.store.update_task(self.task(op[1], op[2], op[3]))
            elif k == "delete":
                self.store.delete_task(op[1])
            elif k == "clear":
                self.store.remove_all_tasks()
            elif k == "list":
                self.store.get_all_tasks()
            elif k == "lookup":
                self.store.lookup_task(op[1])
            elif k == "close":
                self.store.shutdown()
        except Exception as exc:
            return type(exc).__name__
        return None

    def view(self):
        """The content, and what does not fit together."""
        listed = self.store.get_all_tasks()
        out = {t.id: (None if t.next_run_time is None else (t.next_run_time - T).total_seconds(), len(t.args[0])) for t in listed}
        bad = []
        if len(out) != len(listed):
            bad.append("a task is listed twice")
        due = {t.id for t in self.store.get_due_tasks(T + timedelta(days=9))}
        if due != {i for i, v in out.items() if v[0] is not None}:
            bad.append(f"due are {sorted(due)}")
        times = [v[0] for v in out.values() if v[0] is not None]
        nxt = self.store.get_next_run_time()
        if (None if nxt is None else (nxt - T).total_seconds()) != (min(times) if times else None):
            bad.append(f"the next run time is {nxt}")
        for ident in ("a", "b", "c", "n"):
            t = self.store.lookup_task(ident)
            if (t is not None) != (ident in out):
                bad.append(f"looking up {ident} does not fit the list")
        return out, bad

    def crash(self):
        """The process is gone, the next one opens the place."""
        drop(self.store)
        self.store = None
        vfs.watch(self.prefix)
        self.open()

    def end(self):
        vfs.off()
        drop(self.store)
        self.back.drop()
        import glob
        import os

        if self.kind == "sql":
            for f in glob.glob(self.back.path + "*"):
                os.unlink(f)


def drop(store):
    """Lose the connections of a store object without a word."""
    for name in ("engine", "redis", "client"):
        c = getattr(store, name, None)
        for attr in ("dispose", "close"):
            if hasattr(c, attr):
                try:
                    getattr(c, attr)()
                except Exception:
                    pass
                break
        pool = getattr(c, "connection_pool", None)
        if pool is not None:
            try:
                pool.disconnect()
            except Exception:
                pass
    for v in list(vars(store).values()):
        if hasattr(v, "dispose") and hasattr(v, "connect"):
            try:
                v.dispose()
            except Exception:
                pass


CONTENTS = {
    "empty": {},
    "one": {"a": (5, 10)},
    "three": {"a": (5, 10), "b": (None, 3000), "c": (5, 20)},
    "paused": {"a": (None, 10), "b": (7, 10)},
    "big": {"a": (5, 62000), "b": (5, 30000)},
    "two": {"a": (1, 1), "c": (None, 1)},
}
OPS = [("add", "n", 3, 10), ("add", "n", None, 50000), ("add", "a", 9, 40), ("update", "a", 8, 11), ("update", "a", None, 4000), ("update", "b", 2, 1), ("delete", "a"), ("delete", "c"), ("clear",), ("list",), ("lookup", "a"), ("close",)]
AFTER = [("add", "n", 4, 12), ("update", "a", 6, 13), ("delete", "a"), ("add", "a", 1, 2), ("clear",)]


def effect(content, op):
    """(content afterwards, expected error)"""
    c = dict(content)
    k = op[0]
    if k == "add":
        if op[1] in c:
            return c, "ConflictIdError"
        c[op[1]] = op[2:]
    elif k == "update":
        if op[1] not in c:
            return c, "TaskLookupError"
        c[op[1]] = op[2:]
    elif k == "delete":
        if op[1] not in c:
            return c, "TaskLookupError"
        del c[op[1]]
    elif k == "clear":
        c = {}
    return c, None


def between(have, old, new, op):
    if have in (old, new):
        return True
    if op[0] == "clear":
        # several tasks: each one is there or not
        return all(old.get(k) == v for k, v in have.items())
    return False


def tears(size, tier):
    out = {0, 1, size // 2, size - 1, size}
    if tier != "quick":
        out |= {size * i // 8 for i in range(8)}
    return sorted(x for x in out if 0 <= x <= size)


def points(calls, tier):
    for i, (kind, size) in enumerate(calls):
        yield i, -1
        if kind in ("write", "send") and size > 0:
            for t in tears(size, tier):
                if t:
                    yield i, t


def items(tier):
    out = []
    for kind in ("file", "sql", "redis"):
        for secret in (False, True):
            for name in CONTENTS:
                if tier == "quick" and name in ("two", "paused"):
                    continue
                for i in range(len(OPS)):
                    out.append(("ops", kind, secret, name, i))
    for kind in ("file", "sql"):
        for scen in SCENES:
            out.append(("scheduler", kind, False, scen, 0))
    return out


def explore(item, res, tier, seed):
    import os

    what, kind, secret, name, i = item
    if kind == "redis" and not Backend.available("redis"):
        return
    if secret:
        os.environ[ENV] = KEY
    try:
        if what == "ops":
            crashes(kind, secret, name, OPS[i], res, tier)
        else:
            processing(kind, name, res, tier)
    finally:
        vfs.off()
        os.environ.pop(ENV, None)
        clock.off()


def crashes(kind, secret, name, op, res, tier):
    content = CONTENTS[name]
    rig = Rig(kind, content, secret)
    vfs.count(rig.prefix)
    answer = rig.do(op)
    calls = vfs.calls()
    new, want = effect(content, op)
    label = f"{kind} store{' (encrypted)' if secret else ''} with {name} task(s), {op[:3]}"
    if answer != want:
        res.violation("answer", f"{label}: raised {answer}, expected {want}")
        rig.end()
        return
    rig.end()
    res.count(states=1)
    n = 0
    for at, torn in points(calls, tier):
        where = f"{label}: crash at call {at} ({calls[at][0]}{f', torn after {torn} of {calls[at][1]} bytes' if torn >= 0 else ''})"
        rig = Rig(kind, content, secret)
        try:
            vfs.cut(rig.prefix, at, torn)
            rig.do(op)
            if not vfs.dead():
                continue
            n += 1
            rig.crash()
            have, bad = rig.view()
            if not between(have, content, new, op):
                res.violation(f"{kind}-torn", f"{where}: the content is {have}, was {content}, should become {new}")
                continue
            for b in bad:
                res.violation(f"{kind}-broken", f"{where}: {b}")
            # everything works on what is left, also with another crash
            for j, nxt in enumerate(AFTER):
                before = have
                if j == 1 and (kind == "file" or tier != "quick") and torn < 1:
                    have = again(rig, have, nxt, where, res, tier, content, op, at, torn, kind, secret)
                    if have is None:
                        break
                    continue
                have, err = effect(before, nxt)
                got = rig.do(nxt)
                seen, bad = rig.view()
                if got != err or seen != have or bad:
                    res.violation(f"{kind}-after", f"{where}, afterwards {nxt[:3]} on {before}: raised {got}, expected {err}; content {seen}, expected {have} {bad}")
                    break
            res.seen("outcomes", (kind, name, op, sorted(have.items()) if have is not None else None))
        finally:
            rig.end()
    # one call fails, the process goes on
    for at, torn in points(calls, tier):
        for code in (errno.ENOSPC, errno.EIO) if tier != "quick" else (errno.ENOSPC,):
            where = f"{label}: {errno.errorcode[code]} at call {at} ({calls[at][0]}{f', {torn} bytes written' if torn >= 0 else ''})"
            rig = Rig(kind, content, secret)
            try:
                vfs.fail(rig.prefix, at, torn, code)
                got = rig.do(op)
                vfs.watch(rig.prefix)
                n += 1
                if op[0] == "close":
                    rig.crash()
                have, bad = rig.view()
                if not between(have, content, new, op) or (got is None and want is None and have != new and op[0] != "clear"):
                    res.violation(f"{kind}-fault", f"{where}: raised {got}, the content is {have}, was {content}, should become {new}")
                    continue
                for b in bad:
                    res.violation(f"{kind}-fault-broken", f"{where}: {b}")
                for nxt in AFTER:
                    before = have
                    have, err = effect(before, nxt)
                    got = rig.do(nxt)
                    seen, bad = rig.view()
                    if got != err or seen != have or bad:
                        res.violation(f"{kind}-fault-after", f"{where}, afterwards {nxt[:3]} on {before}: raised {got}, expected {err}; content {seen}, expected {have} {bad}")
                        break
            finally:
                rig.end()
    res.count(crash_points=n, transitions=n * (len(AFTER) + 1), traces_validated_against_impl=n)
    res.sample({"store": kind, "content": name, "operation": list(op), "calls": [c[0] for c in calls], "points": n})


def again(rig, have, nxt, where, res, tier, content, op, at, torn, kind, secret):
    """A second crash in the operation after the first one; the content afterwards."""
    new, err = effect(have, nxt)
    i = 0
    while True:
        probe = Rig(kind, content, secret)
        try:
            vfs.cut(probe.prefix, at, torn)
            probe.do(op)
            probe.crash()
            got = probe.do(AFTER[0])
            before, _ = probe.view()
            vfs.cut(probe.prefix, i, -1)
            probe.do(nxt)
            if not vfs.dead():
                break
            probe.crash()
            seen, bad = probe.view()
            if seen not in (before, effect(before, nxt)[0]) or bad:
                res.violation(f"{kind}-second", f"{where}, second crash at call {i} of {nxt[:3]}: the content is {seen}, was {before} {bad}")
            res.count(crash_points=1, traces_validated_against_impl=1)
            i += 1
        finally:
            probe.end()
    got = rig.do(nxt)
    seen, bad = rig.view()
    if got != err or seen != new or bad:
        res.violation(f"{kind}-after", f"{where}, afterwards {nxt[:3]}: raised {got}, expected {err}; content {seen}, expected {new} {bad}")
        return None
    return new


# --- a scheduler which crashes while it works

SCENES = ("interval", "date", "several", "coalesce", "update", "shutdown")


def scene(name, s):
    kw = dict(mistrigger_grace_time=None)
    if name in ("interval", "several", "update"):
        s.add_task(targets.record, "interval", seconds=10, start_at=T, id="i", args=["i"], coalesce=False, **kw)
    if name in ("date", "several", "shutdown"):
        s.add_task(targets.record, "date", run_at=T + timedelta(seconds=1), id="d", args=["d"], **kw)
    if name in ("coalesce", "several"):
        s.add_task(targets.record, "interval", seconds=5, start_at=T + timedelta(seconds=2), id="c", args=["c"], coalesce=True, **kw)


def wanted(name):
    """Run times due at T+12 (the newest for coalescing ones)."""
    out = set()
    if name in ("interval", "several", "update"):
        out |= {("i", 0), ("i", 10)}
    if name in ("date", "several", "shutdown"):
        out |= {("d", 1)}
    if name in ("coalesce", "several"):
        out |= {("c", 12)}
    return out


def act(name, s):
    s.process_tasks()
    if name == "update":
        s.update_task("i", name="renamed")
    if name == "shutdown":
        s.shutdown()


def make(back, sent):
    from asyncz.events import constants as c

    s = scheduler({"default": back})
    s.add_listener(lambda e: sent.extend((e.task_id, (rt - T).total_seconds()) for rt in [e.scheduled_run_time]), c.TASK_EXECUTED)
    return s


def processing(kind, name, res, tier):
    Backend.real_journal = True
    n = 0
    i = 0
    while i < 400:
        clock.set_now(T - timedelta(seconds=1))
        back = Backend(kind)
        prefix = back.dir if kind == "file" else scratch()
        vfs.watch(prefix)
        sent = []
        s = make(back, sent)
        s.start()
        scene(name, s)
        clock.set_now(T + timedelta(seconds=12))
        vfs.cut(prefix, i)
        try:
            act(name, s)
        except Exception:
            pass
        dead = vfs.dead()
        drop(s.stores["default"])
        vfs.watch(prefix)
        first = list(sent)
        t = make(back, sent)
        t.start()
        t.process_tasks()
        where = f"{kind} store, scheduler with {name}, crash at call {i} of the processing"
        want = wanted(name)
        lost = want - set(sent)
        if lost:
            res.violation(f"{kind}-lost-run", f"{where}: {sorted(lost)} never ran; before the crash ran {first}, afterwards {sent[len(first):]}")
        odd = set(sent) - want
        if odd:
            res.violation(f"{kind}-odd-run", f"{where}: {sorted(odd)} ran; before the crash ran {first}")
        if max((sent.count(x) for x in sent), default=0) > 2:
            res.violation(f"{kind}-repeated", f"{where}: ran {sent}")
        if not dead and len(sent) != len(want):
            res.violation(f"{kind}-double", f"{where} (none): ran {sent}")
        left = {x.id: x.next_run_time for x in t.get_tasks()}
        expect = {x: (T + timedelta(seconds=20 if x == "i" else 17)) for x, _ in want if x != "d"}
        if left != expect:
            res.violation(f"{kind}-left", f"{where}: the tasks afterwards are {left}, expected {expect}")
        t.shutdown()
        vfs.off()
        back.drop()
        n += 1
        i += 1
        if not dead:
            break
    clock.off()
    res.count(crash_points=n, transitions=2 * n, states=1, traces_validated_against_impl=n)
    res.sample({"store": kind, "scheduler": name, "points": n})
