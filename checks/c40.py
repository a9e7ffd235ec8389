"""The locks: never two holders, always released, refused only while somebody holds them."""
from __future__ import annotations

import itertools
import os

from mc import sched

sched.install()

from mc.core import REPO  # noqa: E402
from mc.stores import scratch  # noqa: E402

LEVEL = "model_checking"
ITEM_CPU = 800
BOUNDS = {
    "quick": "all pairs of 11 programs of one to three uses (waiting, trying, failing inside, nested, shutting down) and all triples of 6 of them, thread lock, reentrant lock and file lock (one object per thread and shared); every schedule with up to 3 (triples: 2) preemptions at lock granularity, pairs with 1 at line granularity",
    "thorough": "up to 5 (triples: 3) preemptions at lock granularity, 2 (triples: 1) at line granularity, pairs with 1 at bytecode granularity",
}
ASSUMPTIONS = ["processes are threads with lock objects of their own: a file lock belongs to the open file, so they exclude each other like processes"]
MIN = {"schedules": 3000}
DIRS = (str(REPO / "asyncz" / "locks.py"), str(REPO / "asyncz" / "file_locking.py"))

# w: waits for the lock, t: tries, W/T: the block fails, n: waits and uses it again inside, s: shutdown, h: shutdown inside
PROGRAMS = ("w", "t", "W", "T", "ww", "tw", "wt", "s", "ws", "h", "ts")
TRIPLE = ("w", "t", "W", "s", "ws", "h")
NESTED = ("n", "nw", "N")


class Boom(Exception):
    pass


class World:
    n = 0

    def __init__(self, kind):
        from asyncz.locks import FileLockProtected, LockProtected, RLockProtected

        self.kind = kind
        self.inside = 0
        self.problems = []
        self.held = 0  # changes whenever somebody takes or gives back the lock
        self.path = None
        if kind.startswith("file"):
            World.n += 1
            self.path = os.path.join(scratch(), f"l{World.n}.lock")
            shared = FileLockProtected(self.path)
            self.make = lambda: shared if kind == "file-shared" else FileLockProtected(self.path)
        else:
            shared = {"lock": LockProtected, "rlock": RLockProtected}[kind]()
            self.make = lambda: shared

    def use(self, lock, op):
        blocking = op.lower() in "wnh"
        before = self.held, self.inside
        try:
            with lock.protected(blocking=blocking) as got:
                if got:
                    self.inside += 1
                    self.held += 1
                    if self.inside > 1:
                        self.problems.append("two are inside at once")
                    sched.point()
                    try:
                        if op == "h":
                            lock.shutdown()
                        if op.lower() == "n":
                            with lock.protected(blocking=False) as again:
                                if not again:
                                    self.problems.append("the holder cannot use its reentrant lock again")
                                sched.point()
                                if self.inside > 1:
                                    self.problems.append("two are inside at once")
                        if op.isupper():
                            raise Boom
                        sched.point()
                    finally:
                        self.inside -= 1
                        self.held += 1
                elif blocking:
                    self.problems.append("waiting for the lock ended without it")
                elif before == (self.held, 0) and not self.busy:
                    self.problems.append("the lock was refused although nobody had it")
                elif op.isupper():
                    raise Boom
        except Boom:
            if not op.isupper():
                self.problems.append("strange exception")
        else:
            if op.isupper():
                self.problems.append("the exception of the block was swallowed")

    busy = 0

    def program(self, word, others):
        lock = self.make()

        def go():
            for op in word:
                if op == "s":
                    lock.shutdown()
                else:
                    # somebody else may be between taking the lock and its block
                    self.use(lock, op)

        return go

    def end(self):
        try:
            if self.inside:
                self.problems.append("somebody stayed inside")
            lock = self.make()
            for _ in range(2):
                with lock.protected(blocking=False) as got:
                    if not got:
                        self.problems.append("the lock is still taken after everybody left")
                lock.shutdown()
                if self.path and os.path.exists(self.path):
                    self.problems.append("the lock file is left after the shutdown")
        finally:
            if self.path and os.path.exists(self.path):
                os.unlink(self.path)


def build(kind, words):
    w = World(kind)
    # a refusal is only judged when nobody else can be about to enter or to leave
    w.busy = len(words) > 1
    return w, [(word, w.program(word, words)) for word in words]


def sequential(kind, word, res):
    """One user alone is never refused."""
    w, fns = build(kind, [word])
    fns[0][1]()
    w.end()
    for p in w.problems:
        res.violation(f"{kind}:alone:{p[:30]}", f"{kind}, one user, uses {word}: {p}")
    res.count(transitions=len(word))


def items(tier):
    out = []
    for kind in ("lock", "rlock", "file", "file-shared"):
        words = PROGRAMS + (NESTED if kind == "rlock" else ())
        pairs = list(itertools.combinations_with_replacement(words, 2))
        triples = list(itertools.combinations_with_replacement(TRIPLE, 3))
        if tier == "quick":
            out += [(kind, p, "line", 1) for p in pairs] + [(kind, p, "lock", 3) for p in pairs] + [(kind, p, "lock", 2) for p in triples]
        else:
            out += [(kind, p, "line", 2) for p in pairs] + [(kind, p, "line", 1) for p in triples] + [(kind, p, "lock", 5) for p in pairs] + [(kind, p, "lock", 3) for p in triples] + [(kind, p, "opcode", 1) for p in pairs]
        out += [(kind, (w,), "alone", 0) for w in words]
    out.append(("names", (), "", 0))
    k = 12 if tier == "quick" else 2
    return [tuple(out[i::len(out) // k + 1]) for i in range(len(out) // k + 1)]


def names(res):
    """The placeholders of a lock path and where the locks of stores lie."""
    from asyncz.locks import FileLockProtected, NullLockProtected
    from asyncz.schedulers.base import BaseScheduler

    class S(BaseScheduler):
        def wakeup(self):
            pass

    d = os.path.join(scratch(), "names")
    os.makedirs(d, exist_ok=True)
    values = {"{pgrp}": str(os.getpgrp()), "{ppid}": str(os.getppid()), "x": "x"}
    for parts in itertools.product(values, repeat=3):
        path = os.path.join(d, "-".join(parts))
        real = os.path.join(d, "-".join(values[p] for p in parts))
        lock = FileLockProtected(path)
        with lock.protected(blocking=False) as got:
            if not got or not os.path.exists(real):
                res.violation("placeholder", f"the lock path {'-'.join(parts)} does not become {os.path.basename(real)}: {os.listdir(d)}")
        lock.shutdown()
        # {store} is the alias of the store
        for aliases in (("default",), ("default", "other")):
            s = S(timezone="UTC", stores={a: {"type": "memory"} for a in aliases}, lock_path=path + "{store}")
            s.start(paused=True)
            for a in aliases:
                with s.stores[a].lock.protected(blocking=False) as got:
                    if not got or not os.path.exists(real + a):
                        res.violation("store-placeholder", f"the lock of the store {a} is not {os.path.basename(real) + a}: {os.listdir(d)}")
            s.shutdown()
            if os.listdir(d):
                res.violation("left", f"lock files are left after the shutdown: {os.listdir(d)}")
        res.count(transitions=3)
    s = S(timezone="UTC")
    s.start(paused=True)
    for _ in range(2):
        with s.stores["default"].lock.protected(blocking=False) as one, s.stores["default"].lock.protected(blocking=False) as two:
            if not (one and two):
                res.violation("null", "without a lock path a store can be locked")
    s.shutdown()


def explore(item, res, tier, seed):
    for kind, words, grain, bound in item:
        if kind == "names":
            names(res)
            continue
        if grain == "alone":
            sequential(kind, words[0], res)
            continue

        def judge(w, run):
            where = f"{kind}, users {' | '.join(words)}"
            info = dict(schedule=list(run.dev.items()), grain=grain)
            if run.deadlock:
                res.violation(f"{kind}:deadlock", f"{where}: {run.deadlock}", **info)
                return
            for t in run.threads:
                if t.exc is not None:
                    res.violation(f"{kind}:crash", f"{where}: {t.exc!r}", **info)
                    return
            w.end()
            res.seen("outcomes", (kind, words, w.held, tuple(w.problems)))
            for p in w.problems:
                res.violation(f"{kind}:{p[:30]}", f"{where}: {p}", **info)

        n = sched.explore(lambda: build(kind, words), judge, res, bound=bound, grain=None if grain == 'lock' else grain, dirs=DIRS, limit=20000 if tier == "quick" else 400000)
        res.count(traces_validated_against_impl=n)
        res.sample({"lock": kind, "users": list(words), "preemptions": bound, "schedules": n})
