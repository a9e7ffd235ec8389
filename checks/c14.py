"""Task ids never lead the file store out of its directory, and never mix up two tasks."""
from __future__ import annotations

import itertools
import os
import sys
from datetime import datetime, timezone
from pathlib import Path

from mc import clock, targets
from mc.stores import sched_cls, scratch

LEVEL = "model_checking"
ITEM_CPU = 600
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
ALPHABET = ("a", "b", "A", ".", "/", "\\", ":", "\0", "~", "*", "[", "]", "?", " ", "\n", "%", "-", "\N{LATIN SMALL LETTER E WITH ACUTE}", "\u0301")
BOUNDS = {
    "quick": f"all ids of up to 3 of {len(ALPHABET)} characters and 60 others, as text given to every operation of the store and of the scheduler, with 4 file suffixes and foreign files in the directory; all accepted ids at once",
    "thorough": "ids of up to 4 characters, all suffixes",
}
ASSUMPTIONS = ["every access to files is seen by Python's audit events; accesses outside the directory are refused by the harness"]
MIN = {"operations": 20000}
SUFFIXES = (".task", "", ".x", ".[a]*")
SPECIAL = ["", "..", "../a", "../../a", "a/../b", "a/../../b", "./a", ".a", "...", "..a", "a..", "a/", "/a", "//a", "\\a", "..\\a", "C:a", "C:\\a", "a:b", "~root", "~/a", "$HOME", "%2e%2e%2fa", "..%2fa", "a\0b", "\0", "../a\0", "a\0/../b", "con", "nul", "a.task", ".task", "..task", "a.task.task", ".lock", "lock", "x.tmp", ".x.tmp", "-rf", "--", "*.task", "[a]", "[!a]", "?", "**", "a b", " a", "a ", "\t", "\r\n", "\ud800", "x" * 200, "x" * 250, "x" * 256, "x" * 5000, "\N{SNOWMAN}" * 80, "\N{SNOWMAN}" * 90, "None", "a\u2215b", "a\uff0fb", "\u2025/a", "e\u0301", "\u202e"]

# ---- what is opened, removed, created
BOX = [None]  # the only folder, while it is set
OUT = []
EVENTS = {"open": 1, "os.remove": 1, "os.rename": 2, "os.mkdir": 1, "os.rmdir": 1, "os.scandir": 1, "os.listdir": 1, "os.truncate": 1, "os.link": 2, "os.symlink": 2, "os.chmod": 1, "os.chown": 1, "shutil.rmtree": 1, "shutil.move": 2, "shutil.copyfile": 2, "os.utime": 1}


def hook(event, args):
    box = BOX[0]
    if box is None:
        return
    n = EVENTS.get(event)
    if not n:
        return
    for a in args[:n]:
        if isinstance(a, int) or a is None:
            continue
        path = os.path.normpath(os.path.join(os.getcwd(), os.fsdecode(a)))
        if path != box and not path.startswith(box + os.sep) and not harmless(path, event, args):
            OUT.append((event, path))
            raise PermissionError(f"outside: {event} {path}")


def harmless(path, event, args):
    # modules which are imported on the way
    if event not in ("open", "os.listdir", "os.scandir"):
        return False
    if event == "open" and len(args) > 1 and isinstance(args[1], str) and any(c in args[1] for c in "wax+"):
        return False
    return path.endswith((".py", ".pyc", ".so")) or path.startswith((sys.prefix, sys.base_prefix + "/lib", "/dev/", "/usr/share/zoneinfo", "/etc/localtime")) or any(p and path == os.path.normpath(p) for p in sys.path)


HOOKED = []


def ids(tier):
    n = 3 if tier == "quick" else 4
    for k in range(1, n + 1):
        for t in itertools.product(ALPHABET, repeat=k):
            yield "".join(t)
    yield from SPECIAL


def items(tier):
    parts = 8 if tier == "quick" else 64
    out = [("each", s, i, parts) for s in (SUFFIXES if tier != "quick" else SUFFIXES[:1]) for i in range(parts)]
    out += [("special", s) for s in SUFFIXES] + [("scheduler", i, 4) for i in range(4)]
    out += [("all", s, i) for s in (".task", "") for i in range(4)]
    return out


def task(ident, name="n", store=None):
    from asyncz.tasks import Task
    from asyncz.triggers import IntervalTrigger

    t = Task(fn=targets.noop, id=ident, name=name, trigger=IntervalTrigger(hours=1, start_at=T, timezone=UTC), executor="default", store_alias="default", max_instances=1, coalesce=True, mistrigger_grace_time=1)
    t.update_task(scheduler=store.scheduler, next_run_time=T)
    return t


class Place:
    """A folder with foreign files inside and around it."""

    n = 0

    def __init__(self, suffix):
        from asyncz.stores.file import FileStore

        Place.n += 1
        self.outer = Path(scratch()) / f"p{Place.n}"
        self.dir = self.outer / "b" / "c" / "store"
        self.dir.mkdir(parents=True)
        self.suffix = suffix
        for d in (self.outer, self.outer / "b", self.outer / "b" / "c"):
            for n in ("a", "b", "x", ""):
                if n + suffix:
                    (d / f"{n}{suffix or '.y'}").write_bytes(b"foreign")
        if suffix:
            (self.dir / "notes.txt").write_bytes(b"foreign")
            (self.dir / "a").write_bytes(b"foreign")
            (self.dir / "sub").mkdir()
            (self.dir / "sub" / f"a{suffix}").write_bytes(b"foreign")
        (self.dir / f".hidden{suffix}").write_bytes(b"foreign")
        self.store = FileStore(str(self.dir), suffix=suffix)
        self.store.start(sched_cls()(timezone=UTC), "default")
        self.store.get_all_tasks()  # the lock file
        self.before = self.tree()

    def tree(self):
        out = {}
        for d, _, names in os.walk(self.outer):
            out[d] = None
            for n in names:
                p = os.path.join(d, n)
                out[p] = open(p, "rb").read()
        return out

    def box(self, fn, *args):
        """A call which may not leave the folder: result, error, what it tried outside."""
        if not HOOKED:
            sys.addaudithook(hook)
            HOOKED.append(1)
        OUT.clear()
        BOX[0] = str(self.dir)
        try:
            return fn(*args), None
        except Exception as exc:
            return None, exc
        finally:
            BOX[0] = None


def explore(item, res, tier, seed):
    clock.set_now(T)
    try:
        if item[0] == "each":
            each(item[1], [i for n, i in enumerate(ids(tier)) if n % item[3] == item[2]], res)
        elif item[0] == "special":
            each(item[1], SPECIAL + list("".join(t) for k in (1, 2) for t in itertools.product(ALPHABET, repeat=k)), res)
        elif item[0] == "scheduler":
            through_scheduler([i for n, i in enumerate([*("".join(t) for k in (1, 2) for t in itertools.product(ALPHABET, repeat=k)), *SPECIAL]) if n % item[2] == item[1]], res)
        else:
            all_at_once(item[1], item[2], res)
    finally:
        clock.off()


def short(i):
    return repr(i if len(i) < 40 else i[:20] + "..." + str(len(i)))


def each(suffix, names, res):
    """Every operation with this id, in the order of a life of a task; nothing else changes."""
    p = Place(suffix)
    s = p.store
    for ident in names:
        where = f"file store (suffix {suffix!r}), id {short(ident)}"
        accepted = None
        steps = (
            ("lookup", s.lookup_task, lambda: (ident,)),
            ("delete", s.delete_task, lambda: (ident,)),
            ("update", s.update_task, lambda: (task(ident, "u", s),)),
            ("add", s.add_task, lambda: (task(ident, "n1", s),)),
            ("lookup", s.lookup_task, lambda: (ident,)),
            ("list", s.get_all_tasks, lambda: ()),
            ("add", s.add_task, lambda: (task(ident, "n2", s),)),
            ("update", s.update_task, lambda: (task(ident, "n3", s),)),
            ("list", s.get_all_tasks, lambda: ()),
            ("delete", s.delete_task, lambda: (ident,)),
            ("list", s.get_all_tasks, lambda: ()),
            ("lookup", s.lookup_task, lambda: (ident,)),
        )
        seen = []
        for n, (op, fn, args) in enumerate(steps):
            got, exc = p.box(fn, *args())
            res.count(operations=1, transitions=1)
            if OUT:
                res.violation(f"outside:{op}", f"{where}: {op} reaches {OUT}")
                break
            if isinstance(exc, PermissionError):
                res.violation(f"outside:{op}", f"{where}: {op} ends with {exc!r}")
                break
            if op == "lookup":
                got = got and (got.id, got.name)
            elif op == "list" and exc is None:
                got = [(t.id, t.name) for t in got]
            seen.append((op, got, type(exc).__name__ if exc else None))
        else:
            accepted = seen[3][2] is None
            if accepted:
                want = [("lookup", None, None), ("delete", None, "TaskLookupError"), ("update", None, "TaskLookupError"), ("add", None, None), ("lookup", (ident, "n1"), None), ("list", [(ident, "n1")], None), ("add", None, "ConflictIdError"), ("update", None, None), ("list", [(ident, "n3")], None), ("delete", None, None), ("list", [], None), ("lookup", None, None)]
                if seen != want:
                    res.violation("life", f"{where}: {[x for x in zip(seen, want) if x[0] != x[1]][:3]} (got, expected)")
            else:
                wrong = [x for x in seen if x[0] != "list" and x[2] is None and x[1:] != (None, None)] + [x for x in seen if x[0] == "list" and x[1:] != ([], None)]
                if wrong:
                    res.violation("refused", f"{where}: refused by the addition, but {wrong}")
            if ident and ident.isascii() and ident.isalnum() and len(ident) < 200 and not accepted:
                res.violation("plain-refused", f"{where}: refused")
        after = p.tree()
        if after != p.before:
            diff = {k: (p.before.get(k), after.get(k)) for k in set(after) ^ set(p.before) or {k for k in after if after[k] != p.before[k]}}
            res.violation("left", f"{where}: other files are changed: {str(diff)[:300]}")
            p = Place(suffix)
            s = p.store
        res.count(traces_validated_against_impl=1)
        res.seen("states", (suffix, ident))
        res.seen("outcomes", (accepted, seen[3][2] if len(seen) > 3 else None))
    # clearing leaves what is no task
    p.box(s.remove_all_tasks)
    if p.tree() != p.before or OUT:
        res.violation("clear", f"file store (suffix {suffix!r}): clearing it changes foreign files {OUT}")
    s.shutdown()
    res.sample({"suffix": suffix, "ids": len(names)})


def all_at_once(suffix, part, res):
    """All accepted ids together are all there, and deleting one leaves the others."""
    p = Place(suffix)
    s = p.store
    have = {}
    for ident in [*("".join(t) for k in (1, 2) for t in itertools.product(ALPHABET, repeat=k)), *(i for n, i in enumerate(SPECIAL) if n % 4 == part)]:
        if ident in have:
            continue
        _, exc = p.box(s.add_task, task(ident, f"name {len(have)}", s))
        if exc is None:
            have[ident] = f"name {len(have)}"
        elif type(exc).__name__ == "ConflictIdError":
            res.violation("mixed", f"file store (suffix {suffix!r}): id {short(ident)} conflicts with another one")

    def check(what):
        got = {t.id: t.name for t in s.get_all_tasks()}
        if got != have:
            diff = [short(i) for i in set(got) ^ set(have) or {i for i in got if got[i] != have[i]}]
            res.violation("mixed", f"file store (suffix {suffix!r}): after {what} differ: {diff[:5]}")
            have.clear()
            have.update(got)

    check("adding all ids")
    for n, ident in enumerate(list(have)):
        _, exc = p.box(s.delete_task, ident)
        if exc or OUT:
            res.violation("mixed-delete", f"file store (suffix {suffix!r}): id {short(ident)} can't be deleted: {exc!r}, {OUT}")
        have.pop(ident, None)
        res.count(operations=1, transitions=1)
        if n % 16 == part * 4:
            check(f"deleting {short(ident)}")
            res.count(traces_validated_against_impl=1)
    if p.tree() != p.before:
        res.violation("left", f"file store (suffix {suffix!r}): files are left after all tasks were deleted")
    # and all of them cleared
    for ident in ("a", "b", "a b", "[a]"):
        s.add_task(task(ident, "n", s))
    p.box(s.remove_all_tasks)
    if p.tree() != p.before or s.get_all_tasks():
        res.violation("clear", f"file store (suffix {suffix!r}): clearing does not remove exactly the tasks")
    s.shutdown()
    res.seen("states", ("all", suffix, part))


def through_scheduler(names, res):
    from asyncz.stores.file import FileStore

    for ident in names:
        p = Place(".task")
        s = sched_cls()(timezone=UTC, stores={"default": FileStore(str(p.dir))})
        where = f"scheduler with a file store, id {short(ident)}"

        def life():
            out = []
            for op in (
                lambda: s.add_task(targets.noop, "interval", hours=1, id=ident, replace_existing=True) and None,
                lambda: s.start(),
                lambda: s.get_task(ident) and s.get_task(ident).name,
                lambda: s.add_task(targets.noop, "interval", hours=1, id=ident) and None,
                lambda: s.update_task(ident, name="new") and None,
                lambda: s.pause_task(ident) and None,
                lambda: s.resume_task(ident) and None,
                lambda: s.run_task(ident) and None,
                lambda: len(s.get_tasks()),
                lambda: s.delete_task(ident),
                lambda: len(s.get_tasks()),
            ):
                try:
                    out.append(op())
                except Exception as exc:
                    if isinstance(exc, PermissionError):
                        OUT.append(repr(exc))
                    out.append(type(exc).__name__)
            return out

        got, exc = p.box(life)
        if OUT or exc:
            res.violation("outside:scheduler", f"{where}: reaches {OUT or exc}")
        p.box(s.shutdown if s.running else lambda: None)
        if p.tree() != p.before:
            res.violation("left", f"{where}: other files are changed, {got}")
        res.count(operations=11, transitions=11, traces_validated_against_impl=1)
        res.seen("states", ("scheduler", ident))
        res.seen("outcomes", tuple(str(x) for x in got or ()))
