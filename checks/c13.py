"""Encrypted stores: nothing readable at rest, nothing which was changed or made with another key is ever restored."""
from __future__ import annotations

import hashlib
import os
import pickle
from datetime import datetime, timedelta, timezone

from mc import clock, targets
from mc.stores import Backend, sched_cls

LEVEL = "model_checking"
ITEM_CPU = 800
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
VAR = "ASYNCZ_STORE_ENCRYPTION_KEY"
BOUNDS = {
    "quick": "file, SQL, redis and mongo store, four kinds of tasks: every bit of a record changed (one task; for the others every byte in two ways), every truncation, up to 3 appended and prepended bytes, every pair of halves of two records; plain records and records of 24 other keys, no key; every pair of 25 keys; all words of 3 operations searched for plain text",
    "thorough": "every bit of every record, every pair of changed bytes within the nonce and tag and 16 bytes around, words of 4 operations",
}
ASSUMPTIONS = ["mongo client stand-in", "a record moved to another id is not detected (the format does not bind the id)"]
MIN = {"records": 5000}
CANARY = []
KEY = "the key of the tests"
KEYS = [KEY, "the key of the test", "the key of the tests ", "The key of the tests", " ", "a", "A", "ab", "b", "0", "00", "\N{SNOWMAN}", "\xe9", "e\u0301", "x" * 16, "x" * 24, "x" * 32, "x" * 33, "x" * 64, "x" * 65, "x" * 1000, "x" * 1001, "\t", "1", "1.0"]
KINDS = ("file", "sql", "redis", "mongo")


class Canary:
    """Notices when it is restored."""

    def __init__(self, text="secret-argument"):
        self.text = text

    def __reduce__(self):
        return restore, (self.text,)


def restore(text):
    CANARY.append(text)
    return Canary(text)


MARKS = (b"secret-", b"mc.targets", b"targets", b"noop", b"IntervalTrigger", b"asyncz", b"TaskState")


def make(which, ident="a"):
    from asyncz.tasks import Task
    from asyncz.triggers import CronTrigger, DateTrigger, IntervalTrigger

    kw = {
        0: dict(args=[Canary(f"secret-argument-{ident}")], kwargs={"secret-key": "secret-value"}, trigger=IntervalTrigger(hours=1, start_at=T, timezone=UTC)),
        1: dict(args=[b"secret-" * 50], trigger=CronTrigger(hour="*/2", timezone="UTC")),
        2: dict(args=[], trigger=DateTrigger(T + timedelta(days=1), timezone=UTC)),
        3: dict(args=[Canary("x" * 3000)], trigger=IntervalTrigger(days=1, timezone=UTC)),
    }[which]
    return Task(fn=targets.noop, id=ident, name=f"secret-name-{which}", executor="default", store_alias="default", max_instances=1, coalesce=True, mistrigger_grace_time=1, **kw)


def put(store, task, op="add_task", when=T):
    task.update_task(scheduler=store.scheduler, next_run_time=when)
    getattr(store, op)(task)


def start(back, key):
    if key is None:
        os.environ.pop(VAR, None)
    else:
        os.environ[VAR] = key
    store = back.open()
    store.start(sched_cls()(timezone=UTC), "default")
    return store


def random_bytes(n):
    # what is explored is always the same, no two draws are
    global DRAWS
    DRAWS += 1
    return b"".join(hashlib.sha256(b"%d.%d" % (DRAWS, i)).digest() for i in range(n // 32 + 1))[:n]


DRAWS = 0


def look(store, ident):
    try:
        return store.lookup_task(ident)
    except Exception:
        return None


def items(tier):
    out = []
    for kind in KINDS:
        parts = 4 if tier == "quick" else 8
        for which in range(4):
            out += [("change", kind, which, i, parts) for i in range(parts)]
        out += [("keys", kind), ("plain", kind), ("words", kind)]
    return out


def explore(item, res, tier, seed):
    if not Backend.available(item[1]):
        return
    global DRAWS
    old, real = os.environ.get(VAR), os.urandom
    DRAWS = 0
    os.urandom = random_bytes
    clock.set_now(T)
    try:
        {"change": change, "keys": keys, "plain": plain, "words": words}[item[0]](item, res, tier)
    finally:
        clock.off()
        os.urandom = real
        if old is None:
            os.environ.pop(VAR, None)
        else:
            os.environ[VAR] = old


def tamperings(data, other, tier, which):
    for i in range(len(data)):
        if which == 0 or tier != "quick":
            masks = [1 << b for b in range(8)]
        else:
            masks = [1, 0xFF] if which != 3 else [0x80] if i % 8 == 0 or i < 64 or i > len(data) - 64 else []
        for m in masks:
            yield f"byte {i} of {len(data)} changed by {m:#x}", data[:i] + bytes([data[i] ^ m]) + data[i + 1 :]
    if tier != "quick" and which == 2:
        spots = [*range(29), *range(len(data) - 32, len(data))]
        for i in spots:
            for j in spots:
                if i < j:
                    b = bytearray(data)
                    b[i] ^= 0x5A
                    b[j] ^= 0x5A
                    yield f"bytes {i} and {j} changed", bytes(b)
    for i in range(len(data)):
        if which != 3 or i < 100 or i > len(data) - 100 or i % 64 == 0:
            yield f"cut to {i} of {len(data)} bytes", data[:i]
            if i:
                yield f"first {i} bytes missing", data[i:]
    for extra in (b"\0", b"x", b"\0\0", b"abc"):
        yield f"{extra} appended", data + extra
        yield f"{extra} prepended", extra + data
    for i in range(0, min(len(data), len(other)), 1 if len(data) < 800 else 13):
        yield f"first {i} bytes of another record", other[:i] + data[i:] if i else data[:13] + other[13:]
    yield "nonce alone", data[:13]
    yield "nothing", b""
    yield "nonce of zeros", bytes(13) + data[13:]
    yield "twice", data + data


def change(item, res, tier):
    _, kind, which, part, parts = item
    back = Backend(kind)
    store = start(back, KEY)
    try:
        put(store, make(which))
        put(store, make(0, "other"), when=T + timedelta(hours=1))
        data, other = back.raw()["a"], back.raw()["other"]
        for n, (what, bad) in enumerate(tamperings(data, other, tier, which)):
            if n % parts != part or bad == data:
                continue
            where = f"{kind} store, task {which}, record with {what}"
            back.put_raw("a", bad)
            CANARY.clear()
            if (t := look(store, "a")) is not None:
                res.violation(f"restored:{kind}:{what.split()[0]}", f"{where}: restored as {t!r}")
            listed = [t.id for t in store.get_all_tasks()] if n % 3 == 0 else None
            due = [t.id for t in store.get_due_tasks(T)] if n % 3 == 1 else None
            if listed is not None and listed != ["other"]:
                res.violation(f"listed:{kind}", f"{where}: listed {listed}")
            if due:
                res.violation(f"due:{kind}", f"{where}: due {due}")
            if set(CANARY) - {"secret-argument-other"}:
                res.violation(f"unpickled:{kind}", f"{where}: its content was unpickled")
            res.count(records=1, traces_validated_against_impl=1, transitions=2)
            res.seen("states", (kind, which, what))
            # the untouched record again
            if "a" in back.raw():
                back.put_raw("a", data)
            else:
                put(store, make(which))
                data = back.raw()["a"]
        if look(store, "a") is None or look(store, "other") is None:
            res.violation(f"lost:{kind}", f"{kind} store: an unchanged record can't be restored after changed ones")
        res.sample({"store": kind, "task": which, "record bytes": len(data), "last": what})
    finally:
        store.shutdown()
        back.drop()


def keys(item, res, tier):
    """A record is restored with its key and with no other one."""
    kind = item[1]
    for mine in KEYS:
        back = Backend(kind)
        store = start(back, mine)
        put(store, make(0))
        data = back.raw()["a"]
        if any(m in data for m in MARKS):
            res.violation(f"plain:{kind}:{mine[:9]!r}", f"{kind} store, key {mine[:20]!r}: the record is readable")
        store.shutdown()
        for key in [*KEYS, None]:
            store = start(back, key)
            if "a" not in back.raw():
                # removed as unreadable by the one before
                put(store, make(2))
            back.put_raw("a", data)
            CANARY.clear()
            t = look(store, "a")
            if key == mine and (t is None or t.name != "secret-name-0"):
                res.violation(f"own-key:{kind}", f"{kind} store, key {mine[:20]!r}: its record is not restored")
            if key != mine and (t is not None or CANARY):
                res.violation(f"other-key:{kind}", f"{kind} store: a record of the key {mine[:20]!r} is restored with the key {key and key[:20]!r}")
            listed = [t.id for t in store.get_all_tasks()]
            if listed != (["a"] if key == mine else []):
                res.violation(f"other-key-listed:{kind}", f"{kind} store: a record of the key {mine[:20]!r} is listed as {listed} with the key {key and key[:20]!r}")
            res.count(records=1, traces_validated_against_impl=1, transitions=2)
            res.seen("states", (kind, mine, key))
            store.shutdown()
        back.drop()


def plain(item, res, tier):
    """Records which nobody encrypted are never unpickled."""
    kind = item[1]
    back = Backend(kind)
    store = start(back, None)
    put(store, make(0))
    record = back.raw()["a"]
    store.shutdown()
    store = start(back, KEY)
    bad = {"plain record": record, "plain record after a nonce": bytes(13) + record, "plain record after a nonce with a tag": bytes(13) + record + bytes(16)}
    for p in range(6):
        bad[f"plain pickle, protocol {p}"] = pickle.dumps(Canary("attack"), p)
        bad[f"pickle after 13 bytes, protocol {p}"] = b"x" * 13 + pickle.dumps(Canary("attack"), p)
        bad[f"pickle which is followed by bytes, protocol {p}"] = pickle.dumps(Canary("attack"), p) + b"x" * 40
    for what, data in bad.items():
        for op in ("lookup_task", "get_all_tasks", "get_due_tasks"):
            if "a" not in back.raw():
                put(store, make(2))
            back.put_raw("a", data)
            CANARY.clear()
            try:
                got = getattr(store, op)(*{"lookup_task": ("a",), "get_due_tasks": (T,)}.get(op, ()))
            except Exception:
                got = None
            if CANARY:
                res.violation(f"attack:{kind}:{op}", f"{kind} store with a key, {what}: {op} unpickled it")
            if got:
                res.violation(f"attack-restored:{kind}:{op}", f"{kind} store with a key, {what}: {op} gave {got}")
            res.count(records=1, traces_validated_against_impl=1, transitions=1)
            res.seen("states", (kind, what, op))
    store.shutdown()
    back.drop()


OPS = {
    "add": lambda s: put(s, make(0)),
    "add-1": lambda s: put(s, make(1, "b")),
    "update": lambda s: put(s, make(3), "update_task", T + timedelta(hours=2)),
    "pause": lambda s: put(s, make(1), "update_task", None),
    "delete": lambda s: s.delete_task("a"),
    "same-again": lambda s: put(s, make(0), "update_task"),
}


def rest(back):
    if back.kind == "sql":
        return b"".join(open(back.path + x, "rb").read() for x in ("", "-journal", "-wal") if os.path.exists(back.path + x))
    if back.kind == "file":
        out = b""
        for d, _, names in os.walk(back.dir):
            for n in names:
                out += open(os.path.join(d, n), "rb").read()
        return out
    return b"".join(back.raw().values())


def words(item, res, tier):
    import itertools

    kind = item[1]
    n = 3 if tier == "quick" else 4
    for word in itertools.product(OPS, repeat=n):
        back = Backend(kind)
        store = start(back, KEY)
        seen = {}
        for i, op in enumerate(word):
            try:
                OPS[op](store)
            except Exception:
                pass
            at_rest = rest(back)
            for m in MARKS:
                if m in at_rest and not (m == b"asyncz" and kind == "sql" and at_rest.count(m) == at_rest.count(b"asyncz_store")):
                    res.violation(f"readable:{kind}:{m}", f"{kind} store, {word[: i + 1]}: {m} is readable at rest")
            raw = back.raw()
            for ident, data in raw.items():
                if data not in seen.get(ident, [data])[-1:]:
                    # written again: never with a nonce used before
                    if any(data[:13] == d[:13] for ds in seen.values() for d in ds):
                        res.violation(f"nonce:{kind}", f"{kind} store, {word[: i + 1]}: a nonce is used twice")
                if op == "same-again" and ident == "a" and i and seen.get("a", [None])[-1] == data:
                    res.violation(f"same:{kind}", f"{kind} store, {word[: i + 1]}: writing a task again gives the same bytes")
                if data not in seen.setdefault(ident, []):
                    seen[ident].append(data)
            res.count(records=len(raw), transitions=1)
        res.count(traces_validated_against_impl=1)
        res.seen("states", (kind, word))
        store.shutdown()
        back.drop()
