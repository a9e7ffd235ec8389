"""The remote scheduler client behaves like the scheduler itself, and nobody gets in without the token."""
from __future__ import annotations

import asyncio
import io
import itertools
import json
import logging
import urllib.error
import urllib.parse
import urllib.request
from datetime import date, datetime, timedelta, timezone

logging.disable(logging.CRITICAL)

from mc import clock, targets  # noqa: E402
from mc.manual import ManualExecutor  # noqa: E402
from mc.stores import scheduler  # noqa: E402

LEVEL = "model_checking"
ITEM_CPU = 800
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
M = timedelta(minutes=1)
BOUNDS = {
    "quick": "a scheduler and another one behind the real remote app and client (HTTP stands in memory): all additions with up to 2 of 38 options, all updates of up to 2 of 38 values, all queries of up to 3 conditions, all words of 3 of 26 calls, ids of up to 2 of 12 characters, 16 kinds of arguments; 30 requests x 14 wrong or missing tokens x 3 configured ones",
    "thorough": "options and updates up to 3, words of 4",
}
ASSUMPTIONS = ["arguments are JSON values where they are changed through the client; other arguments only have to leave it working"]
MIN = {"requests": 20000}
TOKEN = "s3cret-token"


def items(tier):
    n = 2 if tier == "quick" else 3
    out = [("add", i, 8, n) for i in range(8)] + [("update", i, 8, n) for i in range(8)]
    out += [("query", i, 4) for i in range(4)] + [("ids",), ("args",), ("token",)]
    out += [("words", op, 3 if tier == "quick" else 4) for op in OPS]
    return out


# ---------------------------------------------------------------- the wire
LOOP = []


def serve(app, method, target, headers, body):
    """One HTTP request as a server hands it to the application."""
    path, _, query = target.partition("?")
    scope = {
        "type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": method, "scheme": "http",
        "path": urllib.parse.unquote(path), "raw_path": path.encode("ascii"), "query_string": query.encode("ascii"), "root_path": "",
        "headers": [(k.lower().encode("latin-1"), v.encode("latin-1")) for k, v in headers],
        "client": ("10.0.0.1", 1), "server": ("worker", 80), "state": {},
    }
    sent, given = [], []

    async def receive():
        if given:
            return {"type": "http.disconnect"}
        given.append(1)
        return {"type": "http.request", "body": body or b"", "more_body": False}

    async def send(message):
        sent.append(message)

    if not LOOP:
        LOOP.append(asyncio.new_event_loop())
    try:
        LOOP[0].run_until_complete(app(scope, receive, send))
    except Exception as exc:
        if not sent:
            return 500, ("Internal Server Error: " + repr(exc)).encode()
    status = next(m["status"] for m in sent if m["type"] == "http.response.start")
    return status, b"".join(m.get("body", b"") for m in sent if m["type"] == "http.response.body")


class Response(io.BytesIO):
    def __init__(self, status, body):
        super().__init__(body)
        self.status = status


COUNT = [0]


def client_for(app, token=None):
    from asyncz.contrib.dashboard.remote import RemoteSchedulerClient

    def urlopen(request, timeout=None):
        COUNT[0] += 1
        url = urllib.parse.urlsplit(request.full_url)
        status, body = serve(app, request.get_method(), url.path + ("?" + url.query if url.query else ""), list(request.headers.items()), request.data)
        if status >= 400:
            raise urllib.error.HTTPError(request.full_url, status, "error", {}, io.BytesIO(body))
        return Response(status, body)

    urllib.request.urlopen = urlopen
    return RemoteSchedulerClient("http://worker/asyncz-remote", token=token)


def app_for(s, token=None):
    from asyncz.contrib.dashboard.remote import create_remote_scheduler_app
    from lilya.apps import Lilya
    from lilya.routing import Include

    return Lilya(routes=[Include("/asyncz-remote", app=create_remote_scheduler_app(s, token=token))])


# ---------------------------------------------------------------- two equal worlds
class World:
    def __init__(self, running=True):
        from asyncz.stores.memory import MemoryStore

        self.events = []
        self.ex = ManualExecutor()
        self.s = scheduler({"default": MemoryStore(), "second": MemoryStore()}, executors={"default": self.ex, "pool": ManualExecutor()})
        self.s.identity = "worker"
        if running:
            self.s.start()
        self.s.add_listener(self.events.append)

    def fill(self):
        s = self.s
        s.add_task(targets.noop, "interval", minutes=5, id="a", name="Alpha", start_at=T + M, timezone=UTC)
        s.add_task(targets.other, "cron", hour="*", id="b", name="beta", timezone=UTC, store="second", executor="pool", coalesce=False, max_instances=2)
        s.add_task(targets.two, "date", run_at=T + 2 * M, id="c", args=[1], kwargs={"b": "x"}, timezone=UTC, mistrigger_grace_time=30)
        s.add_task(targets.noop, "interval", hours=1, id="p", next_run_time=None, timezone=UTC)
        self.events.clear()
        return self

    def state(self):
        return sorted((json.dumps(info(t.snapshot()), sort_keys=True, default=str) for t in self.s.get_tasks()))

    def seen(self):
        return [(type(e).__name__, e.code, getattr(e, "task_id", None), getattr(e, "store", None), str(getattr(e, "scheduled_run_times", ""))) for e in self.events]


def info(x):
    if x is None:
        return None
    d = x.model_dump()
    d["args"] = list(d["args"])
    d["schedule_state"] = str(getattr(d["schedule_state"], "value", d["schedule_state"]))
    return d


def pair(running=True, fill=True):
    clock.set_now(T)
    here, there = World(running), World(running)
    if fill:
        here.fill()
        there.fill()
    return here, there, client_for(app_for(there.s, TOKEN), TOKEN)


KNOWN = ("TaskLookupError", "SchedulerNotRunningError", "MaximumInstancesError", "ValueError")


def call(fn):
    try:
        r = fn()
    except Exception as exc:
        name = type(exc).__name__
        extra = getattr(exc, "task_id", None) if name == "MaximumInstancesError" else None
        return ("raised", name, str(exc), extra)
    if isinstance(r, tuple) and len(r) == 2 and hasattr(r[0], "snapshot"):
        return ("pair", info(r[0].snapshot()))
    if hasattr(r, "snapshot"):
        return ("task", info(r.snapshot()))
    if isinstance(r, list):
        return ("list", [info(x) for x in r])
    if hasattr(r, "run_times"):
        return ("preview", info(r.task), r.timezone, r.generated_at, r.requested_count, list(r.run_times), r.exhausted)
    if hasattr(r, "model_dump"):
        return ("model", r.model_dump())
    if isinstance(r, tuple):
        return ("models", [x.model_dump() for x in r])
    return ("value", r)


def compare(res, key, where, local, remote, here, there):
    if local[0] == "raised":
        ok = remote[0] == "raised" and (remote[1:] == local[1:] if local[1] in KNOWN else remote[1] == "RemoteSchedulerError" and remote[2] == local[2])
    else:
        ok = remote == local
    res.count(requests=1, transitions=1, traces_validated_against_impl=1)
    res.seen("outcomes", (key, local[0], local[1] if local[0] == "raised" else ""))
    if not ok:
        res.violation(f"{key}:answer", f"{where}: remote {show(remote)}, local {show(local)}")
    a, b = here.state(), there.state()
    if a != b:
        res.violation(f"{key}:tasks", f"{where}: the tasks differ, remote {[x for x in b if x not in a]}, local {[x for x in a if x not in b]}")
    if here.seen() != there.seen():
        res.violation(f"{key}:events", f"{where}: events differ, remote {there.seen()[-3:]}, local {here.seen()[-3:]}")


def show(x):
    return str(x)[:400]


def explore(item, res, tier, seed):
    real = urllib.request.urlopen
    clock.set_now(T)
    try:
        {"add": add, "update": update, "query": query, "ids": ids, "args": arguments, "token": tokens, "words": words}[item[0]](item, res, tier)
    finally:
        clock.off()
        urllib.request.urlopen = real
    res.seen("states", item)
    res.sample({"item": list(map(str, item))})


# ---------------------------------------------------------------- additions
def add_options():
    from asyncz.triggers import CronTrigger, DateTrigger, IntervalTrigger, OrTrigger

    every = IntervalTrigger(minutes=10, start_at=T + M, timezone=UTC)
    return [
        ("trigger", lambda: every), ("trigger", lambda: CronTrigger(minute="*/7", timezone="Europe/Berlin")), ("trigger", lambda: DateTrigger(T + 3 * M, timezone=UTC)),
        ("trigger", lambda: OrTrigger([every, DateTrigger(T + M, timezone=UTC)])),
        ("trigger", "cron"), ("trigger", "date"), ("trigger", "nothing"), ("trigger", None),
        ("trigger+", {"trigger": "interval", "minutes": 3, "start_at": T + M, "timezone": "UTC"}), ("trigger+", {"trigger": "interval", "minutes": 3, "start_at": "2030-01-01 12:30:00", "jitter": None}),
        ("trigger+", {"trigger": "cron", "minute": "*/5", "timezone": "Asia/Kolkata", "end_at": T + timedelta(days=1)}), ("trigger+", {"trigger": "date", "run_at": (T + 9 * M).isoformat()}), ("trigger+", {"trigger": "date", "run_at": date(2030, 2, 1)}), ("trigger+", {"trigger": "date", "run_at": (T + 9 * M).astimezone(timezone(timedelta(hours=3)))}),
        ("trigger+", {"trigger": "interval", "wrong": 1}),
        ("args", [1, "x"]), ("args", []), ("args", ({"k": [1, None, True, 1.5]},)), ("args", None),
        ("kwargs", {"k": 1}), ("kwargs", {}), ("kwargs", None),
        ("id", "n\xf6w id?#&"), ("id", "a"), ("name", "Name %2F"), ("name", ""),
        ("mistrigger_grace_time", None), ("mistrigger_grace_time", 2.5), ("mistrigger_grace_time", 0),
        ("coalesce", False), ("coalesce", True), ("max_instances", 3), ("max_instances", 0),
        ("next_run_time", None), ("next_run_time", T + timedelta(hours=1, microseconds=5)), ("next_run_time", (T + M).isoformat()),
        ("store", "second"), ("store", "missing"), ("store", None), ("executor", "pool"), ("executor", "missing"), ("executor", None),
        ("replace_existing", True), ("fn", "mc.targets:two"), ("fn", "mc.targets:missing"), ("fn", targets.two),
    ]


def add(item, res, tier):
    _, part, parts, most = item
    options = add_options()
    n = 0
    for k in range(most + 1):
        for chosen in itertools.combinations(options, k):
            names = ["trigger" if c[0] == "trigger+" else c[0] for c in chosen]
            if len(set(names)) < len(names):
                continue
            n += 1
            if n % parts != part:
                continue
            here, there, client = pair()
            answers = []
            for s in (here.s, client):
                kw = {"id": "new", "fn": targets.noop, "trigger": "interval"}
                for name, value in chosen:
                    if name == "trigger+":
                        kw.update(value)
                    else:
                        kw[name] = value() if name == "trigger" and callable(value) else value
                fn = kw.pop("fn")
                answers.append(call(lambda: s.add_task(fn, **kw)))
            # the trigger made from nothing starts counting at different instants otherwise
            compare(res, f"add:{names[0] if k == 1 else k}", f"add_task with {[(a, b if not callable(b) else 'object') for a, b in chosen]}", answers[0], answers[1], here, there)


# ---------------------------------------------------------------- updates
UPDATES = [
    ("name", "New"), ("name", ""), ("name", None), ("name", 5), ("id", "z"), ("id", "c"),
    ("args", [2]), ("args", []), ("args", "text"), ("args", [1, 2, 3]), ("args", (2,)), ("args", [{"x": [None]}]), ("args", 5),
    ("kwargs", {"b": 3}), ("kwargs", {}), ("kwargs", {"z": 1}), ("kwargs", "text"), ("kwargs", []), ("kwargs", None),
    ("fn", "mc.targets:noop"), ("fn", "mc.targets:missing"), ("fn", "x"), ("fn", "mc.targets:Holder.smeth"),
    ("executor", "pool"), ("executor", "missing"), ("executor", 3), ("executor", ""),
    ("coalesce", False), ("coalesce", 0), ("coalesce", "x"), ("max_instances", 2), ("max_instances", 0), ("max_instances", "2"), ("max_instances", True),
    ("mistrigger_grace_time", None), ("mistrigger_grace_time", 0), ("mistrigger_grace_time", 1.5), ("mistrigger_grace_time", "1"),
    ("next_run_time", None), ("next_run_time", T + 3 * M), ("next_run_time", (T + 4 * M).astimezone(timezone(timedelta(hours=-5)))),
    ("unknown", 1), ("store_alias", "second"), ("pending", True), ("submitted", True),
]


def update(item, res, tier):
    _, part, parts, most = item
    n = 0
    for k in range(most + 1):
        for chosen in itertools.combinations(UPDATES, k):
            if len({c[0] for c in chosen}) < k:
                continue
            for target, store in (("c", None), ("c", "default")) if k < 2 else (("c", None),):
                n += 1
                if n % parts != part:
                    continue
                here, there, client = pair()
                answers = [call(lambda: s.update_task(target, store, **dict(chosen))) for s in (here.s, client)]
                key = f"update:{chosen[0][0] if k == 1 else k}"
                compare(res, key, f"update_task({target!r}, {store!r}, {dict(chosen)})", *answers, here, there)
                # what the dashboard shows before it asks the worker
                if k and answers[0][0] == "task" and not {"next_run_time", "store_alias", "pending", "submitted"} & {c[0] for c in chosen}:
                    here, there, client = pair()
                    shown = call(lambda: client.get_task(target).model_copy().update_task(**dict(chosen)))
                    fields = ("name", "callable_reference", "args", "kwargs", "executor", "coalesce", "max_instances", "mistrigger_grace_time")
                    if shown[0] != "task" or [shown[1][f] for f in fields] != [answers[0][1][f] for f in fields]:
                        res.violation(f"{key}:preview", f"preview of the update {dict(chosen)}: {show(shown)}, it becomes {show(answers[0])}")
    if part == 0:
        for target, store in (("missing", None), ("a", "second"), ("a", "missing"), ("b", "default"), ("b", "second"), ("", None)):
            for change in ({}, {"name": "x"}, {"max_instances": 0}):
                here, there, client = pair()
                answers = [call(lambda: s.update_task(target, store, **change)) for s in (here.s, client)]
                if target == "" and answers[1][0] == "raised":
                    continue
                compare(res, "update:where", f"update_task({target!r}, {store!r}, {change})", *answers, here, there)


# ---------------------------------------------------------------- questions
def query(item, res, tier):
    _, part, parts = item
    here, there, client = pair()
    conditions = [("schedule_state", v) for v in ("scheduled", "paused", "pending", "nope", " Paused ")] + [("executor", v) for v in ("default", "pool", "x")]
    conditions += [("trigger", v) for v in ("interval", "CronTrigger", "x")] + [("q", v) for v in ("a", "BETA", "&=#?/%", "\xe9", " ", "two")]
    conditions += [("sort_by", v) for v in ("id", "name", "next_run_time", "trigger", "nope")] + [("descending", v) for v in (True, False)] + [("store", v) for v in ("default", "second", "missing")]
    n = 0
    for k in range(4):
        for chosen in itertools.combinations(conditions, k):
            if len({c[0] for c in chosen}) < k:
                continue
            n += 1
            if n % parts != part:
                continue
            kw = dict(chosen)
            answers = [call(lambda: s.get_task_infos(**kw)) for s in (here.s, client)]
            compare(res, "query", f"get_task_infos({kw})", *answers, here, there)
    for ident in ("a", "b", "c", "p", "missing"):
        for store in (None, "default", "second", "missing"):
            for name, fn in (("info", lambda s: s.get_task_info(ident, store)), ("task", lambda s: s.get_task(ident, store)), ("lookup", lambda s: s.lookup_task(ident, store))):
                answers = [call(lambda: fn(s)) for s in (here.s, client)]
                compare(res, name, f"{name} of {ident!r} in {store!r}", *answers, here, there)
            for count in (1, 2, 5, 50, 51, 0, -1):
                for now in (None, T + 7 * M, T + timedelta(microseconds=1), T + timedelta(milliseconds=999.5), T.astimezone(timezone(timedelta(hours=2))) + timedelta(days=1)):
                    kw = {"count": count, **({"now": now} if now else {})}
                    answers = [call(lambda: s.preview_task_runs(ident, store, **kw)) for s in (here.s, client)]
                    compare(res, "preview" + (":now" if now else "") + (":count" if not 1 <= count <= 50 else ""), f"preview_task_runs({ident!r}, {store!r}, {kw})", *answers, here, there)


# ---------------------------------------------------------------- ids
CHARS = ("a", "b", "/", "%", "?", "#", " ", "+", ".", "\xe9", "&", ":")


def ids(item, res, tier):
    every = ["".join(w) for n in (1, 2) for w in itertools.product(CHARS, repeat=n)] + ["..", "a/run", "a/preview", "a/remove", "a/pause", "%2F", "a%2Frun", "tasks", "info", "\N{SNOWMAN}", "x" * 300]
    for ident in every:
        here, there, client = pair()
        for w in (here, there):
            for other in ("a", "b"):
                if ident != other and w.s.get_task(other) is None:
                    w.s.add_task(targets.noop, "interval", minutes=5, id=other)
        for op in (
            lambda s: s.add_task(targets.noop, "interval", minutes=5, id=ident, replace_existing=True),
            lambda s: s.get_task_info(ident),
            lambda s: s.preview_task_runs(ident),
            lambda s: s.update_task(ident, name="new"),
            lambda s: s.pause_task(ident),
            lambda s: s.resume_task(ident),
            lambda s: s.run_task(ident),
            lambda s: s.delete_task(ident),
        ):
            before = there.state(), there.seen()
            remote = call(lambda: op(client))
            if "/" in ident and remote[0] == "raised":
                # has no address of its own: refused is fine, acting on another task is not
                res.count(requests=1, transitions=1)
                if (there.state(), there.seen()) != before:
                    res.violation("id:other", f"id {ident!r}: refused with {show(remote)} but something changed")
                continue
            local = call(lambda: op(here.s))
            compare(res, "id", f"id {ident!r}", local, remote, here, there)


# ---------------------------------------------------------------- arguments which are no JSON
class Odd:
    def __repr__(self):
        raise ValueError("no text")


def arguments(item, res, tier):
    odd = [b"bytes", b"\xff\xfe", {1, 2}, (1, 2), T, timedelta(1), UTC, object(), targets.Holder("x"), targets.noop, Odd, float("nan"), float("inf"), 1 << 80, "\ud800", {1: 2}, {(1, 2): 3}, [Odd()], {"k": {"d": object()}}, complex(1, 2), Ellipsis, io, ValueError("x")]
    cyclic = []
    cyclic.append(cyclic)
    odd.append(cyclic)
    for n, value in enumerate(odd):
        for where in ("args", "kwargs"):
            here, there, client = pair()
            there.s.add_task(targets.noop, "interval", minutes=5, id="odd", **{where: [value] if where == "args" else {"k": value}})
            ids_there = sorted(t.id for t in there.s.get_tasks())
            for name, fn in (
                ("list", lambda: sorted(i.id for i in client.get_task_infos())),
                ("one", lambda: client.get_task("odd").id),
                ("preview", lambda: client.preview_task_runs("odd").task.id),
                ("pause", lambda: client.pause_task("odd").id),
                ("resume", lambda: client.resume_task("odd").id),
                ("rename", lambda: client.update_task("odd", name="new").id),
                ("run", lambda: client.run_task("odd").id),
                ("others", lambda: client.pause_task("a").id),
            ):
                try:
                    got = fn()
                except Exception as exc:
                    got = exc
                want = ids_there if name == "list" else "a" if name == "others" else "odd"
                res.count(requests=1, transitions=1, traces_validated_against_impl=1)
                if got != want:
                    res.violation(f"argument:{name}", f"a task with {where} {type(value).__name__} number {n}: {name} through the client gives {show(repr(got) if not isinstance(got, Exception) else (type(got), str(got)))}")
            t = there.s.get_task("odd")
            if t.name != "new" or (t.args if where == "args" else t.kwargs.get("k")) is None:
                res.violation("argument:kept", f"task with {where} number {n} is {t!r} afterwards")


# ---------------------------------------------------------------- tokens
class Counting:
    """Counts whatever is asked of the scheduler."""

    def __init__(self, s):
        self.__dict__["s"] = s
        self.__dict__["asked"] = []

    def __getattr__(self, name):
        self.asked.append(name)
        return getattr(self.s, name)


def tokens(item, res, tier):
    trig = "gASVAAAAAAAAAAAu"
    requests = [("GET", "/info", None), ("GET", "/instances", None), ("GET", "/tasks", None), ("GET", "/tasks?q=a", None), ("GET", "/tasks/a", None), ("GET", "/tasks/missing", None), ("GET", "/tasks/a/preview", None), ("GET", "/tasks/a/preview?count=x", None)]
    requests += [("POST", "/tasks", b), ("POST", "/tasks", b"{"), ("POST", "/tasks", json.dumps({"trigger_pickle": trig}).encode())] if (b := json.dumps({"fn": "mc.targets:noop", "trigger": "interval", "id": "in"}).encode()) else []
    requests += [("PATCH", "/tasks/a", json.dumps({"updates": {"name": "x"}}).encode()), ("PATCH", "/tasks/a", b"[]"), ("PATCH", "/tasks/missing", b"")]
    for action in ("run", "pause", "resume", "remove", "preview", "nope"):
        for ident in ("a", "missing"):
            requests.append(("POST", f"/tasks/{ident}/{action}", b"{}"))
    requests += [("HEAD", "/info", None), ("HEAD", "/tasks", None), ("GET", "//info", None), ("GET", "/info/", None), ("GET", "/tasks/", None), ("POST", "/tasks/a%2Fremove", b"{}"), ("POST", "/tasks//remove", b"{}"), ("OPTIONS", "/tasks", None)]
    for configured in (TOKEN, "", "a b"):
        wrong = [None, "", " ", TOKEN.upper(), TOKEN[:-1], TOKEN + "x", TOKEN + ",", "Bearer " + TOKEN, "null", "None", "undefined", "*", "\xc3\xa9", configured + "\x00"]
        for bad in wrong:
            if bad == configured:
                continue
            for method, path, body in requests:
                for header in ("x-asyncz-remote-token", "X-Asyncz-Remote-Token"):
                    clock.set_now(T)
                    w = world()
                    before = w.state()
                    spy = Counting(w.s)
                    app = app_for_cached(w, spy, configured)
                    headers = [("content-type", "application/json"), ("authorization", configured), ("cookie", f"x-asyncz-remote-token={configured}")]
                    if bad is not None:
                        headers.append((header, bad))
                    status, answer = serve(app, method, "/asyncz-remote" + path + ("&" if "?" in path else "?") + "token=" + urllib.parse.quote(configured), headers, body)
                    res.count(requests=1, transitions=1)
                    what = f"configured {configured!r}, given {bad!r}: {method} {path}"
                    if spy.asked or w.state() != before or w.events:
                        res.violation("token:reached", f"{what} reaches the scheduler ({spy.asked})")
                        WORLD.clear()
                    if status < 400 and not (method in ("OPTIONS",) or 300 <= status < 400):
                        res.violation("token:answer", f"{what} is answered with {status} {answer[:100]!r}")
                    if b"Alpha" in answer or b"targets" in answer:
                        res.violation("token:content", f"{what} tells {answer[:200]!r}")
        # the right one is let in
        w = world()
        status, answer = serve(app_for(w.s, configured), "GET", "/asyncz-remote/tasks", [("X-Asyncz-Remote-Token", configured)], None)
        res.count(requests=1, traces_validated_against_impl=1)
        if status != 200:
            res.violation("token:refused", f"the right token {configured!r} is refused: {status}")
    w = world()
    status, answer = serve(app_for(w.s, None), "GET", "/asyncz-remote/tasks", [], None)
    if status != 200:
        res.violation("token:none", f"no token configured, {status} without one")


WORLD = []
APPS = {}


def world():
    if not WORLD:
        WORLD.append(World().fill())
        APPS.clear()
    return WORLD[0]


def app_for_cached(w, spy, token):
    if token not in APPS:
        APPS[token] = (app_for(Forward(), token))
    TARGET[0] = spy
    return APPS[token]


TARGET = [None]


class Forward:
    def __getattr__(self, name):
        return getattr(TARGET[0], name)


# ---------------------------------------------------------------- words
OPS = {
    "add a": lambda s, w: s.add_task(targets.noop, "interval", minutes=2, id="a", timezone="UTC"),
    "add a again": lambda s, w: s.add_task(targets.other, "interval", minutes=3, id="a", timezone="UTC", replace_existing=True),
    "add d": lambda s, w: s.add_task(targets.noop, "date", run_at=T + M, id="d", timezone="UTC"),
    "add without trigger": lambda s, w: s.add_task(targets.noop, id="now"),
    "add in second": lambda s, w: s.add_task(targets.noop, "interval", minutes=2, id="c", store="second", timezone="UTC"),
    "update a": lambda s, w: s.update_task("a", name="new", max_instances=2),
    "update object": lambda s, w: s.update_task(s.get_task("a") or "a", name="object"),
    "bad update": lambda s, w: s.update_task("a", name="bad", max_instances=0),
    "pause a": lambda s, w: s.pause_task("a"),
    "pause object": lambda s, w: s.pause_task(s.get_task("c") or "c"),
    "resume a": lambda s, w: s.resume_task("a"),
    "resume d": lambda s, w: s.resume_task("d"),
    "resume p": lambda s, w: s.resume_task("p", "default"),
    "run a": lambda s, w: s.run_task("a"),
    "run object": lambda s, w: s.run_task(s.get_task("a") or "a"),
    "run d": lambda s, w: s.run_task("d"),
    "run d, keep": lambda s, w: s.run_task("d", remove_finished=False),
    "run if due": lambda s, w: s.run_task("a", force=False),
    "run in second": lambda s, w: s.run_task("b", "second"),
    "delete a": lambda s, w: s.delete_task("a"),
    "delete from second": lambda s, w: s.delete_task("c", "second"),
    "delete object": lambda s, w: s.delete_task(s.get_task("b") or "b"),
    "running": lambda s, w: s.running,
    "info": lambda s, w: s.get_scheduler_info(),
    "instances": lambda s, w: s.get_scheduler_instance_infos(),
    # on the worker's side
    "finish": lambda s, w: w.ex.finish() if getattr(w.ex, "queue", None) else None,
    "time": lambda s, w: clock.set_now(datetime.now(UTC) + 90 * timedelta(seconds=1)),
    "process": lambda s, w: w.s.process_tasks(),
    "shutdown": lambda s, w: w.s.shutdown(wait=False),
    "start": lambda s, w: w.s.start(),
}


def words(item, res, tier):
    _, first, n = item
    here, there, client = None, None, None
    for rest in itertools.product(OPS, repeat=n - 1):
        word = (first, *rest)
        here, there, client = pair()
        for i, op in enumerate(word):
            local = call(lambda: OPS[op](here.s, here))
            if op == "time":
                # both worlds share the clock
                remote = local
            else:
                remote = call(lambda: OPS[op](client, there))
            if i < n - 2:
                continue  # compared as an end of another word
            compare(res, f"word:{op}", f"after {word[: i + 1]}", local, remote, here, there)
