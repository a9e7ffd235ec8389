"""The pages and buttons of the dashboard: everything shown, nothing misread, and each button acts on its own task as the scheduler would."""
from __future__ import annotations

import contextlib
import itertools
import json
import logging
import re
import urllib.parse
from datetime import datetime, timedelta, timezone
from html.parser import HTMLParser

logging.disable(logging.CRITICAL)

from asyncz.exceptions import TaskLookupError  # noqa: E402
from mc import clock, targets  # noqa: E402
from mc.asgi import Browser  # noqa: E402
from mc.manual import ManualExecutor  # noqa: E402
from mc.stores import scheduler  # noqa: E402

LEVEL = "model_checking"
ITEM_CPU = 800
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
S = timedelta(seconds=1)
BOUNDS = {
    "quick": "a scheduler behind the real dashboard app and an equal one called directly: all words of 3 of 22 buttons and forms in 3 states of the scheduler, 6 ways a call may fail; every control of every row for 44 ids, 5 mounts and up to 5 filters; all combinations of 4-16 values of the fields of the create form (two fields off at a time) and of the edit form for 10 kinds of tasks (two fields off for 3 of them); a hostile text in each of 30 places on each page; all filters x sort orders x page sizes against the task list; another thread removing, pausing or adding a task before each single call a page makes",
    "thorough": "words of 4, three fields of a form off at a time",
}
ASSUMPTIONS = ["a browser resolves links as WHATWG defines it; scripts and styles are not run", "ids that no address can hold (with a slash, '.', '..', a line break, or the name of a route) are not pressed on"]
MIN = {"requests": 20000}


class Odd:
    """An argument no JSON holds."""

    def __repr__(self):
        return "<Odd>"

    def __eq__(self, other):
        return isinstance(other, Odd)

    __hash__ = object.__hash__


class Worker:
    def method(self, x=1):
        return x


def other(x=1):
    return x


# ---------------------------------------------------------------- two equal worlds
class World:
    def __init__(self, state="running", dashboard=False, mount="prefix", **kw):
        from asyncz.stores.memory import MemoryStore

        clock.set_now(T)
        self.ex = ManualExecutor()
        self.s = scheduler({"default": MemoryStore(), "second": MemoryStore()}, executors={"default": self.ex, "pool": ManualExecutor()})
        self.s.identity = "the-identity"
        self.events = []
        self.dashboard = None
        if dashboard:
            self.dashboard = Dash(self.s, mount, **kw)
        if state != "stopped":
            self.s.start(paused=state == "paused")
        self.s.add_listener(lambda e: self.events.append((type(e).__name__, e.code, getattr(e, "task_id", None))))

    def state(self):
        tasks = []
        for store in ("default", "second"):
            for t in sorted(self.s.get_tasks(store), key=lambda t: str(t.id)):
                tasks.append((store, t.id, t.name, t.fn_reference, str(t.trigger), tuple(map(repr, t.args)), repr(sorted(t.kwargs.items())), t.executor, t.coalesce, t.max_instances, t.mistrigger_grace_time, str(t.next_run_time), t.pending))
        runs = [(alias, t.id, tuple(map(str, times))) for alias in ("default", "pool") if alias in self.s.executors for t, times in getattr(self.s.executors[alias], "queue", [])]
        return tasks, runs, sorted(self.s.executors["default"].instances.items()) if hasattr(self.s.executors.get("default"), "instances") else None


class Dash:
    """The dashboard app without a login, as mounted, and a browser."""

    def __init__(self, s, mount="prefix", **kw):
        from asyncz import monkay
        from asyncz.contrib.dashboard.admin import AsynczAdmin
        from asyncz.contrib.dashboard.audit import MemoryAuditTrailStorage
        from asyncz.contrib.dashboard.config import DashboardConfig
        from asyncz.contrib.dashboard.events import MemorySchedulerEventStorage, get_scheduler_event_storage
        from asyncz.contrib.dashboard.history import MemoryRunHistoryStorage
        from asyncz.contrib.dashboard.logs.storage import MemoryLogStorage
        from lilya.apps import Lilya
        from lilya.routing import Include

        # as the settings of a user do it
        config = DashboardConfig(secret_key="k" * 32)
        type(monkay.settings).dashboard_config = property(lambda self: config)
        prefix = {"deep": "/ops/dash"}.get(mount, "/dashboard")
        self.base = {"root": "", "below": "/tools/dashboard", "found": "/tools/dashboard"}.get(mount, prefix)
        config.dashboard_url_prefix = self.base if self.base and mount != "found" else "/"
        get_scheduler_event_storage(MemorySchedulerEventStorage())
        self.audit, self.history, self.log = MemoryAuditTrailStorage(), MemoryRunHistoryStorage(), MemoryLogStorage()
        admin = self.admin = AsynczAdmin(scheduler=s, url_prefix=prefix, log_storage=self.log, run_history_storage=self.history, audit_storage=self.audit, **kw)
        if mount == "root":
            self.app = admin.get_asgi_app()
        elif mount in ("below", "found"):
            self.app = Lilya(routes=[Include("/tools", app=admin.get_asgi_app(with_url_prefix=True))])
        else:
            self.app = admin.get_asgi_app(with_url_prefix=True)
        self.browser = Browser(self.app)

    def get(self, path, **kw):
        return self.browser.get(self.base + path, **kw)

    def post(self, path, form=None, **kw):
        return self.browser.post(self.base + path, form, **kw)

    def audited(self):
        """The records since the last call, oldest first."""
        out = [(r.action, r.status, r.target_id) for r in reversed(self.audit.query(limit=10**6))]
        self.audit.clear()
        return out


# ---------------------------------------------------------------- reading pages
VOID = {"area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "source", "track", "wbr"}


class Page(HTMLParser):
    """The elements of a page: (tag, attributes, text, path), and the shape of the tree."""

    def __init__(self, text):
        super().__init__(convert_charrefs=True)
        self.elements, self.stack, self.shape = [], [], []
        self.feed(text)
        self.close()

    def handle_starttag(self, tag, attrs):
        e = {"tag": tag, "attrs": dict(attrs), "text": "", "parents": [x["tag"] for x in self.stack], "up": list(self.stack)}
        self.shape.append((tag, tuple(k for k, _ in attrs), len(self.stack)))
        self.elements.append(e)
        if tag not in VOID:
            self.stack.append(e)

    def handle_endtag(self, tag):
        for i in range(len(self.stack) - 1, -1, -1):
            if self.stack[i]["tag"] == tag:
                del self.stack[i:]
                break

    def handle_data(self, data):
        for e in self.stack:
            e["text"] += data

    def handle_comment(self, data):
        self.shape.append(("<!--", (), len(self.stack)))

    def rows(self):
        """The rows of the table bodies, with everything in them."""
        rows = [e for e in self.elements if e["tag"] == "tr" and "tbody" in e["parents"]]
        return [(r, [e for e in self.elements if any(r is u for u in e["up"])]) for r in rows]

    def value(self, name):
        """What a browser sends for a field of the (last) form."""
        for e in self.elements:
            if e["attrs"].get("name") == name:
                if e["tag"] == "textarea":
                    return re.sub(r"^\r?\n", "", e["text"]).replace("\r\n", "\n").replace("\n", "\r\n")
                if e["tag"] == "select":
                    options = [o for o in self.elements if any(e is u for u in o["up"]) and o["tag"] == "option"]
                    chosen = [o for o in options if "selected" in o["attrs"]] or options[:1]
                    return chosen[-1]["attrs"].get("value")
                if e["attrs"].get("type") == "checkbox":
                    return e["attrs"].get("value") if "checked" in e["attrs"] else None
                return e["attrs"].get("value", "")
        return None


def resolve(base, ref):
    """The address a browser asks for, as (path, query), or None if it leaves the site."""
    ref = re.sub(r"[\t\r\n]", "", ref.strip("".join(map(chr, range(33)))))
    ref, _, _ = ref.partition("#")
    m = re.match(r"([a-zA-Z][a-zA-Z0-9+.-]*):(.*)", ref, re.S)
    if m:
        if m.group(1).lower() != "http" or not m.group(2).startswith("//host"):
            return None
        ref = m.group(2)[len("//host"):] or "/"
    path, mark, query = ref.partition("?")
    path = path.replace("\\", "/")
    if path.startswith("//"):
        return None
    bpath, _, bquery = base.partition("?")
    if not path:
        path, query = bpath, query if mark else bquery
    elif not path.startswith("/"):
        path = bpath.rsplit("/", 1)[0] + "/" + path
    out = []
    parts = path.split("/")[1:]
    for i, part in enumerate(parts):
        dots = re.sub("%2e", ".", part, flags=re.I)
        if dots in (".", ".."):
            if dots == "..":
                del out[-1:]
            if i == len(parts) - 1:
                out.append("")
        else:
            out.append(part)
    path = urllib.parse.quote("/" + "/".join(out), safe="/%:@!$&'()*+,;=-._~|[]^")
    return path, urllib.parse.quote(query, safe="/%:@!$&'()*+,;=-._~?|[]^\\{}`")


def follow(d, method, base, ref, form=None):
    to = resolve(base, ref)
    if to is None:
        return None, ref
    url = to[0] + ("?" + to[1] if to[1] else "")
    r = d.browser.request(method, url, form=form)
    for _ in range(3):
        if r.status in (301, 302, 303, 307, 308) and r.get("location"):
            to = resolve(url, r.get("location"))
            url = to[0] + ("?" + to[1] if to[1] else "")
            method, form = (method, form) if r.status in (307, 308) else ("GET", None)
            r = d.browser.request(method, url, form=form)
    return r, url


# ---------------------------------------------------------------- words of buttons
def add(w, id, **kw):
    kw = {"trigger": "interval", "seconds": 5, "timezone": UTC, **kw}
    return w.s.add_task(targets.noop, kw.pop("trigger"), id=id, **kw)


def setup(w):
    add(w, "a")
    add(w, "b", next_run_time=None, store="second", executor="pool", max_instances=1)
    w.s.add_task(targets.noop, "date", run_at=T + 3 * S, id="once", timezone=UTC, max_instances=2)
    w.s.add_task(targets.noop, "interval", seconds=5, id="lost", executor="nowhere", timezone=UTC, next_run_time=T + 1000 * S)


PRESS = [(x, i) for x in ("run", "pause", "resume", "remove") for i in ("a", "b", "once", "gone")]
STEPS = PRESS + [("run", "lost"), ("bulk", "run", ["lost", "a", "gone", "b"]), ("bulk", "pause", ["gone", "a", "once"]), ("bulk", "resume", ["a", "b", "gone"]), ("bulk", "remove", ["a", "gone", "lost", "a"]), ("wait",)]


def direct(w, x, task_id):
    """What the button stands for: the state of the twin afterwards and the status of the record."""
    from asyncz.exceptions import MaximumInstancesError

    try:
        if x == "run":
            w.s.run_task(task_id, remove_finished=False)
        else:
            {"pause": w.s.pause_task, "resume": w.s.resume_task, "remove": w.s.delete_task}[x](task_id)
    except MaximumInstancesError:
        return "warning"
    except Exception:
        return "failed"
    return "succeeded"


def table(text):
    """What the table of tasks shows: ids and states."""
    out = []
    for row, inside in Page(text).rows():
        ids = [e["attrs"].get("value") for e in inside if e["attrs"].get("name") == "row"]
        if ids:
            badges = [e["text"].strip() for e in inside if "az-badge" in e["attrs"].get("class", "")]
            out.append((ids[0], badges[-1]))
    return sorted(out)


def words(state, first, depth, res):
    for rest in itertools.product(STEPS, repeat=depth - 1):
        word = (first,) + rest
        now = T
        direct_w = World(state)
        setup(direct_w)
        w = World(state, dashboard=True)
        setup(w)
        d = w.dashboard
        for i, step in enumerate(word):
            where = f"scheduler {state}: {word} (step {i})"
            res.count(transitions=1, requests=1, traces_validated_against_impl=1)
            if step[0] == "wait":
                now += 4 * S
                clock.set_now(now)
                continue
            if step[0] == "bulk":
                _, x, ids = step
                r = d.post(f"/tasks/hx/bulk/{x}", {"ids": json.dumps(ids)})
                want = [(f"task.{x}", direct(direct_w, x, t), t) for t in dict.fromkeys(ids)]
            else:
                x, t = step
                r = d.post(f"/tasks/{t}/{x}")
                want = [(f"task.{x}", direct(direct_w, x, t), t)]
            got = d.audited()
            if r.status != 200:
                res.violation(f"words:{step[0]}:status", f"{where} answers {r}")
                break
            if got != want:
                res.violation(f"words:{step[0]}:audit", f"{where} is recorded as {got}, expected {want}")
                break
            a, b = w.state(), direct_w.state()
            if a != b or w.events != direct_w.events:
                res.violation(f"words:{step[0]}:effect", f"{where}: the tasks are {a} ({w.events}), calling the scheduler makes them {b} ({direct_w.events})")
                break
            shown = sorted((t.id, {"scheduled": "Scheduled", "pending": "Pending"}.get(t.schedule_state.value, "Paused")) for t in w.s.get_task_infos())
            if table(r.text) != shown:
                res.violation(f"words:{step[0]}:table", f"{where} shows {table(r.text)}, the tasks are {shown}")
                break
            warned = sum(s == "warning" for _, s, _ in want)
            if ('id="flash-1"' in r.text) < (warned > 0):
                res.violation(f"words:{step[0]}:silent", f"{where} says nothing about {want}")
                break
        res.seen("states", (str(w.state()[0]), str(w.state()[1])))
    res.sample({"state": state, "first": str(first), "depth": depth})


# ---------------------------------------------------------------- failing calls
def failing(res):
    """Each call of the scheduler that a button makes fails in each way: told, recorded as failed, and nothing else."""
    from asyncz.exceptions import ConflictIdError, MaximumInstancesError, TaskLookupError

    errors = (TaskLookupError("a"), MaximumInstancesError("a", 1), ConflictIdError("a"), ValueError("<b>bad</b>"), KeyError("nowhere"), OSError("disk"), RuntimeError(""))
    for x, exc, how in itertools.product(("run", "pause", "resume", "remove"), errors, ("single", "bulk")):
        w = World(dashboard=True)
        setup(w)
        d = w.dashboard
        name = {"run": "run_task", "remove": "delete_task"}.get(x, f"{x}_task")
        real = getattr(w.s, name)

        def broken(task_id, *a, **kw):
            if task_id == "a":
                raise exc
            return real(task_id, *a, **kw)

        setattr(w.s, name, broken)
        w.events.clear()
        r = d.post(f"/tasks/a/{x}") if how == "single" else d.post(f"/tasks/hx/bulk/{x}", {"ids": '["a", "b"]'})
        where = f"{how} {x} with the scheduler raising {exc!r}"
        res.count(transitions=1, requests=1, traces_validated_against_impl=1)
        status = "warning" if isinstance(exc, MaximumInstancesError) and x == "run" else "failed"
        want = [(f"task.{x}", status, "a")] + ([(f"task.{x}", "succeeded", "b")] if how == "bulk" else [])
        got = d.audited()
        if r.status != 200 or got != want:
            res.violation("failing", f"{where}: answers {r}, recorded {got}, expected {want}")
        if "<b>bad" in r.text:
            res.violation("failing:markup", f"{where}: the message is markup")
        if w.events and how == "single":
            res.violation("failing:effect", f"{where}: {w.events}")
    res.sample({"errors": len(errors)})


# ---------------------------------------------------------------- controls
SPECIAL = [c for c in " !\"#$%&'()*+,:;<=>?@[\\]^_`{|}~."] + ["é", "日", "😀", "\u00a0"]
IDS = [f"a{c}b" for c in SPECIAL] + ["a?b", ":a", "http:a", "javascript:b", "#a", "?a", "a%2Fb", "%2e%2e", "a%", "..a", " a", "a ", "-", "0", "{{ 1 }}"]
FILTERS = ("", "?q=a", "?sort=name&direction=desc&per_page=25", "?state=scheduled&executor=default&trigger=interval", "?q=%26%23&per_page=100")


def controls(mount, part, parts, res):
    for k, (id, query) in enumerate(itertools.product(IDS, FILTERS if mount == "prefix" else FILTERS[3:])):
        if k % parts != part:
            continue

        def fresh(dashboard):
            w = World(dashboard=dashboard, mount=mount)
            add(w, id, name="mine")
            # those that would be hit instead
            for decoy in sorted({"a", "b", "ab", urllib.parse.unquote(id), id.strip(), id + "/run", "hx"} - {id, ""}):
                add(w, decoy, name="decoy")
            return w

        w = fresh(True)
        d = w.dashboard
        base = d.base + "/tasks/" + query
        page = d.browser.get(base)
        res.count(requests=1)
        where = f"{mount}: task {id!r} on {base}"
        if page.status != 200:
            res.violation(f"{mount}:page", f"{where}: {page}")
            continue
        rows = [(r, inside) for r, inside in Page(page.text).rows() if any(e["attrs"].get("name") == "row" and e["attrs"].get("value") == id for e in inside)]
        visible = [t.id for t in w.s.get_task_infos(**filters(query))]
        if len(rows) != (id in visible):
            res.violation(f"{mount}:row", f"{where}: {len(rows)} rows, expected {int(id in visible)}")
            continue
        if not rows:
            continue
        row, inside = rows[0]
        posts = {}
        for e in inside:
            if "hx-post" in e["attrs"]:
                posts[re.search(r"/(\w+)(?:\?[^/]*)?$", e["attrs"]["hx-post"]).group(1)] = e["attrs"]["hx-post"]
        if set(posts) != {"run", "pause", "remove"} or [e["attrs"]["data-task-id"] for e in inside if "data-task-id" in e["attrs"]] != [id]:
            res.violation(f"{mount}:buttons", f"{where}: the buttons are {posts}")
            continue
        for x in ("run", "pause", "resume", "remove"):
            if x == "resume":
                # the row of the paused task has that button instead
                text = d.browser.get(base).text
                posts.update({"resume": e["attrs"]["hx-post"] for r, inside_ in Page(text).rows() if any(e["attrs"].get("value") == id for e in inside_) for e in inside_ if "resume" in e["attrs"].get("hx-post", "")})
                if "resume" not in posts:
                    if "state=" not in query:
                        res.violation(f"{mount}:buttons", f"{where}: no button resumes the paused task")
                    continue
            before = {t.id: (t.next_run_time, t.name) for t in w.s.get_tasks()}
            queued = len(w.ex.queue)
            r, url = follow(d, "POST", base, posts[x], {})
            res.count(transitions=1, requests=1, traces_validated_against_impl=1)
            after = {t.id: (t.next_run_time, t.name) for t in w.s.get_tasks()}
            changed = {i for i in before.keys() | after.keys() if before.get(i) != after.get(i)} | {t.id for t, _ in w.ex.queue[queued:]}
            if r is None or r.status != 200 or changed != {id}:
                res.violation(f"{mount}:{x}", f"{where}: the button {x} asks {url} ({r}) and changes {sorted(changed)}")
                break
            # and leads back to the same filters
            if table(r.text) != sorted((t.id, t.schedule_state.value.title()) for t in w.s.get_task_infos(**filters(query))):
                res.violation(f"{mount}:{x}:filters", f"{where}: after {x} the table shows {table(r.text)}")
                break
        links = {e["attrs"].get("title"): e["attrs"]["href"] for e in inside if e["tag"] == "a"}
        w = fresh(True)
        d = w.dashboard
        d.log.append(dict(level="INFO", message="MARK-mine", logger="x", task_id=id))
        d.log.append(dict(level="INFO", message="MARK-other", logger="x", task_id="a" if id != "a" else "b"))
        for what in ("Details", "Logs", "Edit"):
            if what == "Logs" and id != id.strip():
                # what is typed into a filter is stripped
                continue
            r, url = follow(d, "GET", base, links.get(what) or "")
            res.count(transitions=1, requests=1, traces_validated_against_impl=1)
            ok = r is not None and r.status == 200 and ("MARK-mine" in r.text and "MARK-other" not in r.text if what != "Edit" else True)
            if ok and what != "Logs":
                # the id stands below the title of the page
                shown = [e["text"] for e in Page(r.text).elements if "az-panel-meta az-mono" in e["attrs"].get("class", "")]
                ok = shown == [id]
            if not ok:
                res.violation(f"{mount}:{what}", f"{where}: the link {links.get(what)} leads to {url} ({r}), not to the {what.lower()} of the task")
                continue
            if what == "Details":
                for e in Page(r.text).elements:
                    if e["tag"] == "a" and "az-button" in e["attrs"].get("class", "") and e["text"].strip() in ("Edit", "History", "Logs", "Open History", "Open Logs"):
                        res.count(transitions=1, requests=1, traces_validated_against_impl=1)
                        r2, url2 = follow(d, "GET", url, e["attrs"]["href"])
                        if r2 is None or r2.status != 200 or not on_task(r2.text, e["text"].strip(), id):
                            res.violation(f"{mount}:{what}:{e['text'].strip()}", f"{where}: the link {e['attrs']['href']} of its page leads to {url2} ({r2}), not to the task")
            if what == "Edit":
                form = next(e for e in Page(r.text).elements if e["tag"] == "form" and e["attrs"].get("method") == "post")
                p = Page(r.text)
                fields = {n: v for n in ("name", "executor", "callable_path", "coalesce", "max_instances", "mistrigger_grace_time", "clear_mistrigger_grace_time", "args", "kwargs") if (v := p.value(n)) is not None}
                r2, url2 = follow(d, "POST", url, form["attrs"]["action"], {**fields, "name": "renamed", "intent": "apply"})
                names = {t.id: t.name for t in w.s.get_tasks()}
                if r2 is None or r2.status != 200 or {i for i, n in names.items() if n == "renamed"} != {id}:
                    res.violation(f"{mount}:Edit:apply", f"{where}: its edit form asks {url2} ({r2}), the names are {names}")
    res.sample({"mount": mount, "ids": len(IDS), "filters": len(FILTERS)})


def on_task(text, what, id):
    p = Page(text)
    if what in ("History", "Open History", "Logs", "Open Logs"):
        return p.value("task_id") == id.strip()
    return [e["text"] for e in p.elements if "az-panel-meta az-mono" in e["attrs"].get("class", "")] == [id]


def filters(query):
    q = dict(urllib.parse.parse_qsl(query[1:]))
    out = {"sort_by": q.get("sort", "next_run_time"), "descending": q.get("direction") == "desc"}
    for k, v in (("q", "q"), ("state", "schedule_state"), ("executor", "executor"), ("trigger", "trigger")):
        if q.get(k, "").strip():
            out[v] = q[k].strip()
    return out


# ---------------------------------------------------------------- the create form
CREATE = {
    "callable_path": ("mc.targets:noop", "", "nonsense", "mc.targets:gone", "gone.module:x", "mc.targets", "checks.c36:Worker.method", " mc.targets:noop ", ":x", "<b>:<i>"),
    "name": ("", "plain", "<b>x</b>", " spaced ", "é"),
    "store": ("", "default", "second", "nowhere", " second ", "<b>"),
    "trigger": (("interval", "10s"), ("interval", "5m"), ("interval", "2h"), ("interval", "300"), ("interval", ""), ("interval", "0s"), ("interval", "-5s"), ("interval", "1.5s"), ("interval", "s"), ("interval", "99999999999999999999s"), ("interval", "10 s"), ("cron", "*/5 * * * *"), ("cron", "* * *"), ("cron", "61 * * * *"), ("cron", "x * * * *"), ("cron", "0 0 31 2 *"), ("cron", "0 9 * * mon-fri"), ("date", "2030-01-01T13:00:00"), ("date", "2030-01-01T13:00:00+02:00"), ("date", "2030-01-01T13:00:00 02:00"), ("date", "2020-01-01T00:00:00"), ("date", "soon"), ("date", ""), ("nonsense", "1"), ("", "15s"), ("INTERVAL", "7s"), ("and", "1"), ("shutdown", "")),
    "args": ("", "[]", "[1, \"x\"]", "[1", "{}", "3", "null", "\"ab\"", "[[1, 2]]", "nan"),
    "kwargs": ("", "{}", "{\"x\": 1}", "{", "[]", "[[\"x\", 1]]", "null", "3", "\"x\"", "{\"unknown\": 1}"),
}
TARGET_KW = {"x": 1}


def expected_trigger(kind, value):
    """The options of the trigger the form names, or None if it names none."""
    from asyncz.triggers import CronTrigger, DateTrigger, IntervalTrigger  # noqa: F401

    kind, value = (kind.strip() or "interval").lower(), value.strip() or "10s"
    if kind == "interval":
        m = re.fullmatch(r"([+-]?\d+)([smh]?)", value.replace(" ", "") if re.fullmatch(r"[+-]?\d+ +[smh]", value) else value)
        return ("interval", {{"": "seconds", "s": "seconds", "m": "minutes", "h": "hours"}[m.group(2)]: int(m.group(1))}) if m else None
    if kind == "cron":
        f = value.split()
        return ("cron", dict(zip(("minute", "hour", "day", "month", "day_of_week"), f))) if len(f) == 5 else None
    if kind == "date":
        m = re.fullmatch(r"(\S+T\S+) (\d\d:\d\d)", value)
        try:
            return "date", {"run_at": datetime.fromisoformat(f"{m.group(1)}+{m.group(2)}" if m else value)}
        except ValueError:
            return None
    return None


def expected_callable(path):
    import importlib

    mod, _, attr = path.strip().partition(":")
    try:
        return getattr(importlib.import_module(mod), attr) if mod and attr else None
    except (ImportError, AttributeError, ValueError):
        return None


def creates(off, part, parts, res):
    fields = list(CREATE)
    cases = []
    for chosen in itertools.combinations(fields, off):
        for values in itertools.product(*(CREATE[f][1:] for f in chosen)):
            cases.append({**{f: CREATE[f][0] for f in fields}, **dict(zip(chosen, values))})
    for k, case in enumerate(cases):
        if k % parts != part:
            continue
        form = {f: v for f, v in case.items() if f != "trigger"}
        form["trigger_type"], form["trigger_value"] = case["trigger"]
        w = World(dashboard=True)
        d = w.dashboard
        w2 = World()
        res.count(transitions=1, requests=1, traces_validated_against_impl=1)
        r = d.post("/tasks/create", form)
        where = f"creating {form}"
        want = None
        fn, trigger = expected_callable(form["callable_path"]), expected_trigger(*case["trigger"])
        try:
            args = json.loads(form["args"]) if form["args"] else []
            kwargs = json.loads(form["kwargs"]) if form["kwargs"] else {}
        except ValueError:
            args = None
        if fn is not None and trigger is not None and isinstance(args, list) and isinstance(kwargs, dict):
            try:
                want = w2.s.add_task(fn, trigger[0], args=args, kwargs=kwargs, name=form["name"] or None, store=form["store"].strip() or "default", **trigger[1])
            except Exception:
                want = None
        got = d.audited()
        tasks = [t for t in w.state()[0]]
        if r.status != 200:
            res.violation("create:status", f"{where} answers {r}")
            continue
        if want is None:
            if tasks or w.events or len(got) != 1 or got[0][:2] != ("task.create", "failed") or 'id="flash-1"' not in r.text:
                res.violation("create:refused", f"{where}, which no scheduler takes, makes {tasks}, recorded as {got}, with the page {'telling so' if 'flash-1' in r.text else 'silent'}")
        else:
            other_ = w2.state()[0]
            if [t[:1] + t[2:] for t in tasks] != [t[:1] + t[2:] for t in other_] or len(got) != 1 or got[0][:2] != ("task.create", "succeeded") or not any(got[0][2] == t[1] for t in tasks) and tasks:
                res.violation("create:task", f"{where} makes {tasks}, recorded as {got}; the scheduler makes {other_}")
            if table(r.text) != sorted((t.id, t.schedule_state.value.title()) for t in w.s.get_task_infos()):
                res.violation("create:table", f"{where} shows {table(r.text)}")
        if "<b>" in r.text or "<i>" in r.text:
            res.violation("create:markup", f"{where}: the text is markup on the page")
        res.seen("answers", (want is None, r.text.count("flash-")))
    res.sample({"forms": len(cases) // parts, "fields off": off})


# ---------------------------------------------------------------- the edit form
KINDS = {
    "plain": dict(name="plain"),
    "unnamed": dict(name=None),
    "values": dict(name="v", args=[1, "x", None], kwargs={"k": [1, {"y": 2.5}]}),
    "tuples": dict(name="t", args=[(1, 2)], kwargs={}),
    "odd": dict(name="o", args=[Odd()]),
    "method": dict(name="m", fn="method"),
    "lambda": dict(name="l", fn="lambda"),
    "spaces": dict(name=" s ", mistrigger_grace_time=None, coalesce=False, max_instances=7),
    "hostile": dict(name="</textarea><b>\"'&amp;", args=["</textarea><b>&lt; \u2028 é"], mistrigger_grace_time=3),
    "paused": dict(name="p", next_run_time=None, executor="pool"),
}


def any_args(*args, **kwargs):
    return None


def edit_world(kind, dashboard):
    w = World(dashboard=dashboard)
    kw = {**KINDS[kind]}
    fn = kw.pop("fn", None)
    fn = {"method": Worker().method, "lambda": lambda *a, **k: None}.get(fn, any_args)
    w.s.add_task(fn, "interval", seconds=5, id="e", timezone=UTC, **kw)
    add(w, "f", name="other")
    w.events.clear()
    return w


FIELDS = ("name", "callable_path", "executor", "coalesce", "max_instances", "mistrigger_grace_time", "clear_mistrigger_grace_time", "args", "kwargs")
EDITS = {
    "name": ("new", "", "<b>", "  padded  "),
    "callable_path": ("checks.c36:other", "checks.c36:any_args", "", "nonsense", "gone:x", "checks.c36:gone"),
    "executor": ("pool", "", "nowhere", " default "),
    "coalesce": ("true", "false", "maybe", "", "YES"),
    "max_instances": ("2", "0", "-1", "x", "", "1.5", "7"),
    "mistrigger_grace_time": ("5", "2.5", "0", "-1", "x", "", "nan", "inf", "1e3"),
    "clear_mistrigger_grace_time": ("1", None),
    "args": ("[]", "[9]", "", "{}", "[", "\"x\"", "[1, 2, 3]", "null"),
    "kwargs": ("{}", "{\"x\": 9}", "", "[]", "{", "null", "{\"unknown\": 1}"),
}
BAD = object()


def meaning(field, value, cleared):
    """The new value a field of the form stands for; BAD if none."""
    v = (value or "").strip()
    if field == "name":
        return v or BAD
    if field in ("callable_path", "executor"):
        return v or BAD
    if field == "coalesce":
        return {"true": True, "yes": True, "false": False}.get(v.lower(), BAD)
    try:
        if field == "max_instances":
            return int(v) if int(v) > 0 else BAD
        if field == "mistrigger_grace_time":
            if cleared or not v:
                return None
            f = float(v)
            return BAD if not 0 < f < float("inf") else int(f) if f.is_integer() else f
        parsed = json.loads(v or ("[]" if field == "args" else "{}"))
        return parsed if isinstance(parsed, list if field == "args" else dict) else BAD
    except (ValueError, OverflowError):
        return BAD


def form_of(text):
    p = Page(text)
    return {n: v for n in FIELDS if (v := p.value(n)) is not None}


def edits(kind, off, part, parts, res):
    cases = [{}]
    for n in range(1, off + 1):
        for chosen in itertools.combinations(FIELDS, n):
            cases += [dict(zip(chosen, values)) for values in itertools.product(*(EDITS[f] for f in chosen))]
    keyword = {"callable_path": "fn"}
    for k, (change, intent) in enumerate((c, i) for i in ("apply", "preview") for c in cases):
        if k % parts != part or intent == "preview" and len(change) > 1:
            continue
        w, w2 = edit_world(kind, True), edit_world(kind, False)
        d = w.dashboard
        page = d.get("/tasks/e/edit")
        res.count(transitions=1, requests=2)
        where = f"editing the task {kind!r} with {change}, {intent}"
        if page.status != 200:
            res.violation(f"edit:{kind}:page", f"{where}: the form answers {page}")
            return
        shown = form_of(page.text)
        form = {**shown, **{f: v for f, v in change.items() if v is not None}, "intent": intent}
        for f, v in change.items():
            if v is None:
                form.pop(f, None)
        before = w.state()
        r = d.post("/tasks/e/edit", form)
        got = d.audited()
        if r.status == 500:
            res.violation(f"edit:{kind}:error", f"{where} fails: {r}")
            continue
        # what the form asks to change
        cleared = "clear_mistrigger_grace_time" in form
        updates = {}
        for f in FIELDS:
            if f == "clear_mistrigger_grace_time":
                continue
            same = (form.get(f) or "").strip() == (shown.get(f) or "").strip()
            if f == "mistrigger_grace_time":
                same = same and cleared == ("clear_mistrigger_grace_time" in shown)
            if same:
                continue
            m = meaning(f, form.get(f), cleared)
            if f in ("args", "kwargs") and m is not BAD and m == json.loads(shown[f] or "null"):
                continue
            updates[keyword.get(f, f)] = m
        if "name" in updates and updates["name"] is BAD and shown["name"] == "":
            updates.pop("name")
        now = w2.s.get_task("e")
        updates = {f: v for f, v in updates.items() if f == "fn" or v is BAD or repr(v) != repr(getattr(now, f))}
        refused = any(v is BAD for v in updates.values())
        if not refused and updates and intent == "apply":
            try:
                w2.s.update_task("e", **updates)
            except Exception:
                refused = True
        elif not refused and updates:
            try:
                edit_world(kind, False).s.update_task("e", **updates)
            except Exception:
                refused = True
        if refused:
            if r.status != 400 or w.state() != before or [g[:2] for g in got] != [("task.update", "failed")] or "Validation failed" not in r.text:
                res.violation(f"edit:{kind}:refused", f"{where}: no scheduler takes {updates}; answered {r}, recorded {got}, changed {[x for x in w.state()[0] if x not in before[0]]}")
            continue
        a, b = w.state(), w2.state()
        changed = before != a
        applied = "Task update applied" in r.text
        if intent == "preview" or not updates:
            if r.status != 200 or a != before or got or w.events or applied:
                res.violation(f"edit:{kind}:{'preview' if updates else 'unchanged'}", f"{where}: answered {r}, recorded {got}, events {w.events}, changed {[x for x in a[0] if x not in before[0]]} from {[x for x in before[0] if x not in a[0]]}")
                continue
        elif r.status != 200 or a != b or w.events != w2.events or (got != [("task.update", "succeeded", "e")]) != (before == b) or applied == (before == b):
            res.violation(f"edit:{kind}:apply", f"{where}: answered {r}, recorded {got}, events {w.events}; changed {[x for x in a[0] if x not in before[0]]}, the scheduler: {[x for x in b[0] if x not in before[0]]} {w2.events}")
            continue
        # the proposal names what would change
        n = re.search(r"(\d+) fields? changed", r.text)
        if not updates and (n is None or n.group(1) != "0"):
            res.violation(f"edit:{kind}:proposal", f"{where}: the page proposes {n and n.group(0)}")
        if "<b>" in r.text:
            res.violation(f"edit:{kind}:markup", f"{where}: text is markup")
        res.seen("answers", (kind, str(sorted(updates)), changed))
    res.sample({"kind": kind, "forms": len(cases)})


# ---------------------------------------------------------------- hostile texts
HOSTILE = ("<img src=x onerror=alert(1)>", "\"><script>x</script>", "' onmouseover='x", "</textarea></pre><b>", "{{ 7*7 }}{% raw %}", "javascript:alert(1)", "<!--", "]]>&lt;b&gt;")
PLAIN = "zzzqzzz"
PLACES = ("id", "name", "args", "kwargs", "kwkey", "executor", "store", "identity", "log", "logger", "loglevel", "exception", "exctype", "result", "tz", "audit-target", "audit-message", "q", "task_id", "level", "status", "source", "executor-filter", "trigger-filter", "state", "sort", "limit", "action", "event", "run_id", "warning", "create")


def textual(place, text):
    """Every page, with the text in one place of the data or the address."""
    from asyncz.stores.memory import MemoryStore

    clock.set_now(T)
    executors = {"default": ManualExecutor()}
    if place == "executor":
        executors[text] = ManualExecutor()
    stores = {"default": MemoryStore()}
    if place == "store":
        stores[text] = MemoryStore()
    s = scheduler(stores, executors=executors)
    s.identity = text if place == "identity" else "id"
    d = Dash(s)
    s.start()
    kw = {"name": text if place == "name" else "n", "args": [text] if place == "args" else [], "kwargs": {text: 1} if place == "kwkey" else {"k": text} if place == "kwargs" else {}}

    def run(*a, **k):
        if place == "exception":
            raise ValueError(text)
        if place == "exctype":
            raise type(text, (Exception,), {})("x")
        return text if place == "result" else None

    id = text if place == "id" else "a"
    s.add_task(run, "interval", seconds=5, id=id, timezone=UTC, executor=text if place == "executor" else "default", store=text if place == "store" else "default", max_instances=1, **kw)
    s.run_task(id)
    executors[text if place == "executor" else "default"].finish()
    if place == "warning":
        s.executors["default"].queue.clear()
    run_id = d.history.query()[0].run_id
    d.log.append(dict(level=text if place == "loglevel" else "INFO", message=text if place == "log" else "m", logger=text if place == "logger" else "x", task_id=id, extra={"run_id": run_id, "scheduler_identity": text if place == "identity" else "i"}))
    d.audit.append(action="task.run", status="failed", target_id=text if place == "audit-target" else "a", message=text if place == "audit-message" else "m")
    t = urllib.parse.quote(text, safe="")
    tid = urllib.parse.quote(id, safe="")
    out = []
    q = {"q": "q", "task_id": "task_id", "level": "level", "status": "status", "source": "source", "executor-filter": "executor", "trigger-filter": "trigger", "state": "state", "sort": "sort", "limit": "limit", "action": "action", "event": "event", "run_id": "run_id"}.get(place)
    query = f"?{q}={t}" if q else ""
    pages = ["/", "/tasks/", "/tasks/partials/table", "/history/", "/history/partials/table", f"/history/{run_id}", "/logs/", "/logs/partials/table", "/events/", "/audit/", "/timeline/", "/runtime/", "/instances/"]
    if "/" not in id:
        pages += [f"/tasks/{tid}", f"/tasks/{tid}/edit"]
    pages += [f"/history/{t}"] if "/" not in text else []
    pages += [f"/tasks/{t}"] if place == "task_id" and "/" not in text else []
    for p in pages:
        if p.startswith("/history/") and p == f"/history/{t}" and text == run_id:
            continue
        out.append((p, d.get(p + query)))
    if place == "warning" and "/" not in text:
        s.add_task(run, "interval", seconds=5, id=text, timezone=UTC, max_instances=1)
        s.run_task(text)
        out.append(("warning", d.post(f"/tasks/{t}/run")))
        d.post("/tasks/hx/bulk/run", {"ids": json.dumps([text])})
        out.append(("next page", d.get("/tasks/")))
    if place == "create":
        for f in ("callable_path", "trigger_type", "trigger_value", "args", "kwargs", "store", "name"):
            form = {"callable_path": "mc.targets:noop", "trigger_type": "interval", "trigger_value": "10s", f: text}
            r = d.post("/tasks/create", form)
            out.append((f"create {f}", r))
            for task in s.get_tasks():
                if task.id != id:
                    s.delete_task(task.id)
        out.append(("edit", d.post("/tasks/a/edit", {"name": text, "args": text, "kwargs": text, "coalesce": text, "executor": text, "max_instances": text, "callable_path": text, "mistrigger_grace_time": text})))
    return out


def hostile(place, res):
    for text in HOSTILE:
        plain = dict(textual(place, PLAIN + ("/" if "/" in text else "")))
        seen = 0
        for path, r in textual(place, text):
            key = path
            ref = plain.get(key)
            res.count(transitions=1, requests=1, traces_validated_against_impl=1)
            if ref is None:
                # pages whose address holds the text
                ref = plain.get(key.replace(urllib.parse.quote(text, safe=""), PLAIN))
            if r.status >= 500:
                res.violation(f"hostile:{place}:error", f"{text!r} as {place}: {path} fails: {r}")
                continue
            seen += text in "".join(e["text"] for e in Page(r.text).elements[:1]) or any(text in (v or "") for e in Page(r.text).elements for v in e["attrs"].values())
            if ref is None:
                continue
            a, b = Page(r.text).shape, Page(ref.text).shape
            if a != b and r.status == ref.status:
                extra = [x for x in a if a.count(x) != b.count(x)][:3]
                res.violation(f"hostile:{place}", f"{text!r} as {place}: {path} holds the elements {extra}, unlike with a plain text")
        if not seen and place not in ("tz", "result", "kwkey", "event", "state", "sort", "limit", "status", "source", "loglevel", "level", "action", "exctype", "create", "run_id", "executor-filter", "trigger-filter"):
            res.cap(f"{text!r} as {place} is on no page")
    res.sample({"place": place, "texts": len(HOSTILE)})


# ---------------------------------------------------------------- what the pages list
def listing(part, parts, res):
    w = World(dashboard=True)
    d = w.dashboard
    names = ("Beta", "alpha", "", "gamma & co", "beta")
    for i in range(57):
        kw = {"name": names[i % 5] or None, "store": ("default", "second")[i % 2], "executor": ("default", "pool")[i % 3 == 0]}
        if i % 7 == 0:
            kw["next_run_time"] = None
        if i % 4 == 0:
            w.s.add_task(targets.noop, "cron", minute=str(i), id=f"t{i:02}", timezone=UTC, **kw)
        else:
            add(w, f"t{i:02}", seconds=i + 5, **kw)
    queries = list(itertools.product(("", "a", "BETA", "& co", "cron", "zzz", "  beta "), ("", "scheduled", "paused", "pending", "nonsense", "PAUSED"), ("", "default", "pool", "zzz"), ("", "interval", "cron"), ("", "name", "schedule_state", "trigger", "nonsense"), ("", "asc", "desc", "x"), ("25", "50", "10", "0", "-1", "x", "9999")))
    for k, (q, state, executor, trigger, sort, direction, per) in enumerate(queries):
        # two values off the first at a time
        if sum(v != first for v, first in zip((q, state, executor, trigger, sort, direction, per), ("", "", "", "", "", "", "25"))) > 2 or k % parts != part:
            continue
        query = {"q": q, "state": state, "executor": executor, "trigger": trigger, "sort": sort, "direction": direction, "per_page": per}
        base = d.base + "/tasks/?" + urllib.parse.urlencode(query)
        where = f"the tasks page with {query}"
        f = filters("?" + urllib.parse.urlencode(query))
        f["sort_by"] = sort or "next_run_time"
        if "schedule_state" in f:
            f["schedule_state"] = f["schedule_state"].lower()
        try:
            want = [t.id for t in w.s.get_task_infos(**f)]
        except ValueError:
            want = None
        got, url, pages = [], base, 0
        try:
            size = max(1, min(200, int(per)))
        except ValueError:
            size = 50
        while True:
            r = d.browser.get(url)
            res.count(transitions=1, requests=1, traces_validated_against_impl=1)
            if r.status != 200:
                if want is not None or r.status >= 500:
                    res.violation("listing:error", f"{where}: {url} answers {r}")
                break
            p = Page(r.text)
            ids = [e["attrs"]["value"] for _, inside in p.rows() for e in inside if e["attrs"].get("name") == "row"]
            got += ids
            pages += 1
            nxt = [e for e in p.elements if e["tag"] == "a" and e["text"].strip() == "Next"][0]
            prev = [e for e in p.elements if e["tag"] == "a" and e["text"].strip() == "Previous"][0]
            if len(ids) > size or ("aria-disabled" in prev["attrs"]) != (pages == 1):
                res.violation("listing:page", f"{where}: page {pages} holds {len(ids)} rows; previous: {prev['attrs']}")
            if "aria-disabled" in nxt["attrs"] or pages > 60:
                break
            to = resolve(url, nxt["attrs"]["href"])
            hx = resolve(url, nxt["attrs"]["hx-get"])
            if to[1] != hx[1]:
                res.violation("listing:next", f"{where}: the link {to} and the table {hx} differ")
            url = to[0] + "?" + to[1]
        if want is not None and got != want:
            res.violation("listing", f"{where}: its pages hold {len(got)} tasks {got[:8]}, the scheduler lists {len(want)}: {want[:8]}")
        res.seen("lists", tuple(got))
    res.sample({"queries": len(queries)})


def figures(res):
    """The overview, runtime, instances and timeline pages agree with the scheduler."""
    for state, n, paused in itertools.product(("running", "paused", "stopped"), (0, 1, 3), (0, 1)):
        w = World(state, dashboard=True)
        d = w.dashboard
        for i in range(n):
            add(w, f"t{i}", seconds=7 + i, **({"next_run_time": None} if i < paused else {}))
        if n == 3:
            w.s.add_task(targets.noop, "date", run_at=T + 20 * S, id="once", timezone=UTC)
            if state != "stopped":
                # the same id in another store
                w.s.add_store("memory", "more")
                w.s.add_task(targets.noop, "interval", seconds=11, id="t1", store="more", timezone=UTC)
        info = w.s.get_scheduler_info()
        where = f"scheduler {state} with {n} tasks, {paused} paused"
        res.count(transitions=4, requests=4)
        r = d.get("/")
        stats = [e["text"].strip() for e in Page(r.text).elements if e["attrs"].get("class", "") == "az-stat-value"]
        for want in (str(info.task_count), str(info.scheduled_task_count), str(info.paused_task_count), str(info.pending_task_count), f"{len(info.store_aliases)} / {len(info.executor_aliases)}"):
            if r.status != 200 or want not in stats:
                res.violation("figures:overview", f"{where}: the overview shows {stats}, not {want}")
        for per, limit in itertools.product((1, 3, 10), (1, 5, 500)):
            r = d.get(f"/timeline/?per_task={per}&limit={limit}")
            res.count(transitions=1, requests=1, traces_validated_against_impl=1)
            previews = [(i.id, w.s.preview_task_runs(i.id, i.store_alias, count=per)) for i in w.s.get_task_infos()]
            want = sorted(((t, i) for i, p in previews if p for t in p.run_times), key=lambda x: x[0])
            rows = [[e["text"].strip() for e in inside if "az-mono" in e["attrs"].get("class", "")][:2] for _, inside in Page(r.text).rows()]
            rows = [x for x in rows if x]
            if r.status != 200 or [x[0] for x in rows] != [t.isoformat(timespec="seconds") for t, _ in want[:limit]] or not {tuple(x) for x in rows} <= {(t.isoformat(timespec="seconds"), i) for t, i in want}:
                res.violation("figures:timeline", f"{where}, per_task={per}, limit={limit}: {rows}, expected {want[:limit]}")
        for path in ("/runtime/", "/instances/"):
            r = d.get(path)
            text = Page(r.text).elements[0]["text"]
            if r.status != 200 or info.state_label not in text or "the-identity" not in text:
                res.violation("figures:runtime", f"{where}: {path} answers {r} without its state or identity")
        res.seen("states", (state, n, paused))
    res.sample({"worlds": 18})


# ---------------------------------------------------------------- while others change the tasks
class Meddled:
    """The scheduler, with something happening before the n-th call of a page."""

    def __init__(self, s, at, what):
        self.__dict__.update(_s=s, _at=at, _what=what, _n=0)

    def __getattr__(self, name):
        value = getattr(self._s, name)
        if not callable(value) or name.startswith("_") or name in ("add_listener", "remove_listener"):
            return value

        def call(*a, **kw):
            self.__dict__["_n"] += 1
            if self._n == self._at:
                with contextlib.suppress(TaskLookupError):
                    self._what(self._s)
            return value(*a, **kw)

        return call


MEDDLING = {
    "remove a": lambda s: s.delete_task("a"),
    "remove all": lambda s: s.remove_all_tasks(None),
    "pause a": lambda s: s.pause_task("a"),
    "add": lambda s: s.add_task(targets.noop, "interval", seconds=1, id="new", timezone=UTC),
    "finish": lambda s: s.update_task("a", next_run_time=None),
    "stop": lambda s: s.shutdown(wait=False),
}
VISITS = [("GET", p, None) for p in ("/", "/tasks/", "/tasks/partials/table", "/tasks/a", "/tasks/a/edit", "/timeline/", "/runtime/", "/instances/", "/history/", "/logs/")]
VISITS += [("POST", f"/tasks/a/{x}", {}) for x in ("run", "pause", "resume", "remove")]
VISITS += [("POST", f"/tasks/hx/bulk/{x}", {"ids": '["a", "b"]'}) for x in ("run", "pause", "resume", "remove")]
VISITS += [("POST", "/tasks/create", {"callable_path": "mc.targets:noop"}), ("POST", "/tasks/a/edit", {"name": "new", "executor": "default", "callable_path": "mc.targets:noop", "coalesce": "true", "max_instances": "3", "intent": "apply"})]


def meddled(res):
    for (method, path, form), (name, what) in itertools.product(VISITS, MEDDLING.items()):
        at = 0
        while at < 40:
            at += 1
            w = World()
            m = Meddled(w.s, at, what)
            d = Dash(m)
            setup(w)
            r = d.browser.request(method, d.base + path, form=form)
            res.count(transitions=1, requests=1, traces_validated_against_impl=1)
            if m._n < at:
                break
            if r.status >= 500:
                res.violation(f"meddled:{name}", f"{method} {path}: with another thread doing '{name}' before call {at} of the page: {r}")
            got = d.audited()
            if method == "POST" and (not got or len({g[2] for g in got}) != len(got)):
                res.violation("meddled:audit", f"{method} {path}: with '{name}' before call {at}: recorded {got}")
            res.seen("answers", (path, name, r.status))
    res.sample({"visits": len(VISITS), "meddling": len(MEDDLING)})


def formats(res):
    """The ids of a bulk action in every format."""
    for ids, x in itertools.product(itertools.chain.from_iterable(itertools.permutations(("a", "b", "once", "gone"), n) for n in (1, 2, 3)), ("pause", "remove")):
        for raw in (json.dumps(ids), ",".join(ids), " , ".join(ids) + ",", json.dumps(list(ids) + [ids[0]]), json.dumps(list(ids) + [1, None])):
            w = World(dashboard=True)
            setup(w)
            r = w.dashboard.post(f"/tasks/hx/bulk/{x}", {"ids": raw})
            res.count(transitions=1, requests=1, traces_validated_against_impl=1)
            got = [g[2] for g in w.dashboard.audited()]
            if r.status != 200 or got != list(ids):
                res.violation("formats", f"bulk {x} of {raw!r} acts on {got}: {r}")
    for raw in ("", "[]", "[", ",", "null", "{}", '["a,b"]', '[" a"]', '["a\\"b"]'):
        w = World(dashboard=True)
        setup(w)
        for i in ("a,b", " a", 'a"b'):
            add(w, i)
        r = w.dashboard.post("/tasks/hx/bulk/remove", {"ids": raw})
        got = [g for g in w.dashboard.audited() if g[1] == "succeeded"]
        res.count(transitions=1, requests=1, traces_validated_against_impl=1)
        want = [("task.remove", "succeeded", json.loads(raw)[0])] if raw.startswith('["') else []
        if r.status != 200 or got != want:
            res.violation("formats", f"bulk remove of {raw!r} removes {got}, expected {want}: {r}")
    res.sample({"formats": 5})


def items(tier):
    deep = tier != "quick"
    out = [("words", s, x, 4 if deep else 3 if s == "running" else 2) for s in ("running", "paused", "stopped") for x in STEPS if x[0] != "wait"]
    out += [("controls", m, i, 2) for m in ("prefix", "root", "deep", "below", "found") for i in range(2)]
    out += [("creates", n, i, 8) for n in range(0, (4 if deep else 3)) for i in range(8)]
    out += [("edits", k, (3 if deep else 2) if k in ("plain", "odd", "hostile") else (2 if deep else 1), i, 2) for k in KINDS for i in range(2)]
    out += [("hostile", p) for p in PLACES]
    out += [("listing", i, 4) for i in range(4)]
    return out + [("failing",), ("figures",), ("meddled",), ("formats",)]


def explore(item, res, tier, seed):
    kind, *rest = item
    globals()[kind](*rest, res)
