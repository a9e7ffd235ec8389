"""The login of the dashboard: nobody sees or changes anything without it, and it leads back to where one came from."""
from __future__ import annotations

import asyncio
import html
import ipaddress
import itertools
import logging
import re
import urllib.parse
from datetime import datetime, timedelta, timezone

logging.disable(logging.CRITICAL)

from mc import clock, targets  # noqa: E402
from mc.asgi import LOOP, Browser, serve  # noqa: E402
from mc.manual import ManualExecutor  # noqa: E402
from mc.stores import scheduler  # noqa: E402

LEVEL = "model_checking"
ITEM_CPU = 800
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
SECRET = "sEcReT-marker"
BOUNDS = {
    "quick": "every route of the dashboard (walked from the app) x 6 methods x 14 spellings of the path x 8 kinds of headers and cookies, in 6 ways of mounting it; all words of 4 out of 11 steps of two browsers (pages, actions, right and wrong logins, logout, waiting); 80 addresses asked for before the login and 700 forged ones to go to afterwards; 14 proxies x 9 trust lists x 11 prefixes x 4 mounts; 6 kinds of backends",
    "thorough": "the same with words of 5",
}
ASSUMPTIONS = ["sessions are signed by lilya's SessionMiddleware and itsdangerous, which are taken as they are"]
MIN = {"requests": 20000}


class Dashboard:
    """A dashboard with something secret on every page."""

    def __init__(self, mount="prefix", backend=None, **kw):
        from asyncz.contrib.dashboard.admin import AsynczAdmin, SimpleUsernamePasswordBackend, User
        from asyncz.contrib.dashboard.audit import MemoryAuditTrailStorage, get_audit_storage
        from asyncz.contrib.dashboard.events import MemorySchedulerEventStorage, get_scheduler_event_storage
        from asyncz.contrib.dashboard.history import MemoryRunHistoryStorage
        from asyncz.contrib.dashboard.logs.storage import MemoryLogStorage
        from asyncz import monkay
        from lilya.apps import Lilya
        from lilya.routing import Include, Path

        monkay.settings.dashboard_config.secret_key = "k" * 32
        clock.set_now(T)
        self.mount = mount
        self.s = scheduler({"default": {"type": "memory"}}, {"default": ManualExecutor()})
        self.s.identity = SECRET
        self.s.start(paused=True)
        self.s.add_task(targets.noop, "interval", seconds=5, id="a", name=SECRET, timezone=UTC)
        self.s.add_task(targets.noop, "interval", seconds=5, id="p", next_run_time=None, name=SECRET, timezone=UTC)
        get_scheduler_event_storage(MemorySchedulerEventStorage())
        log, audit = MemoryLogStorage(), MemoryAuditTrailStorage()
        if backend is None:
            def verify(user, password):
                return User(id=user, name=user, is_admin=False, team="x") if (user, password) in (("ann", "pw"), ("bob", "PW ")) else None

            backend = SimpleUsernamePasswordBackend(verify)
        self.root_path = ""
        prefix = {"deep": "/ops/dash"}.get(mount, "/dashboard")
        admin = self.admin = AsynczAdmin(enable_login=True, backend=backend, scheduler=self.s, url_prefix=prefix, log_storage=log, run_history_storage=MemoryRunHistoryStorage(), audit_storage=audit, enable_forward_middleware=mount == "forward", trusted_forwarded_hosts=("*",), **kw)
        log.append(dict(level="INFO", message=SECRET, logger="x", task_id="a"))
        get_audit_storage().append(action="task.run", status="succeeded", target_id=SECRET)
        self.s.resume()
        self.s.run_task("a")
        self.s.executors["default"].finish()
        self.run_id = admin.run_history_storage.query()[0].run_id
        self.base = prefix
        if mount == "root":
            self.app, self.base = admin.get_asgi_app(), ""
        elif mount == "host":
            async def hello(request):
                from lilya.responses import PlainText

                return PlainText("hello")

            self.app = Lilya(routes=[Path("/hello", hello)])
            admin.include_in(self.app)
        elif mount == "below":
            # an app of one's own with the dashboard below /tools
            self.app = Lilya(routes=[Include("/tools", app=admin.get_asgi_app(with_url_prefix=True))])
            self.base = "/tools/dashboard"
        else:
            self.app = admin.get_asgi_app(with_url_prefix=True)
        self.login = {"below": "/tools/login"}.get(mount, "/login")

    def routes(self):
        """Every route of the dashboard."""
        out = []

        def walk(routes, base):
            for r in routes:
                path = base + (getattr(r, "path", "") or "").rstrip("/")
                sub = getattr(r, "routes", None)
                if sub:
                    walk(sub, path)
                else:
                    out.append(path.replace("{task_id:str}", "a").replace("{task_id}", "a").replace("{run_id:str}", self.run_id).replace("{run_id}", self.run_id) or "/")

        walk(self.admin.child_app.routes, "")
        return sorted({re.sub(r"/+", "/", p) for p in out if "{" not in p})

    def state(self):
        return sorted((t.id, t.name, str(t.next_run_time), str(t.trigger)) for t in self.s.get_tasks()), len(self.s.executors["default"].queue), len(self.admin.audit_storage.query())


MOUNTS = ("prefix", "root", "deep", "host", "below", "forward")
SPELLINGS = (
    lambda d, p: d.base + p,
    lambda d, p: d.base + p + "/",
    lambda d, p: d.base + "/" + p,
    lambda d, p: "/" + d.base + p,
    lambda d, p: d.base + "/static/.." + p,
    lambda d, p: d.base + "/static/%2e%2e" + p,
    lambda d, p: d.base + "/static%2f..%2f" + p[1:],
    lambda d, p: "/login/.." + d.base + p,
    lambda d, p: "/logout/%2e%2e" + d.base + p,
    lambda d, p: d.base.upper() + p,
    lambda d, p: d.base + p + "?next=/login",
    lambda d, p: d.base + p + ";/static/",
    lambda d, p: "/assets" + d.base + p,
    lambda d, p: "/static" + p,
)
HEADERS = (
    [],
    [("HX-Request", "true")],
    [("X-Forwarded-Prefix", "/static")],
    [("X-Forwarded-Prefix", "/login")],
    [("Cookie", "asyncz_admin=e30=.x.y")],
    [("X-Original-URL", "/login"), ("X-Rewrite-URL", "/login")],
    [("Authorization", "Basic YW5uOnB3")],
    "logged out",
)


HEADERS_WANTED = ("content-security-policy", "referrer-policy", "x-content-type-options", "x-frame-options", "permissions-policy")


def secured(r, where, res, https=False):
    missing = [h for h in HEADERS_WANTED if r.get(h) is None]
    if r.status != 500 and (missing or (r.get("strict-transport-security") is not None) != https):
        res.violation("headers", f"{where}: the response {r} has no {missing or 'right transport security header'}")


def local(d, url):
    """Where a browser goes from a location, as WHATWG defines it."""
    url = re.sub(r"[\t\r\n]", "", url.strip("".join(map(chr, range(33))))).replace("\\", "/")
    if url.startswith("//"):
        url = "http://" + url.lstrip("/")
    elif re.match(r"https?:", url, re.I):
        url = "http://" + url.split(":", 1)[1].lstrip("/")
    try:
        full = urllib.parse.urljoin("http://host/", url)
    except ValueError:
        return False
    try:
        u = urllib.parse.urlsplit(full)
    except ValueError:
        return False
    return u.scheme in ("http", "https") and u.netloc == "host"


def gate(mount, part, parts, res):
    d = Dashboard(mount)
    routes = d.routes()
    if len(routes) < 20:
        raise RuntimeError(f"only {routes}")
    out = Browser(d.app)
    out.post(d.login, {"username": "ann", "password": "pw"})
    opened = sum(SECRET in out.get(d.base + r).text or SECRET in out.get(d.base + r + "/").text for r in routes)
    out.get(d.login.replace("login", "logout"))
    if opened < 12:
        raise RuntimeError(f"the marker is on {opened} pages only")
    before = d.state()
    allowed = tuple(p for p in ("/login", "/logout", "/static", "/assets"))
    for i, (path, spell, method) in enumerate(itertools.product(routes, range(len(SPELLINGS)), ("GET", "POST", "PUT", "DELETE", "PATCH", "HEAD"))):
        if i % parts != part:
            continue
        target = SPELLINGS[spell](d, path)
        for headers in HEADERS:
            if headers == "logged out":
                headers = [("Cookie", "; ".join(f"{k}={v}" for k, v in out.cookies.items()))]
            r = serve(d.app, method, target, headers + [("content-type", "application/x-www-form-urlencoded")], b"ids=a&intent=apply&callable_path=x:y")
            where = f"{mount}: {method} {target} with {headers}"
            res.count(transitions=1, requests=1, traces_validated_against_impl=1)
            if SECRET in r.text:
                res.violation(f"{mount}:leak", f"{where} shows the dashboard without a login")
            if r.exc is not None and not isinstance(r.exc, AssertionError):
                res.violation(f"{mount}:error", f"{where} fails: {r.exc!r}")
            if mount != "below" or target.startswith("/tools/"):
                # others are answered by the app around the dashboard
                secured(r, where, res)
            # plain spelling: sent to the login
            if spell < 2 and not path.startswith("/static"):
                hx = ("HX-Request", "true") in headers
                to = r.get("hx-redirect") if hx else r.get("location")
                if r.status != (401 if hx else 303) or urllib.parse.urlsplit(to or "").path != d.login:
                    res.violation(f"{mount}:redirect", f"{where} answers {r}, leading to {to}, expected the login at {d.login}")
            res.seen("answers", (mount, method, spell, r.status))
    if d.state() != before:
        res.violation(f"{mount}:changed", f"{mount}: requests without a login changed {before} to {d.state()}")
    # what has to be open
    for target in (d.login, d.base + "/static/js/asyncz.js") + (("/hello",) if mount == "host" else ()):
        r = serve(d.app, "GET", target)
        res.count(requests=1)
        if r.status != 200:
            res.violation(f"{mount}:open", f"{mount}: GET {target} answers {r} without a login")
    r = serve(d.app, "GET", d.login, scheme="https")
    secured(r, f"{mount}: https", res, https=True)
    res.sample({"mount": mount, "routes": len(routes)})


# ---------------------------------------------------------------- two browsers
STEPS = [(b, a) for b in (0, 1) for a in ("page", "action", "in", "wrong")] + [(0, "out"), (0, "fail-in"), (None, "wait")]


def sessions(first, depth, res):
    d = Dashboard("prefix")
    age = timedelta(days=14)
    for rest in itertools.product(STEPS, repeat=depth - 1):
        word = (first,) + rest
        now = T
        clock.set_now(now)
        d.s.resume_task("a") if d.s.lookup_task("a", None)[0].next_run_time is None else None
        browsers = [Browser(d.app), Browser(d.app)]
        user = [None, None]  # since when
        for i, (b, a) in enumerate(word):
            where = f"two browsers, {word} (step {i})"
            if a == "wait":
                now += timedelta(days=8)
                clock.set_now(now)
                continue
            br = browsers[b]
            if user[b] is not None and now - user[b] > age:
                user[b] = None
            known = user[b] is not None
            res.count(transitions=1, requests=1, traces_validated_against_impl=1)
            if a == "page":
                r = br.get("/dashboard/logs/")
                ok = r.status == 200 and SECRET in r.text if known else r.status == 303 and SECRET not in r.text
            elif a == "action":
                task = d.s.lookup_task("a", None)[0]
                paused = task.next_run_time is None
                r = br.post(f"/dashboard/tasks/a/{'resume' if paused else 'pause'}")
                done = (d.s.lookup_task("a", None)[0].next_run_time is None) != paused
                ok = (r.status == 200 and done) if known else (r.status == 303 and not done)
            elif a == "in":
                r = br.post("/login", {"username": ("ann", " bob ")[b], "password": ("pw", "PW ")[b]})
                ok = r.status == 303
                known = True
            elif a in ("wrong", "fail-in"):
                r = br.post("/login", {"username": "ann", "password": ("PW ", "pw2")[b]} if a == "wrong" else {"username": "ann"})
                ok = r.status == 200 and "Invalid credentials" in r.text
            else:
                r = br.get("/logout")
                ok = r.status == 303
                known = False
            # every answer with a session renews it
            user[b] = now if known else None
            if not ok:
                res.violation(f"sessions:{a}", f"{where}: {'logged in' if known else 'not logged in'}, the answer is {r}")
                break
        res.seen("states", (tuple(user), str(d.s.lookup_task("a", None)[0].next_run_time)))
    res.sample({"steps": str(first), "depth": depth})


# ---------------------------------------------------------------- there and back
def hidden_next(text):
    m = re.search(r'name="next"\s+value="([^"]*)"', text)
    return html.unescape(m.group(1)) if m else None


def back(mount, res):
    d = Dashboard(mount)
    paths = ["/", "/tasks/", "/logs/", "/tasks/a", "/tasks/a%20b", "/tasks/a%26b", "/tasks/a%3Fb", "/tasks/a%23b", "/tasks/a%25b", "/tasks/%C3%A9", "/tasks/%E6%97%A5", "/tasks/a+b", "/tasks/a=b&c", "/tasks/x%0d%0aA:b", "/tasks/%22%3E%3Cb%3E", "/tasks/a'b"]
    queries = ["", "task_id=a", "q=a%26b&level=INFO", "q=x+y&q=%23", "next=/login"]
    for path, query, hx in itertools.product(paths, queries, (False, True)):
        br = Browser(d.app)
        asked = d.base + path + ("?" + query if query else "")
        r = br.get(asked, headers=[("HX-Request", "true")] if hx else [])
        where = f"{mount}: asking for {asked}" + (" (htmx)" if hx else "")
        res.count(transitions=3, requests=3)
        to = r.get("hx-redirect") if hx else r.get("location")
        if r.status == 404 and "%0d" in path and mount in ("host", "below"):
            # the router of lilya matches no line breaks
            continue
        if r.status != (401 if hx else 303) or not to:
            res.violation(f"{mount}:back", f"{where} without a login answers {r}")
            continue
        page = br.get(to)
        nxt = hidden_next(page.text)
        # where the form asks to be led back to, and where the form posted leads to
        r = br.post(d.login, {"username": "ann", "password": "pw", "next": nxt or ""})
        got = r.get("location") or ""
        if r.status != 303 or not local(d, got):
            res.violation(f"{mount}:back", f"{where}, logging in leads to {r}")
            continue
        w = urllib.parse.urlsplit(asked)
        for what, url in (("the form of the login returns to", nxt or ""), ("logging in leads to", got)):
            # the form parser of lilya decodes values twice
            if url is got and set("%+") & set(asked):
                continue
            g = urllib.parse.urlsplit(url)
            if urllib.parse.unquote(g.path) != urllib.parse.unquote(w.path) or urllib.parse.parse_qsl(g.query, keep_blank_values=True) != urllib.parse.parse_qsl(w.query, keep_blank_values=True):
                res.violation(f"{mount}:back-elsewhere", f"{where}: {what} {url}")
    res.sample({"mount": mount, "addresses": len(paths) * len(queries)})


def forged(res):
    d = Dashboard("prefix")
    hosts = ("evil.example", "evil.example/dashboard", "host@evil.example", "evil.example%2f", "[::1]")
    starts = ("http://", "https://", "//", "///", "/\\", "\\\\", "\\/", "/\t/", "\t//", " //", "/\n/", "\r\n//", "http:", "https:/", "javascript:", "data:", "/%09/", "//%5c", "HTTP://", "\x00//", "/ /", "\x0b//", ".//", "http:\\\\", "/.//", "/..//", "ftp://", "://")
    for start, host, tail in itertools.product(starts, hosts, ("", "/x", "?a=/b", "#/x", "\\@host")):
        nxt = start + host + tail
        br = Browser(d.app)
        for where, r in (("the form", br.post("/login", {"username": "ann", "password": "pw", "next": nxt})),):
            res.count(transitions=1, requests=1, traces_validated_against_impl=1)
            if r.status != 303 or not local(d, r.get("location") or ""):
                res.violation("forged", f"a login with next={nxt!r} in {where} leads to {r}: {r.get('location')!r}")
    # kept
    for nxt in ("/dashboard/tasks/", "/dashboard/logs?task_id=a&q=x", "/other/app", "", "/"):
        r = Browser(d.app).post("/login", {"username": "ann", "password": "pw", "next": nxt})
        res.count(transitions=1, requests=1, traces_validated_against_impl=1)
        if r.get("location") not in ((nxt,) if nxt else ("/dashboard/", "/dashboard")):
            res.violation("kept", f"a login with next={nxt!r} leads to {r.get('location')}")
    res.sample({"forged": len(starts) * len(hosts) * 5})


# ---------------------------------------------------------------- backends
def backends(res):
    from lilya.responses import PlainText

    class Custom:
        def __init__(self, answer):
            self.answer = answer

        async def authenticate(self, request):
            if isinstance(self.answer, Exception):
                raise self.answer
            if callable(self.answer):
                return self.answer(request)
            return self.answer

        async def login(self, request):
            return PlainText("login")

        logout = login

    class U:
        pass

    for name, answer, opened in (("none", None, False), ("user", U(), True), ("false", False, False), ("empty", "", False), ("error", ValueError("x"), False), ("dict", {"id": 1}, True), ("token", lambda r: U() if r.headers.get("authorization") == "t" else None, False)):
        for kw in ({}, {"include_session": False}, {"include_cors": False}):
            d = Dashboard("prefix", backend=Custom(answer), **kw)
            before = d.state()
            for path, method in itertools.product(d.routes(), ("GET", "POST")):
                if path.startswith("/static") or kw.get("include_session") is False and opened:
                    continue
                r = serve(d.app, method, d.base + path)
                res.count(transitions=1, requests=1, traces_validated_against_impl=1)
                if opened and r.status in (303, 401) and "/login" in (r.get("location") or ""):
                    res.violation(f"backend:{name}", f"backend answering {answer!r}: {method} {path} answers {r}")
                if not opened and (SECRET in r.text or r.status not in (303, 500) or (r.status == 500) != isinstance(answer, Exception)):
                    res.violation(f"backend:{name}", f"backend answering {answer!r}: {method} {path} answers {r}")
            if not opened and d.state() != before:
                res.violation(f"backend:{name}:changed", f"backend answering {answer!r}: the scheduler was changed")
            if name == "token":
                r = serve(d.app, "GET", d.base + "/tasks/partials/table", [("Authorization", "t")])
                if kw.get("include_session") is not False and (r.status != 200 or SECRET not in r.text):
                    res.violation("backend:token", f"a request with the token answers {r}")
    res.sample({"backends": 7})


# ---------------------------------------------------------------- proxies
def proxies(res):
    from asyncz.contrib.dashboard.admin.middleware.forward_root_path import ForwardedPrefixMiddleware
    from asyncz.contrib.dashboard.config import get_effective_prefix

    clients = (None, ("127.0.0.1", 5), ("127.0.0.2", 5), ("::1", 5), ("localhost", 5), ("10.0.0.1", 5), ("10.0.1.1", 5), ("192.168.7.9", 5), ("fe80::1", 5), ("proxy.local", 5), ("", 5), ("testclient", 50000), ("::ffff:127.0.0.1", 5), ["127.0.0.1", 5], ("10.0.0.12", 5), ("10.0.0", 5), ("::12", 5), ("localhost.evil", 5), ("proxy.local.evil", 5), ("xproxy.local", 5), ("Proxy.Local", 5), ("210.0.0.1", 5), ("*", 5), ("10.0.0.0/24", 5))
    lists = ((), ("127.0.0.1", "::1", "localhost"), ("10.0.0.0/24",), ("10.0.0.1", "fe80::/10"), ("*",), ("proxy.local",), ("bad/net", "10.0.0.1"), ("0.0.0.0/0",), ("127.0.0.1/8",))
    prefixes = (None, "", "/", "base", "/base", "/base/", " /base ", "/a/b/", "/dashboard", "/x/dashboard", "base//")
    roots = ({}, {"root_path": "/mount"}, {"app_root_path": "/ext"}, {"root_path": "mount/", "app_root_path": ""})

    def trusted(client, hosts):
        if "*" in hosts:
            return True
        if not client or not client[0]:
            return False
        if client[0] in hosts:
            return True
        try:
            ip = ipaddress.ip_address(client[0])
        except ValueError:
            return False
        for h in hosts:
            try:
                if ip in ipaddress.ip_network(h, strict=False):
                    return True
            except ValueError:
                pass
        return False

    if not LOOP:
        LOOP.append(asyncio.new_event_loop())
    seen = []

    async def app(scope, receive, send):
        seen.append(scope)

    class Req:
        pass

    for client, hosts, prefix, root, kind in itertools.product(clients, lists, prefixes, roots, ("http", "websocket", "lifespan")):
        scope = {"type": kind, "client": client, "headers": [(b"X-Forwarded-Prefix", prefix.encode())] if prefix is not None else [], "path": "/dashboard/x", **root}
        given = dict(scope)
        seen.clear()
        LOOP[0].run_until_complete(ForwardedPrefixMiddleware(app, trusted_hosts=hosts)(scope, None, None))
        res.count(transitions=1)
        got = seen[0]
        where = f"client {client}, trusted {hosts}, prefix {prefix!r}, {root}, {kind}"
        if scope != given:
            res.violation("proxy:mutated", f"{where}: the scope of the server was changed to {scope}")
        clean = "/" + (prefix or "").strip().strip("/")
        takes = kind != "lifespan" and trusted(client, hosts) and clean != "/"
        external = root.get("app_root_path") or root.get("root_path") or ""
        if external and not external.startswith("/"):
            external = "/" + external
        want = (clean + external).rstrip("/") if takes else root.get("app_root_path")
        if got.get("app_root_path") != want or any(got.get(k) != given.get(k) for k in ("path", "root_path", "headers", "client")):
            res.violation("proxy", f"{where}: the external path is {got.get('app_root_path')!r}, expected {want!r}")
        if kind == "http":
            r = Req()
            r.scope = got
            eff = get_effective_prefix(r)
            ext = (want or "").rstrip("/")
            ext = ext if not ext or ext.startswith("/") else "/" + ext
            wanted = ext if ext.endswith("/dashboard") else ext + "/dashboard"
            if eff != wanted:
                res.violation("proxy:effective", f"{where}: links start with {eff!r}, expected {wanted!r}")
    # the pages themselves
    for hosts, client, ok in ((("10.0.0.0/24",), ("10.0.0.9", 1), True), (("10.0.0.0/24",), ("10.0.1.9", 1), False), (("127.0.0.1",), ("10.0.0.1", 1), False)):
        from asyncz.contrib.dashboard.admin import AsynczAdmin

        d = Dashboard("prefix")
        app_ = AsynczAdmin(scheduler=d.s, url_prefix="/dashboard", enable_forward_middleware=True, trusted_forwarded_hosts=hosts).get_asgi_app(with_url_prefix=True)
        for path in ("/dashboard/", "/dashboard/tasks/", "/dashboard/logs/"):
            r = serve(app_, "GET", path, [("X-Forwarded-Prefix", "/ext")], client=client)
            res.count(transitions=1, requests=1, traces_validated_against_impl=1)
            links = re.findall(r'(?:href|src)="(/[^"]*)"', r.text)
            if r.status != 200 or not links or any(x.startswith("/ext/") != ok for x in links):
                res.violation("proxy:pages", f"{path} for {client}, trusted {hosts}: links {sorted(set(links))[:5]}")
    res.sample({"proxies": len(clients) * len(lists) * len(prefixes) * len(roots)})


def items(tier):
    out = [("gate", m, i, 4) for m in MOUNTS for i in range(4)]
    out += [("sessions", w, 4 if tier == "quick" else 5) for w in STEPS]
    out += [("back", m) for m in MOUNTS]
    return out + [("forged",), ("backends",), ("proxies",)]


def explore(item, res, tier, seed):
    kind, *rest = item
    {"gate": gate, "sessions": sessions, "back": back, "forged": forged, "backends": backends, "proxies": proxies}[kind](*rest, res)
