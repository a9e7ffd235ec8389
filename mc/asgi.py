"""Browsers and a server in memory for the ASGI apps of the dashboard."""
from __future__ import annotations

import asyncio
import urllib.parse
from http.cookies import SimpleCookie

LOOP = []


class Reply:
    def __init__(self, status, headers, body, exc=None):
        self.status = status
        self.headers = [(k.decode("latin-1").lower(), v.decode("latin-1")) for k, v in headers]
        self.body = body
        self.exc = exc

    def get(self, name):
        return next((v for k, v in self.headers if k == name), None)

    @property
    def text(self):
        return self.body.decode("utf-8", "replace")

    def __repr__(self):
        return f"<{self.status} {self.get('location') or ''}{self.exc or ''}>"


def serve(app, method, target, headers=(), body=b"", client=("10.0.0.1", 1), root_path="", scheme="http"):
    """One HTTP request as a server hands it to the application."""
    path, _, query = target.partition("?")
    scope = {
        "type": "http", "asgi": {"version": "3.0"}, "http_version": "1.1", "method": method, "scheme": scheme,
        "path": urllib.parse.unquote(path), "raw_path": path.encode("ascii", "replace"), "query_string": query.encode("ascii", "replace"), "root_path": root_path,
        "headers": [(k.lower().encode("latin-1"), v.encode("latin-1")) for k, v in headers],
        "client": client, "server": ("host", 80), "state": {},
    }
    sent, given = [], []

    async def receive():
        if given:
            return {"type": "http.disconnect"}
        given.append(1)
        return {"type": "http.request", "body": body or b"", "more_body": False}

    async def send(message):
        sent.append(message)

    if not LOOP:
        LOOP.append(asyncio.new_event_loop())
    exc = None
    try:
        LOOP[0].run_until_complete(app(scope, receive, send))
    except Exception as e:  # the server answers 500
        exc = e
    start = next((m for m in sent if m["type"] == "http.response.start"), None)
    if start is None or exc is not None:
        return Reply(500, [], repr(exc).encode(), exc)
    # what a real server refuses to send
    for k, v in start.get("headers", []):
        if b"\r" in v or b"\n" in v or b"\0" in v or v != v.strip():
            return Reply(500, [], b"illegal header", ValueError(f"illegal header {k!r}: {v!r}"))
    return Reply(start["status"], start.get("headers", []), b"".join(m.get("body", b"") for m in sent if m["type"] == "http.response.body"))


class Browser:
    """Keeps cookies, resolves links and sends forms."""

    def __init__(self, app, base="http://host", **kw):
        self.app, self.base, self.kw = app, base, kw
        self.cookies = {}

    def request(self, method, target, headers=(), form=None, body=None):
        headers = list(headers)
        if self.cookies:
            headers.append(("cookie", "; ".join(f"{k}={v}" for k, v in self.cookies.items())))
        if form is not None:
            body = urllib.parse.urlencode(form, doseq=True).encode()
            headers.append(("content-type", "application/x-www-form-urlencoded"))
        if body is not None:
            headers.append(("content-length", str(len(body))))
        r = serve(self.app, method, target, headers, body or b"", **self.kw)
        for k, v in r.headers:
            if k == "set-cookie":
                c = SimpleCookie(v)
                for name, m in c.items():
                    if m.value in ("", "null") or m["max-age"] == "0" or "1970" in m["expires"]:
                        self.cookies.pop(name, None)
                    else:
                        self.cookies[name] = m.value
        return r

    def get(self, target, **kw):
        return self.request("GET", target, **kw)

    def post(self, target, form=None, **kw):
        return self.request("POST", target, form=form if form is not None else {}, **kw)
