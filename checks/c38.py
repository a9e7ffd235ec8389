"""With blocks and wrapped ASGI applications: the scheduler runs exactly while one of them is open."""
from __future__ import annotations

import asyncio
import itertools
import threading
from datetime import datetime, timedelta, timezone

from mc import clock, targets

LEVEL = "model_checking"
ITEM_CPU = 700
UTC = timezone.utc
T = datetime(2030, 1, 1, 12, 0, tzinfo=UTC)
KINDS = ("with", "async with", "call", "forward", "handle", "decorated", "nested")
BOUNDS = {
    "quick": "all ways to open and close up to 3 of 7 kinds of scopes (with, async with, start and shutdown, three ways to wrap an ASGI application, an application wrapped twice) in any overlapping order, each ended normally or by an exception, on both asyncio schedulers; applications of 12 behaviours in 3 wrappings x lifespans of 1 to 3 rounds x failing starts and shutdowns; 60 requests of other scopes; 40 with blocks in threads without a loop",
    "thorough": "up to 4 scopes",
}
ASSUMPTIONS = ["the lifespan protocol itself is that of the monkay package", "the scheduler without native coroutines shuts down asynchronously: it is given its turn of the loop"]
MIN = {"words": 3000, "lifespans": 300, "requests": 50}


class Boom(Exception):
    pass


class Server:
    """The server's side of one lifespan."""

    def __init__(self, app, state=None):
        self.inbox = asyncio.Queue()
        self.sent = []
        self.event = asyncio.Event()
        self.scope = {"type": "lifespan", "asgi": {"version": "3.0"}, "state": {}}
        self.app = app

        async def send(m):
            self.sent.append(m)
            self.event.set()

        self.send = send

    async def say(self, kind):
        """Sends one message and waits for its answer or the end of the application."""
        self.event.clear()
        self.inbox.put_nowait({"type": "lifespan." + kind})
        if kind == "startup":
            self.task = asyncio.ensure_future(self.app(self.scope, self.inbox.get, self.send))
        waiter = asyncio.ensure_future(self.event.wait())
        await asyncio.wait([self.task, waiter], return_when=asyncio.FIRST_COMPLETED)
        waiter.cancel()
        return [m["type"] for m in self.sent]

    async def end(self):
        await asyncio.wait([self.task], timeout=5)
        return self.task.exception() if self.task.done() and not self.task.cancelled() else None


def plain_app(log):
    async def app(scope, receive, send):
        log.append(("scope", scope["type"]))
        if scope["type"] != "lifespan":
            return
        while True:
            m = await receive()
            log.append(m["type"])
            await send({"type": m["type"] + ".complete"})
            if m["type"] == "lifespan.shutdown":
                return

    return app


def wrap(s, kind, app, **kw):
    if kind == "forward":
        return s.asgi(app, **kw)
    if kind == "handle":
        return s.asgi(app, handle_lifespan=True, **kw)
    if kind == "decorated":
        return s.asgi(**kw)(app) if not hasattr(s.asgi, "app") else s.asgi(None, **kw)(app)
    if kind == "nested":
        return s.asgi(s.asgi(app, **kw), **kw)
    raise AssertionError(kind)


async def maybe(v):
    return await v if asyncio.iscoroutine(v) or asyncio.isfuture(v) else v


async def settle():
    for _ in range(8):
        await asyncio.sleep(0)


class Scope:
    """One thing which keeps the scheduler running."""

    def __init__(self, s, kind, log):
        self.s, self.kind, self.log = s, kind, log

    async def open(self):
        s = self.s
        if self.kind == "with":
            return s.__enter__() is s
        if self.kind == "async with":
            return await s.__aenter__() is s
        if self.kind == "call":
            await maybe(s.start())
            return True
        self.server = Server(wrap(s, self.kind, plain_app(self.log)))
        return await self.server.say("startup") == ["lifespan.startup.complete"]

    async def close(self, failing):
        s = self.s
        if self.kind in ("with", "async with"):
            e = Boom() if failing else None
            args = (Boom, e, None) if failing else (None, None, None)
            got = s.__exit__(*args) if self.kind == "with" else await s.__aexit__(*args)
            return not got  # exceptions are not swallowed
        if self.kind == "call":
            await maybe(s.shutdown())
            return True
        sent = await self.server.say("shutdown")
        return sent[-1:] == ["lifespan.shutdown.complete"] and await self.server.end() is None


def new(cls, name, log, **kw):
    from asyncz.executors.debug import DebugExecutor

    s = cls(timezone=UTC, executors={"default": DebugExecutor()}, **kw)
    s.add_listener(lambda e: log.append(("event", int(e.code))))
    return s


def orders(n):
    """All orders of opening 0..n-1 and closing each later."""
    def rec(opened, open_, word):
        if opened == n and not open_:
            yield word
            return
        if opened < n:
            yield from rec(opened + 1, open_ + (opened,), word + (("o", opened),))
        for i in open_:
            yield from rec(opened, tuple(x for x in open_ if x != i), word + (("c", i),))

    yield from rec(0, (), ())


def scopes(res, tier, clsname, first):
    from asyncz.events.constants import SCHEDULER_SHUTDOWN, SCHEDULER_START
    from asyncz import schedulers

    cls = getattr(schedulers, clsname)
    kinds = [k for k in KINDS if k != "with" or clsname == "AsyncIOScheduler"]
    depth = 4 if tier == "thorough" else 3

    async def one(combo, word, failing):
        log, ran = [], []
        s = new(cls, clsname, log)
        clock.set_now(T)
        s.add_task(lambda: ran.append("tick"), "interval", seconds=10, id="t", next_run_time=T)

        def bye():
            ran.append("bye")

        objs = {i: Scope(s, k, log) for i, k in enumerate(combo)}
        n, starts = 0, 0
        s.add_task(bye, "shutdown", id="bye")
        for op, i in word:
            if op == "o":
                ok = await objs[i].open()
                n += 1
                starts += n == 1
                if n == 1:
                    if s.get_task("bye") is None:
                        s.add_task(bye, "shutdown", id="bye")
            else:
                ok = await objs[i].close(failing)
                n -= 1
            await settle()
            res.count(transitions=1)
            if not ok:
                res.violation(f"{'open' if op == 'o' else 'close'}:{objs[i].kind}:{clsname}", "a scope does not open or close as it should", combo=combo, word=word, failing=failing, sent=getattr(getattr(objs[i], "server", None), "sent", None))
                return
            events = [c for k, c in [x for x in log if isinstance(x, tuple) and x[0] == "event"]]
            seen = (s.running, events.count(int(SCHEDULER_START)), events.count(int(SCHEDULER_SHUTDOWN)), ran.count("bye"), "tick" in ran)
            exp = (n > 0, starts, starts - (n > 0), starts - (n > 0), True)
            res.seen("states", repr((n, seen)))
            if seen != exp:
                res.violation(f"running:{op}:{objs[i].kind}:{clsname}", "the scheduler does not run exactly while a scope is open", combo=combo, word=word, at=(op, i), got=seen, expected=exp)
                return
        # closed: nothing is processed anymore
        k = len(ran)
        clock.set_now(T + timedelta(minutes=5))
        await settle()
        if len(ran) != k:
            res.violation("after", "tasks run after the last scope", combo=combo, word=word)
        try:
            await maybe(s.shutdown())
        except Exception:
            pass
        else:
            res.violation("below", "a scheduler can be shut down once more than it was started", combo=combo, word=word)

    async def all_():
        for d in range(1, depth + 1):
            for combo in itertools.product(kinds, repeat=d):
                if combo[0] != first:
                    continue
                for word in orders(d):
                    for failing in (False, True):
                        if failing and not set(combo) & {"with", "async with"}:
                            continue
                        await one(combo, word, failing)
                        res.count(traces_validated_against_impl=1, words=1)

    asyncio.run(all_())
    res.sample({"class": clsname, "first": first})


# ---------------------------------------------------------------- applications
async def app_raises(log, receive, send):
    raise Boom("no lifespan")


def behaviours():
    def conv(start="complete", stop="complete", raise_at=None, extra=0):
        def make(log):
            async def app(scope, receive, send):
                if raise_at == "scope":
                    raise Boom("scope")
                while True:
                    m = await receive()
                    kind = m["type"].split(".")[1]
                    log.append((m["type"], m))
                    if raise_at == kind:
                        raise Boom(kind)
                    how = start if kind == "startup" else stop
                    await send({"type": f"lifespan.{kind}.{how}", **({"message": "because"} if how == "failed" else {})})
                    if kind == "shutdown" or how == "failed":
                        return

            return app

        return make

    return {
        "plain": conv(), "start-failed": conv(start="failed"), "stop-failed": conv(stop="failed"), "raises": conv(raise_at="scope"), "raises-start": conv(raise_at="startup"), "raises-stop": conv(raise_at="shutdown"),
    }


def failing_store():
    from asyncz.stores.memory import MemoryStore

    class Failing(MemoryStore):
        def start(self, scheduler, alias):
            raise Boom("cannot start")

    return Failing()


def noting_executor(waits):
    from asyncz.executors.debug import DebugExecutor

    class Noting(DebugExecutor):
        def shutdown(self, wait=True):
            waits.append(wait)

    return Noting()


def applications(res, clsname):
    """Every application behaviour in every wrapping: what server and application see."""
    from asyncz import schedulers

    cls = getattr(schedulers, clsname)

    async def bare(app, rounds):
        out = []
        for _ in range(rounds):
            sv = Server(app)
            got = [list(await sv.say("startup"))]
            if not sv.task.done() and sv.sent and sv.sent[-1]["type"].endswith("startup.complete"):
                got.append(list(await sv.say("shutdown")))
            e = await sv.end()
            out.append((got, [dict(m) for m in sv.sent], type(e).__name__ if e else None))
        return out

    async def run():
        for name, mk in behaviours().items():
            for rounds in (1, 2, 3):
                ref_log = []
                ref = await bare(mk(ref_log), rounds)
                for kind in ("forward", "handle", "decorated", "nested"):
                    log = []
                    slog = []
                    s = new(cls, clsname, slog)
                    app = wrap(s, kind, mk(log))
                    seen = []

                    got = []
                    for _ in range(rounds):
                        sv = Server(app)
                        a = [list(await sv.say("startup"))]
                        await settle()
                        up = s.running
                        if not sv.task.done() and sv.sent and sv.sent[-1]["type"].endswith("startup.complete"):
                            a.append(list(await sv.say("shutdown")))
                            await settle()
                        e = await sv.end()
                        await settle()
                        got.append((a, [dict(m) for m in sv.sent], type(e).__name__ if e else None))
                        seen.append((up, s.running))
                        started_ok = len(a) == 2
                        if not started_ok and s.running:
                            # the application failed on its own: whoever started has to stop
                            while s.running:
                                await maybe(s.shutdown())
                                await settle()
                    res.count(lifespans=rounds, transitions=rounds)
                    res.seen("states", repr((kind, name, seen)))
                    if kind == "handle":
                        exp = [([["lifespan.startup.complete"], ["lifespan.startup.complete", "lifespan.shutdown.complete"]], [{"type": "lifespan.startup.complete"}, {"type": "lifespan.shutdown.complete"}], None)] * rounds
                        exp_log = []
                    else:
                        exp, exp_log = ref, ref_log
                    if got != exp or [x[0] for x in log] != [x[0] for x in exp_log] or [x[1] for x in log] != [x[1] for x in exp_log]:
                        res.violation(f"application:{kind}:{name}", "a wrapped application or its server see other messages than without the wrapper", kind=kind, app=name, got=got, expected=exp, app_saw=log, app_expected=exp_log)
                    for (up, down), (a, _, _) in zip(seen, got):
                        if len(a) == 2 and (not up or down):
                            res.violation(f"lifespan:{kind}:{name}", "the scheduler does not run exactly between startup and shutdown", seen=seen)
        # a scheduler which cannot start or stop is told as failed
        for kind in ("forward", "handle", "decorated", "nested"):
            for fail in ("start", "shutdown"):
                for wait in (False, True):
                    log, slog = [], []
                    s = new(cls, clsname, slog)
                    waits = []
                    orig = s.shutdown
                    if fail == "start":
                        s.add_store(failing_store(), "broken")
                    else:
                        def bad2(wait=True):
                            waits.append(wait)
                            raise Boom("cannot stop")

                        s.shutdown = bad2
                    sv = Server(wrap(s, kind, behaviours()["plain"](log), wait=wait))
                    a = list(await sv.say("startup"))
                    up = s.running
                    b = []
                    if a == ["lifespan.startup.complete"]:
                        b = list(await sv.say("shutdown"))
                    e = await sv.end()
                    res.count(traces_validated_against_impl=1, lifespans=1, transitions=1)
                    if fail == "start":
                        ok = a[:1] == ["lifespan.startup.failed"] and not up and "cannot start" in str(sv.sent[0]) and not log and s.ref_counter == 0
                    else:
                        ok = up and b[-1:] == ["lifespan.shutdown.failed"] and "cannot stop" in str(sv.sent[-1]) and set(waits) == {wait}
                    if not ok or e is not None:
                        res.violation(f"failing-{fail}:{kind}", "a failing start or shutdown of the scheduler is not told to the server", kind=kind, wait=wait, sent=sv.sent, app_saw=log, waits=waits, error=repr(e))
                    s.shutdown = orig
                    if s.running:
                        while s.running:
                            await maybe(s.shutdown())
                            await settle()
        # wait goes to the shutdown
        for kind in ("forward", "handle", "decorated", "nested"):
            for kw, exp in (({}, False), ({"wait": True}, True), ({"wait": False}, False)):
                s = new(cls, clsname, [])
                waits = []
                s.add_executor(noting_executor(waits), "noting")
                sv = Server(wrap(s, kind, behaviours()["plain"]([]), **kw))
                await sv.say("startup")
                await sv.say("shutdown")
                await settle()
                res.count(traces_validated_against_impl=1, lifespans=1)
                if waits != [exp]:
                    res.violation(f"wait:{kind}", "wait is not passed on to the shutdown", given=kw, got=waits)

    asyncio.run(run())
    res.sample({"class": clsname})


def requests(res, clsname):
    """Everything but lifespans passes through untouched and starts nothing."""
    from asyncz import schedulers

    cls = getattr(schedulers, clsname)

    async def run():
        for kind in ("forward", "handle", "decorated", "nested"):
            for typ in ("http", "websocket", "other"):
                for raising in (False, True):
                    for when in ("before", "during", "after"):
                        got = []
                        value = object()

                        async def app(scope, receive, send):
                            if scope["type"] == "lifespan":
                                while True:
                                    m = await receive()
                                    await send({"type": m["type"] + ".complete"})
                                    if m["type"] == "lifespan.shutdown":
                                        return
                            got.append((scope, receive, send))
                            if raising:
                                raise Boom("x")
                            await send(value)

                        app.extra = "attribute"
                        s = new(cls, clsname, [])
                        w = wrap(s, kind, app)
                        sv = Server(w)
                        if when != "before":
                            await sv.say("startup")
                        if when == "after":
                            await sv.say("shutdown")
                            await settle()
                        sent = []

                        async def receive():
                            return {}

                        async def send(m):
                            sent.append(m)

                        scope = {"type": typ, "path": "/x"}
                        was = s.running
                        err = None
                        try:
                            await w(scope, receive, send)
                        except Boom as e:
                            err = e
                        await settle()
                        res.count(traces_validated_against_impl=1, requests=1, transitions=1)
                        res.seen("states", (kind, typ, raising, when, s.running))
                        if len(got) != 1 or got[0][0] is not scope or got[0][1] is not receive or got[0][2] is not send or scope != {"type": typ, "path": "/x"}:
                            res.violation(f"request:{kind}", "a wrapped application gets another request than the one made", kind=kind, type=typ, got=repr(got))
                        if (err is not None) != raising or not raising and (len(sent) != 1 or sent[0] is not value):
                            res.violation(f"answer:{kind}", "what the application answers or raises does not get through", kind=kind, type=typ, raising=raising, sent=repr(sent), error=repr(err))
                        if s.running != was or was != (when == "during"):
                            res.violation(f"request-starts:{kind}", "a request starts or stops the scheduler", kind=kind, type=typ, when=when, was=was, now=s.running)
                        if when == "during":
                            await sv.say("shutdown")
                            await settle()

    asyncio.run(run())


# ---------------------------------------------------------------- without a loop
def threads(res):
    """With blocks in plain programs: nested, repeated, ended by exceptions."""
    from asyncz.schedulers import AsyncIOScheduler, NativeAsyncIOScheduler

    import logging

    logging.lastResort = None

    def stopped(s, thread):
        if thread is not None:
            thread.join(20)
        return not s.running

    for isolated, depth, raising, rounds in itertools.product((False, True), (1, 2, 3), (False, True), (1, 2)):
        ran = []
        s = AsyncIOScheduler(timezone=UTC, isolated_event_loop=isolated)
        for r in range(rounds):
            ev = threading.Event()
            s.add_task(ev.set, "date", id=f"t{r}", next_run_time=datetime(2000, 1, 1, tzinfo=UTC), mistrigger_grace_time=None)
            s.add_task(lambda: ran.append("bye"), "shutdown", id="bye")
            thread, inner = None, []
            try:
                import contextlib

                with contextlib.ExitStack() as st:
                    for _ in range(depth):
                        if st.enter_context(s) is not s:
                            res.violation("entered", "a with block does not give the scheduler")
                    thread = s.event_loop_thread
                    if not ev.wait(20):
                        res.violation("due", "a due task does not run within a with block", isolated=isolated, depth=depth)
                    if raising:
                        raise Boom()
            except Boom:
                inner.append("boom")
            if raising != bool(inner):
                res.violation("swallowed", "a with block swallows or raises an exception", raising=raising)
            ok = stopped(s, thread)
            res.count(traces_validated_against_impl=1, words=1, transitions=depth * 2)
            res.seen("states", (isolated, depth, raising, r, ok, len(ran)))
            if not ok or s.ref_counter != 0:
                res.violation("left-running", "a scheduler still runs after its with blocks", isolated=isolated, depth=depth, raising=raising, running=s.running, count=s.ref_counter)
            if ran.count("bye") != r + 1:
                res.violation("bye", "a shutdown task does not run exactly once at the end of the with blocks", ran=ran, round=r)
    # the native scheduler cannot be used without a loop
    s = NativeAsyncIOScheduler(timezone=UTC)
    import warnings

    for use in ("enter", "exit"):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                s.__enter__() if use == "enter" else s.__exit__(None, None, None)
            except RuntimeError:
                pass
            else:
                res.violation("native-with", "the native scheduler can be used in a with block")
        res.count(traces_validated_against_impl=1, words=1)
        if s.running or s.ref_counter:
            res.violation("native-started", "a refused with block starts the scheduler")


def items(tier):
    out = []
    for c in ("AsyncIOScheduler", "NativeAsyncIOScheduler"):
        out += [("scopes", (c, k)) for k in KINDS if k != "with" or c == "AsyncIOScheduler"]
        out += [("applications", c), ("requests", c)]
    return out + [("threads", 0)]


def explore(item, res, tier, seed):
    kind, arg = item
    if kind == "threads":
        return threads(res)
    clock.set_now(T)
    try:
        if kind == "scopes":
            scopes(res, tier, *arg)
        elif kind == "applications":
            applications(res, arg)
        else:
            requests(res, arg)
    finally:
        clock.off()
