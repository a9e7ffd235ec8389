"""Trigger combinations: or == earliest answer, and == earliest common instant, always terminating."""
from __future__ import annotations

import itertools
from functools import lru_cache
from datetime import datetime, timedelta, timezone

LEVEL = "model_checking"
ITEM_CPU = 90
UTC = timezone.utc
BOUNDS = {
    "quick": "all unordered pairs and selected triples of 16 trigger specifications, 6 reference times, chains of 4, nested one level; all pairs of 4 cron expressions in 5 zones (or the caller's) asked from 2 zones; jitter at forced and real draws",
    "thorough": "all pairs and all triples, chains of 8",
}
ASSUMPTIONS = ["children of an and combination lie on fixed grids (cron, date, interval with a start)"]
MIN = {"transitions": 3000}
B = datetime(2024, 2, 29, 0, 0, 0, tzinfo=UTC)
H = timedelta(hours=1)
# name -> (kind, kwargs, membership)
SPECS = {
    "cron-h6": ("cron", dict(hour="*/6")),
    "cron-m20": ("cron", dict(minute="*/20")),
    "cron-sun": ("cron", dict(day_of_week="sun")),
    "cron-last": ("cron", dict(day="last", hour="12")),
    "cron-feb": ("cron", dict(month="2", day="29")),
    "cron-end": ("cron", dict(hour="*/6", end_at=B + 20 * H)),
    "cron-m7": ("cron", dict(minute="7")),
    "cron-2024": ("cron", dict(year="2024", hour="0")),
    "int-4h": ("interval", dict(hours=4, start_at=B)),
    "int-90m": ("interval", dict(minutes=90, start_at=B + H)),
    "int-end": ("interval", dict(hours=4, start_at=B, end_at=B + 9 * H)),
    "int-7h": ("interval", dict(hours=7, start_at=B - 3 * H)),
    "int-odd": ("interval", dict(hours=2, start_at=B + timedelta(seconds=1))),
    "date-0": ("date", dict(run_at=B)),
    "date-6": ("date", dict(run_at=B + 6 * H)),
    "date-odd": ("date", dict(run_at=B + timedelta(minutes=11))),
}
NOWS = [B - timedelta(days=1), B - timedelta(microseconds=1), B, B + timedelta(seconds=1), B + 6 * H, B + 11 * H]


def make(name):
    from asyncz.triggers import CronTrigger, DateTrigger, IntervalTrigger

    kind, kw = SPECS[name]
    if kind == "date":
        return DateTrigger(timezone=UTC, **kw)
    return {"cron": CronTrigger, "interval": IntervalTrigger}[kind](timezone=UTC, **kw)


def fires(name, lo, hi):
    """Reference: all instants of the child's grid in [lo, hi]."""
    kind, kw = SPECS[name]
    out = []
    if kind == "date":
        return [kw["run_at"]] if lo <= kw["run_at"] <= hi else []
    end = kw.get("end_at")
    if end:
        hi = min(hi, end)
    if kind == "interval":
        iv = timedelta(**{k: v for k, v in kw.items() if k in ("hours", "minutes")})
        k = max(0, -((kw["start_at"] - lo) // iv))
        t = kw["start_at"] + k * iv
        while t <= hi:
            out.append(t)
            t += iv
        return out
    from mc.cronref import Ref

    ref = Ref({k: v for k, v in kw.items() if k != "end_at"})
    for w in ref.wall_after(ceil(lo).replace(tzinfo=None), (hi - lo).days + 1):
        t = w.replace(tzinfo=UTC)
        if t > hi:
            break
        out.append(t)
    return out


def ceil(t):
    return t if not t.microsecond else t.replace(microsecond=0) + timedelta(seconds=1)


def first_common(names, lo, horizon=timedelta(days=40)):
    sets = [set(fires(n, lo, lo + horizon)) for n in names]
    c = set.intersection(*sets)
    return min(c) if c else None


def items(tier):
    out = [("and", c) for c in itertools.combinations_with_replacement(SPECS, 2)]
    tr = list(itertools.combinations(SPECS, 3))
    out += [("and", c) for c in (tr if tier == "thorough" else tr[::9])]
    out += [("or", c) for c in itertools.combinations_with_replacement(SPECS, 2)]
    out += [("or", c) for c in (tr if tier == "thorough" else tr[::9])]
    out += [("nest", c) for c in (tr if tier == "thorough" else tr[::9])]
    return [("batch", out[i::40]) for i in range(40)] + [("batch", [("zones", ())]), ("batch", [("jitter", ())])]


# combinations whose grids never meet again within reach of the search
@lru_cache(None)
def hopeless(names):
    """The real search would use up all its iterations; asked for once only."""
    return first_common(names, NOWS[0], timedelta(days=800)) is None


ZONES = ("UTC", "Asia/Kolkata", "America/New_York", "Asia/Tokyo", None)
ZONED = (dict(hour="9"), dict(minute="30"), dict(hour="*/6", minute="0"), dict(day="last", hour="12"))


def zones(res):
    """Children in zones of their own, in none (the caller's), asked from other zones, with and without a reference time."""
    from zoneinfo import ZoneInfo

    from asyncz.triggers import AndTrigger, CronTrigger, OrTrigger

    from mc import clock
    from mc.cronref import Ref

    lo = datetime(2024, 1, 10, 0, 0, 1)

    @lru_cache(None)
    def instants(i, zone):
        tz = ZoneInfo(zone)
        return frozenset(w.replace(tzinfo=tz).astimezone(UTC) for w in Ref(ZONED[i]).wall_after(lo - timedelta(days=2), 36))

    kids = [(i, z) for i in range(len(ZONED)) for z in ZONES]
    for a, b in itertools.product(kids, repeat=2):
        for caller in ("UTC", "America/New_York"):
            made = lambda: [CronTrigger(**ZONED[i], timezone=z) for i, z in (a, b)]  # noqa: E731
            sets = [instants(i, z or caller) for i, z in (a, b)]
            for kind, fires_at in ((OrTrigger, sets[0] | sets[1]), (AndTrigger, sets[0] & sets[1])):
                if kind is AndTrigger and not fires_at:
                    continue
                trig = kind(made())
                now = lo.replace(tzinfo=UTC)
                want = sorted(t for t in fires_at if t >= now)[:3]
                prev, got = None, []
                for n in range(len(want)):
                    if n == 0:
                        clock.set_now(now)
                        t = trig.get_next_trigger_time(ZoneInfo(caller), None)
                        clock.off()
                        if t != trig.get_next_trigger_time(ZoneInfo(caller), None, now):
                            res.violation("no-reference", f"{kind.alias} of {ZONED[a[0]]} in {a[1]} and {ZONED[b[0]]} in {b[1]} without a reference time: got {t} at {now}")
                    else:
                        t = trig.get_next_trigger_time(ZoneInfo(caller), prev, prev)
                    res.count(transitions=1, traces_validated_against_impl=1)
                    got.append(t)
                    if t is None:
                        break
                    prev = t
                res.seen("states", ("zones", kind.alias, a, b, caller))
                if got != want:
                    res.violation("zones", f"{kind.alias} of {ZONED[a[0]]} in {a[1]} and {ZONED[b[0]]} in {b[1]}, asked from {caller}: {[str(t) for t in got]} instead of {[str(t) for t in want]}")


def jitter(res):
    """The jitter of a combination is added to what it would fire at without, up to its amount, and really drawn."""
    import random

    from asyncz.triggers import AndTrigger, OrTrigger

    for kind in (AndTrigger, OrTrigger):
        for names in itertools.combinations(("cron-h6", "int-4h", "cron-m20", "date-6"), 2):
            for jit in (1, 40):
                trig, plain = kind([make(n) for n in names], jitter=jit), kind([make(n) for n in names])
                for now in NOWS:
                    nominal = plain.get_next_trigger_time(UTC, None, now)
                    if nominal is None:
                        continue
                    span = timedelta(seconds=jit)
                    for u in (0.0, 0.5, 1.0):
                        orig = random.uniform
                        random.uniform = lambda a, b: a + (b - a) * u
                        try:
                            got = trig.get_next_trigger_time(UTC, None, now)
                        finally:
                            random.uniform = orig
                        if got is None or not nominal <= got <= nominal + span:
                            res.violation("jitter", f"{kind.alias}{names} jitter={jit} draw={u}: {got} instead of {nominal} up to {span} later")
                    drawn = {trig.get_next_trigger_time(UTC, None, now) for _ in range(6)}
                    res.count(transitions=9, traces_validated_against_impl=9)
                    res.seen("states", ("jitter", kind.alias, names, jit, now))
                    if drawn == {nominal}:
                        res.violation("jitter-none", f"{kind.alias}{names} jitter={jit}: no delay in 6 draws")


def explore(item, res, tier, seed):
    for sub in item[1]:
        one(sub, res, tier)


def one(item, res, tier):
    from asyncz.triggers import AndTrigger, OrTrigger

    kind, names = item
    if kind in ("zones", "jitter"):
        (zones if kind == "zones" else jitter)(res)
        return
    depth = 4 if tier == "quick" else 8
    dates = [n for n in names if SPECS[n][0] == "date"]

    def rec(*st):
        res.count(transitions=1, traces_validated_against_impl=1)
        res.seen("states", (kind, names, *st))

    if kind == "or":
        kids = [make(n) for n in names]
        trig = OrTrigger([make(n) for n in names])
        for now in NOWS:
            prev = None
            for d in range(depth):
                got = trig.get_next_trigger_time(UTC, prev, now)
                exp = [t for t in (k.get_next_trigger_time(UTC, prev, now) for k in kids) if t is not None]
                exp = min(exp) if exp else None
                rec(prev, now)
                res.seen("distinct_outcomes", got)
                if got != exp:
                    res.violation("or", f"or{names} previous={prev} now={now}: got {got}, its children's earliest is {exp}")
                    break
                if got is None:
                    break
                prev, now = got, max(now, got)
    elif kind == "and":
        trig = AndTrigger([make(n) for n in names])
        for now in NOWS[:1] if hopeless(names) else NOWS:
            got = trig.get_next_trigger_time(UTC, None, now)
            rec(None, now)
            res.seen("distinct_outcomes", got)
            # a date trigger offers its instant whatever the time is
            lo = min([now] + [SPECS[n][1]["run_at"] for n in dates])
            exp = first_common(names, now)
            late = first_common(names, lo) if dates else exp
            if got != exp and got != late:
                if got is not None and exp is None and all(got in fires(n, got, got) for n in names) and got > now + timedelta(days=40):
                    continue
                res.violation("and-first", f"and{names} now={now}: got {got}, earliest common instant is {exp}")
                continue
            # chain: every child is asked from the common instant on
            for d in range(depth):
                if got is None:
                    break
                prev = got
                got = trig.get_next_trigger_time(UTC, prev, prev)
                rec(prev, prev)
                exp = None if dates else first_common(names, prev + timedelta(microseconds=1))
                if got != exp:
                    if got is not None and exp is None and all(got in fires(n, got, got) for n in names) and got > prev + timedelta(days=40):
                        break
                    res.violation("and-next", f"and{names} previous={prev}: got {got}, earliest common later instant is {exp}")
                    break
    else:
        a, b, c = names
        for now in [] if hopeless((a, b)) else NOWS:
            t1 = OrTrigger([AndTrigger([make(a), make(b)]), make(c)])
            ref = [AndTrigger([make(a), make(b)]), make(c)]
            prev = None
            for d in range(depth):
                got = t1.get_next_trigger_time(UTC, prev, now)
                exp = [t for t in (k.get_next_trigger_time(UTC, prev, now) for k in ref) if t is not None]
                exp = min(exp) if exp else None
                rec("or-and", prev, now)
                if got != exp:
                    res.violation("nest-or", f"or(and({a},{b}),{c}) previous={prev} now={now}: got {got}, expected {exp}")
                    break
                if got is None:
                    break
                prev, now = got, max(now, got)
        if not dates and not hopeless((a, c)) and not hopeless((b, c)):
            for now in NOWS:
                t2 = AndTrigger([OrTrigger([make(a), make(b)]), make(c)])
                got = t2.get_next_trigger_time(UTC, None, now)
                rec("and-or", now)
                exp = [t for t in (first_common((a, c), now), first_common((b, c), now)) if t is not None]
                exp = min(exp) if exp else None
                if got != exp and not (exp is None and got is not None and got > now + timedelta(days=40)):
                    res.violation("nest-and", f"and(or({a},{b}),{c}) now={now}: got {got}, expected {exp}")
    res.sample({kind: names})
