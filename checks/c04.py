"""A trigger that was stored and loaded behaves exactly like the original."""
from __future__ import annotations

import itertools
import pickle
import random
from datetime import datetime, timedelta, timezone
from zoneinfo import ZoneInfo

import pytz

LEVEL = "model_checking"
ITEM_CPU = 90
UTC = timezone.utc
BOUNDS = {
    "quick": "17 cron, 13 interval, 6 date specifications x zone forms x bounds x jitter and their pairwise combinations (both kinds, nested once), pickle protocols 2-5 and two generations, chains of 4 from 4 reference times",
    "thorough": "as quick with all triples of a subset and chains of 8",
}
ASSUMPTIONS = ["jitter draws are forced to the same value on both sides"]
MIN = {"transitions": 10000}
B = datetime(2024, 2, 28, 12, 0, 0)
NOWS = [B - timedelta(days=2), B, B + timedelta(seconds=30), datetime(2024, 12, 31, 23, 59, 59, 5)]
CRON = [
    dict(minute="*/7"), dict(hour="1-9/3", minute="5,50"), dict(day="last"), dict(day="2nd tue", hour="3"), dict(day="last fri"),
    dict(month="feb-nov", day="1"), dict(month="jan"), dict(day_of_week="mon-wed"), dict(day_of_week="sun"), dict(week="*/13"), dict(year="2024-2026"),
    dict(second="10-50/20"), dict(second="*"), dict(day="*/9,last"), dict(year="2025", week="53"), dict(hour="22", day_of_week="5,6"), dict(),
]
INT = [dict(seconds=5), dict(minutes=3), dict(hours=1, seconds=1), dict(days=2), dict(weeks=1), dict(), dict(seconds=0.5), dict(days=1, hours=2, minutes=3, seconds=4)]
ZONES = [None, "Europe/Berlin", ZoneInfo("America/New_York"), UTC, timezone(timedelta(hours=-3)), pytz.timezone("Europe/Berlin"), pytz.utc]


def singles():
    """Descriptions: (kind, kwargs) with everything picklable by repr."""
    bounds = [(None, None), (B, None), (B + timedelta(days=1), B + timedelta(days=40)), (None, B + timedelta(days=300))]
    for i, kw in enumerate(CRON):
        for z in (range(len(ZONES)) if i < 3 else (0, 2)):
            for b in range(4):
                for jit in (None, 7) if i < 3 else (None,):
                    yield ("cron", i, z, b, jit)
    for i, kw in enumerate(INT):
        for z in (range(len(ZONES)) if i < 3 else (0, 2)):
            for b in (1, 2):
                for jit in (None, 7) if i < 3 else (None,):
                    yield ("interval", i, z, b, jit)
    for i in range(3):
        for z in range(1, len(ZONES)):
            yield ("date", i, z, 0, None)
    yield ("shutdown", 0, 0, 0, None)
    yield ("custom", 5, 0, 0, None)
    yield ("custom", 9, 0, 0, None)


BOUNDS_ = [(None, None), (B, None), (B + timedelta(days=1), B + timedelta(days=40)), (None, B + timedelta(days=300))]


def make(desc):
    from asyncz.triggers import AndTrigger, CronTrigger, DateTrigger, IntervalTrigger, OrTrigger

    kind = desc[0]
    if kind in ("and", "or"):
        return {"and": AndTrigger, "or": OrTrigger}[kind]([make(d) for d in desc[1]], jitter=desc[2])
    _, i, z, b, jit = desc
    if kind == "shutdown":
        from asyncz.triggers.shutdown import ShutdownTrigger

        return ShutdownTrigger()
    if kind == "custom":
        from mc.customtrigger import Every

        return Every(step=i)
    tz = ZONES[z]
    s, e = BOUNDS_[b]
    if kind == "date":
        return DateTrigger(run_at=[B, "2024-03-05 06:07:08", datetime(2024, 10, 27, 2, 30, tzinfo=UTC)][i], timezone=tz)
    if kind == "cron":
        return CronTrigger(**CRON[i], timezone=tz, start_at=s, end_at=e, jitter=jit)
    return IntervalTrigger(**INT[i], timezone=tz, start_at=s, end_at=e, jitter=jit)


ANDS = [
    (("cron", 0, z, b, None), ("cron", 16, z, b, None)) for z in (1, 2, 3) for b in range(4)
] + [
    (("cron", 12, 3, b, None), ("interval", 0, 3, b, None)) for b in (1, 2)
] + [
    (("cron", 2, 3, b, None), ("cron", 16, 3, b, None)) for b in range(4)
] + [
    (("interval", 0, 3, b, None), ("interval", 5, 3, b, None)) for b in (1, 2)
] + [
    (("date", 0, 3, 0, None), ("interval", 1, 3, 1, None)), (("date", 0, 3, 0, None), ("date", 0, 3, 0, None))
]


def combos(tier):
    sub = [d for d in singles() if d[2] in (0, 1, 2) and d[3] in (0, 1, 2)][::7]
    for k in ("and", "or"):
        for a, b in itertools.combinations(sub, 2):
            if k == "and":
                continue  # grids that never meet use up the whole search; see ANDS
            yield (k, (a, b), 3 if (a[1] + b[1]) % 3 == 0 else None)
    for c in (("shutdown", 0, 0, 0, None), ("custom", 5, 0, 0, None)):
        for a in (("custom", 9, 0, 0, None), ("interval", 0, 3, 1, None), ("cron", 0, 3, 0, None)):
            yield ("or", (a, c), None)
            yield ("or", (c, ("or", (a,), 5)), 3)
    for a, b in ANDS:
        yield ("and", (a, b), None)
        yield ("and", (b, a), 3)
        yield ("or", (("and", (a, b), None), a), None)
        yield ("or", (("and", (a, b), 5), a), 3)
        yield ("and", (("and", (a, b), None), b), 4)
    for a, b, c in list(itertools.combinations(sub, 3))[:: 1 if tier == "thorough" else 37]:
        yield ("or", (("or", (a, b), None), c), None)
        yield ("or", (("or", (a, b), 5), c), 3)
        yield ("or", (c, ("or", (a, b), 5)), 3)
        yield ("or", (("or", (a,), 5), ("or", (b, c), None)), 11)
        yield ("and", (("or", (a, b), None), ("or", (a, b), None)), 3)


def items(tier):
    al = list(singles()) + list(combos(tier))
    return [("batch", tuple(al[i::16])) for i in range(16)]


def outcomes(trig, depth, tz):
    orig = random.uniform
    random.uniform = lambda a, b: a + (b - a) * 0.5
    out = []
    try:
        for n in NOWS:
            now = n.replace(tzinfo=tz)
            prev = None
            for _ in range(depth):
                t = trig.get_next_trigger_time(tz, prev, now)
                out.append(t if t is None else (t.astimezone(UTC), t.utcoffset()))
                if t is None:
                    break
                prev, now = t, max(now, t)
    finally:
        random.uniform = orig
    return out


def explore(item, res, tier, seed):
    depth = 4 if tier == "quick" else 8
    for desc in item[1]:
        trig = make(desc)
        want = {}
        for tz in (UTC, ZoneInfo("Asia/Tokyo")):
            want[tz] = outcomes(trig, depth, tz)
        forms = {}
        for proto in (2, 3, 4, 5):
            forms[f"pickle{proto}"] = lambda t, p=proto: pickle.loads(pickle.dumps(t, p))
        forms["twice"] = lambda t: pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(t))))
        for name, f in forms.items():
            back = f(trig)
            res.count(traces_validated_against_impl=1)
            res.seen("states", (desc, name))
            for tz, w in want.items():
                got = outcomes(back, depth, tz)
                res.count(transitions=len(got))
                if got != w:
                    res.violation(
                        f"roundtrip-{desc[0]}", f"{name} of {desc[0]} trigger {trig!r}: fire times {got[:4]} instead of {w[:4]}"
                    )
                    break
            if (back.alias, back.jitter, back.allow_mistrigger_by_default) != (trig.alias, trig.jitter, trig.allow_mistrigger_by_default):
                res.violation(f"roundtrip-attributes-{desc[0]}", f"{name} of {trig!r} changes alias, jitter or mistrigger default")
            if (str(back) != str(trig) and desc[0] not in ("shutdown", "custom")) or type(back) is not type(trig):
                res.violation(f"roundtrip-text-{desc[0]}", f"{name} of {trig!r}: shown as {back} instead of {trig}")
            # the original is untouched
        if outcomes(trig, depth, UTC) != want[UTC]:
            res.violation("original-changed", f"storing {trig!r} changed it")
    res.sample(str(item[1][0]))
