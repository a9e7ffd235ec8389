"""Interval and date triggers against an arithmetic reference."""
from __future__ import annotations

import itertools
import random
import re
from datetime import datetime, timedelta, timezone
from fractions import Fraction
from zoneinfo import ZoneInfo

import pytz

from mc import clock

LEVEL = "model_checking"
ITEM_CPU = 90
UTC = timezone.utc
BOUNDS = {
    "quick": "14 intervals x 8 start offsets x 8 end offsets x 6 input forms (aware, naive, text, the zone of one bound for both) x 12 reference times x chains of 4; jitter at 4 forced draws; 3 DST zones x 2 tz libraries x 30 min raster over the offset changes; every text of 14 dates x 13 times x 10 fractions x 14 zones as instant, start and end",
    "thorough": "as quick with chains of 12 and a 5 min raster",
}
ASSUMPTIONS = [
    "in zones whose offset changes a step is the interval on the wall clock or in elapsed time (zoneinfo and pytz differ), exact everywhere else",
]
MIN = {"transitions": 20000}
INTERVALS = [
    dict(seconds=1), dict(seconds=7), dict(minutes=1), dict(minutes=90), dict(hours=1), dict(hours=25), dict(days=1), dict(weeks=1),
    dict(days=1, hours=1, minutes=1, seconds=1), dict(), dict(weeks=2, days=3), dict(seconds=3600), dict(seconds=59, minutes=59), dict(seconds=0.25),
]
S = timedelta(seconds=1)
BASE = datetime(2024, 2, 28, 23, 59, 0)
CALLERS = [UTC, ZoneInfo("America/New_York"), ZoneInfo("Asia/Tokyo")]


def items(tier):
    return [("grid", i) for i in range(len(INTERVALS))] + [("date",), ("default",), ("texts",)] + [
        ("dst", z, lib) for z in ("Europe/Berlin", "America/New_York", "Australia/Lord_Howe") for lib in ("zoneinfo", "pytz")
    ]


def loc(tz, naive):
    return tz.localize(naive) if hasattr(tz, "localize") else naive.replace(tzinfo=tz)


def check(res, trig, kw, tz, prev, now, start, iv, end, jit=None, u=0.0):
    if jit:
        orig = random.uniform
        random.uniform = lambda a, b: a + (b - a) * u
        try:
            got = trig.get_next_trigger_time(tz, prev, now)
        finally:
            random.uniform = orig
    else:
        got = trig.get_next_trigger_time(tz, prev, now)
    if now is None:
        now = datetime.now(UTC)
    if prev is not None:
        exp = prev + iv
    elif start >= now:
        exp = start
    else:
        k = 0
        exp = start + (now - start) // iv * iv
        if exp < now:
            exp += iv
    lo = hi = exp
    if jit:
        hi = exp + timedelta(seconds=jit)
    res.count(transitions=1, traces_validated_against_impl=1)
    res.seen("states", (str(kw), str(tz), prev, now, start, end, jit, u))
    if end is not None and exp > end:
        ok = got is None
    elif jit and end is not None and hi > end and got is None:
        ok = True
    else:
        ok = got is not None and lo <= got <= hi and (end is None or got <= end)
    if not ok:
        res.violation(
            "interval-next" + ("-jitter" if jit else "-chain" if prev else "-first"),
            f"interval {kw} start_at={start} end_at={end} jitter={jit} previous={prev} now={now} tz={tz}: got {got}, expected {exp}",
        )
        return None
    return got


def spread(res, trig, kw, jit):
    """Real draws: within the range, and not all without a delay."""
    now = loc(UTC, BASE)
    got = {trig.get_next_trigger_time(UTC, None, now) - now for _ in range(8)}
    res.count(transitions=8, traces_validated_against_impl=1)
    if not all(timedelta(0) <= d <= timedelta(seconds=jit) for d in got):
        res.violation("interval-jitter-range", f"interval {kw} jitter={jit}: delays of {sorted(map(str, got))}")
    if got == {timedelta(0)}:
        res.violation("interval-jitter-none", f"interval {kw} jitter={jit}: no delay in 8 draws")


DATES = ("2030-01-31", "2030-1-31", "2030-02-29", "2028-2-29", "2030-2-9", "2030-13-1", "2030-0-10", "2030-4-31", "2030-10-00", "30-1-1", "2030/1/1", "20300101", "1970-01-02", "2199-12-31")
TIMES = ("", " 00:00:00", "T0:0:0", " 23:59:59", "T05:06:07", " 5:6:7", " 24:00:00", "T12:60:00", "T12:00:60", " 12:00", "T12", "  12:00:00", "t12:00:00")
FRACTIONS = ("", ".5", ".05", ".123", ".000001", ".123456", ".50", ".1234567", ".", ",5")
ZONES = ("", "Z", "+00:00", "+05:30", "-03:30", "+14:00", "-00:30", "+23:59", "-24:00", "+5:30", "+0530", "z", " Z", "+05")


def texts(res):
    """A date given as a text is the instant it says, or refused."""
    from asyncz.triggers import DateTrigger, IntervalTrigger

    pattern = re.compile(r"(\d{4})-(\d{1,2})-(\d{1,2})(?:[ T](\d{1,2}):(\d{1,2}):(\d{1,2})(?:\.(\d{1,6}))?(?:Z|([+-])(\d\d):(\d\d))?)?")
    for zone in (ZoneInfo("Asia/Kolkata"), pytz.timezone("Asia/Kolkata"), "Asia/Kolkata", UTC):
        tz = ZoneInfo("Asia/Kolkata") if zone is not UTC else UTC
        for parts in itertools.product(DATES, TIMES, FRACTIONS, ZONES):
            if not parts[1] and any(parts[2:]):
                continue
            text = "".join(parts)
            must, want = False, None
            m = pattern.fullmatch(text)
            if m:
                *fields, fraction, sign, hours, minutes = m.groups()
                try:
                    want = datetime(*[int(f or 0) for f in fields], int(1000000 * Fraction("0." + fraction)) if fraction else 0)
                    off = UTC if text.endswith("Z") else timezone((1 if sign == "+" else -1) * timedelta(hours=int(hours), minutes=int(minutes))) if sign else tz
                    want, must = want.replace(tzinfo=off), True
                except ValueError:
                    want = None
            else:
                try:
                    want = datetime.fromisoformat(text)
                    want = want if want.tzinfo else want.replace(tzinfo=tz)
                except ValueError:
                    want = None
            for how in ("run_at", "start_at", "end_at"):
                if how == "run_at":
                    make = lambda: DateTrigger(run_at=text, timezone=zone).run_at  # noqa: E731,B023
                else:
                    make = lambda: getattr(IntervalTrigger(hours=1, **{"start_at": "1960-01-02", how: text}, timezone=zone), how)  # noqa: E731,B023
                try:
                    got = make()
                except Exception as e:
                    got = e
                res.count(transitions=1, traces_validated_against_impl=1)
                ok = not must if isinstance(got, Exception) else want is not None and got.utcoffset() is not None and got == want
                if not ok:
                    res.violation("date-text", f"{how}={text!r} in {zone}: got {got!r}, expected {want or 'a refusal'}")
        res.seen("states", ("texts", str(zone), type(zone).__name__))
    res.sample({"texts": len(DATES) * len(TIMES) * len(FRACTIONS) * len(ZONES)})


def explore(item, res, tier, seed):
    if item[0] == "texts":
        return texts(res)
    from asyncz.triggers import DateTrigger, IntervalTrigger

    depth = 4 if tier == "quick" else 12
    if item[0] == "grid":
        kw = INTERVALS[item[1]]
        iv = timedelta(**kw) or S
        offs = [timedelta(0), S, -S, timedelta(microseconds=1), iv, iv * 3, iv * 3 + timedelta(microseconds=1), iv * 3 - timedelta(microseconds=1)]
        for tz in (UTC, ZoneInfo("Asia/Kolkata"), pytz.timezone("Asia/Kolkata")):
            for so in offs:
                start = loc(tz, BASE + so)
                for eo in [None, *offs]:
                    end = None if eo is None else loc(tz, BASE + eo + iv)
                    forms = [(start, end), (start.replace(tzinfo=None), end and end.replace(tzinfo=None))]
                    fmt = "%Y-%m-%d %H:%M:%S.%f"
                    forms.append((start.strftime(fmt), end and end.strftime(fmt)))
                    zargs = [tz, tz, tz]
                    if end is not None:
                        # the zone of one bound holds for the other one
                        forms += [(start, forms[1][1]), (forms[1][0], end), (start, forms[2][1])]
                        zargs += [None, None, None]
                    for fi, (s_arg, e_arg) in enumerate(forms):
                        trig = IntervalTrigger(**kw, start_at=s_arg, end_at=e_arg, timezone=zargs[fi])
                        for no in [-iv, timedelta(0), S, -S, timedelta(microseconds=1), iv, iv * 2, iv * 2 + S, iv * 2 - timedelta(microseconds=1), iv * 1000, iv * 4, iv * 5]:
                            # the caller's zone differs from the trigger's own
                            now = loc(tz, BASE + no)
                            for nowz in (now, now.astimezone(UTC)) if fi == 0 else (now,):
                                got = check(res, trig, kw, CALLERS[fi % 3], None, nowz, start, iv, end)
                                for _ in range(depth):
                                    if got is None:
                                        break
                                    got = check(res, trig, kw, CALLERS[(fi + 1) % 3], got, max(got, nowz), start, iv, end)
                    # asked without a reference time: at the current one
                    clock.set_now((start + iv * 2 + S).astimezone(UTC))
                    check(res, trig, kw, UTC, None, None, start, iv, end)
                    clock.off()
        for jit in (1, 5):
            spread(res, IntervalTrigger(**kw, start_at=loc(UTC, BASE), timezone=UTC, jitter=jit), kw, jit)
            for u in (0.0, 0.25, 0.999999, 1.0):
                for eo in (None, iv * 3, timedelta(seconds=2)):
                    end = None if eo is None else loc(UTC, BASE + eo)
                    trig = IntervalTrigger(**kw, start_at=loc(UTC, BASE), end_at=end, timezone=UTC, jitter=jit)
                    now = loc(UTC, BASE)
                    got = check(res, trig, kw, UTC, None, now, now, iv, end, jit, u)
                    for _ in range(depth):
                        if got is None:
                            break
                        got = check(res, trig, kw, UTC, got, got, now, iv, end, jit, u)
        res.sample({"interval": kw})
        return
    if item[0] == "default":
        # no start bound: counted from the time of creation
        for host in ("UTC",):
            for kw in INTERVALS:
                iv = timedelta(**kw) or S
                for tzarg in (None, "UTC", "Asia/Kolkata", ZoneInfo("Europe/Berlin")):
                    for t in (datetime(2024, 7, 1, 12, 0, 0, 5, tzinfo=UTC), datetime(2024, 12, 31, 23, 59, 59, tzinfo=UTC)):
                        clock.set_now(t)
                        trig = IntervalTrigger(**kw, timezone=tzarg)
                        for caller in (UTC, ZoneInfo("America/New_York")):
                            got = check(res, trig, kw, caller, None, t.astimezone(caller), t + iv, iv, None)
                            if got is not None and tzarg in (None, "UTC"):
                                check(res, trig, kw, UTC, got, got, t + iv, iv, None)
                clock.off()
        return
    if item[0] == "date":
        for tz in (UTC, ZoneInfo("Europe/Berlin"), pytz.timezone("Europe/Berlin"), ZoneInfo("Asia/Kolkata")):
            for b in (BASE, datetime(2024, 7, 1, 0, 0), datetime(2024, 2, 29, 5, 6, 7, 250000), datetime(2030, 1, 1)):
                at = loc(tz, b)
                fmt = "%Y-%m-%d %H:%M:%S.%f"
                for arg in (at, b, b.strftime(fmt), at.astimezone(UTC).strftime(fmt) + "Z", at.astimezone(UTC).strftime(fmt) + "+00:00"):
                    trig = DateTrigger(run_at=arg, timezone=tz)
                    for caller in (UTC, ZoneInfo("America/New_York")):
                        for no in (-timedelta(days=1), timedelta(0), timedelta(microseconds=1), timedelta(days=400)):
                            now = (at + no).astimezone(caller)
                            res.count(transitions=2, traces_validated_against_impl=1)
                            res.seen("states", (str(tz), b, str(arg), str(caller), no))
                            got = trig.get_next_trigger_time(caller, None, now)
                            if got != at:
                                res.violation("date-first", f"date {arg!r} in {tz}: got {got}, expected {at}")
                            elif trig.get_next_trigger_time(caller, got, now) is not None:
                                res.violation("date-again", f"date {arg!r} in {tz}: fires a second time")
        for t in (datetime(2024, 7, 1, 12, 0, 0, 5, tzinfo=UTC),):
            clock.set_now(t)
            for tzarg in (None, "UTC", "Asia/Kolkata"):
                got = DateTrigger(timezone=tzarg).get_next_trigger_time(UTC, None, t)
                res.count(transitions=1, traces_validated_against_impl=1)
                res.seen("states", ("now", str(tzarg)))
                if got != t:
                    res.violation("date-now", f"date trigger without run_at in {tzarg}: got {got} at {t}")
            clock.off()
        return
    _, name, lib = item
    from checks.c01 import transitions

    tz = ZoneInfo(name) if lib == "zoneinfo" else pytz.timezone(name)
    zi = ZoneInfo(name)
    step = timedelta(minutes=30 if tier == "quick" else 5)
    for t, _before, _after in transitions(name):
        points = []
        k = -timedelta(hours=4)
        while k <= timedelta(hours=4):
            points.append(t + k)
            k += step
        points.append(t + timedelta(days=1, minutes=30))
        for kw in (dict(hours=1), dict(minutes=30), dict(days=1), dict(weeks=1), dict(minutes=45), dict(hours=2)):
            iv = timedelta(**kw)
            for so in (timedelta(days=-20, minutes=-30), timedelta(days=-2), -timedelta(hours=2), timedelta(hours=3), timedelta(0)):
                start = (t + so).astimezone(tz)
                if lib == "zoneinfo" and start.astimezone(UTC) != t + so:
                    continue
                trig = IntervalTrigger(**kw, start_at=start, timezone=tz)
                for p in points:
                    for now in (p.astimezone(tz), p):
                        got = trig.get_next_trigger_time(UTC, None, now)
                        res.count(transitions=1, traces_validated_against_impl=1)
                        res.seen("states", (name, lib, str(kw), so, now, str(now.tzinfo)))
                        g = got.astimezone(UTC)
                        if g < p or g < start.astimezone(UTC):
                            res.violation("interval-dst-past", f"interval {kw} start_at={start} now={now}: got {got}, in the past")
                            continue
                        for _ in range(depth):
                            prev = got
                            got = trig.get_next_trigger_time(UTC, prev, prev)
                            res.count(transitions=1)
                            el = got.astimezone(UTC) - prev.astimezone(UTC)
                            wall = got.astimezone(zi).replace(tzinfo=None) - prev.astimezone(zi).replace(tzinfo=None)
                            slack = abs(_after - _before)
                            if el <= timedelta(0) or (el != iv and wall != iv and not (near(prev, t, iv) and abs(el - iv) <= slack)):
                                res.violation(
                                    "interval-dst-step", f"interval {kw} in {name}/{lib}: {prev} -> {got} is neither {iv} elapsed nor on the wall clock"
                                )
                                break


def near(prev, t, iv):
    return abs(prev.astimezone(UTC) - t) <= iv + timedelta(hours=2)
