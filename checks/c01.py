"""Cron triggers: next fire time == earliest matching instant (all chains of a bounded alphabet)."""
from __future__ import annotations

import itertools
from datetime import datetime, timedelta, timezone
from functools import lru_cache
from zoneinfo import ZoneInfo

import pytz

from mc import clock, cronref
from mc.cronref import NAMES, Ref

LEVEL = "model_checking"
ITEM_CPU = 90
BOUNDS = {
    "quick": "every single field expression and every pair of fields of the alphabet, chains of 3 steps from"
    " 13 boundary instants; 5 zones over every UTC-offset transition of 2024/25 at 30 min raster",
    "thorough": "as quick plus every triple of fields of the reduced alphabet and chains of 6",
}
ASSUMPTIONS = [
    "years 2019-2031; IANA data of the sandbox; around an offset change a fire time inside the repeated or"
    " skipped hour only has to match (or be the shifted image of a skipped match), be monotone and never be"
    " later than the next unambiguous match",
]
MIN = {"transitions": 10000}

UTC = timezone.utc
ALPHA = {
    "year": ["2024", "2023-2025", "*/2", "2024,2027", "2021"],
    "month": ["2", "*/5", "jan", "feb-apr", "12", "1,7"],
    "day": ["1", "31", "29", "*/10", "last", "1st mon", "5th fri", "last sun", "15-20/2", "10,last"],
    "week": ["1", "53", "*/10", "52-53"],
    "day_of_week": ["0", "6", "mon-fri", "sun", "*/3", "tue,thu"],
    "hour": ["0", "23", "*/7", "9-17/4"],
    "minute": ["0", "59", "*/25", "10-20/3"],
    "second": ["0", "59", "*/20", "5,50"],
}
SMALL = {
    "year": ["2024", "*/2"],
    "month": ["2", "*/5", "12"],
    "day": ["31", "29", "last", "1st mon", "*/10"],
    "week": ["53", "1"],
    "day_of_week": ["0", "sun", "mon-fri"],
    "hour": ["23", "*/7"],
    "minute": ["59", "*/25"],
    "second": ["0", "*/20"],
}
NOWS = [
    datetime(2023, 12, 31, 23, 59, 59, 1),
    datetime(2023, 12, 31, 23, 59, 59),
    datetime(2024, 1, 1, 0, 0, 0),
    datetime(2024, 1, 1, 0, 0, 0, 1),
    datetime(2024, 2, 28, 23, 59, 30),
    datetime(2024, 2, 29, 12, 34, 56, 789),
    datetime(2023, 2, 28, 23, 0, 0, 999999),
    datetime(2024, 4, 30, 9, 25, 0),
    datetime(2024, 12, 30, 0, 0, 1),
    datetime(2020, 12, 28, 10, 10, 10),
    datetime(2026, 12, 31, 17, 59, 59, 999999),
    datetime(2024, 3, 29, 16, 13, 20),
    datetime(2024, 7, 31, 23, 59, 59),
]


def singles():
    for f, es in ALPHA.items():
        for e in es:
            yield {f: e}


def pairs(alpha=ALPHA):
    for a, b in itertools.combinations(NAMES, 2):
        for x in alpha[a]:
            for y in alpha[b]:
                yield {a: x, b: y}


def triples():
    for fs in itertools.combinations(NAMES, 3):
        for es in itertools.product(*(SMALL[f] for f in fs)):
            yield dict(zip(fs, es))


CRONTABS = [
    "* * * * *",
    "*/15 0 1,15 * 1-5",
    "0 0 29 2 *",
    "59 23 31 12 *",
    "30 4 1st mon * *".replace("1st mon", "last"),
    "5 0 * 8 sun",
    "0 22 * * mon-fri",
    "23 */2 * * *",
    "0 0,12 1 */2 *",
    "10-40/10 3 * 2-6/2 tue,sat",
    "0 4 8-14 * 6",
    "0 0 * * 0",
]
BOUNDED = [{"minute": "*/25"}, {"hour": "0"}, {"day": "last"}, {"second": "*/20"}, {"day_of_week": "sun", "hour": "*/7"}]
ZONES = ["Europe/Berlin", "America/New_York", "Asia/Kolkata", "Australia/Lord_Howe", "America/Santiago"]
DST_SPECS = [
    {"minute": "*/30"},
    {"minute": "30"},
    {"hour": "2"},
    {"hour": "2", "minute": "30"},
    {"hour": "1", "minute": "59", "second": "59"},
    {"hour": "3"},
    {"hour": "0"},
    {"hour": "*/2", "minute": "15"},
    {"hour": "0-23"},
    {"second": "*/20", "minute": "59,0"},
    {"day": "last", "hour": "2", "minute": "30"},
    {"day": "last sun", "hour": "1-3"},
    {"day_of_week": "sun", "hour": "2"},
    {"month": "3,4,10,11", "day": "*/3", "hour": "2-3", "minute": "*/20"},
    {"day": "*"},
    {"hour": "23", "minute": "45"},
]


def chunk(seq, n):
    seq = list(seq)
    return [seq[i::n] for i in range(n)]


def items(tier):
    out = []
    for i in range(24):
        out.append(("pairs", i, 24))
    out.append(("singles", 0, 1))
    out.append(("crontab", 0, 1))
    out.append(("bounds", 0, 1))
    out.append(("never", 0, 1))
    for z in ZONES:
        for lib in ("zoneinfo", "pytz"):
            out.append(("dst", z, lib))
    if tier == "thorough":
        for i in range(64):
            out.append(("triples", i, 64))
    return out


class Case:
    def __init__(self, spec, tz, exact, res):
        self.spec, self.tz, self.exact, self.res = spec, tz, exact, res
        self.ref = refof(tuple(sorted(spec.items())))


@lru_cache(4096)
def refof(key):
    return Ref(dict(key))


def loc(tz, naive):
    if hasattr(tz, "localize"):
        return tz.localize(naive)
    return naive.replace(tzinfo=tz)


HORIZON = 366 * 5


def earliest_utc(ref, w: datetime):
    """Earliest match at or after wall clock w (no offset changes)."""
    if w.microsecond:
        w = w.replace(microsecond=0) + timedelta(seconds=1)
    for t in ref.wall_after(w, HORIZON):
        return t
    if ref.exhausted(w, HORIZON):
        return None
    for t in ref.wall_after(w, 146100 + 366 * 10):
        return t
    return None


def describe(spec, tz, prev, now, start, end):
    return f"cron {spec} tz={tz} previous={prev} now={now} start_at={start} end_at={end}"


def step_exact(res, trig, ref, spec, tz, prev, now, start=None, end=None):
    got = trig.get_next_trigger_time(tz, prev, now)
    lower = now if prev is None else prev + timedelta(microseconds=1)
    if start is not None:
        lower = max(lower, start)
    w = lower.astimezone(tz).replace(tzinfo=None)
    exp = earliest_utc(ref, w)
    if exp is not None:
        exp = loc(tz, exp)
        if end is not None and exp > end:
            exp = None
    res.count(transitions=1, traces_validated_against_impl=1)
    res.seen("states", (tuple(spec.items()), str(tz), prev, now, start, end))
    res.seen("distinct_outcomes", got)
    if (got is None) != (exp is None) or (got is not None and got != exp):
        kind = "missing" if got is None else "extra" if exp is None else "early" if got < exp else "late"
        res.violation(
            f"wrong-next-{kind}",
            f"{describe(spec, tz, prev, now, start, end)}: got {got}, earliest match is {exp}",
        )
        return None
    return got


def run_spec(res, spec, make, tzs, nows, depth):
    ref = refof(tuple(sorted(spec.items())))
    if ref.max_year > 3000 and next(iter(ref.wall_after(datetime(2020, 1, 1), 366 * 13)), None) is None:
        # never matches: the real search would walk to the year 9999
        res.count(impossible_specs_skipped=1)
        return
    for tz in tzs:
        trig = make(tz)
        for n in nows:
            now = loc(tz, n)
            got = step_exact(res, trig, ref, spec, tz, None, now)
            for _ in range(depth - 1):
                if got is None:
                    break
                prev = got
                # the scheduler asks again at the fire time itself, or later
                got = step_exact(res, trig, ref, spec, tz, prev, prev)
                if got is not None:
                    late = got + timedelta(days=3, seconds=7)
                    g2 = trig.get_next_trigger_time(tz, prev, late)
                    res.count(transitions=1)
                    if g2 != got:
                        res.violation(
                            "wrong-next-when-late",
                            f"{describe(spec, tz, prev, late, None, None)}: got {g2}, earliest match after the"
                            f" previous fire time is {got}",
                        )
    res.sample({"spec": spec, "zones": [str(t) for t in tzs]})


@lru_cache(None)
def transitions(name):
    """UTC instants (hour raster) at which the zone changes its offset, 2024-2025."""
    tz = ZoneInfo(name)
    out = []
    t = datetime(2024, 1, 1, tzinfo=UTC)
    end = datetime(2025, 12, 31, tzinfo=UTC)
    step = timedelta(minutes=30)
    last = t.astimezone(tz).utcoffset()
    while t < end:
        t += step
        o = t.astimezone(tz).utcoffset()
        if o != last:
            out.append((t, last, o))
            last = o
    return out


def matches_from(ref, tz, lower, limit_days):
    """All matching instants >= lower within limit, as aware UTC, with their ambiguity."""
    w0 = lower.astimezone(tz).replace(tzinfo=None) - timedelta(hours=3)
    out = []
    for w in ref.wall_after(w0.replace(microsecond=0), limit_days):
        us = cronref.instants_of_wall(w, tz)
        for s in us:
            t = datetime(1970, 1, 1, tzinfo=UTC) + timedelta(seconds=s)
            if t >= lower:
                out.append((t, len(us) == 1))
        if out and out[-1][1] and len(out) > 3:
            break
    out.sort()
    return out


def step_dst(res, trig, ref, spec, name, tz, prev, now, limit, start=None, end=None):
    zi = ZoneInfo(name)
    got = trig.get_next_trigger_time(tz, prev, now)
    lower = (now if prev is None else prev).astimezone(UTC) + timedelta(microseconds=prev is not None)
    if start is not None:
        lower = max(lower, start)
    res.count(transitions=1, traces_validated_against_impl=1)
    res.seen("states", (tuple(spec.items()), name, str(type(tz)), prev, now, start, end))
    ms = matches_from(ref, zi, lower, limit)
    what = describe(spec, f"{name}({type(tz).__module__})", prev, now, start, end)
    first_sure = next((t for t, sure in ms if sure), None)
    if got is not None and end is not None and got.astimezone(UTC) > end:
        res.violation("dst-past-end", f"{what}: got {got} past the end bound")
        return None
    if got is None:
        if first_sure is not None and (end is None or first_sure <= end):
            res.violation("dst-missing", f"{what}: no fire time, but {first_sure} matches")
        return None
    g = got.astimezone(UTC)
    if g < lower:
        res.violation("dst-backwards", f"{what}: got {got} which is before {lower}")
        return None
    if first_sure is not None and g > first_sure:
        res.violation("dst-late", f"{what}: got {got}, but {first_sure} matches earlier")
        return None
    wall = g.astimezone(zi).replace(tzinfo=None)
    if not ref.wall_ok(wall):
        ok = False
        for t, before, after in transitions(name):
            gap = after - before
            if gap > timedelta(0) and t <= g <= t + gap and ref.wall_ok(wall - gap):
                ok = True
        if not ok:
            res.violation("dst-no-match", f"{what}: got {got} (local {wall}) which does not match")
            return None
    # far from any offset change the answer has to be exact
    if ms and not any(lower - timedelta(days=2) <= t <= max(g, ms[0][0]) + timedelta(days=2) for t, _, _ in transitions(name)):
        if g != ms[0][0]:
            res.violation("wrong-next-late", f"{what}: got {got}, earliest match is {ms[0][0]}")
            return None
    return got


class Asked:
    """The trigger, asked from another zone than its own, and without a reference time when it is the current one."""

    def __init__(self, trigger, caller):
        self.trigger, self.caller = trigger, caller

    def get_next_trigger_time(self, _zone, previous, now):
        from mc import clock

        got = self.trigger.get_next_trigger_time(self.caller, previous, now)
        if previous is None:
            clock.set_now(now.astimezone(UTC))
            try:
                again = self.trigger.get_next_trigger_time(self.caller, None)
            finally:
                clock.off()
            if again != got:
                return again
        return got


def explore(item, res, tier, seed):
    from asyncz.triggers import CronTrigger

    kind = item[0]
    depth = 3 if tier == "quick" else 6
    if kind in ("pairs", "singles", "triples"):
        src = {"pairs": pairs, "singles": singles, "triples": triples}[kind]
        specs = list(src())[item[1] :: item[2]]
        tzs = [UTC] if kind != "singles" else [UTC, timezone(timedelta(hours=5, minutes=45)), ZoneInfo("Asia/Kolkata"), pytz.utc]
        nows = NOWS
        if kind == "triples":
            nows = NOWS[1:6]
        for spec in specs:
            run_spec(res, spec, lambda tz: CronTrigger(**spec, timezone=tz), tzs, nows, depth)
        return
    if kind == "crontab":
        for expr in CRONTABS:
            f = expr.split()
            spec = {"minute": f[0], "hour": f[1], "day": f[2], "month": f[3], "day_of_week": f[4]}
            run_spec(res, spec, lambda tz: CronTrigger.from_crontab(expr, timezone=tz), [UTC, ZoneInfo("Asia/Tokyo")], NOWS, depth + 3)
            # zone handed over per call instead of being a property of the trigger
            run_spec(res, spec, lambda tz: CronTrigger.from_crontab(expr), [UTC, ZoneInfo("Asia/Tokyo")], NOWS, depth)
        return
    if kind == "bounds":
        base = datetime(2024, 2, 28, 23, 50, 0)
        offs = [timedelta(0), timedelta(seconds=1), timedelta(minutes=10), timedelta(days=1, minutes=10),
                timedelta(days=2), timedelta(days=2, microseconds=1), timedelta(days=1, minutes=9, seconds=59)]
        for spec in BOUNDED:
            ref = refof(tuple(sorted(spec.items())))
            for tz in (UTC, ZoneInfo("Asia/Kolkata")):
                for so in [None, *offs]:
                    for eo in [None, *offs]:
                        st = None if so is None else loc(tz, base + so)
                        en = None if eo is None else loc(tz, base + eo)
                        # given as aware value, as naive value and as text
                        forms = [(st, en), (st and st.replace(tzinfo=None), en and en.replace(tzinfo=None))]
                        if not (st and st.microsecond) and not (en and en.microsecond):
                            forms.append((st and st.strftime("%Y-%m-%d %H:%M:%S"), en and en.strftime("%Y-%m-%d %H:%M:%S")))
                        forms = [(*f, tz) for f in forms]
                        if st and en:
                            # the zone of one bound holds for the other one and for the fields
                            forms += [(st, en.replace(tzinfo=None), None), (st.replace(tzinfo=None), en, None)]
                        for s_arg, e_arg, z_arg in forms:
                            trig = Asked(CronTrigger(**spec, timezone=z_arg, start_at=s_arg, end_at=e_arg), ZoneInfo("America/New_York"))
                            for no in (timedelta(days=-1), timedelta(0), timedelta(minutes=10), timedelta(days=1, minutes=10)):
                                now = loc(tz, base + no)
                                got = step_exact(res, trig, ref, spec, tz, None, now, st, en)
                                for _ in range(3):
                                    if got is None:
                                        break
                                    got = step_exact(res, trig, ref, spec, tz, got, max(got, now), st, en)
        # jitter never moves a fire time before its match nor past the bound, and needs a match
        for spec in BOUNDED:
            ref = refof(tuple(sorted(spec.items())))
            for jit in (1, 30, 600):
                for en in (None, loc(UTC, base + timedelta(days=1))):
                    import random

                    trig = CronTrigger(**spec, timezone=UTC, jitter=jit, end_at=en)
                    if en is None:
                        plain = CronTrigger(**spec, timezone=UTC).get_next_trigger_time(UTC, None, loc(UTC, base))
                        drawn = {trig.get_next_trigger_time(UTC, None, loc(UTC, base)) for _ in range(6)}
                        if drawn == {plain}:
                            res.violation("jitter-none", f"cron {spec} jitter={jit}: no delay in 6 draws")
                    for u in (0.0, 0.5, 1.0):
                        orig = random.uniform
                        random.uniform = lambda a, b: a + (b - a) * u
                        try:
                            now = loc(UTC, base)
                            got = trig.get_next_trigger_time(UTC, None, now)
                        finally:
                            random.uniform = orig
                        nominal = earliest_utc(ref, base)
                        nominal = nominal and loc(UTC, nominal)
                        if en is not None and nominal > en:
                            nominal = None
                        res.count(transitions=1, traces_validated_against_impl=1)
                        res.seen("states", ("jitter", str(spec), jit, u, str(en)))
                        if (got is None) != (nominal is None) or (
                            got is not None
                            and not (nominal <= got <= nominal + timedelta(seconds=jit) and (en is None or got <= en))
                        ):
                            res.violation("jitter", f"cron {spec} jitter={jit} draw={u} end_at={en}: got {got}, nominal {nominal}")
        return
    if kind == "never":
        for spec in ({"year": "2021"}, {"year": "2024", "month": "2", "day": "30"}, {"year": "2023", "month": "2", "day": "29"},
                     {"year": "2023", "week": "53"}, {"year": "2020-2023", "month": "2", "day": "5th mon"},
                     {"year": "2023", "day": "31", "month": "4,6,9,11"}, {"year": "2024-2027", "month": "1", "week": "30"}):
            run_spec(res, spec, lambda tz: CronTrigger(**spec, timezone=tz), [UTC, pytz.utc], [n for n in NOWS if n.year >= 2023], 3)
        return
    if kind == "dst":
        name, lib = item[1], item[2]
        tz = ZoneInfo(name) if lib == "zoneinfo" else pytz.timezone(name)
        points = [datetime(2024, 6, 15, 11, 7, tzinfo=UTC)]
        step = timedelta(minutes=30 if tier == "quick" else 10)
        for t, before, after in transitions(name):
            k = -timedelta(hours=4)
            while k <= timedelta(hours=4):
                points.append(t + k)
                k += step
            points += [t - timedelta(microseconds=1), t + timedelta(microseconds=1), t - timedelta(days=1), t - timedelta(seconds=1)]
        if len(points) == 1:
            points += [datetime(2024, m, 28, 20, 29, 59, tzinfo=UTC) for m in range(1, 13)]
        for spec in DST_SPECS:
            ref = refof(tuple(sorted(spec.items())))
            trig = CronTrigger(**spec, timezone=tz)
            for p in points:
                # the scheduler asks in its own zone, which may be another one
                for asking in (tz, UTC):
                    got = step_dst(res, trig, ref, spec, name, tz, None, p.astimezone(asking), 400)
                    for _ in range(4):
                        if got is None:
                            break
                        got = step_dst(res, trig, ref, spec, name, tz, got, got.astimezone(asking), 400)
        for spec in DST_SPECS[:4]:
            ref = refof(tuple(sorted(spec.items())))
            for t, _b, _a in transitions(name):
                grid = [t + k * timedelta(minutes=30) for k in range(-4, 5)]
                for st in grid:
                    for en in (None, st, st + timedelta(minutes=30), st + timedelta(hours=1)):
                        trig = CronTrigger(**spec, timezone=tz, start_at=st.astimezone(tz), end_at=en and en.astimezone(tz))
                        for p in (st - timedelta(minutes=30), st, st - timedelta(hours=1), st + timedelta(minutes=30)):
                            got = step_dst(res, trig, ref, spec, name, tz, None, p.astimezone(tz), 400, st, en)
                            if got is not None:
                                step_dst(res, trig, ref, spec, name, tz, got, got, 400, st, en)
        return
    raise AssertionError(item)
