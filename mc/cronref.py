"""Brute-force reference for cron expressions: enumerate calendar days, test every field."""
from __future__ import annotations

import calendar
from datetime import date, datetime, timedelta, timezone
from functools import lru_cache

UTC = timezone.utc
NAMES = ("year", "month", "day", "week", "day_of_week", "hour", "minute", "second")
LO = {"year": 1970, "month": 1, "day": 1, "week": 1, "day_of_week": 0, "hour": 0, "minute": 0, "second": 0}
HI = {"year": 9999, "month": 12, "day": 31, "week": 53, "day_of_week": 6, "hour": 23, "minute": 59, "second": 59}
MONTHS = ["jan", "feb", "mar", "apr", "may", "jun", "jul", "aug", "sep", "oct", "nov", "dec"]
DAYS = ["mon", "tue", "wed", "thu", "fri", "sat", "sun"]
ORD = ["1st", "2nd", "3rd", "4th", "5th", "last"]


def _num(field, tok):
    tok = tok.lower()
    if field == "month" and tok in MONTHS:
        return MONTHS.index(tok) + 1
    if field == "day_of_week" and tok in DAYS:
        return DAYS.index(tok)
    return int(tok)


@lru_cache(None)
def plain_set(field: str, part: str):
    """Values of one numeric/named sub-expression, as a set (independent of any date)."""
    part = part.strip()
    step = 1
    rng = part
    if "/" in part:
        rng, s = part.split("/")
        step = int(s)
    if rng == "*":
        lo, hi = LO[field], HI[field]
    elif "-" in rng:
        a, b = rng.split("-")
        lo, hi = _num(field, a), _num(field, b)
    else:
        lo = _num(field, rng)
        hi = HI[field] if "/" in part else lo
    return frozenset(range(lo, hi + 1, step))


def day_pred(part: str):
    """Special day-of-month forms."""
    p = part.strip().lower()
    if p == "last":
        return lambda d: d.day == calendar.monthrange(d.year, d.month)[1]
    bits = p.split()
    if len(bits) == 2 and bits[0] in ORD:
        wd = DAYS.index(bits[1])
        if bits[0] == "last":
            return lambda d: d.weekday() == wd and (d + timedelta(days=7)).month != d.month
        n = ORD.index(bits[0])
        return lambda d: d.weekday() == wd and (d.day - 1) // 7 == n
    s = plain_set("day", p)
    return lambda d: d.day in s


class Ref:
    """Reference semantics of one cron specification (field -> expression string)."""

    def __init__(self, spec: dict[str, str]):
        full = {}
        given = [n for n in NAMES if n in spec]
        last = NAMES.index(given[-1]) if given else len(NAMES)
        for i, n in enumerate(NAMES):
            if n in spec:
                full[n] = str(spec[n])
            elif i > last:
                # fields finer than the finest given one start at their minimum
                full[n] = "*" if n in ("week", "day_of_week") else str(LO[n])
            else:
                full[n] = "*"
        self.sets = {
            n: frozenset().union(*(plain_set(n, p) for p in full[n].split(",")))
            for n in NAMES
            if n != "day"
        }
        self.day_preds = [day_pred(p) for p in full["day"].split(",")]
        self.max_year = max(self.sets["year"])
        self._day: dict[int, bool] = {}
        self.secs = None

    def day_ok(self, d: date) -> bool:
        o = d.toordinal()
        r = self._day.get(o)
        if r is None:
            s = self.sets
            r = self._day[o] = (
                d.year in s["year"]
                and d.month in s["month"]
                and d.weekday() in s["day_of_week"]
                and d.isocalendar()[1] in s["week"]
                and any(p(d) for p in self.day_preds)
            )
        return r

    def wall_ok(self, w: datetime) -> bool:
        s = self.sets
        return (
            w.microsecond == 0
            and w.hour in s["hour"]
            and w.minute in s["minute"]
            and w.second in s["second"]
            and self.day_ok(w.date())
        )

    def times_of_day(self):
        if self.secs is None:
            s = self.sets
            self.secs = (sorted(s["hour"]), sorted(s["minute"]), sorted(s["second"]))
        return self.secs

    def wall_after(self, w: datetime, horizon_days: int):
        """Matching wall clock times at or after naive `w`, ascending, within the horizon."""
        h, m, sec = self.times_of_day()
        d0 = w.date()
        lim = date.max.toordinal()
        for i in range(horizon_days + 1):
            o = d0.toordinal() + i
            if o > lim:
                return
            d = date.fromordinal(o)
            if d.year > self.max_year:
                return
            if not self.day_ok(d):
                continue
            first = i == 0
            for hh in h:
                if first and hh < w.hour:
                    continue
                for mm in m:
                    if first and (hh, mm) < (w.hour, w.minute):
                        continue
                    for ss in sec:
                        t = datetime(d.year, d.month, d.day, hh, mm, ss)
                        if first and t < w:
                            continue
                        yield t

    def exhausted(self, w: datetime, horizon_days: int) -> bool:
        """True when the horizon provably covers every future match (bounded years)."""
        return w.date().toordinal() + horizon_days >= min(
            date(min(self.max_year, 9999), 12, 31).toordinal(), date.max.toordinal()
        )


def ceil_second(us: int) -> int:
    return -(-us // 1_000_000)


def instants_of_wall(w: datetime, tz) -> list[int]:
    """UTC seconds whose local time in tz is exactly wall clock w (0, 1 or 2 of them)."""
    out = []
    for fold in (0, 1):
        u = w.replace(tzinfo=tz, fold=fold).astimezone(UTC)
        if u.astimezone(tz).replace(tzinfo=None) == w:
            s = int((u - datetime(1970, 1, 1, tzinfo=UTC)).total_seconds())
            if s not in out:
                out.append(s)
    return out
