"""Cron expressions: accepted exactly when the documented grammar and the field's range allow it."""
from __future__ import annotations

import itertools
import re
from datetime import datetime, timedelta, timezone

from mc.cronref import DAYS, HI, LO, MONTHS, ORD, Ref

LEVEL = "model_checking"
ITEM_CPU = 90
UTC = timezone.utc
BOUNDS = {
    "quick": "all token strings of up to 4 tokens over 13-15 tokens per field, and all ranges/steps over boundary values, names and lists of two of them, all 8 fields",
    "thorough": "all token strings of up to 5 tokens, all 8 fields",
}
ASSUMPTIONS = ["a range of one value with a step (5-5/1) is left open"]
MIN = {"transitions": 100000}
FIELDS = list(LO)
EXTRA = {
    "year": ["1970", "9999", "10000", "1969", "20"],
    "month": ["1", "12", "13", "0", "jan", "Dec", "foo"],
    "day": ["1", "31", "32", "0", "last", "2nd", "Sun", "x"],
    "week": ["1", "53", "54", "0", "last"],
    "day_of_week": ["0", "6", "7", "mon", "SUN", "tue", "x"],
    "hour": ["0", "23", "24", "5", "mon"],
    "minute": ["0", "59", "60", "5", "last"],
    "second": ["0", "59", "60", "30", "1st"],
}
BASIC = ["*", "/", "-", ",", " ", "2"]


def items(tier):
    return [(f, i) for f in FIELDS for i in range(2 if tier == "quick" else 8)]


def part_ok(field, p):
    """True / False / None (left open)."""
    lo, hi = LO[field], HI[field]
    m = re.fullmatch(r"\*(?:/([0-9]+))?", p)
    if m:
        return m[1] is None or 1 <= int(m[1]) <= hi - lo
    m = re.fullmatch(r"([0-9]+)(?:-([0-9]+))?(?:/([0-9]+))?", p)
    if m:
        a = int(m[1])
        step = None if m[3] is None else int(m[3])
        b = int(m[2]) if m[2] is not None else (a if step is None else hi)
        if not (lo <= a <= b <= hi):
            return False
        if step is None:
            return True
        if step < 1:
            return False
        if a == b:
            return None
        return step <= b - a
    names = {"month": MONTHS, "day_of_week": DAYS}.get(field)
    if names:
        bits = p.lower().split("-")
        if 1 <= len(bits) <= 2 and all(x in names for x in bits):
            return names.index(bits[0]) <= names.index(bits[-1])
        return False
    if field == "day":
        q = p.lower()
        if q == "last":
            return True
        bits = [x for x in q.split(" ") if x]
        return len(bits) == 2 and q.startswith(bits[0]) and q.endswith(bits[1]) and bits[0] in ORD and bits[1] in DAYS
    return False


def expr_ok(field, e):
    verdicts = [part_ok(field, p.strip(" ")) for p in e.split(",")]
    if False in verdicts:
        return False
    return None if None in verdicts else True


def structured(field, tier):
    """Ranges and steps with all boundary values, alone and as first or second element of a list."""
    lo, hi = LO[field], HI[field]
    mid = (lo + hi) // 2
    vals = sorted({v for v in (lo - 1, lo, lo + 1, mid, hi - 1, hi, hi + 1) if v >= 0})
    steps = [None, 0, 1, 2, mid - lo, hi - lo, hi - lo + 1]
    forms = []
    for a in ["*"] + vals:
        for b in [None] + vals:
            for st in steps:
                forms.append(f"{a}" + ("" if b is None else f"-{b}") + ("" if st is None else f"/{st}"))
    few = [f"{lo}", f"{mid}-{hi}/2", f"{hi + 1}", f"{lo}-{hi + 1}", f"*/{hi - lo}", f"{mid}/1", f"{mid}-{lo}", f"{lo:03d}"]
    names = {"month": MONTHS, "day_of_week": DAYS, "day": ["last"] + [f"{o} {d}" for o in ORD for d in DAYS]}.get(field, [])
    if field != "day":
        names = [*names, *(f"{a}-{b}" for a in names for b in names), *(f"{a}-{b}" for a in names[:2] for b in vals)]
    forms += names
    yield from forms
    for f in forms:
        for g in few:
            yield f"{f},{g}"
            yield f"{g}, {f}"


def explore(item, res, tier, seed):
    from asyncz.triggers import CronTrigger

    field, part = item
    toks = BASIC + EXTRA[field]
    depth = 4 if tier == "quick" else 5
    nparts = 2 if tier == "quick" else 8
    done = set()
    strings = itertools.chain(("".join(c) for d in range(1, depth + 1) for c in itertools.product(toks, repeat=d)), structured(field, tier))
    for n, e in enumerate(strings):
            if n % nparts != part:
                continue
            if e in done:
                continue
            done.add(e)
            try:
                trig = CronTrigger(**{field: e})
                got = True
            except ValueError:
                got = False
            exp = expr_ok(field, e)
            res.count(transitions=1, traces_validated_against_impl=1)
            if got:
                res.count(accepted=1)
            if exp is None:
                res.count(left_open=1)
                continue
            if got != exp:
                res.violation(
                    "accepts-malformed" if got else "rejects-wellformed",
                    f"{field}={e!r} is {'accepted' if got else 'rejected'}, the grammar says {'valid' if exp else 'invalid'}",
                )
                continue
            if got and field in ("hour", "minute", "second", "day_of_week", "month"):
                meaning(res, trig, field, e, tier)
    res.count(states=len(done))
    res.sample({field: sorted(done)[:3]})
    if field == "minute" and part == 0:
        for k in range(0, 9):
            text = " ".join(["*"] * k)
            res.count(transitions=1, traces_validated_against_impl=1)
            try:
                CronTrigger.from_crontab(text)
                ok = True
            except ValueError:
                ok = False
            if ok != (k == 5):
                res.violation("crontab-fields", f"crontab line with {k} fields {'accepted' if ok else 'rejected'}")
        for f, bad in (("minute", "60"), ("hour", "24"), ("day", "32"), ("month", "13"), ("day_of_week", "7")):
            vals = {"minute": "*", "hour": "*", "day": "*", "month": "*", "day_of_week": "*"}
            vals[f] = bad
            try:
                CronTrigger.from_crontab(" ".join(vals.values()))
                res.violation("crontab-range", f"crontab {vals} accepted")
            except ValueError:
                pass


SPAN = {"second": timedelta(minutes=1), "minute": timedelta(hours=1), "hour": timedelta(days=1), "day_of_week": timedelta(days=7), "month": timedelta(days=366)}
cache = {}


def meaning(res, trig, field, e, tier):
    """An accepted expression selects exactly the values it names."""
    want = Ref({field: e.strip().replace(" ", "") if field != "day" else e}).sets[field]
    canon = (field, e.replace(" ", "").lower())
    start = datetime(2024, 1, 1, tzinfo=UTC)
    if canon in cache:
        got = cache[canon]
    else:
        got, prev, t = set(), None, start
        while True:
            t = trig.get_next_trigger_time(UTC, prev, t)
            if t is None or t >= start + SPAN[field]:
                break
            got.add({"second": t.second, "minute": t.minute, "hour": t.hour, "day_of_week": t.weekday(), "month": t.month}[field])
            prev = t
        cache[canon] = got
    res.count(meanings=1)
    if got != set(want):
        res.violation("wrong-values", f"{field}={e!r} selects {sorted(got)} instead of {sorted(want)}")
