"""Check runner: work items, result merging, known findings, evidence, replay."""
from __future__ import annotations

import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import time
import traceback
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path(os.environ.get("ASYNCZ_REPO", "/repo")).resolve()
KNOWN = VERIF / "known_findings.txt"
SAMPLES_MAX = 6


class Hang(Exception):
    """CPU budget of one work item was used up."""


class Result:
    """What exploring one work item produced; results merge associatively."""

    def __init__(self) -> None:
        self.counts: dict[str, int] = {}
        self.sets: dict[str, set] = {}
        self.violations: list[dict] = []
        self.samples: list = []
        self.notes: list[str] = []
        self.capped: list[str] = []

    def count(self, **kw: int) -> None:
        for k, v in kw.items():
            self.counts[k] = self.counts.get(k, 0) + v

    def seen(self, name: str, value) -> None:
        """Count distinct values under `name` (hashed, so merging stays cheap)."""
        h = hashlib.blake2b(repr(value).encode(), digest_size=8).digest()
        self.sets.setdefault(name, set()).add(h)

    def sample(self, value) -> None:
        if len(self.samples) < 2:
            self.samples.append(value)

    def violation(self, key: str, what: str, **detail) -> None:
        for v in self.violations:
            if v["key"] == key:
                v["times"] += 1
                return
        self.violations.append({"key": key, "what": what, "detail": detail, "times": 1})

    def cap(self, what: str) -> None:
        self.capped.append(what)

    def merge(self, other: "Result") -> None:
        for k, v in other.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        for k, s in other.sets.items():
            self.sets.setdefault(k, set()).update(s)
        have = {v["key"]: v for v in self.violations}
        for v in other.violations:
            if v["key"] in have:
                have[v["key"]]["times"] += v["times"]
            else:
                self.violations.append(v)
                have[v["key"]] = v
        for s in other.samples:
            if len(self.samples) < SAMPLES_MAX:
                self.samples.append(s)
        self.notes.extend(other.notes)
        self.capped.extend(other.capped)


def _alarm(*_a):
    raise Hang()


def _short(value, n=1500):
    s = value if isinstance(value, str) else repr(value)
    return s if len(s) <= n else s[:n] + "..."


def in_repo(tb) -> bool:
    """True when the innermost frame of a traceback (ignoring the standard library and
    site-packages) belongs to the code under test."""
    last = None
    for fr in traceback.extract_tb(tb):
        f = os.path.realpath(fr.filename)
        if f.startswith(str(REPO) + os.sep) or f.startswith(str(VERIF) + os.sep):
            last = f
    return bool(last and last.startswith(str(REPO) + os.sep))


def through_repo(exc) -> bool:
    """An exception of a task function (or one that ends the program) which the code under test let pass."""
    frames = [os.path.realpath(f.filename) for f in traceback.extract_tb(exc.__traceback__)]
    if not any(f.startswith(str(REPO) + os.sep) for f in frames):
        return False
    return not isinstance(exc, Exception) or frames[-1] == str(VERIF / "mc" / "targets.py")


def incomparable(exc) -> bool:
    """The harness never fails on the unchanged tree, it did while evaluating what the code under test gave back.
    Names it does not find in the code under test (renamed internals) are no such case."""
    if isinstance(exc, AttributeError):
        obj = exc.obj
        if obj is None or type(obj).__module__ == "builtins" and not isinstance(obj, type):
            return True
        return False
    if isinstance(exc, TypeError) and re.search(r"positional argument|keyword argument", str(exc)):
        return False
    return isinstance(exc, TypeError | KeyError | IndexError | ValueError | StopIteration)


def run_item(modname: str, item, tier: str, seed: int, cpu: float) -> Result:
    mod = importlib.import_module(modname)
    res = Result()
    mod_ctx = {"tier": tier, "seed": seed}
    signal.signal(signal.SIGVTALRM, _alarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, cpu)
    try:
        mod.explore(item, res, **mod_ctx)
    except Hang:
        exc = sys.exc_info()
        frames = traceback.extract_tb(exc[2])
        where = [f"{os.path.basename(f.filename)}:{f.name}" for f in frames][-6:]
        if any(os.path.realpath(f.filename).startswith(str(REPO) + os.sep) for f in frames):
            res.violation(
                "no-termination",
                f"the code under test did not come back within {cpu:.0f}s of CPU time "
                f"(last frames: {' > '.join(where)})",
            )
        else:
            raise RuntimeError(f"harness ran out of CPU budget in {where}") from None
    except BaseException as exc:
        if in_repo(exc.__traceback__) or through_repo(exc):
            res.violation(
                f"crash:{type(exc).__name__}",
                f"unexpected {type(exc).__name__}: {_short(str(exc), 300)}",
                traceback=_short(traceback.format_exc(), 4000),
            )
        elif incomparable(exc):
            res.violation(
                f"incomparable:{type(exc).__name__}",
                f"a result of the code under test is not of the kind the reference expects: {type(exc).__name__}: {_short(str(exc), 300)}",
                traceback=_short(traceback.format_exc(), 4000),
            )
        else:
            raise
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    for v in res.violations:
        v.setdefault("item", item)
    return res


def load_known(pid: str) -> list[tuple[str, str]]:
    out = []
    if KNOWN.exists():
        for line in KNOWN.read_text().splitlines():
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def _jsonable(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        return _short(x)


def main(argv: list[str]) -> int:
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    replay = None
    for a in argv[1:]:
        if a in ("quick", "thorough"):
            tier = a
        elif a.startswith("--replay="):
            replay = a.split("=", 1)[1]
    modname = f"checks.{pid.lower()}"
    t0 = time.monotonic()
    mod = importlib.import_module(modname)
    cpu = float(getattr(mod, "ITEM_CPU", 120))
    items = list(mod.items(tier))
    if replay:
        wanted = json.loads(Path(replay).read_text())["item_repr"]
        items = [it for it in items if repr(it) == wanted]
        if not items:
            print(f"no work item matches {wanted}")
            return 2
    total = Result()
    procs = int(os.environ.get("VERIF_PROCS") or getattr(mod, "PROCS", 0) or min(8, os.cpu_count() or 1))
    if procs <= 1 or len(items) == 1:
        for it in items:
            total.merge(run_item(modname, it, tier, seed, cpu))
    else:
        ctx = mp.get_context("fork")
        with cf.ProcessPoolExecutor(min(procs, len(items)), mp_context=ctx) as ex:
            futs = [ex.submit(run_item, modname, it, tier, seed, cpu) for it in items]
            # merge in submission order: reports do not depend on completion order
            for f in futs:
                total.merge(f.result())
    if hasattr(mod, "final"):
        mod.final(total, tier)
    wall = time.monotonic() - t0

    known = load_known(pid)
    fresh, listed = [], {}
    for v in total.violations:
        hit = next((k for k in known if k[0] == v["key"]), None)
        if hit:
            listed[hit] = v
        else:
            fresh.append(v)

    cov: dict = dict(total.counts)
    for k, s in total.sets.items():
        cov[k] = cov.get(k, 0) + len(s)
    cov["samples"] = [_jsonable(s) for s in total.samples]
    cov["work_items"] = len(items)
    if total.capped:
        cov["capped"] = sorted(set(total.capped))[:20]
    cov["exhaustive"] = not total.capped
    cov["bounds"] = getattr(mod, "BOUNDS", {}).get(tier, "")
    level = mod.LEVEL
    if level == "model_checking":
        need = ("states", "transitions", "traces_validated_against_impl")
    else:
        need = ("evaluations", "distinct_nontrivial")
        cov["rule"] = mod.RULE
    for n in need:
        if n not in cov:
            raise RuntimeError(f"check {pid} did not measure {n}")
    min_exec = getattr(mod, "MIN", {})
    for k, lo in min_exec.items():
        if not fresh and not replay and cov.get(k, 0) < lo:
            raise RuntimeError(f"check {pid}: vacuous exploration, {k}={cov.get(k, 0)} < {lo}")
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(fresh),
        "known_findings": len(listed),
        "notes": total.notes[:20],
    }
    ev = VERIF / "evidence"
    ev.mkdir(exist_ok=True)
    (ev / f"{pid}.json").write_text(json.dumps(evidence, indent=1, default=str) + "\n")

    summary = " ".join(f"{k}={v}" for k, v in cov.items() if isinstance(v, int) and not isinstance(v, bool))
    print(f"{pid} [{tier}] {summary} wall={wall:.1f}s")
    for (k, text), v in listed.items():
        print(f"KNOWN-FINDING: property={pid} {text} (key={k}, seen {v['times']}x)")
    if not fresh:
        return 0
    rdir = VERIF / "replays"
    rdir.mkdir(exist_ok=True)
    for v in fresh[:10]:
        h = hashlib.sha1(f"{pid}{v['key']}".encode()).hexdigest()[:10]
        path = rdir / f"{pid}-{h}.json"
        path.write_text(
            json.dumps(
                {
                    "property": pid,
                    "tier": tier,
                    "key": v["key"],
                    "what": v["what"],
                    "times": v["times"],
                    "item_repr": repr(v.get("item")),
                    "detail": {k: _jsonable(x) for k, x in v["detail"].items()},
                    "rerun": f"./check {pid} {tier} --replay={path}",
                },
                indent=1,
                default=str,
            )
            + "\n"
        )
        print(f"  {v['key']} ({v['times']}x): {v['what']}")
        print(f"VIOLATION property={pid} replay={path}")
    return 1
