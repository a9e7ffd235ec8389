"""Argument validation accepts exactly the calls Python accepts."""
from __future__ import annotations

import functools
import itertools

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all signatures of up to 3 parameters (5 kinds, with and without default) x up to 4 positional x all keyword subsets of 4 names; methods, classes, partials, callables; functions, methods, objects and partials of 9 signatures wrapping one of 9 others; functions, methods, class methods and partials with a cache",
    "thorough": "as quick with up to 4 parameters and 5 positional arguments",
}
ASSUMPTIONS = ["the oracle is the call itself, made on a body without effects"]
MIN = {"transitions": 20000}
NAMES = "abcd"


def signatures(n):
    kinds = ["P", "K", "*", "O", "**"]
    for m in range(n + 1):
        for ks in itertools.product(range(5), repeat=m):
            if list(ks) != sorted(ks) or ks.count(2) > 1 or ks.count(4) > 1:
                continue
            for ds in itertools.product((0, 1), repeat=m):
                if any(d and k in (2, 4) for k, d in zip(ks, ds)):
                    continue
                pos = [d for k, d in zip(ks, ds) if k in (0, 1)]
                if pos != sorted(pos):
                    continue
                parts, seen_p, seen_star = [], False, False
                for i, (k, d) in enumerate(zip(ks, ds)):
                    nm = NAMES[i]
                    if k != 0 and seen_p:
                        parts.append("/")
                        seen_p = False
                    if k == 3 and not seen_star:
                        parts.append("*")
                        seen_star = True
                    if k == 0:
                        seen_p = True
                    if k == 2:
                        seen_star = True
                    parts.append({2: "*", 4: "**"}.get(k, "") + nm + ("=0" if d else ""))
                if seen_p:
                    parts.append("/")
                yield ", ".join(parts)


def items(tier):
    n = 3 if tier == "quick" else 4
    sigs = list(signatures(n))
    return [("sig", tuple(sigs[i::16])) for i in range(16)] + [("objects",)]


def build(sig, wrap):
    ns = {}
    if wrap == "function":
        exec(f"def f({sig}): pass", ns)
        return ns["f"]
    if wrap == "async":
        exec(f"async def f({sig}): pass", ns)
        return ns["f"]
    me = "self" + (", " + sig if sig else "")
    exec(f"class C:\n def m({me}): pass\n def __call__({me}): pass\n @classmethod\n def c({me}): pass\n @staticmethod\n def s({sig}): pass", ns)
    C = ns["C"]
    return {"bound": C().m, "callable": C(), "classmethod": C.c, "static": C.s, "class": type("D", (), {"__init__": C.m})}[wrap]


def try_task(fn, args, kwargs):
    from asyncz.tasks import Task

    try:
        t = Task(fn, args=args, kwargs=kwargs)
    except ValueError:
        return False, None
    return True, t


def one(res, fn, args, kwargs, label):
    try:
        r = fn(*args, **kwargs)
        if hasattr(r, "close"):
            r.close()
        exp = True
    except TypeError:
        exp = False
    got, task = try_task(fn, args, kwargs)
    res.count(transitions=1, traces_validated_against_impl=1)
    res.seen("states", (label, args, tuple(sorted(kwargs))))
    res.seen("distinct_outcomes", (got,))
    if got != exp:
        res.violation(
            "accepts-unbindable" if got else "rejects-bindable",
            f"{label} with args={args} kwargs={sorted(kwargs)}: scheduling {'accepts' if got else 'rejects'} it, calling it {'works' if exp else 'is a TypeError'}",
        )
    elif got and (tuple(task.args) != tuple(args) or dict(task.kwargs) != kwargs):
        res.violation("args-changed", f"{label}: stored {task.args} {task.kwargs}")


def explore(item, res, tier, seed):
    maxpos = 4 if tier == "quick" else 5
    kws = [dict.fromkeys(c, 1) for r in range(4) for c in itertools.combinations("abcz", r)]
    if item[0] == "sig":
        for sig in item[1]:
            for wrap in ("function", "bound", "class", "classmethod") + (("callable", "static", "async") if sig.count(",") < 2 else ()):
                if "self" in sig and wrap != "function":
                    continue
                fn = build(sig, wrap)
                for npos in range(maxpos + 1):
                    for kw in kws:
                        one(res, fn, tuple(range(npos)), dict(kw), f"{wrap}({sig})")
            res.sample(sig)
        return
    for base in ("a, b", "a, b=1", "*a", "a, /, b, *, c=0", "**a", "a, *, c"):
        f = build(base, "function")
        for pa in ((), (1,), (1, 2)):
            for pk in ({}, {"b": 2}, {"c": 3}):
                try:
                    p = functools.partial(f, *pa, **pk)
                except TypeError:
                    continue
                try:
                    import inspect

                    inspect.signature(p)
                except ValueError:
                    continue
                for npos in range(3):
                    for kw in ({}, {"a": 1}, {"b": 1}, {"c": 1}, {"z": 1}):
                        one(res, p, tuple(range(npos)), dict(kw), f"partial(({base}), *{pa}, **{pk})")
    # decorated functions: what counts is the function which is called, not the one it wraps
    sigs = ("", "a", "a, b", "a, b=1", "*a", "a, /, b", "a, *, c", "**a", "a, *, b=1, **c")
    for inner, outer in itertools.product(sigs, repeat=2):
        for style in ("function", "async", "object", "method", "partial", "twice"):
            f = build(inner, "async" if style == "async" else "function")
            if style in ("function", "async", "twice"):
                g = functools.wraps(f)(build(outer, style if style == "async" else "function"))
                if style == "twice":
                    g = functools.wraps(g)(build(inner, "function"))
            elif style == "object":
                g = build(outer, "callable")
                g.__wrapped__ = f
            elif style == "method":
                g = build(outer, "bound")
                g.__func__.__wrapped__ = f
            else:
                g = functools.partial(functools.wraps(f)(build(outer, "function")))
            for npos in range(4):
                for kw in kws:
                    one(res, g, tuple(range(npos)), dict(kw), f"{style}({outer}) which wraps a function({inner})")
    # wrappers without a signature of their own take what the wrapped function takes
    for inner, style in itertools.product(sigs, ("cache", "cached-method", "cached-class-method", "partial-of-cache", "partialmethod", "wraps-cache")):
        f = build(inner, "function")
        me = build(inner, "bound").__func__
        if style in ("cache", "partial-of-cache", "wraps-cache"):
            g = functools.lru_cache(maxsize=2)(f)
            if style == "partial-of-cache":
                g = functools.partial(g)
            elif style == "wraps-cache":
                g = functools.wraps(g)(build("a, b=1", "function"))
        elif style == "cached-method":
            g = type("K", (), {"m": functools.lru_cache(maxsize=2)(me)})().m
        elif style == "cached-class-method":
            g = type("K", (), {"m": classmethod(functools.lru_cache(maxsize=2)(me))}).m
        else:
            g = type("K", (), {"n": me, "m": functools.partialmethod(me)})().m
        for npos in range(4):
            for kw in kws:
                try:
                    one(res, g, tuple(range(npos)), dict(kw), f"{style} of a function({inner})")
                except Exception as exc:
                    res.violation("rejects-bindable", f"{style} of a function({inner}) with {npos} positional and {sorted(kw)}: {type(exc).__name__}: {exc}")
    # not argument containers / not callables
    from asyncz.tasks import Task

    ok = build("*a, **b", "function")
    for args, kwargs, fn in [("xy", {}, ok), (5, {}, ok), ((), "x", ok), ((), [1], ok), ((), 3, ok), ((), {}, 17), (None, {}, ok), ((), {}, object())]:
        res.count(transitions=1, traces_validated_against_impl=1)
        res.seen("states", ("type", repr(args), repr(kwargs), type(fn).__name__))
        try:
            Task(fn, args=args, kwargs=kwargs)
        except (TypeError, ValueError):
            continue
        res.violation("accepts-bad-type", f"args={args!r} kwargs={kwargs!r} fn={fn!r} accepted")
