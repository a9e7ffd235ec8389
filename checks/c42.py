"""Settings: every declared one is read, exported and used as declared, wherever it is declared."""
from __future__ import annotations

import enum
import itertools
import json
import os
import pathlib
import subprocess
import sys
from contextlib import ExitStack
from typing import Annotated, Any, Optional, Union

LEVEL = "model_checking"
ITEM_CPU = 500
BOUNDS = {
    "quick": "every declaration out of 12 types x 3 spellings of the annotation x 9 places in a class hierarchy x 3 defaults, under 14 values of its environment variable and 3 constructor arguments; exports of 9 hierarchies under all flags and exclusions; all words of up to 5 out of 9 operations on the global settings object; 7 settings modules x environments in own processes; dashboard configurations of up to 2 of 8 options",
    "thorough": "words of 6 operations, dashboard configurations of up to 3 options",
}
ASSUMPTIONS = ["every page has its own title: that of the configuration is only a default", "the environment variable of a setting comes before constructor arguments, and these before the class", "what a generic alias makes of a text (list[str]) is left out"]
MIN = {"declarations": 5000, "exports": 1000, "words": 3000, "dashboards": 60}


class Color(enum.Enum):
    RED = "red"
    BLUE = "blue"


class Money:
    def __init__(self, text):
        if not str(text).endswith("EUR"):
            raise ValueError(text)
        self.text = str(text)

    def __eq__(self, other):
        return isinstance(other, Money) and self.text == other.text

    def __hash__(self):
        return hash(self.text)

    def __repr__(self):
        return f"Money({self.text})"


TYPES = {
    "str": (str, lambda t: t),
    "int": (int, lambda t: int(t)),
    "float": (float, lambda t: float(t)),
    "bool": (bool, lambda t: t.lower() in ("true", "1", "yes", "on", "y")),
    "str | None": (str | None, lambda t: t),
    "int | None": (int | None, lambda t: int(t)),
    "Optional[bool]": (Optional[bool], lambda t: t.lower() in ("true", "1", "yes", "on", "y")),
    "Union[None, float]": (Union[None, float], lambda t: float(t)),
    "Annotated[int, 'x']": (Annotated[int, "x"], lambda t: int(t)),
    "pathlib.Path": (pathlib.Path, lambda t: pathlib.Path(t)),
    "Color": (Color, lambda t: Color(t)),
    "Money": (Money, lambda t: Money(t)),
}
ENV = [None, "", "0", "1", "-7", "3.5", "true", "Yes", "off", "red", "5 EUR", "a b", "None", "é"]
DEFAULTS = ["text", 5, None]
PLACES = ("own", "base", "grandbase", "mixin", "base-redefined", "base-retyped", "own-without-default", "base-default-below", "mixin-after")


def classes(place, ann, default, other):
    """The class whose instance is made, and the value its class gives."""
    from asyncz.conf.global_settings import Settings

    def make(name, bases, annotated=None, **values):
        ns = {"__module__": __name__, "__qualname__": name, **values}
        if annotated:
            ns["__annotations__"] = dict(annotated)
        return type(name, bases, ns)

    if place == "own":
        return make("C", (Settings,), {"zz": ann}, zz=default), default
    if place == "own-without-default":
        return make("C", (Settings,), {"zz": ann}), None
    if place == "base":
        return make("C", (make("B", (Settings,), {"zz": ann}, zz=default),)), default
    if place == "grandbase":
        a = make("A", (Settings,), {"zz": ann}, zz=default)
        return make("C", (make("B", (a,), {"other": int}, other=1),), {"more": "str"}, more="m"), default
    if place == "mixin":
        m = make("M", (), {"zz": ann}, zz=default)
        return make("C", (m, Settings)), default
    if place == "mixin-after":
        b = make("B", (Settings,), {"zz": ann}, zz=default)
        m = make("M", (), {"unrelated": int}, unrelated=2)
        return make("C", (b, m)), default
    if place == "base-redefined":
        return make("C", (make("B", (Settings,), {"zz": ann}, zz=other),), zz=default), default
    if place == "base-default-below":
        return make("C", (make("B", (Settings,), {"zz": ann}),), zz=default), default
    if place == "base-retyped":
        wrong = "int" if ann in (str, "str") else "str"
        return make("C", (make("B", (Settings,), {"zz": wrong}, zz=other),), {"zz": ann}, zz=default), default
    raise AssertionError(place)


class Env:
    def __init__(self, **values):
        self.values = values

    def __enter__(self):
        self.old = {k: os.environ.get(k) for k in self.values}
        for k, v in self.values.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v

    def __exit__(self, *exc):
        for k, v in self.old.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def outcome(f):
    try:
        return ("ok", f())
    except Exception as e:
        return ("raised", type(e).__name__)


def declarations(res, tier, name):
    real, cast = TYPES[name]
    for spelling, place, default in itertools.product(("real", "text", "builtin-free text"), PLACES, DEFAULTS):
        ann = real if spelling == "real" else name if spelling == "text" else f" {name} ".strip().replace("'x'", '"x"')
        got = outcome(lambda: classes(place, ann, default, "other"))
        if got[0] != "ok":
            res.violation("class", "a settings class cannot be made", type=name, spelling=spelling, place=place, got=got)
            continue
        cls, value = got[1]
        for env, kwargs in itertools.product(ENV, ({}, {"zz": 77}, {"zz": None})):
            exp = ("ok", kwargs.get("zz", value))
            if env is not None:
                exp = outcome(lambda: cast(env))
                if exp[0] != "ok":
                    exp = ("raised", "ValueError")
            with Env(ZZ=env):
                got = outcome(lambda: cls(**kwargs))
            res.count(traces_validated_against_impl=1, declarations=1, transitions=1)
            detail = dict(type=name, spelling=spelling, place=place, default=default, env=env, kwargs=kwargs)
            if got[0] == "ok":
                s = got[1]
                got = outcome(lambda: s.zz)
                dumped = outcome(lambda: s.dict().get("zz", "missing"))
                if got[0] == "ok" and (dumped[0] != "ok" or repr(dumped[1]) != repr(got[1])):
                    res.violation(f"dump:{place}", "a declared setting is not dumped with its value", got=repr(dumped), expected=repr(got), **detail)
            if (got[0], repr(got[1])) != (exp[0], repr(exp[1])):
                res.violation(f"value:{name}:{place}", "a declared setting has not the value of its environment variable, argument or class", got=repr(got), expected=repr(exp), **detail)
            res.seen("states", (name, repr(got)))


def hierarchies():
    from functools import cached_property

    from asyncz.conf.global_settings import Settings
    from mc import settingsmod as m

    def make(name, bases, annotated=None, **values):
        ns = {"__module__": __name__, "__qualname__": name, **values}
        if annotated:
            ns["__annotations__"] = dict(annotated)
        return type(name, bases, ns)

    boom = property(lambda self: 1 / 0)
    base = {"debug": False, "version": Settings.version, "secret_key": None}
    yield Settings, base, {"dashboard_config"}
    yield m.Documented, {**base, "debug": True, "secret_key": "development-only-secret"}, {"dashboard_config"}
    yield m.Annotated, {**base, "debug": True, "secret_key": "annotated", "retries": 3, "tags": ["a"]}, {"dashboard_config"}
    yield m.Grandchild, {**base, "debug": True, "secret_key": "annotated", "retries": 5, "tags": ["a"], "region": "eu"}, {"dashboard_config", "region_and_retries"}
    yield m.Hook, {**base, "secret_key": "none-seen"}, {"dashboard_config"}
    yield make("P", (Settings,), {"a": "int | None"}, a=None, broken=boom, lazy=cached_property(lambda self: 4)), {**base, "a": None}, {"dashboard_config", "lazy"}
    yield make("Q", (m.Grandchild,), {"dict_like": "dict[str, int]"}, dict_like={"x": 1}, none=property(lambda self: None)), {**base, "debug": True, "secret_key": "annotated", "retries": 5, "tags": ["a"], "region": "eu", "dict_like": {"x": 1}}, {"dashboard_config", "region_and_retries", "none"}
    # a setting may be computed by a subclass
    computed = make("R", (Settings,), secret_key=property(lambda self: "computed"))
    yield computed, {k: v for k, v in base.items() if k != "secret_key"}, {"dashboard_config", "secret_key"}
    yield make("S", (computed,), {"z": float}, z=1.5), {**{k: v for k, v in base.items() if k != "secret_key"}, "z": 1.5}, {"dashboard_config", "secret_key"}


def exports(res, tier):
    with Env(DEBUG=None, VERSION=None, SECRET_KEY=None, RETRIES=None, TAGS=None, REGION=None):
        for cls, fields, properties in hierarchies():
            got = outcome(cls)
            if got[0] != "ok":
                res.violation(f"instance:{cls.__name__}", "a settings class cannot be used", got=got)
                continue
            s = got[1]
            for name, value in fields.items():
                if getattr(s, name, "missing") != value:
                    res.violation(f"field:{cls.__name__}", "a setting has not its value", name=name, got=repr(getattr(s, name, "missing")), expected=repr(value))
            names = sorted(fields) + sorted(properties)
            for none, upper, include in itertools.product((False, True), repeat=3):
                for exclude in [None] + [set(c) for k in range(3) for c in itertools.combinations(names, k)]:
                    kw = dict(exclude_none=none, upper=upper, exclude=exclude, include_properties=include)
                    got = outcome(lambda: s.dict(**kw))
                    got_t = outcome(lambda: s.tuple(**kw))
                    all_ = dict(fields)
                    if include:
                        all_.update({p: getattr(s, p) for p in properties})
                    exp = {(k.upper() if upper else k): v for k, v in all_.items() if k not in (exclude or ()) and not (none and v is None)}
                    res.count(traces_validated_against_impl=1, exports=1, transitions=2)
                    res.seen("states", (cls.__name__, repr(sorted(exp))))
                    if got != ("ok", exp):
                        res.violation(f"dict:{cls.__name__}", "the exported settings are not the declared ones", flags=kw, got=repr(got), expected=repr(exp))
                    if got[0] == "ok" and (got_t[0] != "ok" or list(got_t[1]) != list(got[1].items())):
                        res.violation("tuple", "the pairs are not those of the dictionary", flags=kw, got=repr(got_t))


def words(res, tier, first):
    """The global settings object is the one the monkay instance has at the moment."""
    import asyncz
    from mc import settingsmod as m

    depth = 6 if tier == "thorough" else 5
    ops = [("set", "debug", 1), ("set", "secret_key", "k"), ("set", "new", 5), ("del", "new"), ("enter", m.Documented), ("enter", m.Dash), ("enter", None), ("exit",), ("replace", m.Annotated)]
    forward = asyncz.settings
    names = ("debug", "secret_key", "new", "retries", "version")
    with Env(DEBUG=None, VERSION=None, SECRET_KEY=None, RETRIES=None, TAGS=None):
        original = asyncz.monkay.settings
        for word in itertools.product(range(len(ops)), repeat=depth):
            if word[0] != first:
                continue
            base = asyncz.Settings()
            asyncz.monkay.settings = base
            model = [{n: getattr(base, n) for n in names if hasattr(base, n)}]
            with ExitStack() as stack:
                open_ = []
                try:
                    for pos, i in enumerate(word):
                        op = ops[i]
                        res.count(transitions=1)
                        if op[0] == "set":
                            setattr(forward, op[1], op[2])
                            model[-1][op[1]] = op[2]
                        elif op[0] == "del":
                            got = outcome(lambda: delattr(forward, op[1]))
                            had = model[-1].pop(op[1], None) is not None
                            if (got[0] == "ok") != had:
                                res.violation("delete", "a setting is deleted other than it exists", word=word, at=pos, got=got)
                        elif op[0] == "enter":
                            new = op[1]() if op[1] else asyncz.Settings(secret_key="given")
                            cm = asyncz.monkay.with_settings(new)
                            cm.__enter__()
                            open_.append(cm)
                            model.append({n: getattr(new, n) for n in names if hasattr(new, n)})
                        elif op[0] == "exit":
                            if open_:
                                open_.pop().__exit__(None, None, None)
                                model.pop()
                        else:
                            if not open_:
                                new = op[1]()
                                asyncz.monkay.settings = new
                                model[-1] = {n: getattr(new, n) for n in names if hasattr(new, n)}
                        seen = {n: getattr(forward, n) for n in names if hasattr(forward, n)}
                        if seen != model[-1]:
                            res.violation(f"forward:{op[0]}", "the settings seen are not those in force", word=[repr(ops[j]) for j in word], at=pos, got=seen, expected=model[-1])
                            break
                        if forward.dashboard_config.secret_key != model[-1]["secret_key"]:
                            res.violation("dashboard-secret", "the dashboard's secret is not the one of the settings", word=[repr(ops[j]) for j in word], at=pos)
                        res.seen("states", repr(sorted(model[-1].items(), key=str)))
                    res.count(traces_validated_against_impl=1, words=1)
                finally:
                    while open_:
                        open_.pop().__exit__(None, None, None)
                del stack
        asyncz.monkay.settings = original


SCRIPT = """
import json, sys, os
out = []
def view():
    import asyncz
    s = asyncz.settings
    return {"dict": {k: v for k, v in s.dict().items()}, "prefix": s.dashboard_config.dashboard_url_prefix, "secret": s.dashboard_config.secret_key, "cls": type(asyncz.monkay.settings).__name__}
for n in range(2):
    try:
        out.append(view())
    except Exception as e:
        out.append(type(e).__name__)
try:
    from asyncz.contrib.dashboard.admin import AsynczAdmin
    a = AsynczAdmin()
    out.append([a.url_prefix, a.config.secret_key])
except Exception as e:
    out.append(type(e).__name__)
print(json.dumps(out, default=str))
"""


def modules(res, tier):
    from asyncz import __version__

    base = {"debug": False, "version": __version__, "secret_key": None}
    good = {
        None: (base, "/dashboard", "Settings"),
        "asyncz.conf.global_settings.Settings": (base, "/dashboard", "Settings"),
        "mc.settingsmod.Documented": ({**base, "debug": True, "secret_key": "development-only-secret"}, "/dashboard", "Documented"),
        "mc.settingsmod.Annotated": ({**base, "debug": True, "secret_key": "annotated", "retries": 3, "tags": ["a"]}, "/dashboard", "Annotated"),
        "mc.settingsmod.Dash": ({**base, "secret_key": "dash"}, "/dash", "Dash"),
        "mc.settingsmod:Grandchild": ({**base, "debug": True, "secret_key": "annotated", "retries": 5, "tags": ["a"], "region": "eu"}, "/dashboard", "Grandchild"),
    }
    bad = ["mc.settingsmod.Missing", "mc.nosuchmodule.Settings"]
    repo = os.environ.get("ASYNCZ_REPO") or str(pathlib.Path(sys.modules["asyncz"].__file__).parent.parent)
    runs = []
    for module in list(good) + bad:
        for env in ({}, {"DEBUG": "yes"}, {"SECRET_KEY": "from-env"}, {"DEBUG": "no", "SECRET_KEY": ""}):
            e = {k: v for k, v in os.environ.items() if k not in ("ASYNCZ_SETTINGS_MODULE", "DEBUG", "SECRET_KEY", "VERSION", "RETRIES", "TAGS", "REGION", "LD_PRELOAD")}
            e["PYTHONPATH"] = f"{repo}:{pathlib.Path(__file__).resolve().parent.parent}"
            e.update(env)
            if module:
                e["ASYNCZ_SETTINGS_MODULE"] = module
            runs.append((module, env, subprocess.Popen([sys.executable, "-B", "-c", SCRIPT], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd="/", text=True)))
            if len(runs) % 4 == 0:
                runs[-1][2].wait()
    for module, env, proc in runs:
        text, err = proc.communicate(timeout=120)
        res.count(traces_validated_against_impl=1, words=1, transitions=3)
        try:
            got = json.loads(text)
        except ValueError:
            res.violation("module-crash", "settings of a module cannot be used at all", module=module, env=env, err=err[-400:])
            continue
        if module in bad:
            if any(isinstance(g, (dict, list)) for g in got):
                res.violation("module-missing", "a settings module which does not exist is passed over", module=module, got=got)
            continue
        fields, prefix, cls = good[module]
        fields = dict(fields)
        if "DEBUG" in env:
            fields["debug"] = env["DEBUG"] == "yes"
        if "SECRET_KEY" in env:
            fields["secret_key"] = env["SECRET_KEY"]
        exp = {"dict": fields, "prefix": prefix, "secret": fields["secret_key"], "cls": cls}
        if got != [exp, exp, [prefix, fields["secret_key"]]]:
            res.violation(f"module:{module}", "the settings in force are not those of the settings module and the environment", env=env, got=got, expected=exp)
        res.seen("states", repr(got))


# ---------------------------------------------------------------- dashboard
DASH = [("title", "My & Title"), ("header_title", "Head<er"), ("favicon", "/f.ico"), ("session_cookie", "other_cookie"), ("max_age", 60), ("max_age", None), ("path", "/tools"), ("same_site", "strict"), ("https_only", True), ("domain", "example.org"), ("dashboard_url_prefix", "/tools")]


def dashboards(res, tier, part):
    import html

    import asyncz
    from asyncz.conf.global_settings import Settings
    from asyncz.contrib.dashboard.admin import AsynczAdmin, SimpleUsernamePasswordBackend
    from asyncz.contrib.dashboard.config import DashboardConfig
    from asyncz.schedulers import AsyncIOScheduler
    from mc.asgi import serve
    from asyncz.contrib.dashboard.admin.protocols import User

    cases = []
    for k in range(4 if tier == "thorough" else 3):
        for c in itertools.combinations(DASH, k):
            if len({n for n, _ in c}) == k:
                cases.append(dict(c))
    original = asyncz.monkay.settings
    for opts in cases[part::4]:
        class S(Settings):
            secret_key = "one"

            @property
            def dashboard_config(self):
                return DashboardConfig(secret_key=self.secret_key, **opts)

        apps = {}
        with Env(SECRET_KEY=None):
            asyncz.monkay.settings = S()
            try:
                prefix = opts.get("dashboard_url_prefix", "/dashboard")
                for name, secret in (("a", "one"), ("b", "one"), ("c", "two"), ("d", None), ("e", None)):
                    asyncz.monkay.settings.secret_key = secret
                    admin = AsynczAdmin(enable_login=True, backend=SimpleUsernamePasswordBackend(lambda u, p: User(id=u, name=u, is_admin=False) if (u, p) == ("u", "p") else None), scheduler=AsyncIOScheduler())
                    apps[name] = admin.get_asgi_app(with_url_prefix=True)
                r = serve(apps["a"], "POST", "/login", [("content-type", "application/x-www-form-urlencoded")], b"username=u&password=p")
                res.count(traces_validated_against_impl=1, dashboards=1, transitions=1)
                detail = dict(options=opts)
                cookie = r.get("set-cookie")
                if r.status not in (302, 303) or not cookie:
                    res.violation("login", "a configured dashboard cannot be logged in to", got=repr(r), cookie=cookie, **detail)
                    continue
                parts = [p.strip() for p in cookie.split(";")]
                name, _, value = parts[0].partition("=")
                attrs = {p.partition("=")[0].lower(): p.partition("=")[2] for p in parts[1:]}
                age = opts.get("max_age", 14 * 24 * 3600)
                exp = {"path": opts.get("path", "/"), "samesite": opts.get("same_site", "lax"), "httponly": ""}
                if age is not None:
                    exp["max-age"] = str(age)
                if opts.get("https_only"):
                    exp["secure"] = ""
                if opts.get("domain"):
                    exp["domain"] = opts["domain"]
                if (name, {k: v.lower() for k, v in attrs.items()}) != (opts.get("session_cookie", "asyncz_admin"), exp):
                    res.violation("cookie", "the session cookie is not the configured one", got=cookie, expected=repr(exp), **detail)
                for app, allowed in (("a", True), ("b", True), ("c", False), ("d", False), ("e", False)):
                    page = serve(apps[app], "GET", f"{prefix}/", [("cookie", f"{name}={value}")])
                    res.count(transitions=1)
                    if (page.status == 200) != allowed:
                        res.violation("secret", "a session is valid other than the secrets of the dashboards agree", app=app, got=repr(page), **detail)
                    if allowed and page.status == 200:
                        for key, text in (("header_title", html.escape(opts.get("header_title", "Asyncz "))), ("favicon", opts.get("favicon", f"{prefix}/static/favicon.ico"))):
                            if text not in page.text:
                                res.violation(f"page:{key}", "the page does not show the configured text", expected=text, **detail)
                    res.seen("states", (repr(sorted(opts.items(), key=str)), app, page.status))
            finally:
                asyncz.monkay.settings = original
    res.sample({"part": part})


def items(tier):
    return [("declare", t) for t in TYPES] + [("exports", 0)] + [("words", i) for i in range(9)] + [("modules", 0)] + [("dash", i) for i in range(4)]


def explore(item, res, tier, seed):
    import logging

    logging.disable(logging.CRITICAL)
    kind, arg = item
    {"declare": declarations, "exports": lambda r, t, a: exports(r, t), "words": words, "modules": lambda r, t, a: modules(r, t), "dash": dashboards}[kind](res, tier, arg)
