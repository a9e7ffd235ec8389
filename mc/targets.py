"""Importable task functions."""
LOG = []


def noop(*args, **kwargs):
    return None


def other(*args, **kwargs):
    return None


def record(*args, **kwargs):
    LOG.append((args, tuple(sorted(kwargs.items()))))
    return len(LOG)


def boom(*args, **kwargs):
    raise ValueError("boom")


async def arecord(*args, **kwargs):
    LOG.append((args, tuple(sorted(kwargs.items()))))
    return len(LOG)


async def aboom(*args, **kwargs):
    raise ValueError("aboom")


def two(a, b=2):
    LOG.append((a, b))
    return (a, b)


class Holder:
    def __init__(self, tag="h"):
        self.tag = tag

    def __eq__(self, other):
        return isinstance(other, Holder) and other.tag == self.tag

    def __repr__(self):
        return f"Holder({self.tag!r})"

    def __hash__(self):
        return hash(self.tag)

    def meth(self, *args, **kwargs):
        LOG.append((self.tag, args))
        return self.tag

    @classmethod
    def cmeth(cls, *args, **kwargs):
        LOG.append((cls.__name__, args))
        return cls.__name__

    @staticmethod
    def smeth(*args, **kwargs):
        LOG.append(("static", args))
        return "static"

    class Inner:
        @staticmethod
        def deep(*args, **kwargs):
            LOG.append(("deep", args))
            return "deep"

    def __hidden(self, *args, **kwargs):
        LOG.append(("hidden", self.tag, args))
        return self.tag

    @classmethod
    def __chidden(cls, *args, **kwargs):
        LOG.append(("chidden", cls.__name__, args))
        return cls.__name__

    @staticmethod
    def __shidden(*args, **kwargs):
        LOG.append(("shidden", args))
        return "shidden"

    def private(self):
        return self.__hidden

    @classmethod
    def private_class(cls):
        return cls.__chidden

    @classmethod
    def private_static(cls):
        return cls.__shidden


class Heir(Holder):
    """Inherits every method."""


class _Heir2(Heir):
    """Replaces a class method, the one of its parent is still there."""

    @classmethod
    def cmeth(cls, *args, **kwargs):
        LOG.append(("own", cls.__name__, args))
        return "own"

    def meth(self, *args, **kwargs):
        LOG.append(("own", self.tag, args))
        return "own"

    @classmethod
    def parents(cls):
        return super().cmeth

    def parents_own(self):
        return super().meth


class Meta(type):
    def on_class(cls, *args, **kwargs):
        LOG.append(("on class", cls.__name__, args))
        return cls.__name__


class WithMeta(metaclass=Meta):
    pass


class Callable_:
    """Can be called, but is no function."""

    def __init__(self, tag="c"):
        self.tag = tag

    def __call__(self, *args, **kwargs):
        LOG.append(("called", self.tag, args))
        return self.tag


callable_object = Callable_("module")


class Service:
    """Has something which can't be stored."""

    def __init__(self):
        import threading

        self.lock = threading.Lock()

    def tick(self, *args, **kwargs):
        with self.lock:
            LOG.append(("tick", args, sorted(kwargs)))
        return "tick"


service = Service()


def _make():
    class Local:
        def go(self, *args, **kwargs):
            LOG.append(("local go", args, sorted(kwargs)))
            return "go"

    return Local()


local_object = _make()
lambda_record = lambda *args, **kwargs: record(*args, **kwargs)  # noqa: E731


def decorator(fn):
    import functools

    @functools.wraps(fn)
    def inner(*args, **kwargs):
        LOG.append(("decorated", args))
        return fn(*args, **kwargs)

    return inner


@decorator
def decorated(*args, **kwargs):
    return "decorated"


async def slow(*args, **kwargs):
    """A coroutine which needs its loop for a while."""
    import asyncio

    LOG.append(("begin", args))
    for _ in range(5):
        await asyncio.sleep(0)
    await asyncio.get_running_loop().run_in_executor(None, int)
    await asyncio.sleep(0.01)
    LOG.append(("end", args))


def _renamed(*args, **kwargs):
    LOG.append(("renamed", args))
    return "renamed"


def renamed(*args, **kwargs):
    return record("by name", *args)


renamed.__qualname__ = renamed.__name__ = "_renamed"

import functools  # noqa: E402

partial_record = functools.partial(record, "partial")
