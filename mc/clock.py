"""Python side of the clock seam (native/vclock.c, preloaded by ./check)."""
from __future__ import annotations

import ctypes
from datetime import datetime, timedelta, timezone

_lib = ctypes.CDLL(None)
try:
    _set = _lib.vclock_set
    _set.argtypes = [ctypes.c_int64]
    _off = _lib.vclock_off
    AVAILABLE = True
except AttributeError:  # pragma: no cover - the runner always preloads it
    AVAILABLE = False

UTC = timezone.utc
_EPOCH = datetime(1970, 1, 1, tzinfo=UTC)


def to_us(dt: datetime) -> int:
    return (dt.astimezone(UTC) - _EPOCH) // timedelta(microseconds=1)


def set_us(us: int) -> None:
    _set(us * 1000)


def set_now(dt: datetime) -> None:
    set_us(to_us(dt))


def off() -> None:
    _off()
