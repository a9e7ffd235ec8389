"""Python side of the fault seam (native/vfs.c, preloaded by ./check)."""
from __future__ import annotations

import ctypes
import errno

_lib = ctypes.CDLL(None)
_lib.vfs_setup.argtypes = [ctypes.c_char_p, ctypes.c_int, ctypes.c_long, ctypes.c_long, ctypes.c_int]
_lib.vfs_count.restype = ctypes.c_long
_lib.vfs_len.argtypes = [ctypes.c_long]
_lib.vfs_len.restype = ctypes.c_int64
_lib.vfs_kind.argtypes = [ctypes.c_long]
KIND = {"o": "create", "w": "write", "r": "rename", "u": "unlink", "d": "mkdir", "t": "truncate", "l": "link", "s": "send"}


def watch(prefix):
    """From now on files opened below prefix are known, nothing fails."""
    _lib.vfs_setup(str(prefix).encode(), 1, -1, -1, errno.EIO)


def count(prefix):
    _lib.vfs_setup(str(prefix).encode(), 1, -1, -1, errno.EIO)


def cut(prefix, n, torn=-1):
    _lib.vfs_setup(str(prefix).encode(), 2, n, torn, errno.EIO)


def fail(prefix, n, torn=-1, err=errno.ENOSPC):
    _lib.vfs_setup(str(prefix).encode(), 3, n, torn, err)


def off():
    _lib.vfs_off()


def calls():
    """What was counted: (kind, bytes)."""
    return [(KIND.get(chr(_lib.vfs_kind(i)), "?"), _lib.vfs_len(i)) for i in range(_lib.vfs_count())]


def dead():
    return bool(_lib.vfs_dead())
