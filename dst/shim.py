"""Builds and drives the I/O fault shim."""
from __future__ import annotations

import ctypes
import hashlib
import os
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.path.join(VERIF, "shim", "ioshim.c")


def ensure() -> str:
    h = hashlib.sha256(open(SRC, "rb").read()).hexdigest()[:16]
    so = os.path.join(VERIF, "build", f"ioshim-{h}.so")
    if not os.path.exists(so):
        os.makedirs(os.path.dirname(so), exist_ok=True)
        tmp = so + f".{os.getpid()}"
        subprocess.run(["gcc", "-O1", "-fPIC", "-shared", "-D_GNU_SOURCE", "-o", tmp, SRC, "-ldl"],
                       check=True, capture_output=True)
        os.replace(tmp, so)
    return so


_lib = None


def lib():
    global _lib
    if _lib is None:
        _lib = ctypes.CDLL(os.environ["LD_PRELOAD"])
        _lib.dst_arm.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int]
        _lib.dst_last.restype = ctypes.c_char_p
        for n in ("dst_mops", "dst_rops", "dst_fired"):
            getattr(_lib, n).restype = ctypes.c_long
    return _lib


def arm(root, plan=(), logfd=-1):
    text = "\n".join(f"{c} {i} {a} {x}" for c, i, a, x in plan)
    lib().dst_arm(os.path.realpath(root).encode(), text.encode(), logfd)


def disarm():
    l = lib()
    l.dst_disarm()
    return {"mops": l.dst_mops(), "rops": l.dst_rops(), "fired": l.dst_fired(),
            "last": l.dst_last().decode()}


HOOK = ctypes.CFUNCTYPE(None, ctypes.c_long, ctypes.c_char_p, ctypes.c_char_p)


def set_hook(fn):
    """fn(index, what, path) runs inside the armed operation, before it."""
    cb = HOOK(fn)
    lib().dst_set_hook.argtypes = [ctypes.c_void_p]
    lib().dst_set_hook(ctypes.cast(cb, ctypes.c_void_p))
    return cb


def interrupt_hook():
    """The hook delivers SIGINT's effect to the main thread (Ctrl-C)."""
    fn = ctypes.cast(ctypes.pythonapi.PyErr_SetInterrupt, ctypes.c_void_p)
    lib().dst_set_hook.argtypes = [ctypes.c_void_p]
    lib().dst_set_hook(fn)
