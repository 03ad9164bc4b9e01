"""What a process that has never used the package computes.

Module-level or class-level state (a cache, a shared buffer, a default that was altered) spoils the "alone" and "fresh" side of a
comparison as much as the other one when both run in the same process. So that side is computed in a child of a process which has
imported the package and nothing more.
"""
import importlib
import os
import pickle
import signal
import struct
import sys
import traceback

from . import core

LIMIT = 120  # seconds for one computation
_FD = {}


def _read(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            raise EOFError
        out += b
    return out


def _get(fd):
    return pickle.loads(_read(fd, struct.unpack("<Q", _read(fd, 8))[0]))


def _put(fd, obj):
    b = pickle.dumps(obj)
    b = struct.pack("<Q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def _answer(fd, mod, fn, args):
    import warnings

    from . import cli, sut

    try:
        with warnings.catch_warnings(), sut.quiet():
            warnings.simplefilter("ignore")
            out = ("ok", getattr(importlib.import_module(mod), fn)(*args), "")
    except BaseException as e:  # noqa: BLE001
        out = ("sut" if cli.in_sut(e.__traceback__) else "harness", "{}: {}".format(type(e).__name__, e), traceback.format_exc())
    _put(fd, out)


def _serve(rd, wr):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    while True:
        try:
            req = _get(rd)
        except (EOFError, OSError):
            os._exit(0)
        pid = os.fork()
        if not pid:
            try:
                os.close(rd)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.setitimer(signal.ITIMER_REAL, LIMIT)
                _answer(wr, *req)
            finally:
                os._exit(0)
        _, status = os.waitpid(pid, 0)
        if status:
            _put(wr, ("harness", "the pristine process ended with status {}".format(status), ""))


def start():
    """To be called in each worker before the package is used."""
    a, b = os.pipe(), os.pipe()
    if not os.fork():
        try:
            os.close(a[1])
            os.close(b[0])
            _serve(a[0], b[1])
        finally:
            os._exit(0)
    os.close(a[0])
    os.close(b[1])
    _FD["to"], _FD["from"] = a[1], b[0]


def call(fn, *args):
    """fn(*args) (fn: a function of a module), computed in a process which has not used the package before."""
    if not _FD:
        start()
    if "lost" in _FD:
        raise core.Inconclusive("the pristine process was lost")
    sys.stdout.flush()
    _FD["lost"] = True
    _put(_FD["to"], (fn.__module__, fn.__name__, args))
    how, value, text = _get(_FD["from"])
    del _FD["lost"]
    if how == "ok":
        return value
    if how == "sut":
        raise core.Violation("unexpected-exception", "{} on a valid input, in a process of its own\n{}".format(value, text))
    raise core.HarnessError("{}\n{}".format(value, text))
