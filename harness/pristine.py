"""Runs a function in a process in which the code under test has never run before.

start() forks a helper while this process is still fresh; call(f, args) has the helper fork a child that computes
f(*args) and sends the result back.
"""
import importlib
import os
import pickle
import struct

HELPER = None


def _read(fd, n):
    b = b""
    while len(b) < n:
        x = os.read(fd, n - len(b))
        if not x:
            raise EOFError
        b += x
    return b


def _get(fd):
    return pickle.loads(_read(fd, struct.unpack("<q", _read(fd, 8))[0]))


def _put(fd, x):
    b = pickle.dumps(x)
    b = struct.pack("<q", len(b)) + b
    while b:
        b = b[os.write(fd, b):]


def start():
    global HELPER
    if HELPER is not None and HELPER[2] == os.getpid():
        return
    r1, w1 = os.pipe()
    r2, w2 = os.pipe()
    if os.fork() == 0:
        os.close(w1)
        os.close(r2)
        try:
            while True:
                m, f, args = _get(r1)
                pid = os.fork()
                if pid == 0:
                    try:
                        _put(w2, ("ok", getattr(importlib.import_module(m), f)(*args)))
                    except BaseException as x:
                        _put(w2, ("raised", type(x).__name__))
                    os._exit(0)
                os.waitpid(pid, 0)
        except BaseException:
            pass
        os._exit(0)
    os.close(r1)
    os.close(w2)
    HELPER = (w1, r2, os.getpid())


class Failed(Exception):
    pass


def call(f, *args):
    _put(HELPER[0], (f.__module__, f.__name__, args))
    k, x = _get(HELPER[1])
    if k != "ok":
        raise Failed(x)
    return x
