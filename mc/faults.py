"""Crash/fault injection on the real code through the LD_PRELOAD shim: the action runs in a forked child."""
import ctypes
import errno
import os
import pickle
import signal
import traceback

from mc.core import HarnessError

_lib = None


def lib():
    global _lib
    if _lib is None:
        path = os.environ.get('MC_SHIM')
        if not path:
            raise HarnessError('fault shim not loaded')
        _lib = ctypes.CDLL(path)
        _lib.mc_arm.argtypes = [ctypes.c_char_p, ctypes.c_long, ctypes.c_long, ctypes.c_int, ctypes.c_int]
        _lib.mc_count.restype = ctypes.c_long
        _lib.mc_size.restype = ctypes.c_long
        _lib.mc_size.argtypes = [ctypes.c_long]
        _lib.mc_kind.argtypes = [ctypes.c_long]
    return _lib


def run(directory, action, n=-1, keep=0, err=0, sticky=0, timeout=50):
    """returns ('killed'|'ok'|'exc', text, ops) where ops = [(kind, size)]"""
    L = lib()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            signal.alarm(timeout)
            os.close(r)
            L.mc_arm(os.path.realpath(directory).encode(), n, keep, err, sticky)
            try:
                action()
                res = ('ok', '')
            except BaseException as e:
                res = ('exc', '%s: %s' % (type(e).__name__, e))
            L.mc_disarm()
            c = L.mc_count()
            ops = [(chr(L.mc_kind(i)), L.mc_size(i)) for i in range(min(c, 4096))]
            os.write(w, pickle.dumps(res + (ops,)))
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if os.WIFSIGNALED(status):
        if os.WTERMSIG(status) == signal.SIGKILL:
            return 'killed', '', None
        return 'exc', 'signal %s' % os.WTERMSIG(status), None
    if not data:
        raise HarnessError('child failed without result')
    return pickle.loads(data)


def points(ops, torn_all_below=4096):
    """all crash points of an operation log: before every operation, every torn prefix of every write, and the end"""
    for i, (kind, size) in enumerate(ops):
        yield dict(n=i, keep=0, err=0, sticky=0)
        if kind == 'w':
            ks = range(1, size + 1) if size <= torn_all_below else \
                sorted(set(list(range(1, 65)) + list(range(size - 64, size + 1)) + list(range(0, size, 997)) + [4096, 8192, 16384, 65536]))
            for k in ks:
                if 0 < k <= size:
                    yield dict(n=i, keep=k, err=0, sticky=0)
    for i, (kind, size) in enumerate(ops):
        for e in (errno.ENOSPC, errno.EIO):
            for sticky in (0, 1):
                yield dict(n=i, keep=0, err=e, sticky=sticky)
        if kind == 'w' and size > 1:
            yield dict(n=i, keep=size // 2, err=errno.ENOSPC, sticky=1)
