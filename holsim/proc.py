"""Processes: one forked child per simulated run, pristine evaluation
processes ("zygote"), packing of tensors."""
import io
import os
import pickle
import select
import signal
import struct
import time
import traceback

import numpy as np
import torch


# -- packing ---------------------------------------------------------------


class _T:
    __slots__ = ("a", "g")

    def __init__(self, a, g):
        self.a, self.g = a, g

    def __reduce__(self):
        return (_T, (self.a, self.g))


def pack(o):
    if torch.is_tensor(o):
        t = o.detach().cpu().contiguous()
        if t.dtype == torch.bfloat16:  # numpy has no such type
            return _T(t.view(torch.int16).numpy().copy(), "bf16")
        return _T(t.numpy().copy(), isinstance(o, torch.nn.Parameter))
    if isinstance(o, dict):
        return {k: pack(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        r = [pack(v) for v in o]
        return r if isinstance(o, list) else tuple(r)
    return o


def unpack(o):
    if isinstance(o, _T):
        t = torch.from_numpy(np.array(o.a)).clone()  # clone: torch's own alignment
        return t.view(torch.bfloat16) if o.g == "bf16" else t
    if isinstance(o, dict):
        return {k: unpack(v) for k, v in o.items()}
    if isinstance(o, list):
        return [unpack(v) for v in o]
    if isinstance(o, tuple):
        return tuple(unpack(v) for v in o)
    return o


# -- framed pipes ----------------------------------------------------------


def write_msg(fd, obj):
    b = pickle.dumps(obj, protocol=4)
    b = struct.pack("<Q", len(b)) + b
    mv = memoryview(b)
    while mv:
        n = os.write(fd, mv[:1 << 20])
        mv = mv[n:]


def _read_n(fd, n, deadline):
    out = io.BytesIO()
    while n:
        if deadline is not None:
            left = deadline - time.monotonic()
            if left <= 0:
                raise TimeoutError
            r, _, _ = select.select([fd], [], [], left)
            if not r:
                raise TimeoutError
        b = os.read(fd, min(n, 1 << 20))
        if not b:
            raise EOFError
        out.write(b)
        n -= len(b)
    return out.getvalue()


def read_msg(fd, timeout=None):
    deadline = None if timeout is None else time.monotonic() + timeout
    n = struct.unpack("<Q", _read_n(fd, 8, deadline))[0]
    return pickle.loads(_read_n(fd, n, deadline))


class HarnessError(Exception):
    pass


class RunTimeout(HarnessError):
    """The run was cut off by the wall clock: it says nothing."""


class LibraryError(Exception):
    """The code under test raised in a pristine process on a call that must
    succeed."""

    def __init__(self, name, at, msg, tb):
        super().__init__("%s: %s" % (name, msg))
        self.name, self.at, self.msg, self.tb = name, at, msg, tb


def where_raised(e):
    """(raised by the harness itself, package location, formatted tail)"""
    from . import env

    tb = traceback.extract_tb(e.__traceback__)
    here = os.path.dirname(os.path.abspath(__file__))
    own = not tb or tb[-1].filename.startswith(here)
    where = [f for f in tb if f.filename.startswith(env.PKG)]
    at = "%s:%s" % (os.path.basename(where[-1].filename), where[-1].name) if where else "torch"
    return own, at, "".join(traceback.format_list(tb[-8:]))


def fork_call(fn, *args, timeout=120.0):
    """Run fn(*args) in a forked child; returns ('ok', result) | ('err', text) |
    ('timeout', None) | ('dead', status)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            try:
                os.setpgid(0, 0)
            except OSError:
                pass
            try:
                res = ("ok", pack(fn(*args)))
            except RunTimeout:
                res = ("timeout", None)
            except BaseException:
                res = ("err", traceback.format_exc())
            write_msg(w, res)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    try:
        try:
            res = read_msg(r, timeout)
        except TimeoutError:
            res = ("timeout", None)
        except EOFError:
            res = ("dead", None)
    finally:
        os.close(r)
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        try:
            os.waitpid(pid, 0)
        except OSError:
            pass
    if res[0] == "ok":
        return ("ok", unpack(res[1]))
    return res


class Zygote:
    """A process forked before the run touches the code under test; every
    evaluation request is served by a fresh fork of it, i.e. in a process that
    has imported the library and done nothing else."""

    def __init__(self):
        self.rr, rw = os.pipe()
        qr, self.qw = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(self.rr)
                os.close(self.qw)
                self._serve(qr, rw)
            finally:
                os._exit(0)
        os.close(rw)
        os.close(qr)
        self.calls = 0

    def _serve(self, qr, rw):
        while True:
            try:
                fn, args, kw = read_msg(qr)
            except EOFError:
                return
            pid = os.fork()
            if pid == 0:
                try:
                    try:
                        res = ("ok", pack(fn(*unpack(args), **unpack(kw))))
                    except Exception as e:
                        own, at, tb = where_raised(e)
                        res = ("err", traceback.format_exc()) if own else ("lib", (type(e).__name__, at, str(e)[:300], tb))
                    except BaseException:
                        res = ("err", traceback.format_exc())
                    write_msg(rw, res)
                finally:
                    os._exit(0)
            _, st = os.waitpid(pid, 0)
            if st != 0:
                write_msg(rw, ("err", "pristine process died with status %r" % st))

    def call(self, fn, *args, timeout=60.0, **kw):
        self.calls += 1
        write_msg(self.qw, (fn, pack(args), pack(kw)))
        try:
            k, v = read_msg(self.rr, timeout)
        except TimeoutError:
            raise RunTimeout("pristine evaluation")
        if k == "lib":
            raise LibraryError(*v)
        if k != "ok":
            raise HarnessError("pristine evaluation failed:\n" + str(v))
        return unpack(v)

    def close(self):
        for fd in (self.qw, self.rr):
            try:
                os.close(fd)
            except OSError:
                pass
        try:
            os.kill(self.pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except OSError:
            pass
