"""Seams: where the simulator injects faults, dirt, clocks and schedules into
the unmodified code under test."""
import ast
import random
import sys
import threading
import time

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode

from . import env

_RealLock = threading.Lock
_RealRLock = threading.RLock
_current = None  # active Scheduler, if any


class SimDeadlock(BaseException):
    """A lock created by the code under test can never be acquired."""


class SimLock:
    """Cooperative stand-in for locks created by the code under test."""

    def __init__(self, reentrant=False):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def _free(self, me):
        return self.owner is None or (self.reentrant and self.owner == me)

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if not self._free(me):
            if not blocking:
                return False
            if timeout is not None and timeout >= 0:
                return False
            s = _current
            if s is None:
                raise SimDeadlock("lock is held for ever")
            s.block(lambda: self._free(me))
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count <= 0:
            self.owner = None
            self.count = 0

    def locked(self):
        return self.owner is not None

    def _is_owned(self):
        return self.owner == threading.get_ident()

    def _release_save(self):
        c = self.count
        self.owner = None
        self.count = 0
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self.count = c

    def _at_fork_reinit(self):
        self.owner = None
        self.count = 0

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):  # behaves like a real lock: cannot be pickled
        raise TypeError("cannot pickle '_thread.lock' object")


def _from_repo(depth=6):
    f = sys._getframe(2)
    for _ in range(depth):
        if f is None:
            return False
        if f.f_code.co_filename.startswith(env.PKG):
            return True
        f = f.f_back
    return False


def install_locks():
    """Before importing the package: locks it creates become cooperative."""

    def lock():
        return SimLock(False) if _from_repo() else _RealLock()

    def rlock():
        return SimLock(True) if _from_repo() else _RealRLock()

    threading.Lock = lock
    threading.RLock = rlock


# -- faults ----------------------------------------------------------------

EXC = {
    "oom": lambda: RuntimeError("[enforce fail at alloc_cpu.cpp] DefaultCPUAllocator: not enough memory (injected)"),
    "mem": lambda: MemoryError("injected"),
    "intr": lambda: KeyboardInterrupt("injected"),
    "rt": lambda: RuntimeError("injected runtime error"),
}


_CLEANUP = {}


def _cleanup_lines(fn):
    """Lines of a source file that acquire or release something: `with` and
    `try` headers, bodies of `finally` and `except`.  The tracing hook can raise
    there at points the interpreter itself never interrupts (between the end of
    a block and its __exit__), and a failing clean-up excuses what it was to
    clean up, so no fault is placed on them or in anything they call."""
    r = _CLEANUP.get(fn)
    if r is None:
        r = set()
        try:
            with open(fn) as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                r.update(range(n.lineno, max(n.body[0].lineno, n.lineno + 1)))
            elif isinstance(n, ast.Try):
                r.add(n.lineno)
                for b in n.finalbody + n.handlers:
                    r.update(range(b.lineno, b.end_lineno + 1))
        _CLEANUP[fn] = r
    return r


def in_cleanup(f):
    while f is not None:
        c = f.f_code
        if c.co_filename.startswith(env.PKG):
            if c.co_name in ("__enter__", "__exit__", "__del__") or f.f_lineno in _cleanup_lines(c.co_filename):
                return True
        f = f.f_back
    return False


class OpFault(TorchDispatchMode):
    """Raises at the k-th tensor operation (before or after performing it)."""

    def __init__(self, k, exc, after=False):
        super().__init__()
        self.k, self.exc, self.after = k, exc, after
        self.n = 0
        self.fired = None

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        now = self.fired is None and 0 <= self.k <= self.n and not in_cleanup(sys._getframe(1))
        self.n += 1
        if now and not self.after:
            self.fired = str(func)
            raise EXC[self.exc]()
        r = func(*args, **(kwargs or {}))
        if now:
            self.fired = str(func)
            raise EXC[self.exc]()
        return r


class LineFault:
    """Raises at the k-th executed source line of the package under test."""

    def __init__(self, k, exc):
        self.k, self.exc = k, exc
        self.n = 0
        self.fired = None

    def _global(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(env.PKG):
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            now = self.fired is None and 0 <= self.k <= self.n and not in_cleanup(frame)
            self.n += 1
            if now:
                self.fired = "%s:%d" % (frame.f_code.co_filename[len(env.PKG):], frame.f_lineno)
                raise EXC[self.exc]()
        return self._local

    def __enter__(self):
        sys.settrace(self._global)
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        return False


class NoFault:
    n = 0
    fired = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def fault(d):
    """d: None | {"at": "op"|"line", "k": int, "exc": name, "after": bool}"""
    if d is None:
        return NoFault()
    if d["at"] == "op":
        return OpFault(d["k"], d["exc"], d.get("after", False))
    return LineFault(d["k"], d["exc"])


class Dirty(TorchDispatchMode):
    """Uninitialised memory handed out by the allocator contains seeded garbage."""

    NAMES = ("aten::empty.memory_format", "aten::new_empty", "aten::empty_like", "aten::empty_strided",
             "aten::new_empty_strided", "aten::resize_", "aten::resize")

    def __init__(self, seed, clean=False):
        super().__init__()
        self.r = random.Random(seed)
        self.n = 0
        self.clean = clean  # same interposition, zeroes instead of garbage

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        name = func._schema.name + ("." + func._schema.overload_name if func._schema.overload_name else "")
        if name in self.NAMES or func._schema.name in self.NAMES:
            old = args[0].numel() if func._schema.name.startswith("aten::resize") else 0
            r = func(*args, **(kwargs or {}))
            if torch.is_tensor(r) and r.numel() > old and old == 0 and not r.is_sparse and r.device.type == "cpu":
                if r.is_floating_point():
                    v = 0.0 if self.clean else self.r.choice([1e30, -7.5, float("nan"), 3.25, -1e-3, 1234.5])
                    torch.ops.aten.fill_.Scalar(r, v)
                    self.n += 1
                elif r.dtype in (torch.int64, torch.int32, torch.uint8):
                    torch.ops.aten.fill_.Scalar(r, 0 if self.clean else self.r.choice([1, 3, 77]))
                    self.n += 1
            return r
        return func(*args, **(kwargs or {}))


class Clock:
    """Simulated clock and entropy: everything the process can read about real
    time or OS randomness is replaced by seeded values."""

    def __init__(self, seed, base=1.6e9, rate=1.0):
        self.r = random.Random(seed)
        self.t = base
        self.rate = rate
        self.reads = 0

    def _tick(self):
        self.reads += 1
        self.t += self.r.random() * self.rate
        if self.r.random() < 0.05:
            self.t += self.r.choice([-3600.0, 86400.0, 1e6])  # jumps
        return self.t

    def __enter__(self):
        import os

        self.saved = {}
        for n, f in (("time", lambda: self._tick()), ("time_ns", lambda: int(self._tick() * 1e9)),
                     ("perf_counter", lambda: self._tick()), ("perf_counter_ns", lambda: int(self._tick() * 1e9)),
                     ("monotonic", lambda: self._tick()), ("monotonic_ns", lambda: int(self._tick() * 1e9)),
                     ("process_time", lambda: self._tick())):
            self.saved[n] = getattr(time, n)
            setattr(time, n, f)
        self.ur = os.urandom
        os.urandom = lambda n: bytes(self.r.randrange(256) for _ in range(n))
        self.pid = os.getpid
        fake = self.r.randrange(2, 30000)
        os.getpid = lambda: fake
        return self

    def __exit__(self, *a):
        import os

        for n, f in self.saved.items():
            setattr(time, n, f)
        os.urandom = self.ur
        os.getpid = self.pid
        return False


# -- ambient state ---------------------------------------------------------


def ambient():
    """Process-wide state a library call must not leak into."""
    import hashlib
    import os

    return {
        "grad_enabled": torch.is_grad_enabled(),
        "inference": torch.is_inference_mode_enabled(),
        "default_dtype": str(torch.get_default_dtype()),
        "default_device": str(torch.get_default_device()) if hasattr(torch, "get_default_device") else "",
        "num_threads": torch.get_num_threads(),
        "deterministic": torch.are_deterministic_algorithms_enabled(),
        "anomaly": torch.is_anomaly_enabled(),
        "flush": None,
        "torch_rng": hashlib.sha1(torch.get_rng_state().numpy().tobytes()).hexdigest(),
        "py_rng": hashlib.sha1(repr(random.getstate()).encode()).hexdigest(),
        "np_rng": hashlib.sha1(repr(np.random.get_state()).encode()).hexdigest(),
        "cwd": os.getcwd(),
        "reclimit": sys.getrecursionlimit(),
    }


def ambient_diff(a, b, ignore=()):
    return [k for k in a if k not in ignore and a[k] != b[k]]
