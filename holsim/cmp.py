"""Comparison of results."""
import torch


def maxabs(t):
    if t is None or t.numel() == 0:
        return 0.0
    f = t[torch.isfinite(t)] if t.is_floating_point() else t
    return float(f.abs().max()) if f.numel() else 0.0


def near(a, b, rtol=2e-6, atol=1e-7):
    """None if the two (possibly nested) results agree, else a short text.
    `rtol` is relative to the largest magnitude of the tensor; NaN == NaN."""
    if a is None or b is None:
        if a is None and b is None:
            return None
        # a missing gradient equals an all-zero gradient
        t = b if a is None else a
        if torch.is_tensor(t) and t.is_floating_point() and maxabs(t) == 0.0 and not torch.isnan(t).any():
            return None
        return "one side missing"
    if torch.is_tensor(a):
        if not torch.is_tensor(b):
            return "type"
        if tuple(a.shape) != tuple(b.shape):
            return "shape %s vs %s" % (tuple(a.shape), tuple(b.shape))
        if a.dtype != b.dtype:
            return "dtype %s vs %s" % (a.dtype, b.dtype)
        if torch.equal(a, b):
            return None
        if not a.is_floating_point():
            return "values differ"
        a, b = a.double(), b.double()
        same = (a == b) | (torch.isnan(a) & torch.isnan(b))
        if bool(same.all()):
            return None
        tol = rtol * max(maxabs(a), maxabs(b)) + atol
        bad = ~(same | ((a - b).abs() <= tol))
        if bool(bad.any()):
            i = int(bad.flatten().nonzero()[0])
            return "%d of %d entries differ, e.g. [%d] %.9g vs %.9g (tolerance %.3g)" % (
                int(bad.sum()), a.numel(), i, float(a.flatten()[i]), float(b.flatten()[i]), tol)
        return None
    if isinstance(a, dict):
        if set(a) != set(b):
            return "keys %s" % sorted(set(a) ^ set(b))[:4]
        for k in sorted(a):
            r = near(a[k], b[k], rtol, atol)
            if r:
                return "%s: %s" % (k, r)
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return "length %d vs %d" % (len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = near(x, y, rtol, atol)
            if r:
                return "[%d] %s" % (i, r)
        return None
    if isinstance(a, float) and isinstance(b, float):
        if a == b or (a != a and b != b):
            return None
        return None if abs(a - b) <= rtol * max(abs(a), abs(b)) + atol else "%r vs %r" % (a, b)
    return None if a == b else "%r vs %r" % (a, b)


def exact(a, b):
    """Bit-for-bit (NaN == NaN; -0.0 == 0.0)."""
    return near(a, b, 0.0, 0.0)


def clone_state(m):
    return {k: v.detach().clone() for k, v in m.state_dict().items() if torch.is_tensor(v)}


def digest(o):
    import hashlib

    h = hashlib.sha1()

    def go(x):
        if torch.is_tensor(x):
            h.update(str(x.dtype).encode() + str(tuple(x.shape)).encode())
            x = x.detach().contiguous()
            h.update((x.view(torch.int16) if x.dtype == torch.bfloat16 else x).numpy().tobytes())
        elif isinstance(x, dict):
            for k in sorted(x, key=str):
                h.update(str(k).encode())
                go(x[k])
        elif isinstance(x, (list, tuple)):
            for y in x:
                go(y)
        else:
            h.update(repr(x).encode())

    go(o)
    return h.hexdigest()
