"""The link functions of piecewise layers, observed by evaluating them."""
import math

import torch

from . import env


def pieces(model):
    """[(name, module, kind)] of the piecewise layers of a network; kind is
    'c' (continuous sum), 'cp' (continuous product) or 'd' (discontinuous)."""
    P = env.mod("poly")
    out = []
    for name, m in model.named_modules():
        if isinstance(m, P.PiecewiseDiscontinuous):
            out.append((name, m, "d"))
        elif isinstance(m, P.PiecewisePolynomial):
            out.append((name, m, "c"))
        elif isinstance(m, P.Piecewise):
            out.append((name, m, "cp"))
    return out


def order(m, kind):
    """(nodes per segment, segments)"""
    n = getattr(m, "n", None) or getattr(m, "_n", None)
    k = m.w.shape[-1]
    seg = k // n if kind == "d" else (k - 1) // (n - 1)
    return int(n), int(seg)


def evaluator(m, kind, w=None):
    """-> function t[float64 T] -> values [T, out*in] of every single link,
    without periodicity."""
    P = env.mod("poly")
    n, seg = order(m, kind)
    w = (m.w if w is None else w).detach().double()
    k = w.shape[0] * w.shape[1]
    cls = P.PiecewiseDiscontinuousPolynomial if kind == "d" else P.PiecewisePolynomial
    with env.quiet():
        p = cls(n=n, in_features=1, out_features=k, segments=seg).double()
    with torch.no_grad():
        p.w.copy_(w.reshape(k, 1, -1))

    def f(t):
        with torch.no_grad(), env.quiet():
            return p(t.reshape(-1, 1).double())

    return f


def nodes(n):
    """Chebyshev-Lobatto nodes in ascending order."""
    return torch.tensor([-math.cos(math.pi * i / (n - 1)) for i in range(n)], dtype=torch.float64)


def nodal(m, kind, w=None):
    """Values of every link at both (one-sided) ends of each segment and at its
    inner nodes, reconstructed from evaluations strictly inside the segments:
    [links, segments, n]."""
    n, seg = order(m, kind)
    f = evaluator(m, kind, w)
    u = 0.93 * torch.tensor([-math.cos(math.pi * (2 * i + 1) / (2 * n)) for i in range(n)], dtype=torch.float64)
    s = torch.arange(seg, dtype=torch.float64)
    t = -1.0 + 2.0 * (s[:, None] + (u[None, :] + 1) / 2) / seg
    v = f(t.reshape(-1)).reshape(seg, n, -1)                       # [seg, n, links]

    def cheb(x):
        return torch.stack([torch.cos(j * torch.arccos(x.clamp(-1, 1))) for j in range(n)], -1)

    mat = cheb(nodes(n)) @ torch.linalg.inv(cheb(u))
    return torch.einsum("ab,sbl->lsa", mat, v)
