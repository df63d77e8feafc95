"""The documented semiring algebras on numpy arrays.

Elements carry the semiring components on axis 0, as in the library.
"""
import importlib

import numpy as np

LOGLIKE = ("log", "sampled", "multisampled", "gumbelmax", "gumbelcrf")


def semiring(name):
    import torch_struct as ts

    if hasattr(ts, name):
        return getattr(ts, name)
    return getattr(importlib.import_module("torch_struct.semirings"), name)


def lse(x, axis):
    m = x.max(axis=axis, keepdims=True)
    return np.squeeze(m, axis) + np.log(np.exp(x - m).sum(axis=axis))


class Algebra:
    def __init__(self, kind, k=1):
        self.kind, self.k = kind, k
        self.size = {"kmax": k, "entropy": 2, "ce": 3, "kl": 3}.get(kind, 1)
        self.zero = {
            "std": np.array([0.0]), "kmax": np.full(k, -1e5), "entropy": np.array([-1e5, 0.0]),
            "ce": np.array([-1e5, -1e5, 0.0]), "kl": np.array([-1e5, -1e5, 0.0]),
        }.get(kind, np.array([-1e5]))

    def sum(self, x, dim):
        """dim as the library counts it: axis 0 is the component axis."""
        d = dim if dim > 0 else x.ndim + dim
        if self.kind == "std":
            return x.sum(axis=d)
        if self.kind == "max":
            return x.max(axis=d)
        if self.kind in LOGLIKE:
            return lse(x, d)
        if self.kind == "kmax":
            assert d == x.ndim - 1
            y = np.moveaxis(x, 0, -1)
            y = y.reshape(y.shape[:-2] + (-1,))
            y = -np.sort(-y, axis=-1)[..., : self.k]
            return np.moveaxis(y, -1, 0)
        d -= 1
        p = lse(x[0], d)
        lp = x[0] - np.expand_dims(p, d)
        w = np.exp(lp)
        if self.kind == "entropy":
            return np.stack([p, (w * x[1] - w * lp).sum(axis=d)])
        q = lse(x[1], d)
        lq = x[1] - np.expand_dims(q, d)
        r = w * x[2] - w * lq
        if self.kind == "kl":
            r = r + w * lp
        return np.stack([p, q, r.sum(axis=d)])

    def mul(self, a, b):
        if self.kind == "std":
            return a * b
        if self.kind == "kmax":
            c = a[:, None] + b[None]
            c = c.reshape((self.k * self.k,) + c.shape[2:])
            return -np.sort(-c, axis=0)[: self.k]
        return a + b

    def matmul(self, a, b):
        """c[..., i, j] = sum_k a[..., i, k] * b[..., k, j]."""
        c = self.mul(a[..., :, :, None], b[..., None, :, :])
        return self.sum(np.swapaxes(c, -1, -2), -1)

    def scale(self, want):
        """Magnitude of the numbers that enter a result (per element)."""
        s = np.abs(want).max(axis=0, keepdims=True) if self.kind in ("entropy", "ce", "kl") else np.abs(want)
        return 1.0 + np.broadcast_to(s, want.shape) * (1 if self.kind not in ("entropy", "ce", "kl") else 10) + (81.0 if self.kind == "std" else 0.0)
