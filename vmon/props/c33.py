"""C33 the semirings for the genbmm kernels."""
import contextlib
import sys
import types

import numpy as np
import torch
import torch_struct as ts
from torch_struct.semirings import fast_semirings as fast
from torch_struct.semirings.sample import _SampledLogSumExp

from ..core import to_np
from ..gen import cover_case, gen_case, size_at
from .c31 import FAMS, STRUCT, once

RINGS = (("log", ts.FastLogSemiring), ("max", ts.FastMaxSemiring), ("sampled", ts.FastSampleSemiring))
KINDS = ("matmul", "structure", "matmul", "sum", "structure", "broadcast")
N = {"quick": 16000, "thorough": 60000}
RULE = "one pair of operands for a product or sum, or one batch for a structure class, with one fast semiring; distinct by content"
REQUIRED = ["kind:" + k for k in KINDS] + ["ring:" + r for r, _ in RINGS] + ["%s:%s" % (r, f) for r, _ in RINGS for f in FAMS] + ["dtype:float32", "dtype:float64", "broadcast", "rank:2", "rank:5", "strided", "size:1", "size:40+"]
ASSUMPTIONS = ["genbmm is not installed; its kernels are replaced by a stand-in for the time of a call: logbmm, maxbmm and samplebmm of two three-dimensional tensors with equal first and fitting inner sizes",
               "banded matrices, which only the alignment model uses, are not made"]


class Banded:
    pass


def kernel(ctx, reduce):
    def bmm(a, b):
        ctx.expect("kernel operands", a.dim() == 3 and b.dim() == 3 and a.shape[0] == b.shape[0] and a.shape[2] == b.shape[1],
                   lambda: "kernel called with %s and %s" % (tuple(a.shape), tuple(b.shape)))
        return reduce(a.unsqueeze(-1) + b.unsqueeze(-3))

    return bmm


@contextlib.contextmanager
def stand_in(ctx):
    g = types.SimpleNamespace(
        BandedMatrix=Banded,
        logbmm=kernel(ctx, lambda x: torch.logsumexp(x, -2)),
        maxbmm=kernel(ctx, lambda x: torch.max(x, -2)[0]),
        samplebmm=kernel(ctx, lambda x: _SampledLogSumExp.apply(x, -2)),
    )
    places = (fast.__dict__, sys.modules)
    old = [d.get("genbmm") for d in places]
    for d in places:
        d["genbmm"] = g
    try:
        yield
    finally:
        for d, v in zip(places, old):
            if v is None:
                del d["genbmm"]
            else:
                d["genbmm"] = v


def operands(ctx):
    """Two matrices (stacks) whose leading sizes are equal or one."""
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(62))
    dtype = rng.choice([torch.float32, torch.float64])
    lead = [rng.choice([1, 2, 3, 4]) for _ in range(rng.randint(0, 3))]
    la, lb = list(lead), list(lead)
    for s in (la, lb):
        for d in range(len(s)):
            if rng.random() < 0.25:
                s[d] = 1
    n, m, k = (rng.choice([1, 2, 3, 5]) for _ in range(3))
    if rng.random() < 0.08:
        ctx.cover("size:40+")
        big = rng.randrange(3 + len(lead))
        n, m, k = (rng.randint(40, 300) if j == big else x for j, x in enumerate((n, m, k)))
        for s in (la, lb):
            if big >= 3 and s[big - 3] > 1:
                s[big - 3] = 97
    if 1 in (n, m, k):
        ctx.cover("size:1")
    if la != lb:
        ctx.cover("broadcast")
    ctx.cover("dtype:" + str(dtype)[6:], "rank:%d" % (2 + len(lead)))
    scale = rng.choice([1.0, 10.0, 200.0])

    def make(lead, r, c):
        x = torch.tensor(scale * nrng.standard_normal(lead + [r, c]), dtype=dtype)
        if rng.random() < 0.3:
            ctx.cover("strided")
            x = x.transpose(-1, -2).contiguous().transpose(-1, -2)
        return x

    a, b = make(la, n, m), make(lb, m, k)
    ctx.desc = "%s x %s, %s, scale %g" % (tuple(a.shape), tuple(b.shape), dtype, scale)
    ctx.seen(to_np(a).tobytes(), to_np(b).tobytes(), tuple(a.shape), tuple(b.shape))
    return a, b, (1e-12 if dtype == torch.float64 else 1e-5) * (1 + scale) * 4


def products(ctx, ring, sr):
    a, b, tol = operands(ctx)
    x = to_np(a)[..., :, :, None] + to_np(b)[..., None, :, :]
    top = x.max(-2)
    want = top if ring == "max" else top + np.log(np.exp(x - top[..., None, :]).sum(-2))
    dot = ctx.rng.random() < 0.25
    ga, gb = a.detach().requires_grad_(True), b.detach().requires_grad_(True)
    with stand_in(ctx):
        if dot:
            v = ctx.call("%s dot" % ring, sr.dot, ga, ga)
            y = 2 * to_np(a)
            t = y.max(-1)
            want = t if ring == "max" else t + np.log(np.exp(y - t[..., None]).sum(-1))
        else:
            v = ctx.call("%s matmul" % ring, sr.matmul, ga, gb)
    key = "%s %s" % (ring, "dot" if dot else "matmul")
    if not ctx.expect(key + " shape", tuple(v.shape) == want.shape, lambda: "%s, want %s" % (tuple(v.shape), want.shape)):
        return
    ctx.close(key, v, want, tol)
    ctx.expect(key + " dtype", v.dtype == a.dtype, str(v.dtype))
    if dot:
        return
    up = torch.randn(v.shape, generator=torch.Generator().manual_seed(ctx.rng.getrandbits(40)), dtype=v.dtype)
    g = torch.autograd.grad(v, (ga, gb), up)
    ctx.expect(key + " gradient shapes", g[0].shape == a.shape and g[1].shape == b.shape)
    if ring == "sampled":  # each product follows one of its terms: both operands get the same total weight
        ctx.close(key + " gradient", to_np(g[0]).sum(), to_np(up).sum(), 1e-3 * (1 + np.abs(to_np(up)).sum()))
        ctx.close(key + " gradient sides", to_np(g[0]).sum(), to_np(g[1]).sum(), 1e-3 * (1 + np.abs(to_np(up)).sum()))
        return
    p = np.exp(x - want[..., None, :]) if ring == "log" else (x == top[..., None, :]).astype(float)
    if ring == "max" and (p.sum(-2) != 1).any():
        return
    w = p * to_np(up)[..., None, :]

    def fold(y, shape):
        for d in range(len(shape)):
            if shape[d] == 1 and y.shape[d] != 1:
                y = y.sum(d, keepdims=True)
        return y

    ctx.close(key + " left gradient", g[0], fold(w.sum(-1), a.shape), 100 * tol + 1e-5)
    ctx.close(key + " right gradient", g[1], fold(w.sum(-3), b.shape), 100 * tol + 1e-5)


def sums(ctx, ring, sr):
    a, _, tol = operands(ctx)
    d = ctx.rng.randrange(-a.dim(), a.dim())
    ctx.desc += " along %d" % d
    x = to_np(a)
    top = x.max(d, keepdims=True)
    want = (top if ring == "max" else top + np.log(np.exp(x - top).sum(d, keepdims=True))).squeeze(d)
    got = ctx.call("%s sum" % ring, sr.sum, a, dim=d) if d != -1 or ctx.rng.random() < 0.5 else ctx.call("%s sum" % ring, sr.sum, a)
    ctx.close("%s sum" % ring, got, want, tol)


def broadcasts(ctx):
    a, b, _ = operands(ctx)
    lead = np.broadcast_shapes(tuple(a.shape[:-2]), tuple(b.shape[:-2]))
    want = lead + (a.shape[-2], b.shape[-1])
    ctx.expect("matmul_size", tuple(ctx.call("matmul_size", fast.matmul_size, a, b)) == want, lambda: str(want))
    x, y, size = ctx.call("broadcast", fast.broadcast, a, b)
    ctx.expect("broadcast size", tuple(size) == want, lambda: "%s, want %s" % (size, want))
    for k, s, got in (("left", a, x), ("right", b, y)):
        full = np.broadcast_to(to_np(s), lead + tuple(s.shape[-2:])).reshape((-1,) + tuple(s.shape[-2:]))
        ctx.expect("broadcast " + k, tuple(got.shape) == full.shape and (to_np(got) == full).all(), lambda: "%s from %s" % (tuple(got.shape), tuple(s.shape)))


def structure(ctx, ring, sr, fam):
    rng = ctx.rng
    c = gen_case(rng, fam, size_at(rng, (2, 4, 3, 0, 0)), budget=3000, layouts=True, grads=True)
    cover_case(ctx, c, fam)
    ctx.cover("%s:%s" % (ring, fam))
    ctx.desc = "fast %s %r" % (ring, c)
    if c.nontrivial():
        ctx.seen(ring, *c.payload())
    st = ctx.call(fam + " struct", STRUCT[fam], sr)
    with stand_in(ctx):
        once(ctx, ring, fam, st, c, 1, "%s fast %s" % (fam, ring))


def case(ctx, i):
    kind, j = KINDS[i % len(KINDS)], i // len(KINDS)
    ring, sr = RINGS[j % len(RINGS)]
    ctx.cover("kind:" + kind, "ring:" + ring)
    if kind == "broadcast":
        broadcasts(ctx)
    elif kind == "structure":
        structure(ctx, ring, sr, FAMS[(2 * j // len(RINGS) + (i % 6 > 1)) % len(FAMS)])
    else:
        {"matmul": products, "sum": sums}[kind](ctx, ring, sr)
