"""C22 count is the number of legal structures."""
import numpy as np
import torch

from ..gen import TENSOR_FAMS, Case, cover_case, fam_at, gen_case, pick, size_at

N = {"quick": 20000, "thorough": 60000}
RULE = "one count of a batch that has at least two structures; distinct by shape, lengths and forbidden parts"
REQUIRED = ["family:" + f for f in TENSOR_FAMS] + ["lengths:mixed", "lengths:one", "lengths:none", "forbidden:none", "forbidden:some", "forbidden:all", "dtype:float32", "dtype:float64", "finite potentials exchanged", "batch:4+"]


def case(ctx, i):
    rng = ctx.rng
    fam = fam_at(i, TENSOR_FAMS)
    nrng = np.random.default_rng(rng.getrandbits(62))
    c = gen_case(rng, fam, size_at(rng), budget=15000, layouts=True, grads=True)
    share = rng.choice([0.0, 0.05, 0.2, 0.5, 0.9])
    th = c.theta.copy()
    bad = nrng.random(th.shape) < share
    if rng.random() < 0.3 and th.shape[0] > 1:  # one item untouched
        bad[rng.randrange(th.shape[0])] = False
    th[bad] = -np.inf
    c2 = Case(c.fam, th, c.lengths, c.dtype, c.layout, c.grad, c.tags)
    want = []
    for b in range(c.batch):
        ok = ~bad[b].ravel()
        want.append(c.graph(b).count(ok.tolist()))
    ctx.desc = "%r forbidden=%d of %d" % (c, int(bad.sum()), bad.size)
    if max(want) > (1e30 if c.dtype == torch.float32 else 1e290):
        return
    cover_case(ctx, c, fam)
    ctx.cover("forbidden:some" if bad.any() else "forbidden:none")
    if 0 in want:
        ctx.cover("forbidden:all")
    if max(want) > 1:
        ctx.seen(c.fam.key, c.lengths, bad.tobytes())
    w = np.array([float(x) for x in want])
    u = 1e-12 if c.dtype == torch.float64 else 4e-6
    tol = w * u * c.fam.N
    tol = np.where(w < (2 ** 50 if c.dtype == torch.float64 else 2 ** 22), 1e-9, tol)  # exact while representable
    d = ctx.call(fam + " dist", c2.dist)
    got = ctx.call(fam + ".count", lambda: d.count)
    ctx.close(fam + ".count", got, w, tol, "want %s" % want[:8])
    if rng.random() < 0.3:  # other finite potentials, same count
        ctx.cover("finite potentials exchanged")
        t2 = np.where(bad, -np.inf, rng.choice([0.0, 1.0, 50.0, -3000.0, 1e6, 1e9]) * nrng.standard_normal(th.shape))
        if rng.random() < 0.4:
            t2 = np.where(np.isfinite(t2) & (nrng.random(th.shape) < 0.3), rng.choice([-1e5, -1e6, -1e9, -1e20, 1e9]), t2)
        c3 = Case(c.fam, t2, c.lengths, c.dtype, c.layout, c.grad, c.tags)
        got = ctx.call(fam + ".count", lambda: c3.dist().count)
        ctx.close(fam + ".count with other potentials", got, w, tol)
