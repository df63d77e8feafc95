"""C21 single-sample and Gumbel semirings draw exact structures."""
import numpy as np
import torch
import torch_struct as ts

from ..algebra import semiring
from ..core import to_np
from ..gen import TENSOR_FAMS, Case, cover_case, gen_case
from ..ops import judge
from ..stats import binom_tail
from .c06 import experiment, make, report

KINDS = ("gumbel_crf", "sampled", "gumbelmax")
N = {"quick": 3000, "thorough": 12000}
RULE = "one statistical experiment on a replicated small model, or legality and gradients on a larger one; distinct by potentials, lengths and semiring"
REQUIRED = ["kind:" + k for k in KINDS] + ["family:" + f for f in TENSOR_FAMS] + ["test:joint", "test:slot", "test:slot-pairs", "test:batch-pairs", "lengths:mixed", "temperature:low", "temperature:high", "dtype:float32", "dtype:float64", "large", "gradient"] + ["direct:" + k for k in ("sampled", "gumbelmax", "gumbelcrf", "multisampled")] + ["direct dim:" + k for k in ("last", "other", "negative", "positive")] + ["direct second order", "direct temperature", "direct wide", "many alternatives"]
ASSUMPTIONS = ["each statistical test rejects a correct sampler with probability below 1e-9"]


def drawer(ctx, rng, kind, fam, c, pot):
    """A function drawing one structure per item; None if not available."""
    temp = rng.choice([0.1, 0.5, 1.0, 1.0, 2.0, 10.0])
    if kind == "gumbel_crf":
        ctx.cover("temperature:low" if temp < 1 else "temperature:high")
        d = ctx.call(fam + " dist", c.dist, pot)
        if temp == 1.0 and rng.random() < 0.5:
            return "gumbel_crf", lambda: ctx.call(fam + ".gumbel_crf", d.gumbel_crf)
        return "gumbel_crf(%s)" % temp, lambda: ctx.call(fam + ".gumbel_crf", d.gumbel_crf, temp)
    if fam in ("deps", "depsl"):
        return None
    S = semiring("SampledSemiring")
    name = "sampled"
    if kind == "gumbelmax":
        S = semiring("GumbelMaxSemiring")(temp)
        name = "gumbelmax(%s)" % temp
        ctx.cover("temperature:low" if temp < 1 else "temperature:high")
    st = {"chain": ts.LinearChain, "semi": ts.SemiMarkov, "dep": ts.DepTree, "tree": ts.CKY_CRF}[c.fam.name](S)
    return name, lambda: ctx.call("%s %s marginals" % (fam, name), st.marginals, pot, lengths=c.len_tensor())


def relaxed(ctx, key, nrng, temp, x, t, g, on, d):
    """The gradient of a draw is that of the softmax of the perturbed scores, at the entries drawn."""
    ctx.cover("direct second order")
    u = nrng.choice([-1.0, 1.0], size=x.shape) * nrng.uniform(0.5, 2.0, size=x.shape)
    if not ctx.expect(key + " differentiable", g.requires_grad, "the draw has no gradient"):
        return
    h, = ctx.call(key + " second gradient", torch.autograd.grad, (g * torch.tensor(u, dtype=t.dtype)).sum(), t)
    h, z = (np.moveaxis(to_np(y), d, -1) for y in (h, g))
    u, x = np.moveaxis(u, d, -1), np.moveaxis(x, d, -1)
    eps = (1e-5 if t.dtype == torch.float32 else 1e-12) / temp
    ctx.close(key + " second gradient adds up to zero", h.sum(-1), np.zeros(on.shape), eps)
    r = h * temp / np.where(on == 1, (u * z).sum(-1), 1.0)[..., None]
    at, rest = (r * z).sum(-1), r * (1 - z)
    ok = (at >= -eps).all() and (at <= 0.25 + 1e-5).all() and (rest <= eps).all() and (r[on == 0] == 0).all()
    ctx.expect(key + " second gradient of a softmax", bool(ok), lambda: "entries drawn %s to %s, others up to %s, want 0 to 1/4 and none" % (at.min(), at.max(), rest.max()))
    if x.shape[-1] != 2 or (on == 1).sum() < 100:
        return
    ctx.cover("direct temperature")
    q = np.clip(-rest.sum(-1), 0, 0.25)[on == 1]  # p(1-p), p the larger of the two
    small = 2 * q / (1 + np.sqrt(1 - 4 * q))
    with np.errstate(divide="ignore"):
        odds = np.log1p(-small) - np.log(small)
    side = np.where(z[..., 0] == 1, 1.0, -1.0)[on == 1]
    noise = side * odds * temp - (x[..., 0] - x[..., 1])[on == 1]  # logistic
    for name, k in (("median", (noise < 0).sum()), ("quartiles", (np.abs(noise) < np.log(3)).sum())):
        report(ctx, key + " perturbation", binom_tail(int(k), noise.size, 0.5), "%s of the noise: %d of %d, temperature %g" % (name, k, noise.size, temp))


def direct(ctx):
    """The gradient of a plain sum: one draw of an index along the summed dimension."""
    rng = ctx.rng
    kind = rng.choice(["sampled", "gumbelmax", "gumbelcrf", "multisampled"])
    temp = rng.choice([0.1, 1.0, 3.0])
    S = semiring({"sampled": "SampledSemiring", "gumbelmax": "GumbelMaxSemiring", "gumbelcrf": "GumbelCRFSemiring", "multisampled": "MultiSampledSemiring"}[kind])
    if kind.startswith("gumbel"):
        S = S(temp)
    nrng = np.random.default_rng(rng.getrandbits(63))
    rank = rng.randint(1, 3)
    base = nrng.normal(size=[rng.choice([1, 2, 2, 3, 4]) for _ in range(rank - 1)]) * rng.choice([0.3, 1.0, 2.0])
    K = rng.choice([1, 2, 3, 3, 4, 5])
    if rng.random() < 0.1:
        ctx.cover("direct wide")
        K = rng.choice([9, 17, 33, 65, 130, 300])
        base = base[..., :2] if rank == 2 else base[..., :1, :2] if rank == 3 else base
    base = np.expand_dims(base, -1) * 0 + nrng.normal(size=base.shape + (K,)) * rng.choice([0.3, 1.0, 2.0])
    ax = rng.randrange(rank)
    base = np.moveaxis(base, -1, ax)
    rep = 400
    front = rng.random() < 0.5
    x = np.repeat(base[None], rep, 0) if front else np.repeat(base[..., None], rep, -1)
    d = ax + 1 if front else ax
    dim = d if rng.random() < 0.5 else d - x.ndim
    dt = rng.choice([torch.float32, torch.float64])
    ctx.cover("direct:" + kind, "direct dim:last" if d == x.ndim - 1 else "direct dim:other", "direct dim:negative" if dim < 0 else "direct dim:positive")
    ctx.desc = "direct %s shape %s dim %d" % (kind, x.shape, dim)
    ctx.seen(kind, dim, x.tobytes(), str(dt))
    t = torch.tensor(x, dtype=dt)
    if rng.random() < 0.3:
        t = t.transpose(0, -1).contiguous().transpose(0, -1)
    t.requires_grad_(True)
    key = "direct " + kind
    v = ctx.call(key + " sum", S.sum, t, dim)
    m = x.max(axis=d, keepdims=True)
    ctx.close(key + " value", v, np.log(np.exp(x - m).sum(axis=d)) + np.squeeze(m, d), 1e-4 if dt == torch.float32 else 1e-11)
    on = torch.tensor(nrng.random(v.shape) < 0.85).to(dt)
    g, = ctx.call(key + " gradient", torch.autograd.grad, v, t, on, create_graph=kind == "gumbelcrf")
    if kind == "gumbelcrf":
        relaxed(ctx, key, nrng, temp, x, t, g, to_np(on), d)
    draws = [to_np(S.to_discrete(g, j)) for j in range(16)] if kind == "multisampled" else [to_np(g)]
    on = to_np(on)
    pr = np.exp(base - base.max(axis=ax, keepdims=True))
    pr /= pr.sum(axis=ax, keepdims=True)
    tot = np.zeros(base.shape)
    num = np.expand_dims(on, d).sum(axis=0 if front else -1) + 0 * base
    for j, z in enumerate(draws):
        if not ctx.expect(key + " shape", z.shape == x.shape, str(z.shape)):
            return
        ok = np.isin(z, (0.0, 1.0)).all() and (z.sum(axis=d) == on).all()
        if not ctx.expect(key + " one index per requested sum", bool(ok), "draw %d is not one-hot along the dimension" % j):
            return
        k = z.sum(axis=0 if front else -1)
        tot += k
        for w in np.ndindex(*base.shape):
            report(ctx, key + " distribution", binom_tail(int(k[w]), int(num[w]), float(pr[w])), "draw %d cell %s: %d of %d, expected %.3f" % (j, w, k[w], num[w], pr[w]))
    # independence: the same row in neighbouring copies, and different draws of one row
    if K > 1:
        zs = np.stack([np.moveaxis(z, (0 if front else -1), 0) for z in draws])  # draws, rep, *base
        oo = np.moveaxis(np.expand_dims(on, d), (0 if front else -1), 0)
        same = np.squeeze((pr ** 2).sum(axis=ax, keepdims=True), ax)
        both = np.squeeze(oo[0:-1:2] * oo[1::2], ax + 1)
        agree = (zs[:, 0:-1:2] * zs[:, 1::2]).sum(axis=ax + 2)
        for w in np.ndindex(*same.shape):
            sel = (slice(None),) + w
            report(ctx, key + " independent decisions", binom_tail(int(agree[(slice(None),) + sel].sum()), int(both[sel].sum()) * len(draws), float(same[w])), "row %s" % (w,))
        if len(draws) > 1:
            both = np.squeeze(oo, ax + 1)
            for lag in (1, 2, 3, 5, 8):
                js = [j for j in range(16 - lag) if j % (2 * lag) < lag]
                agree = sum((zs[j] * zs[j + lag]).sum(axis=ax + 1) for j in js)
                for w in np.ndindex(*same.shape):
                    sel = (slice(None),) + w
                    report(ctx, key + " independent draws", binom_tail(int(agree[sel].sum()), int(both[sel].sum()) * len(js), float(same[w])), "row %s, %d apart" % (w, lag))


def case(ctx, i):
    rng = ctx.rng
    if i % 8 == 7:
        return direct(ctx)
    fam = TENSOR_FAMS[i % 7]
    kind = KINDS[(i // 7) % 3]
    if kind != "gumbel_crf" and fam in ("deps", "depsl"):
        kind = "gumbel_crf"
    ctx.cover("kind:" + kind)
    if (i // 21) % 2 == 0:
        rep = rng.choice([100, 200, 300])
        n = rng.choice([1, 2, 3, 5])
        many = rng.random() < 0.15
        if many:
            ctx.cover("many alternatives")
            rep, n = 300, rng.choice([3, 5])
        c, items = make(ctx, fam, rep, many)
        name, draw = drawer(ctx, rng, kind, fam, c, c.tensors())
        ctx.desc = "%s %r items=%d rep=%d n=%d lens=%s" % (name, c.fam, items, rep, n, None if c.lengths is None else c.lengths[:items])
        ctx.seen(kind, n, *c.payload())
        experiment(ctx, fam, c, items, rep, n, lambda: np.stack([to_np(draw()) for _ in range(n)]), key="%s %s" % (fam, kind))
        return
    ctx.cover("large")
    c = gen_case(rng, fam, rng.choice(["small", "medium", "large"]), budget=15000, mode=rng.choice(["normal", "wide", "peaked", "shift", "zeros", "huge"]), layouts=True)
    cover_case(ctx, c, fam)
    ctx.seen(kind, *c.payload())
    pot = c.tensors(requires_grad=True)
    name, draw = drawer(ctx, rng, kind, fam, c, pot)
    ctx.desc = "%s %r" % (name, c)
    z = draw()
    judge(ctx, "%s %s" % (fam, kind), c, "gumbel_crf", z)
    if kind == "gumbel_crf":
        ctx.expect(fam + ".gumbel_crf dtype", z.dtype == c.dtype, str(z.dtype))
        ctx.cover("gradient")
        if not ctx.expect(fam + ".gumbel_crf differentiable", z.requires_grad, "no gradient"):
            return
        w = torch.randn(z.shape, dtype=z.dtype)
        g, = ctx.call(fam + ".gumbel_crf gradient", torch.autograd.grad, (z * w).sum(), pot, allow_unused=True)
        if ctx.expect(fam + ".gumbel_crf gradient reaches the potentials", g is not None or c.theta.size == 0, "no gradient"):
            ctx.expect(fam + ".gumbel_crf gradient finite", bool(torch.isfinite(g).all()), "gradient is not finite")
