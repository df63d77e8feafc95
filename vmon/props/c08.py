"""C08 entropy, cross-entropy and KL divergence."""
import numpy as np

from ..gen import FAMS, Case, cost, cover_case, fam_at, fill, gen_case, gen_theta, per_structure, pick, size_at, VALUES, PADS, TENSOR_FAMS

N = {"quick": 12000, "thorough": 48000}
RULE = "one monitored entropy (and divergence) call on a batch that has at least two structures; distinct by potentials, lengths and dtype"
REQUIRED = ["family:" + f for f in FAMS] + ["dtype:float32", "dtype:float64", "lengths:none", "lengths:mixed", "lengths:one", "pair:far", "pair:near", "pair:self", "batch:4+"] + ["pair-family:" + f for f in TENSOR_FAMS]


def partner(rng, c):
    """Another distribution of the same shape."""
    nrng = np.random.default_rng(rng.getrandbits(63))
    kind = pick(rng, (4, "far"), (2, "near"), (1, "self"))
    if kind == "self":
        th = c.theta.copy()
    elif kind == "near":
        th = c.theta + 0.1 * nrng.standard_normal(c.theta.shape)
    else:
        mode = rng.choice([v for v in VALUES if v not in ("huge",)])
        th = gen_theta(rng, nrng, c.fam, c.batch, mode, c.lengths, rng.choice(PADS) if c.lengths else None)
    return kind, Case(c.fam, th, c.lengths, c.dtype, rng.choice(["contig", c.layout]), rng.random() < 0.5)


def case(ctx, i):
    fam = fam_at(i)
    rng = ctx.rng
    c = gen_case(rng, fam, size_at(rng), budget=25000, layouts=True, grads=True)
    ctx.desc = repr(c)
    cover_case(ctx, c, fam)
    if c.nontrivial():
        ctx.seen(*c.payload())
    H = c.entropy()
    d = ctx.call(fam + " dist", c.dist)
    slack = 4 + c.fam.N / 2  # rounding grows with the number of merges
    tol = slack * c.tol
    if rng.random() < 0.8 or c.fam.name == "cfg":
        e = ctx.call(fam + ".entropy", lambda: d.entropy)
        ctx.close(fam + ".entropy", e, H, tol)
    if c.fam.name == "cfg":
        return
    kind, q = partner(rng, c)
    ctx.cover("pair:" + kind, "pair-family:" + fam)
    ctx.desc += " vs %s" % kind
    dq = ctx.call(fam + " dist", q.dist)
    CE = np.array([c.graph(b).cross_entropy(c.th(b), q.th(b)) for b in range(c.batch)])
    tol = 2 * slack * (c.tol + q.tol)
    ops = ["ce", "kl"]
    rng.shuffle(ops)
    for op in ops:
        if op == "ce":
            ce = ctx.call(fam + ".cross_entropy", d.cross_entropy, dq)
            ctx.close(fam + ".cross_entropy", ce, CE, tol)
        else:
            kl = ctx.call(fam + ".kl", d.kl, dq)
            ctx.close(fam + ".kl", kl, CE - H, tol)
            ctx.expect(fam + ".kl non-negative", bool((kl >= -tol).all()), lambda: str(kl))
