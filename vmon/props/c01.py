"""C01 log-partition exactness."""
import numpy as np
import torch_struct as ts

from ..big import gen_big
from ..gen import FAMS, cover_case, fam_at, gen_case, size_at

BIG = 41  # every so many cases: an input beyond the reach of the hypergraph
N = {"quick": 15000, "thorough": 80000}
RULE = "one monitored partition call on a batch that has at least two structures; distinct by potentials, lengths and dtype"
REQUIRED = ["family:" + f for f in FAMS] + ["dtype:float32", "dtype:float64", "lengths:none", "lengths:mixed", "lengths:one", "batch:4+", "batch:1", "struct-level", "long chain"] + ["big:" + f for f in FAMS] + ["big:batch"]

STRUCT = dict(chain=ts.LinearChain, semi=ts.SemiMarkov, tree=ts.CKY_CRF, cfg=ts.CKY)


def case(ctx, i):
    fam = fam_at(i)
    c = gen_big(ctx.rng, fam) if i % BIG == BIG - 1 else gen_case(ctx.rng, fam, size_at(ctx.rng, (2, 4, 4, 1, 0.3)), budget=60000, layouts=True, grads=True)
    ctx.desc = repr(c)
    cover_case(ctx, c, fam)
    want = c.logz()
    if c.nontrivial():
        ctx.seen(*c.payload())
    d = ctx.call(fam + " dist", c.dist)
    z = ctx.call(fam + ".partition", lambda: d.partition)
    ctx.close(fam + ".partition", z, want, c.tol)
    ctx.expect(fam + ".partition dtype", z.dtype == c.dtype, str(z.dtype))
    if fam in STRUCT and ctx.rng.random() < 0.3:
        ctx.cover("struct-level")
        z = ctx.call(fam + " struct sum", lambda: STRUCT[fam](ts.LogSemiring).sum(c.tensors(), lengths=c.len_tensor()))
        ctx.close(fam + " struct sum", z, want, c.tol)
    if ctx.rng.random() < 0.2 and c.fam.name != "cfg":
        # all structures of an item share the shift of their parts
        ctx.count("shifted")
        import torch

        s = ctx.rng.choice([-2.0, 0.5, 3.0])
        n = {"chain": lambda L: L - 1, "dep": lambda L: L, "tree": lambda L: 2 * L - 1}.get(c.fam.name)
        if n:
            z2 = ctx.call(fam + ".partition", lambda: c.dist(c.tensors(False) + torch.tensor(s, dtype=c.dtype)).partition)
            ctx.close(fam + ".partition shifted", z2, want + np.array([s * n(c.L(b)) for b in range(c.batch)]), 2 * c.tol + 1e-5 * abs(s) * c.fam.N)
