"""C02 marginals are exact expected part counts."""
import numpy as np
import torch_struct as ts

from ..core import to_np
from ..big import gen_big
from ..gen import FAMS, cfg_spans_ij, cover_case, fam_at, gen_case, size_at

BIG = 67  # every so many cases: an input beyond the reach of the hypergraph
N = {"quick": 12000, "thorough": 50000}
RULE = "one monitored marginals call on a batch that has at least two structures; distinct by potentials, lengths and dtype"
REQUIRED = ["family:" + f for f in FAMS] + ["dtype:float32", "dtype:float64", "lengths:none", "lengths:mixed", "lengths:one", "batch:4+", "batch:1"] + ["big:" + f for f in FAMS] + ["big:batch"]


def mtol(c):
    return 2 * c.tol


def check_marginals(ctx, fam, c, m, key=".marginals"):
    want = c.marg()
    k = fam + key
    tol = mtol(c)
    if c.fam.name == "cfg":
        names = ("terms", "rules", "roots", "spans")
        if not ctx.expect(k + " arity", len(m) == 4, "%d tensors" % len(m)):
            return
        got = [to_np(x) for x in m]
        if got[3].ndim == 4:
            got[3] = np.stack([cfg_spans_ij(s) for s in got[3]])
        for n, g, w in zip(names, got, want):  # no reference for the spans of big cases
            ctx.close("%s %s" % (k, n), g, w, tol)
        return
    ctx.close(k, m, want, tol)
    g = to_np(m)
    if g.shape != want.shape:
        return
    ctx.expect(k + " non-negative", (g >= -tol).all(), lambda: "minimum %r" % g.min())
    for b in range(c.batch):
        dead = c.dead(b)
        x = g[b][dead]
        ctx.expect(k + " zero on impossible parts", not (x != 0).any(), lambda: "item %d (length %d) has %r there" % (b, c.L(b), np.abs(x).max()))


def case(ctx, i):
    fam = fam_at(i)
    c = gen_big(ctx.rng, fam) if i % BIG == BIG - 1 else gen_case(ctx.rng, fam, size_at(ctx.rng), budget=40000, layouts=True, grads=True)
    ctx.desc = repr(c)
    cover_case(ctx, c, fam)
    if c.nontrivial():
        ctx.seen(*c.payload())
    d = ctx.call(fam + " dist", c.dist)
    if ctx.rng.random() < 0.3:
        ctx.call(fam + ".partition", lambda: d.partition)
    m = ctx.call(fam + ".marginals", lambda: d.marginals)
    check_marginals(ctx, fam, c, m)
    if ctx.rng.random() < 0.1 and fam in ("chain", "semi", "tree"):
        S = dict(chain=ts.LinearChain, semi=ts.SemiMarkov, tree=ts.CKY_CRF)[fam]
        m = ctx.call(fam + " struct marginals", lambda: S(ts.LogSemiring).marginals(c.tensors(), lengths=c.len_tensor()))
        check_marginals(ctx, fam, c, m, " struct marginals")
