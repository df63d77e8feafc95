"""C31 the structure classes under every semiring."""
import math

import numpy as np
import torch
import torch_struct as ts

from ..core import to_np
from ..gen import Case, cfg_counts, cfg_spans_ij, cover_case, gen_case, pick, size_at
from ..models import cfg_legal
from ..ops import judge, max_k, partner_of
from .c02 import check_marginals
from .c03 import check_argmax
from .c04 import check_kmax, check_topk
from .c07 import events
from .c19 import tame, turn

STRUCT = dict(chain=ts.LinearChain, semi=ts.SemiMarkov, depm=ts.DepTree, depml=ts.DepTree, tree=ts.CKY_CRF, cfg=ts.CKY)
FAMS = tuple(STRUCT)
RINGS = ("log", "default", "max", "real", "kmax", "entropy", "cross entropy", "kl", "sampled", "multi sampled", "checkpoint", "shard", "score")
SEQ = ("sequential", "semi")
PAIRS = [(r, f) for r in RINGS for f in FAMS if not (f == "cfg" and r in ("cross entropy", "kl", "score"))] + 3 * [SEQ]
N = {"quick": 14000, "thorough": 80000}
RULE = "one structure class with one semiring on one batch (sum and marginals); distinct by semiring, potentials, lengths and dtype"
REQUIRED = ["%s:%s" % p for p in PAIRS] + ["dtype:float32", "dtype:float64", "lengths:none", "lengths:mixed", "lengths:one", "batch:1", "batch:4+", "same object twice"]
ASSUMPTIONS = ["the structure classes offer projective dependency trees with any number of roots only",
               "the recomputing semirings have gradients on chains and semi-Markov models; the others write into their charts, which torch rejects"]


def real(ctx, key, st, c, pot, ln):
    """Weights instead of log-potentials."""
    exp = lambda x: x.detach().clamp(-30, 30).exp()  # padding may be huge  # noqa: E731
    w = tuple(exp(x) for x in pot) if isinstance(pot, tuple) else exp(pot)
    z = np.exp(c.logz())
    rel = (1e-11 if c.dtype == torch.float64 else 2e-5) * (4 + c.fam.N)
    got = ctx.call(key + " sum", st.sum, w, lengths=ln)
    ctx.close(key + " sum", to_np(got) / z, np.ones(c.batch), rel)


def sample(ctx, key, c, a):
    if c.fam.name != "cfg":
        return judge(ctx, key, c, "gumbel_crf", a)
    t, r, o, s = [to_np(x) for x in a]
    for b in range(c.batch):
        dd = [cfg_counts(x[b]) for x in (t, r, o)] + [cfg_counts(cfg_spans_ij(s[b]))]
        if not ctx.expect(key + " integer", all(x is not None for x in dd), "item %d" % b):
            continue
        why = cfg_legal(c.fam, *dd, c.L(b))
        if ctx.expect(key + " one derivation", why is None, lambda: "item %d: %s" % (b, why)):
            lp = math.fsum(n * float(th[b][k]) for d_, th in zip(dd, c.theta) for k, n in d_.items()) - c.logz()[b]
            ctx.expect(key + " probable", lp >= -(math.log(c.ref("count", b)) + 30.0 + 2 * c.tol), lambda: "log-probability %r" % lp)


def once(ctx, ring, fam, st, c, k, key):
    rng = ctx.rng
    pot, ln = c.tensors(), c.len_tensor()
    slack = 4 + c.fam.N / 2
    if ring == "real":
        return real(ctx, key, st, c, pot, ln)
    if ring == "score":
        shape, dims = pick(rng, (2, ((), [0])), (2, ((rng.randint(1, 5),), [0, 1])), (1, ((2, 3), [0, 1, 2])))
        ev, sc = events(rng, c, shape, True)
        kw = {} if dims == [0] and rng.random() < 0.5 else {"batch_dims": dims}
        th = pot.detach().expand(shape + tuple(pot.shape))
        got = ctx.call(key, st.score, th, torch.tensor(ev).to(rng.choice([c.dtype, torch.long])), **kw)
        ctx.close(key, got, sc, c.tol)
        return
    if ring == "sequential":  # the second, left-to-right recursion of the semi-Markov class
        if not hasattr(st, "_dp_standard"):
            return
        v = ctx.call(key, st._dp_standard, pot, lengths=ln)[0]
        ctx.close(key, st.semiring.unconvert(v), c.best() if st.semiring is ts.MaxSemiring else c.logz(), c.tol)
        return
    if ring in ("cross entropy", "kl"):
        q = partner_of(c, rng.getrandbits(62))
        got = ctx.call(key + " sum", st.sum, [pot, q.tensors()], lengths=ln)
        want = np.array([c.graph(b).cross_entropy(c.th(b), q.th(b)) for b in range(c.batch)])
        if ring == "kl":
            want = want - c.entropy()
        ctx.close(key + " sum", got, want, 2 * slack * (c.tol + q.tol))
        return
    v = ctx.call(key + " sum", st.sum, pot, lengths=ln)
    want = c.best() if ring in ("max", "kmax") else c.entropy() if ring == "entropy" else c.logz()
    ctx.close(key + " sum", v, want, slack * c.tol if ring == "entropy" else c.tol)
    ctx.expect(key + " sum dtype", v.dtype == c.dtype, str(v.dtype))
    if ring == "kmax":
        check_kmax(ctx, key + " raw sum", c, k, ctx.call(key + " raw sum", st.sum, pot, lengths=ln, _raw=True))
        check_topk(ctx, key + " raw marginals", c, k, ctx.call(key + " raw marginals", st.marginals, pot, lengths=ln, _raw=True))
    if ring in ("entropy", "multi sampled") or ring in ("checkpoint", "shard") and fam not in ("chain", "semi"):
        return
    m = ctx.call(key + " marginals", st.marginals, pot, lengths=ln)
    if ring in ("max", "kmax"):
        check_argmax(ctx, key + " marginals", c, m, c.best())
    elif ring == "sampled":
        sample(ctx, key, c, m)
    else:
        check_marginals(ctx, fam, c, m, " %s marginals" % ring)


def case(ctx, i):
    rng = ctx.rng
    ring, fam = PAIRS[i % len(PAIRS)]
    mode = rng.choice(["normal", "tiny", "half"]) if ring == "real" else None
    weights = (3, 4, 2, 0, 0) if ring in ("real", "kmax") else (0, 1, 3, 2, 1) if ring == "sequential" else (2, 4, 4, 1, 0.1)

    def draw(batch=None):
        for _ in range(30):
            c = gen_case(rng, fam, size_at(rng, weights), budget=8000, layouts=True, grads=True, mode=mode, batch=batch)
            if ring != "real" or np.abs(c.logz()).max() < 40:
                return c
        return gen_case(rng, fam, "tiny", budget=500, mode="tiny", batch=batch)

    c = draw()
    k = rng.randint(1, max_k(c))
    sr = {
        "log": lambda: ts.LogSemiring, "default": lambda: None, "max": lambda: ts.MaxSemiring, "real": lambda: ts.StdSemiring,
        "kmax": lambda: ts.KMaxSemiring(k), "entropy": lambda: ts.EntropySemiring, "cross entropy": lambda: ts.CrossEntropySemiring,
        "kl": lambda: ts.KLDivergenceSemiring, "sampled": lambda: ts.SampledSemiring, "multi sampled": lambda: ts.MultiSampledSemiring,
        "checkpoint": lambda: ts.CheckpointSemiring(ts.LogSemiring, rng.choice([0, 10, 1000])),
        "shard": lambda: ts.CheckpointShardSemiring(ts.LogSemiring, rng.choice([1, 5, 50, 1000])),
        "score": lambda: rng.choice([ts.LogSemiring, ts.MaxSemiring]),
        "sequential": lambda: rng.choice([ts.LogSemiring, ts.MaxSemiring]),
    }[ring]()
    key = "%s %s" % (fam, ring)
    ctx.cover("%s:%s" % (ring, fam))
    cover_case(ctx, c, fam)
    ctx.desc = "%s %r k=%d" % (ring, c, k)
    if c.nontrivial():
        ctx.seen(ring, k, *c.payload())
    st = ctx.call(fam + " struct", STRUCT[fam], *([] if sr is None else [sr]))
    once(ctx, ring, fam, st, c, k, key)
    if rng.random() < 0.25:  # the same object on another batch
        ctx.cover("same object twice")
        if ring != "real" and tame(c) and rng.random() < 0.8:
            c = turn(rng, np.random.default_rng(rng.getrandbits(60)), c)[1]
        else:
            c = draw()
        ctx.desc = "second %s %r k=%d" % (ring, c, k)
        if k <= max_k(c):
            once(ctx, ring, fam, st, c, k, key)
