"""C12 HMM and HSMM adapters."""
import itertools
import math

import numpy as np
import torch
import torch_struct as ts

from ..gen import Case, pick
from ..models import Fam
from ..ops import Session, max_k, ops_of

N = {"quick": 12000, "thorough": 40000}
RULE = "one parameter set and observation batch, judged through several queries; distinct by parameters, observations and lengths"
REQUIRED = ["kind:hmm", "kind:hsmm", "hmm:total probability", "hsmm:init shared", "hsmm:init per item", "lengths:mixed", "lengths:none", "dtype:float32", "dtype:float64", "V<C", "V>C", "V:9+", "steps:64+", "edges:9+", "batch:4+", "batch:17+"]
ASSUMPTIONS = ["HMM items have at least two observations: a chain of length one has no parts that could carry its emission"]


def lsm(x, axis):
    m = x.max(axis=axis, keepdims=True)
    return x - m - np.log(np.exp(x - m).sum(axis=axis, keepdims=True))


def r(x, dtype):
    return x.astype(np.float32).astype(np.float64) if dtype == torch.float32 else x


def lens_of(rng, n, B, lo):
    if rng.random() < 0.4:
        return None
    ls = [rng.randint(lo, n) for _ in range(B)]
    ls[rng.randrange(B)] = n
    return ls


def hmm(ctx):
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(62))
    C, V = pick(rng, (9, rng.randint(1, 6)), (1, rng.randint(7, 12)), (0.1, rng.randint(13, 30))), pick(rng, (9, rng.randint(1, 8)), (1, rng.randint(9, 60)), (0.2, rng.randint(130, 400)))
    n = pick(rng, (40, rng.randint(2, 6)), (20, rng.randint(7, 20)), (8, rng.choice([32, 33, 34, 40])), (2, rng.choice([64, 65, 66, 70])))
    B = pick(rng, (20, 1), (40, rng.randint(2, 5)), (10, rng.randint(6, 16)), (2, rng.randint(17, 80)))
    if C * C * n * B > 12000:
        B = max(1, 12000 // (C * C * n))
    if V > 8:
        ctx.cover("V:9+")
    if n > 63:
        ctx.cover("steps:64+")
    if B > 16:
        ctx.cover("batch:17+")
    dtype = rng.choice([torch.float32, torch.float64])
    sc = rng.choice([0.5, 1.0, 3.0])
    tr = r(lsm(sc * nrng.standard_normal((C, C)), 0), dtype)  # [z_n, z_{n-1}], columns normalised
    em = r(lsm(sc * nrng.standard_normal((V, C)), 0), dtype)
    init = r(lsm(sc * nrng.standard_normal(C), 0), dtype)
    obs = nrng.integers(0, V, (B, n))
    lens = lens_of(rng, n, B, 2)
    if V < C:
        ctx.cover("V<C")
    if V > C:
        ctx.cover("V>C")
    th = np.zeros((B, n - 1, C, C))
    for b in range(B):
        for t in range(n - 1):
            for z in range(C):
                for y in range(C):
                    s = tr[y, z] + em[obs[b, t + 1], y]
                    if t == 0:
                        s += init[z] + em[obs[b, 0], z]
                    th[b, t, y, z] = s
    f = Fam("chain", N=n, C=C)
    c = Case(f, th, lens, torch.float64)
    c.dtype = dtype  # tolerance of the input dtype, values in float64
    ctx.desc = "hmm C=%d V=%d n=%d b=%d len=%s %s" % (C, V, n, B, lens, dtype)
    ctx.seen(tr.tobytes(), em.tobytes(), obs.tobytes(), lens)
    common(ctx, B, lens, dtype)
    T = lambda x: torch.tensor(x, dtype=dtype)  # noqa: E731
    trt = T(tr)
    if rng.random() < 0.3:
        trt = trt.t().contiguous().t()
    ln = None if lens is None else torch.tensor(lens)
    d = ctx.call("hmm dist", ts.HMM, trt, T(em), T(init), torch.tensor(obs), ln)
    judge_some(ctx, "hmm", c, d)
    # definition: log-likelihood by the forward recursion on the parameters
    lik = []
    for b in range(B):
        L = n if lens is None else lens[b]
        a = init + em[obs[b, 0]]
        for t in range(1, L):
            x = a[None, :] + tr
            m = x.max(1)
            a = m + np.log(np.exp(x - m[:, None]).sum(1)) + em[obs[b, t]]
        lik.append(a.max() + math.log(np.exp(a - a.max()).sum()))
    z = ctx.call("hmm.partition", lambda: d.partition)
    ctx.close("hmm.partition likelihood", z, lik, c.tol)
    if V ** n <= 256 and lens is None:
        ctx.cover("hmm:total probability")
        allobs = torch.tensor(list(itertools.product(range(V), repeat=n)))
        d = ctx.call("hmm dist", ts.HMM, T(tr), T(em), T(init), allobs)
        z = ctx.call("hmm.partition", lambda: d.partition)
        ctx.close("hmm total probability", float(z.double().exp().sum().detach()), 1.0, 1e-3 if dtype == torch.float32 else 1e-9)


def hsmm(ctx):
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(62))
    C, K = pick(rng, (12, rng.randint(1, 4)), (0.5, rng.randint(5, 12))), pick(rng, (9, rng.randint(2, 5)), (1, rng.randint(6, 10)))
    n = pick(rng, (12, rng.randint(1, 8)), (1, rng.randint(9, 24)))  # number of edges
    B = pick(rng, (20, 1), (40, rng.randint(2, 5)), (10, rng.randint(6, 12)), (1, rng.randint(13, 40)))
    if C * C * K * n * B > 12000:
        B = max(1, 12000 // (C * C * K * n))
    if n > 8:
        ctx.cover("edges:9+")
    dtype = rng.choice([torch.float32, torch.float64])
    per = rng.random() < 0.5
    init = r(nrng.standard_normal((B, C) if per else (C,)), dtype)
    zz = r(lsm(2 * nrng.standard_normal((C, C)), 1), dtype)  # [z_n, z_{n+1}]
    zl = r(lsm(2 * nrng.standard_normal((C, K)), 1), dtype)
    em = r(nrng.standard_normal((B, n, K, C)), dtype)
    lens = lens_of(rng, n + 1, B, 1)
    ctx.cover("hsmm:init per item" if per else "hsmm:init shared")
    th = np.zeros((B, n, K, C, C))
    for b in range(B):
        for t in range(n):
            for k in range(K):
                for y in range(C):
                    for z in range(C):
                        s = zz[z, y] + zl[y, k] + em[b, t, k, y]
                        if t == 0:
                            s += init[b, z] if per else init[z]
                        th[b, t, k, y, z] = s
    f = Fam("semi", N=n + 1, K=K, C=C)
    c = Case(f, th, lens, torch.float64)
    c.dtype = dtype
    ctx.desc = "hsmm C=%d K=%d edges=%d b=%d len=%s %s" % (C, K, n, B, lens, dtype)
    ctx.seen(zz.tobytes(), em.tobytes(), lens)
    common(ctx, B, lens, dtype)
    T = lambda x: torch.tensor(x, dtype=dtype)  # noqa: E731
    args = [T(init), T(zz), T(zl), T(em)]
    keep = [a.clone() for a in args]
    e = ctx.call("hsmm edges", ts.SemiMarkov.hsmm, *args)
    ctx.close("hsmm edges", e, th, c.tol)
    ctx.expect("hsmm arguments", all(bool((x == y).all()) for x, y in zip(args, keep)), "an argument was modified")
    d = ctx.call("hsmm dist", ts.SemiMarkovCRF, e, lengths=None if lens is None else torch.tensor(lens))
    judge_some(ctx, "hsmm", c, d)


def common(ctx, B, lens, dtype):
    ctx.cover("dtype:" + str(dtype)[6:], "lengths:none" if lens is None else "lengths:given")
    if lens is not None and len(set(lens)) > 1:
        ctx.cover("lengths:mixed")
    if B >= 4:
        ctx.cover("batch:4+")


def judge_some(ctx, fam, c, d):
    s = Session(ctx, fam, c, k=max_k(c))
    ops = [o for o in ops_of(c) if o not in ("mode", "gumbel_crf", "cross_entropy", "kl", "count")]
    for op in ["partition", "log_prob", "marginals"] + ctx.rng.sample(ops, 2):
        s.check(d, op)


def case(ctx, i):
    kind = "hmm" if i % 2 == 0 else "hsmm"
    ctx.cover("kind:" + kind)
    (hmm if kind == "hmm" else hsmm)(ctx)
