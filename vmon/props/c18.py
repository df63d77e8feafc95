"""C18 autoregressive samples follow the model."""
import math

import numpy as np
import torch

from ..ar import Spec
from ..core import to_np
from ..gen import pick
from .c06 import experiment, report
from ..stats import binom_tail

N = {"quick": 5000, "thorough": 20000}
RULE = "one statistical experiment on a small model, or one draw without replacement; distinct by tables, initial states and request"
REQUIRED = ["kind:sample", "kind:without one", "kind:without many", "kind:without all", "kind:large", "normalize:yes", "normalize:no", "test:joint", "test:slot", "test:slot-pairs", "test:batch-pairs", "test:calls", "mode:grad", "mode:no_grad"]
ASSUMPTIONS = ["each statistical test rejects a correct sampler with probability below 1e-9"]


class Seqs:
    """Adapter: sequences as structures of the statistical experiment."""

    def __init__(self, sp, items):
        self.sp = sp
        self.fam = self
        self.shape = (sp.N, sp.C)
        self.n_parts = sp.N * sp.C
        self.items = items

    def th(self, it):
        return None

    def structures(self, it):
        sp = self.sp
        return {tuple(t * sp.C + x for t, x in enumerate(s)): math.exp(sp.score(it, s, force=True)) for s in sp.all()}


def case(ctx, i):
    off = ctx.rng.random() < 0.25
    ctx.cover("mode:no_grad" if off else "mode:grad")
    with torch.set_grad_enabled(not off):
        run(ctx, i)


def run(ctx, i):
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(62))
    kind = ("sample", "without one", "without many", "without all", "large")[i % 5]
    dtype = rng.choice([torch.float32, torch.float64])
    norm = rng.random() < 0.6
    ctx.cover("kind:" + kind, "normalize:" + ("yes" if norm else "no"))
    scale = rng.choice([0.2, 0.5, 0.8])
    if kind == "large":
        large(ctx, rng, nrng, dtype, norm)
        return
    C, n = rng.choice([(2, 1), (2, 2), (2, 3), (2, 4), (3, 1), (3, 2), (3, 3), (4, 2), (5, 1)])
    if kind in ("without many", "without all"):
        B = rng.randint(1, 6)
        sp = Spec(rng, nrng, C, n, B, dtype, norm, scale=rng.choice([0.5, 1.0, 3.0]))
        tot = C ** n
        K = tot if kind == "without all" else rng.randint(2, tot)
        ctx.desc = "ar C=%d N=%d b=%d K=%d normalize=%s %s" % (C, n, B, K, norm, dtype)
        ctx.seen(kind, K, sp.t1.tobytes(), sp.s.tobytes())
        d = sp.dist()
        for _ in range(5):
            p = to_np(ctx.call("ar.sample_without_replacement", d.sample_without_replacement, (K,)))
            if not ctx.expect("ar.sample_without_replacement shape", p.shape == (K, B, n, C), str(p.shape)):
                return
            ctx.expect("ar.sample_without_replacement one-hot", ((p == 0) | (p == 1)).all() and (p.sum(-1) == 1).all(), "not one-hot")
            ids = p.argmax(-1)
            for b in range(B):
                got = {tuple(x) for x in ids[:, b]}
                ctx.expect("ar.sample_without_replacement distinct", len(got) == K, lambda: "item %d: %d different of %d: %s" % (b, len(got), K, ids[:, b].tolist()))
        return
    items = rng.randint(1, 3)
    rep = rng.choice([100, 200])
    sp = Spec(rng, nrng, C, n, items * rep, dtype, norm, scale=scale)
    for it in range(items):  # item of row r is r % items
        sp.s[it::items], sp.u[it::items], sp.v[it::items] = sp.s[it], sp.u[it], sp.v[it]
    c = Seqs(sp, items)
    d = sp.dist()
    if kind == "sample":
        m = rng.choice([1, 2, 5, 12])
        draw = lambda: to_np(ctx.call("ar.sample", d.sample, (m,)))  # noqa: E731
        key = "ar.sample"
    else:
        m = rng.choice([1, 2, 5])
        draw = lambda: np.concatenate([to_np(ctx.call("ar.sample_without_replacement", d.sample_without_replacement, (1,))) for _ in range(m)])  # noqa: E731
        key = "ar.sample_without_replacement"
    ctx.desc = "ar C=%d N=%d items=%d rep=%d n=%d normalize=%s start=%d %s %s" % (C, n, items, rep, m, norm, sp.start, kind, dtype)
    ctx.seen(kind, m, sp.t1.tobytes(), sp.s.tobytes())
    a = experiment(ctx, "ar", c, items, rep, m, draw, key=key)
    b = experiment(ctx, "ar", c, items, rep, m, draw, key=key)
    if a is None or b is None:
        return
    ctx.cover("test:calls")
    for (ia, pr), (ib, _) in zip(a, b):
        same = sum(q * q for q in pr)
        if same < 0.97:
            k = int((ia == ib).sum())
            report(ctx, key + " independent calls", binom_tail(k, ia.size, same), "two calls agree %d of %d times, expected %.3f" % (k, ia.size, same))


def large(ctx, rng, nrng, dtype, norm):
    """Longer sequences: shape, one-hot, and tokens that are not improbable."""
    C, n, B, m = rng.randint(2, 6), rng.randint(4, 10), rng.randint(1, 5), rng.randint(1, 12)
    if rng.random() < 0.3:
        C, n, B, m = rng.choice([(30, 5, 3, 9), (4, 40, 3, 9), (3, 6, 40, 9), (3, 6, 3, 120), (300, 4, 2, 9)])
    sp = Spec(rng, nrng, C, n, B, dtype, norm, scale=6.0)
    ctx.desc = "ar large C=%d N=%d b=%d n=%d normalize=%s" % (C, n, B, m, norm)
    ctx.seen("large", sp.t1.tobytes(), sp.s.tobytes())
    out = ctx.call("ar.sample", sp.dist().sample, (m,))
    p = to_np(out)
    if not ctx.expect("ar.sample shape", p.shape == (m, B, n, C), str(p.shape)):
        return
    if not ctx.expect("ar.sample one-hot", ((p == 0) | (p == 1)).all() and (p.sum(-1) == 1).all(), "not one-hot"):
        return
    for r in range(m):
        for b in range(B):
            lp = sp.score(b, p[r, b].argmax(-1).tolist(), force=True)
            floor = -(n * math.log(C) + 30.0)
            ctx.expect("ar.sample probable", lp >= floor, lambda: "sample %d of item %d has log-probability %r" % (r, b, lp))
    K = rng.choice([2, 7, 40])
    p = to_np(ctx.call("ar.sample_without_replacement", sp.dist().sample_without_replacement, (K,)))
    K = min(K, C ** n)
    if ctx.expect("ar.sample_without_replacement one-hot", p.shape[1:] == (B, n, C) and ((p[:K] == 0) | (p[:K] == 1)).all() and (p[:K].sum(-1) == 1).all(), "not one-hot"):
        for b in range(B):
            got = {tuple(x) for x in p[:K, b].argmax(-1).tolist()}
            ctx.expect("ar.sample_without_replacement distinct", len(got) == K, lambda: "item %d: %d different of %d" % (b, len(got), K))
