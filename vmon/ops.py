"""One monitored query of any kind, judged by the reference model.

Used by the properties that quantify over "every query".
"""
import math

import numpy as np
import torch

from .core import to_np
from .gen import Case, check_structure, dead_mask, structure_score
from .props.c02 import check_marginals
from .props.c03 import check_argmax
from .props.c04 import check_kmax, check_topk
from .props.c07 import events

TENSOR_OPS = ("partition", "marginals", "max", "argmax", "mode", "kmax", "topk", "entropy", "count", "log_prob", "sample", "cross_entropy", "kl", "gumbel_crf")
CFG_OPS = ("partition", "marginals", "max", "argmax", "kmax", "topk", "entropy")


def ops_of(c):
    if c.fam.name == "cfg":
        return CFG_OPS
    if max(c.counts()) > (1e34 if c.dtype == torch.float32 else 1e290):  # not representable
        return tuple(op for op in TENSOR_OPS if op != "count")
    return TENSOR_OPS


def partner_of(c, seed):
    """A fixed second distribution for the divergences."""
    nrng = np.random.default_rng(seed)
    th = nrng.standard_normal(c.theta.shape)
    for b in range(c.batch):
        if c.lengths is not None:
            m = dead_mask(c.fam, c.L(b)).reshape(c.fam.shape)
            th[b] = np.where(m, 3.0 * th[b], th[b])
    return Case(c.fam, th, c.lengths, c.dtype)


def raw(ctx, fam, c, d, op, k=3, n=3, value=None, other=None):
    """The library's answer, unjudged."""
    name = "%s.%s" % (fam, op)
    if op in ("kmax", "topk"):
        return ctx.call(name, getattr(d, op), k)
    if op == "sample":
        return ctx.call(name, d.sample, (n,))
    if op == "log_prob":
        return ctx.call(name, d.log_prob, value)
    if op in ("cross_entropy", "kl"):
        return ctx.call(name, getattr(d, op), other)
    if op == "gumbel_crf":
        return ctx.call(name, d.gumbel_crf)
    return ctx.call(name, lambda: getattr(d, op))


def judge(ctx, fam, c, op, ans, k=3, n=3, value=None, scores=None, q=None, tag=""):
    """Compare an answer with the reference; returns nothing."""
    key = "%s.%s%s" % (fam, op, tag)
    ctx.count("judged:" + op)
    slack = 4 + c.fam.N / 2
    if op == "partition":
        ctx.close(key, ans, c.logz(), c.tol)
    elif op == "marginals":
        check_marginals(ctx, fam, c, ans, "." + op + tag)
        if c.fam.name == "cfg":
            t = to_np(ans[0])
            for b in range(c.batch):
                ctx.expect(key + " zero on padding", not t[b, c.L(b):].any(), "item %d" % b)
    elif op == "max":
        ctx.close(key, ans, c.best(), c.tol)
    elif op in ("argmax", "mode"):
        check_argmax(ctx, key, c, ans, c.best())
    elif op == "kmax":
        check_kmax(ctx, key, c, k, ans)
    elif op == "topk":
        check_topk(ctx, key, c, k, ans)
    elif op == "entropy":
        ctx.close(key, ans, c.entropy(), slack * c.tol)
    elif op == "count":
        want = np.array([float(x) for x in c.counts()])
        ctx.close(key, ans, want, 1e-9 + np.abs(want) * (1e-12 if c.dtype == torch.float64 else 4e-6) * c.fam.N)
    elif op == "log_prob":
        ctx.close(key, ans, scores - c.logz(), 2 * c.tol)
    elif op in ("cross_entropy", "kl"):
        want = np.array([c.graph(b).cross_entropy(c.th(b), q.th(b)) for b in range(c.batch)])
        if op == "kl":
            want = want - c.entropy()
        ctx.close(key, ans, want, 2 * slack * (c.tol + q.tol))
    elif op in ("sample", "gumbel_crf"):
        a = to_np(ans)
        if op == "gumbel_crf":
            a, n = a[None], 1
        if not ctx.expect(key + " shape", a.shape == (n,) + c.theta.shape, str(a.shape)):
            return
        lz = c.logz()
        for r in range(n):
            for b in range(c.batch):
                on = check_structure(ctx, key, c, b, a[r, b])
                if on is not None and c.L(b) > 1:
                    lp = structure_score(c, b, on) - lz[b]
                    floor = -(math.log(c.ref("count", b)) + 30.0 + 2 * c.tol)
                    ctx.expect(key + " probable", lp >= floor, lambda: "log-probability %r" % lp)
    else:
        raise KeyError(op)


class Session:
    """A case with everything needed to ask and judge any query on it."""

    def __init__(self, ctx, fam, c, k=None, n=None):
        self.ctx, self.fam, self.c = ctx, fam, c
        self.k = k or ctx.rng.randint(1, 4)
        self.n = n or ctx.rng.choice([1, 2, 3, 11])
        self.value = self.scores = self.q = None
        if c.fam.name != "cfg":
            ev, self.scores = events(ctx.rng, c, (2,), ctx.rng.random() < 0.5)
            self.value = torch.tensor(ev).to(c.dtype)
            self.q = partner_of(c, ctx.rng.getrandbits(62))

    def ask(self, d, op):
        other = self.q.dist() if op in ("cross_entropy", "kl") else None
        return raw(self.ctx, self.fam, self.c, d, op, self.k, self.n, self.value, other)

    def ask_other(self, d, op, other):
        """With the partner of the divergences made by the caller."""
        return raw(self.ctx, self.fam, self.c, d, op, self.k, self.n, self.value, other)

    def ask_raw(self, d, op):
        """The query itself, unmonitored."""
        if op in ("kmax", "topk"):
            return getattr(d, op)(self.k)
        if op == "sample":
            return d.sample((self.n,))
        if op == "log_prob":
            return d.log_prob(self.value)
        if op in ("cross_entropy", "kl"):
            return getattr(d, op)(self.q.dist())
        if op == "gumbel_crf":
            return d.gumbel_crf()
        return getattr(d, op)

    def judge(self, op, ans, tag=""):
        judge(self.ctx, self.fam, self.c, op, ans, self.k, self.n, self.value, self.scores, self.q, tag)

    def check(self, d, op, tag=""):
        ans = self.ask(d, op)
        self.judge(op, ans, tag)
        return ans


def max_k(c):
    """Largest k the k-best products can afford on this case."""
    from .props.c04 import memory

    k = 1
    while k < 4 and memory(c.fam, c.batch, k + 1) < 3e6:
        k += 1
    return k
