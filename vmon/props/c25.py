"""C25 forbidden parts are never used."""
import numpy as np
import torch

from ..core import to_np
from ..gen import FAMS, Case, cover_case, fam_at, gen_case, layout, per_structure, size_at
from ..ops import Session, max_k, ops_of, partner_of
from .c07 import events

N = {"quick": 7000, "thorough": 36000}
RULE = "one query set on a distribution with forbidden parts and at least one legal structure left; distinct by potentials, lengths and forbidden parts"
REQUIRED = ["family:" + f for f in FAMS] + ["value:-1e9", "value:-inf", "one structure left", "lengths:mixed", "lengths:none", "dtype:float32", "dtype:float64", "share:low", "share:high", "pattern:parts", "pattern:shared", "partner forbids", "k>count", "scores:low"]
INF_OPS = ("partition", "max", "argmax", "mode", "kmax", "topk", "count")


class Forbidden(Case):
    """A case whose reference treats the forbidden parts as impossible."""

    def __init__(self, fam, theta, bad, value, lengths, dtype, tags=(), grad=False):
        self.value, self.bad = value, bad
        cfg = fam.name == "cfg"
        pair = list(zip(theta, bad)) if cfg else [(theta, bad)]
        ref = tuple(np.where(m, -np.inf, t) for t, m in pair)
        super().__init__(fam, ref if cfg else ref[0], lengths, dtype, "contig", grad, tags)

    def tensors(self, requires_grad=None):
        rg = self.grad if requires_grad is None else requires_grad
        ths = self.theta if self.fam.name == "cfg" else (self.theta,)
        out = tuple(layout(np.where(np.isinf(t), self.value, t), self.dtype, self.layout, rg) for t in ths)
        return out if self.fam.name == "cfg" else out[0]

    def ref(self, what, b, *a):
        if what == "count" and (what, b) not in self._ref:
            self._ref[(what, b)] = self.graph(b).count([t != -np.inf for t in self.th(b)])
        return super().ref(what, b, *a)


def masks(rng, nrng, c, share):
    """Forbidden parts of every item; one random structure per item survives."""
    ths = c.theta if c.fam.name == "cfg" else (c.theta,)
    bad = [nrng.random(t.shape) < share for t in ths]
    shared = rng.random() < 0.3
    if shared:  # the same parts in every item, and along the sentence
        for m in bad:
            m[:] = m[:1]
            if c.fam.name in ("chain", "semi"):
                m[:] = m[:, :1] if m.shape[1] else m
    for b in range(c.batch):
        keep = list(c.graph(b).random(rng))
        o = 0
        for m in bad:
            n = m[b].size
            ids = [p - o for p in keep if o <= p < o + n]
            x = m[b].ravel()
            x[ids] = False
            m[b] = x.reshape(m[b].shape)
            o += n
    return (tuple(bad) if c.fam.name == "cfg" else bad[0]), shared


def case(ctx, i):
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(62))
    fam = fam_at(i)
    value = -np.inf if (i // 8) % 3 == 2 else -1e9
    share = rng.choice([0.05, 0.2, 0.4, 0.7, 0.95])
    base = gen_case(rng, fam, size_at(rng, (3, 4, 3, 1, 0.1)), budget=10000, grads=True, mode=rng.choice(["normal", "normal", "tiny", "wide", "ties", "positive", "zeros", "peaked", "half", "huge", "shift", "mixed"]))
    if rng.random() < 0.15:  # every allowed structure scores far below zero
        ctx.cover("scores:low")
        off = min(rng.choice([300.0, 1000.0, 3000.0]), 15000.0 / per_structure(base.fam))
        ths = tuple(t - off for t in (base.theta if fam == "cfg" else (base.theta,)))
        base = Case(base.fam, ths if fam == "cfg" else ths[0], base.lengths, base.dtype, "contig", base.grad, base.tags)
    bad, shared = masks(rng, nrng, base, share)
    c = Forbidden(base.fam, base.theta, bad, value, base.lengths, base.dtype, base.tags, base.grad)
    cover_case(ctx, c, fam)
    ctx.cover("value:-inf" if np.isinf(value) else "value:-1e9", "share:low" if share < 0.3 else "share:high", "pattern:shared" if shared else "pattern:parts")
    if 1 in c.counts():
        ctx.cover("one structure left")
    ctx.seen(value, *c.payload())
    if np.isinf(value):
        ops = [op for op in INF_OPS if op in ops_of(c)]
    else:
        ops = [op for op in ops_of(c) if op != "count"]
    s = Session.__new__(Session)
    s.ctx, s.fam, s.c, s.k, s.n = ctx, fam, c, rng.randint(1, max_k(c)), rng.choice([1, 3, 11])
    s.value = s.scores = s.q = None
    if fam != "cfg" and not np.isinf(value):
        ev, s.scores = events(rng, c, (2,), False)
        s.value = torch.tensor(ev).to(c.dtype)
        s.q = partner_of(base, rng.getrandbits(62))
        if rng.random() < 0.6:  # the second distribution forbids part of what the first forbids
            ctx.cover("partner forbids")
            sub = bad & (nrng.random(bad.shape) < rng.choice([0.5, 1.0]))
            s.q = Forbidden(s.q.fam, s.q.theta, sub, value, s.q.lengths, s.q.dtype)
    ctx.desc = "forbidden=%s share=%s %r k=%d" % (value, share, c, s.k)
    d = ctx.call(fam + " dist", c.dist)
    for op in rng.sample(ops, min(len(ops), 5)):
        a = s.ask(d, op)
        xs = [to_np(x) for x in (a if isinstance(a, (tuple, list)) else (a,))]
        ctx.expect("%s.%s no NaN" % (fam, op), not any(np.isnan(x).any() for x in xs), "NaN in the answer")
        if op in ("kmax", "topk") and min(c.counts()) < s.k:
            ctx.cover("k>count")
        s.judge(op, a, " with forbidden parts")
        ms = bad if fam == "cfg" else (bad,)
        if op in ("marginals", "argmax", "mode", "sample", "gumbel_crf"):
            for m, x in zip(ms, xs):
                on = x[np.broadcast_to(m, x.shape)]
                ctx.expect("%s.%s zero on forbidden parts" % (fam, op), (np.abs(on) < 1e-30).all(), lambda: "%r on a forbidden part" % np.abs(on).max())
