"""C09 padding never influences an item."""
import numpy as np
import torch

from ..core import to_np
from ..gen import FAMS, PADS, Case, cover_case, dead_mask, fam_at, fill_pad, gen_case, pad_mask, pick, size_at
from ..models import Fam
from ..ops import Session, max_k, ops_of, partner_of, raw

N = {"quick": 4000, "thorough": 16000}
RULE = "one batch with given lengths, queried with two different paddings and item by item at its own length; distinct by potentials, lengths and dtype"
REQUIRED = ["family:" + f for f in FAMS] + ["dtype:float32", "dtype:float64", "lengths:mixed", "lengths:one", "cut", "repad"] + ["pad:" + p for p in PADS]
DET = ("partition", "marginals", "max", "kmax", "entropy", "count", "log_prob", "cross_entropy", "kl")


def repad(rng, c):
    """The same items with other values in the padding."""
    nrng = np.random.default_rng(rng.getrandbits(63))
    pad = rng.choice(PADS)
    if c.fam.name == "cfg":
        t = c.theta[0].copy()
        for b, L in enumerate(c.lengths):
            t[b, L:] = fill_pad(rng, nrng, t[b, L:].shape, pad)
        return Case(c.fam, (t,) + c.theta[1:], c.lengths, c.dtype)
    th = c.theta.copy()
    for b, L in enumerate(c.lengths):
        th[b] = np.where(pad_mask(c.fam, L), fill_pad(rng, nrng, th[b].shape, pad), th[b])
    return Case(c.fam, th, c.lengths, c.dtype)


def cut_theta(c, b, th=None):
    f, L = c.fam, c.L(b)
    if f.name == "cfg":
        t, r, o = c.theta
        return Fam("cfg", **dict(f.kw, N=L)), (t[b:b + 1, :L], r[b:b + 1], o[b:b + 1])
    th = c.theta if th is None else th
    g = Fam(f.name, **dict(f.kw, N=L))
    x = th[b:b + 1]
    if f.name in ("chain", "semi"):
        return g, x[:, :L - 1]
    return g, x[:, :L, :L]


def close(ctx, key, x, y, tol, msg):
    x, y = to_np(x), to_np(y)
    both = (x < -5e4) & (y < -5e4) if x.shape == y.shape else None
    if both is not None:
        x, y = np.where(both, 0, x), np.where(both, 0, y)
    ctx.close(key, x, y, tol, msg)


def crop(f, L, a):
    """Part-valued answer of a padded item -> that of the cut item."""
    if f.name in ("chain", "semi"):
        return a[:, :L - 1]
    return a[:, :L, :L]


def case(ctx, i):
    fam = fam_at(i)
    rng = ctx.rng
    lm = pick(rng, (6, "mixed"), (1, "near"), (1, "short"), (1, "full"))
    c = gen_case(rng, fam, size_at(rng, (2, 5, 4, 1, 0.1)), budget=12000, lengths_mode=lm, layouts=False)
    ctx.desc = repr(c)
    cover_case(ctx, c, fam)
    if c.nontrivial() and min(c.lengths) < c.fam.N:
        ctx.seen(*c.payload())
    s = Session(ctx, fam, c, k=max_k(c))
    d = ctx.call(fam + " dist", c.dist)
    # 1. against the reference, which never sees the padding
    ops = [op for op in ops_of(c) if op != "mode"]
    some = ops if rng.random() < 0.25 else rng.sample(ops, min(len(ops), 5))
    ans = {op: s.check(d, op) for op in some}
    # 2. other padding, same answers
    c2 = repad(rng, c)
    ctx.cover("repad")
    d2 = ctx.call(fam + " dist", c2.dist)
    s2 = Session(ctx, fam, c2, k=s.k, n=s.n)
    s2.value, s2.q, s2.scores = s.value, s.q, s.scores
    tol = 4 * c.tol + 4 * c2.tol * 0
    slack = 4 + c.fam.N / 2
    for op in some:
        a2 = s2.ask(d2, op)
        if op in DET:
            t = tol * (slack if op in ("entropy", "kl", "cross_entropy") else 1)
            if op == "count":
                t = 1e-9 + 1e-5 * np.abs(to_np(ans[op]))
            if op in ("kl", "cross_entropy"):
                t = 2 * slack * (c.tol + s.q.tol)
            pairs = zip(ans[op], a2) if isinstance(a2, tuple) else [(ans[op], a2)]
            for x, y in pairs:
                close(ctx, "%s.%s other padding" % (fam, op), y, x, t, "")
        else:
            c2._ref = c._ref
            s2.judge(op, a2, " other padding")
    # 3. the item alone at its own length
    for b in rng.sample(range(c.batch), min(2, c.batch)):
        L = c.L(b)
        if L < 2 and c.fam.name in ("chain", "semi"):
            continue
        ctx.cover("cut")
        f, th = cut_theta(c, b)
        one = Case(f, th, None if rng.random() < 0.6 else [L], c.dtype)
        do = ctx.call(fam + " dist", one.dist)
        val = crop(c.fam, L, s.value[:, b]).unsqueeze(1) if s.value is not None else None
        other = None
        if s.q is not None:
            g, qt = cut_theta(s.q, b)
            other = Case(g, qt, one.lengths, c.dtype).dist()
        for op in some:
            if op not in DET:
                continue
            a = raw(ctx, fam, one, do, op, s.k, s.n, val, other)
            t = tol * (slack if op == "entropy" else 1)
            if op in ("kl", "cross_entropy"):
                t = 2 * slack * (c.tol + s.q.tol)
            full = ans[op]
            key = "%s.%s cut" % (fam, op)
            if op == "marginals":
                if c.fam.name == "cfg":
                    close(ctx, key, a[0][0], full[0][b, :L], t, "item %d" % b)
                    close(ctx, key, a[1][0], full[1][b], t, "item %d" % b)
                    close(ctx, key, a[2][0], full[2][b], t, "item %d" % b)
                    for w in range(L - 1):
                        close(ctx, key, a[3][0, w, :L - 1 - w], full[3][b, w, :L - 1 - w], t, "item %d" % b)
                else:
                    close(ctx, key, a[0], crop(c.fam, L, full[b:b + 1])[0], t, "item %d" % b)
            elif op in ("kmax", "log_prob"):
                close(ctx, key, a[:, 0], full[:, b], t, "item %d" % b)
            elif op == "count":
                close(ctx, key, a[0], full[b], 1e-9 + 1e-5 * float(full[b]), "item %d" % b)
            else:
                close(ctx, key, a[0], full[b], t, "item %d" % b)
