"""C07 log_prob."""
import math

import numpy as np
import torch
import torch_struct as ts

from ..core import Abort
from ..gen import TENSOR_FAMS, cost, cover_case, fam_at, gen_case, pick, size_at

N = {"quick": 10000, "thorough": 50000}
RULE = "one monitored log_prob call on legal structures of a batch that has at least two structures; distinct by potentials, lengths, dtype and sample shape"
REQUIRED = ["family:" + f for f in TENSOR_FAMS] + ["dtype:float32", "dtype:float64", "lengths:none", "lengths:mixed", "lengths:one", "shape:0", "shape:1", "shape:2", "sums to one", "batch:4+", "grammar score"]


def events(rng, c, shape, uniform):
    """Random structures; returns (array shape+batch+event, scores)."""
    n = int(np.prod(shape)) if shape else 1
    ev = np.zeros((n, c.batch, c.fam.n_parts))
    sc = np.zeros((n, c.batch))
    for b in range(c.batch):
        g, th = c.graph(b), c.th(b)
        for r in range(n):
            s = g.random(rng, None if uniform else th)
            ev[r, b, list(s)] = 1
            sc[r, b] = math.fsum(th[p] for p in s)
    return ev.reshape(tuple(shape) + (c.batch,) + c.fam.shape), sc.reshape(tuple(shape) + (c.batch,))


def case(ctx, i):
    if i % 500 == 499:
        return nonproj(ctx)
    if i % 16 == 15:
        return grammar(ctx)
    fam = fam_at(i, TENSOR_FAMS)
    rng = ctx.rng
    shape = pick(rng, (2, ()), (3, (rng.randint(1, 7),)), (2, (rng.randint(1, 3), rng.randint(1, 4))), (1, (2, 1, 3)))
    for _ in range(50):
        c = gen_case(rng, fam, size_at(rng), budget=15000, layouts=True, grads=True)
        if cost(c.fam) * c.batch * np.prod(shape or (1,)) < 8e4:
            break
    ctx.desc = "%r shape=%s" % (c, shape)
    cover_case(ctx, c, fam)
    ctx.cover("shape:%d" % min(len(shape), 2))
    if c.nontrivial():
        ctx.seen(shape, *c.payload())
    logz = c.logz()
    ev, sc = events(rng, c, shape, rng.random() < 0.6)
    v = torch.tensor(ev)
    kind = rng.choice(["same", "long", "double", "bool", "float"])
    v = {"same": v.to(c.dtype), "long": v.long(), "double": v.double(), "bool": v.bool(), "float": v.float()}[kind]
    if rng.random() < 0.3:
        v = v.transpose(-1, -2).contiguous().transpose(-1, -2)
    d = ctx.call(fam + " dist", c.dist)
    lp = ctx.call(fam + ".log_prob", d.log_prob, v)
    ctx.close(fam + ".log_prob", lp, sc - logz, 2 * c.tol, "value %s" % kind)
    # all structures of one item sum to one
    small = [b for b in range(c.batch) if 1 < c.ref("count", b) <= 300 and c.L(b) > 1]
    if small and rng.random() < 0.5:
        b = rng.choice(small)
        ctx.cover("sums to one")
        st = c.graph(b).enumerate()
        ev = np.zeros((len(st), c.fam.n_parts))
        for r, s in enumerate(st):
            ev[r, list(s)] = 1
        full, _ = events(rng, c, (1,), True)
        v = np.repeat(full, len(st), axis=0)
        v[:, b] = ev.reshape((len(st),) + c.fam.shape)
        lp = ctx.call(fam + ".log_prob", d.log_prob, torch.tensor(v).to(c.dtype))
        ctx.expect(fam + ".log_prob shape", tuple(lp.shape) == (len(st), c.batch), str(tuple(lp.shape)))
        tot = float(lp[:, b].detach().double().exp().sum())
        ctx.close(fam + ".log_prob sums to one", tot, 1.0, 3 * c.tol * max(1.0, 1.0))


def grammar(ctx):
    """CKY.score: the total of a derivation given as counts of its parts."""
    rng = ctx.rng
    c = gen_case(rng, "cfg", size_at(rng), budget=15000, layouts=True, grads=True)
    ctx.cover("grammar score")
    ctx.desc = "score of %r" % c
    if c.nontrivial():
        ctx.seen("score", *c.payload())
    flat = np.zeros((c.batch, c.fam.n_parts))
    want = np.zeros(c.batch)
    for b in range(c.batch):
        th = c.th(b)
        s = c.graph(b).random(rng, None if rng.random() < 0.6 else th)
        np.add.at(flat[b], list(s), 1)
        want[b] = math.fsum(th[p] for p in s)
    parts = [torch.tensor(x) for x in c.split(flat)]
    parts = [x.to(c.dtype) if rng.random() < 0.7 else x.long() for x in parts][: rng.choice([3, 4])]
    pot = c.tensors()
    st = ts.CKY(rng.choice([ts.LogSemiring, ts.MaxSemiring]))
    v = ctx.call("cfg.score", st.score, pot if rng.random() < 0.5 else list(pot), tuple(parts))
    ctx.close("cfg.score", v, want, 2 * c.tol)
    if c.lengths is None or len(set(c.lengths)) == 1:
        return
    # zeros on the padding of the events: what is stored in the potentials there is irrelevant
    am = ctx.call("cfg.argmax", lambda: c.dist().argmax)
    v = ctx.call("cfg.score", st.score, pot, am)
    ctx.close("cfg.score of argmax", v, c.best(), 2 * c.tol)


def nonproj(ctx):
    ctx.desc = "non-projective log_prob"
    ctx.cover("family:nonproj")
    d = ts.NonProjectiveDependencyCRF(torch.zeros(1, 3, 3))
    v = torch.zeros(1, 3, 3)
    v[0, 0, 0] = v[0, 0, 1] = v[0, 1, 2] = 1
    try:
        lp = ctx.call("nonproj.log_prob", d.log_prob, v)
    except Abort:
        return
    ctx.close("nonproj.log_prob", lp, [-math.log(9.0)], 1e-3)
