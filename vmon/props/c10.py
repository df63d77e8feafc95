"""C10 batch items do not influence each other."""
import numpy as np
import torch
import torch_struct as ts

from ..core import to_np
from ..gen import FAMS, Case, cost, cover_case, fam_at, gen_case, gen_theta, pick, size_at
from ..ops import Session, max_k, ops_of, raw
from .c09 import close

N = {"quick": 4000, "thorough": 16000}
RULE = "one batch queried as given and rearranged (permuted, sliced, repeated, alone, next to extreme neighbours); distinct by potentials, lengths and arrangement"
ARR = ("permute", "slice", "repeat", "alone", "extreme", "reverse")
REQUIRED = ["family:" + f for f in FAMS] + ["dtype:float32", "dtype:float64", "lengths:mixed", "lengths:none", "batch:4+", "batch:16+", "batch:64+", "nonproj"] + ["arr:" + a for a in ARR]
DET = ("partition", "marginals", "max", "kmax", "entropy", "count", "log_prob", "cross_entropy", "kl")


def take(c, idx, dtype):
    th = tuple(t[idx] for t in c.theta) if isinstance(c.theta, tuple) else c.theta[idx]
    ls = None if c.lengths is None else [c.lengths[j] for j in idx]
    return Case(c.fam, th, ls, dtype)


def nonproj(ctx):
    """Non-projective items alone and next to much larger or smaller ones."""
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(62))
    n, B = pick(rng, (6, rng.randint(1, 7)), (1, rng.randint(8, 16))), pick(rng, (6, rng.randint(2, 6)), (1, rng.randint(7, 80)))
    multi = rng.random() < 0.5
    dtype = rng.choice([torch.float32, torch.float64])
    shift = rng.choice([0.0, 3.0, 12.0, 25.0])
    th = nrng.standard_normal((B, n, n)) + shift * nrng.uniform(-0.2, 1, (B, 1, 1))
    lens = None if rng.random() < 0.5 else [rng.randint(1, n) for _ in range(B)]
    ctx.desc = "nonproj n=%d b=%d multi=%s len=%s %s shift=%s" % (n, B, multi, lens, dtype, shift)
    ctx.cover("nonproj")
    ctx.seen(th.tobytes(), lens, multi, str(dtype))

    def ask(idx):
        t = torch.tensor(th[idx], dtype=dtype)
        d = ctx.call("nonproj dist", ts.NonProjectiveDependencyCRF, t, lengths=None if lens is None else torch.tensor([lens[j] for j in idx]), multiroot=multi)
        return to_np(ctx.call("nonproj.partition", lambda: d.partition)), to_np(ctx.call("nonproj.marginals", lambda: d.marginals))

    z, m = ask(list(range(B)))
    for idx in ([rng.randrange(B)], rng.sample(range(B), rng.randint(1, B))):
        z1, m1 = ask(idx)
        # the same matrices, so only the order of a few additions may differ
        ctx.close("nonproj.partition rearranged", z1, z[idx], (1e-3 if dtype == torch.float32 else 1e-8) * (1 + np.abs(z[idx])))
        ctx.close("nonproj.marginals rearranged", m1, m[idx], 5e-3 if dtype == torch.float32 else 1e-7)


def case(ctx, i):
    fam = fam_at(i)
    rng = ctx.rng
    if i % 40 == 39 or i % 40 == 20:
        return nonproj(ctx)
    mode = "mixed" if rng.random() < 0.4 else None
    want_b = pick(rng, (30, rng.randint(2, 4)), (30, rng.randint(4, 10)), (10, rng.randint(16, 48)), (1, rng.randint(64, 150)))
    size = size_at(rng, (2, 5, 4, 1, 0.1)) if want_b < 16 else "tiny" if want_b >= 64 else rng.choice(["tiny", "small"])
    budget = 14000
    for _ in range(30):
        c = gen_case(rng, fam, size, budget=budget, mode=mode, batch=want_b)
        if cost(c.fam) * c.batch <= budget:
            break
        want_b = max(2, want_b // 2)
    ctx.desc = repr(c)
    cover_case(ctx, c, fam)
    if c.batch >= 16:
        ctx.cover("batch:16+")
    if c.batch > 63:
        ctx.cover("batch:64+")
    if c.nontrivial():
        ctx.seen(*c.payload())
    s = Session(ctx, fam, c, k=max_k(c))
    d = ctx.call(fam + " dist", c.dist)
    ops = [op for op in ops_of(c) if op != "mode"]
    some = ops if rng.random() < 0.2 else rng.sample(ops, min(len(ops), 5))
    ans = {op: s.check(d, op) for op in some}
    arr = rng.choice(ARR)
    B = c.batch
    idx = list(range(B))
    if arr == "permute":
        rng.shuffle(idx)
    elif arr == "reverse":
        idx.reverse()
    elif arr == "slice":
        idx = sorted(rng.sample(idx, rng.randint(1, B)))
    elif arr == "repeat":
        idx = [rng.randrange(B) for _ in range(min(2 * B, 40))]
    elif arr == "alone":
        idx = [rng.randrange(B)]
    full = c.fam.N
    if c.lengths is not None and c.fam.name in ("chain", "semi") and max(c.lengths[j] for j in idx) < full:
        idx.append(next(j for j in range(B) if c.lengths[j] == full))
    c2 = take(c, idx, c.dtype)
    n_own = len(idx)
    if arr == "extreme":
        nrng = np.random.default_rng(rng.getrandbits(63))
        ex = gen_theta(rng, nrng, c.fam, 2, "huge")
        if isinstance(ex, tuple):
            th = tuple(np.concatenate([a, e[:1] * 0 + 40.0 * np.sign(e[:1]), e[1:]]) for a, e in zip(c2.theta, ex))
        else:
            th = np.concatenate([c2.theta, ex])
        ls = None if c2.lengths is None else c2.lengths + [rng.randint(c.fam.min_len, full) for _ in range(2)]
        c2 = Case(c.fam, th, ls, c.dtype)
        pos = list(range(n_own + 2))
        rng.shuffle(pos)
        c2 = take(c2, pos, c.dtype)
        idx = [idx[p] if p < n_own else None for p in pos]
    ctx.cover("arr:" + arr)
    ctx.desc += " " + arr
    d2 = ctx.call(fam + " dist", c2.dist)
    own = [(j, b) for j, b in enumerate(idx) if b is not None]
    val = other = None
    if s.value is not None:
        val = torch.stack([s.value[:, b] if b is not None else s.value[:, 0] for b in idx], dim=1)
        qth = np.stack([s.q.theta[b] if b is not None else s.q.theta[0] for b in idx])
        qc = Case(c.fam, qth, c2.lengths, c.dtype)
        other = qc.dist()
    slack = 4 + c.fam.N / 2
    js, bs = [j for j, _ in own], [b for _, b in own]
    for op in some:
        a = raw(ctx, fam, c2, d2, op, s.k, s.n, val, other)
        if op not in DET:
            # several answers are right: judge the rearranged batch itself
            s2 = Session.__new__(Session)
            s2.ctx, s2.fam, s2.c, s2.k, s2.n = ctx, fam, c2, s.k, s.n
            s2.value = s2.scores = s2.q = None
            s2.judge(op, a, " rearranged")
            continue
        t = 2 * c.tol
        if op == "entropy":
            t *= slack
        if op in ("kl", "cross_entropy"):
            t = 2 * slack * (c.tol + s.q.tol)
        key = "%s.%s rearranged" % (fam, op)
        pairs = zip(ans[op], a) if isinstance(a, tuple) else [(ans[op], a)]
        for x, y in pairs:
            if op in ("kmax", "log_prob"):
                x, y = x[:, bs], y[:, js]
            else:
                x, y = x[bs], y[js]
            if op == "count":
                t = 1e-9 + 1e-5 * np.abs(to_np(x))
            close(ctx, key, y, x, t, arr)
