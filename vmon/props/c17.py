"""C17 autoregressive scoring, greedy and beam search."""
import numpy as np
import torch

from ..ar import SoftModel, Spec, onehot
from ..core import to_np
from ..gen import pick

OPS = ("log_prob", "greedy", "beam", "exhaustive", "tempmax", "soft")
N = {"quick": 12000, "thorough": 60000}
RULE = "one model with prefix-dependent three-tensor state and one query; distinct by tables, initial states and query"
REQUIRED = ["op:" + o for o in OPS] + ["normalize:yes", "normalize:no", "sparse:yes", "sparse:no", "batch:1", "batch:4+", "K>C", "K:1", "K:10+", "classes:10+", "classes:129+", "steps:7+", "start:other", "dtype:float32", "dtype:float64", "judged:beam", "judged:greedy", "mode:grad", "mode:no_grad"]
ASSUMPTIONS = ["hypotheses whose scores differ by less than the rounding of the dtype may be exchanged; such beams are not judged"]


def case(ctx, i):
    off = ctx.rng.random() < 0.25
    ctx.cover("mode:no_grad" if off else "mode:grad")
    with torch.set_grad_enabled(not off):
        run(ctx, i)


def soft(ctx, rng, nrng, C, n, B, dtype, norm):
    """greedy_tempmax of a model that takes weighted tokens."""
    import torch_struct as ts

    C, B, n = max(2, C), min(B, 12), min(n, 12)
    m = SoftModel(nrng, C, rng.randint(1, 5), dtype)
    h = torch.tensor(nrng.standard_normal((B, m.w.shape[0])), dtype=dtype)
    start = rng.randrange(C)
    alpha = rng.choice([0.0, 0.5, 1.0, 3.0, 20.0])
    ctx.desc = "ar soft C=%d N=%d b=%d alpha=%s normalize=%s start=%d %s" % (C, n, B, alpha, norm, start, dtype)
    ctx.seen("soft", h.numpy().tobytes(), n, alpha)
    d = ctx.call("ar dist", ts.Autoregressive, m, (h,), C, n, normalize=norm, start_class=start)
    path, score, logits = ctx.call("ar.greedy_tempmax", d.greedy_tempmax, alpha)
    tol = 2e-4 if dtype == torch.float32 else 1e-9
    p, lg, sc = to_np(path), to_np(logits), to_np(score)
    if not ctx.expect("ar.greedy_tempmax shape", p.shape == (B, n, C) and lg.shape == (B, n, C) and sc.shape == (B,), "%s %s %s" % (p.shape, lg.shape, sc.shape)):
        return
    best = lg.max(-1)
    ctx.close("ar.greedy_tempmax soft score", sc, best.sum(-1), tol * n)
    if ctx.expect("ar.greedy_tempmax soft steps", len(m.seen) == n, "model called for %d steps of %d" % (len(m.seen), n)):
        ctx.close("ar.greedy_tempmax first token", m.seen[0], np.tile(onehot((start,), C), (B, 1)), 1e-7)
        for t in range(1, n):
            e = alpha * (lg[:, t - 1] - best[:, t - 1, None])
            w = np.exp(e)
            ctx.close("ar.greedy_tempmax tokens", m.seen[t], w / w.sum(-1, keepdims=True), 20 * tol * max(1, alpha), "step %d" % t)
    if norm:
        ctx.close("ar.greedy_tempmax normalised", np.exp(lg).sum(-1), np.ones((B, n)), 10 * tol)
    if not alpha:  # no noise: the scores are the model's
        want, st = [], (h,)
        for t in range(n):
            with torch.no_grad():
                o, st = SoftModel.forward(m, m.seen[t].unsqueeze(1), st)
            want.append(to_np(o[:, 0].log_softmax(-1) if norm else o[:, 0]))
        ctx.close("ar.greedy_tempmax soft logits", lg, np.stack(want, 1), tol)
    gap = 1.0 if C == 1 else (best - np.sort(lg, -1)[..., -2]).min()
    if gap > 10 * tol:
        hard = np.eye(C)[lg.argmax(-1)]
        ctx.expect("ar.greedy_tempmax path of a model of weighted tokens", np.abs(p - hard).max() < 1e-6, lambda: "path %s" % p[0])


def run(ctx, i):
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(62))
    op = OPS[i % len(OPS)]
    C = pick(rng, (1, 1), (6, rng.randint(2, 4)), (2, rng.randint(5, 9)), (0.5, rng.randint(10, 40)), (0.15, rng.choice([129, 200])), (0.3, rng.choice([257, 300, 520])))
    n = pick(rng, (9, rng.randint(1, 6)), (1, rng.randint(7, 24)), (0.1, rng.randint(25, 80)))
    B = pick(rng, (2, 1), (3, rng.randint(2, 3)), (3, rng.randint(4, 8)), (0.4, rng.randint(9, 40)))
    dtype = rng.choice([torch.float32, torch.float64])
    norm = rng.random() < 0.6
    sp = Spec(rng, nrng, C, n, B, dtype, norm, scale=rng.choice([0.5, 1.0, 2.0]), same=rng.random() < 0.15)
    tol = (2e-4 if dtype == torch.float32 else 1e-9) * max(1, n / 6)
    ctx.cover("op:" + op, "normalize:" + ("yes" if norm else "no"), "dtype:" + str(dtype)[6:])
    if B == 1:
        ctx.cover("batch:1")
    if B >= 4:
        ctx.cover("batch:4+")
    if sp.start:
        ctx.cover("start:other")
    if C >= 10:
        ctx.cover("classes:10+")
    if C > 128:
        ctx.cover("classes:129+")
    if n >= 7:
        ctx.cover("steps:7+")
    ctx.desc = "ar C=%d N=%d b=%d %s normalize=%s start=%d %s" % (C, n, B, op, norm, sp.start, dtype)
    if C > 1:
        ctx.seen(op, sp.t1.tobytes(), sp.s.tobytes(), n)
    if op == "soft":
        soft(ctx, rng, nrng, C, n, B, dtype, norm)
        return
    d = ctx.call("ar dist", sp.dist)
    if op == "log_prob":
        S = pick(rng, (9, rng.randint(1, 5)), (1, rng.randint(6, 40)))
        seqs = nrng.integers(0, C, (S, B, n))
        sparse = rng.random() < 0.5
        ctx.cover("sparse:" + ("yes" if sparse else "no"))
        val = torch.tensor(seqs)
        if not sparse:
            val = torch.nn.functional.one_hot(val, C)
            if rng.random() < 0.5:
                val = val.to(dtype)
        if rng.random() < 0.2:
            val = val.transpose(0, 1).contiguous().transpose(0, 1)
        got = ctx.call("ar.log_prob", d.log_prob, val, **({"sparse": True} if sparse else {}))
        want = [[sp.score(b, seqs[s, b]) for b in range(B)] for s in range(S)]
        ctx.close("ar.log_prob", got, want, tol)
        return
    if op == "tempmax":
        alpha = rng.choice([0.5, 1.0, 3.0])
        path, score, logits = ctx.call("ar.greedy_tempmax", d.greedy_tempmax, alpha)
        p = to_np(path)
        lg = to_np(logits)
        ok = p.shape == (B, n, C) and lg.shape == (B, n, C)
        if ctx.expect("ar.greedy_tempmax shape", ok, "%s %s" % (p.shape, lg.shape)):
            ctx.expect("ar.greedy_tempmax one-hot", ((p == 0) | (p == 1)).all() and (p.sum(-1) == 1).all(), "path is not one-hot")
            ctx.close("ar.greedy_tempmax score", score, (p * lg).sum((-1, -2)), 10 * tol)
            ctx.expect("ar.greedy_tempmax locally best", ((p * lg).sum(-1) >= lg.max(-1) - tol).all(), "path does not follow the best tokens")
        return
    if op == "greedy":
        path, score, logits = ctx.call("ar.greedy_max", d.greedy_max)
        p = to_np(path)
        if not ctx.expect("ar.greedy_max shape", p.shape == (B, n, C), str(p.shape)):
            return
        lp = to_np(ctx.call("ar.log_prob", sp.dist().log_prob, path.detach().unsqueeze(0)))[0]
        ctx.close("ar.greedy_max score is log_prob", score, lp, 2 * tol)
        for b in range(B):
            seq, rows, gap = sp.greedy(b)
            if gap < 10 * tol:
                continue
            ctx.cover("judged:greedy")
            ctx.close("ar.greedy_max path", p[b], onehot(seq, C), 1e-6, "item %d" % b)
            ctx.close("ar.greedy_max score", score[b], sp.score(b, seq), 2 * tol, "item %d" % b)
            ctx.close("ar.greedy_max logits", logits[b], rows, tol, "item %d" % b)
        return
    if op == "exhaustive":
        n = min(n, 4) if C <= 3 else min(n, 2 if C <= 40 else 1)
        sp.N = n
        d = ctx.call("ar dist", sp.dist)
        K = min(C ** n, 30)
        if K < C ** max(0, n - 1):  # every prefix must survive
            K = C ** (n - 1)
        K = rng.randint(max(1, C ** (n - 1)), max(K, C ** (n - 1)))
    else:
        K = pick(rng, (1, 1), (4, rng.randint(2, 4)), (2, rng.randint(5, 9)), (0.5, rng.randint(10, 40)))
        if K >= 10:
            ctx.cover("K:10+")
    ctx.desc += " N=%d K=%d" % (n, K)
    if K > C:
        ctx.cover("K>C")
    if K == 1:
        ctx.cover("K:1")
    paths = ctx.call("ar.beam_topk", d.beam_topk, K)
    p = to_np(paths)
    if not ctx.expect("ar.beam_topk shape", p.shape == (K, B, n, C), str(p.shape)):
        return
    real = min(K, C ** n)
    oh = ((p[:real] == 0) | (p[:real] == 1)).all() and (p[:real].sum(-1) == 1).all()
    if not ctx.expect("ar.beam_topk one-hot", oh, "paths are not one-hot"):
        return
    lp = to_np(ctx.call("ar.log_prob", sp.dist().log_prob, paths.detach()[:real]))
    for b in range(B):
        got = [tuple(int(x) for x in p[r, b].argmax(-1)) for r in range(real)]
        ctx.expect("ar.beam_topk distinct", len(set(got)) == real, lambda: "item %d repeats a sequence: %s" % (b, got))
        ctx.expect("ar.beam_topk order", all(lp[r, b] >= lp[r + 1, b] - 4 * tol for r in range(real - 1)), lambda: "item %d: %s" % (b, lp[:, b]))
        want, gap = sp.beam(b, K)
        if gap < 10 * tol:
            continue
        ctx.cover("judged:beam")
        w = [s for _, s in want]
        ctx.expect("ar.beam_topk", got == w[:real], lambda: "item %d: %s, want %s" % (b, got, w))
        if op == "exhaustive":
            allseq = sorted(((sp.score(b, s), s) for s in sp.all()), reverse=True)[:real]
            ctx.expect("ar.beam_topk exhaustive", got == [s for _, s in allseq], lambda: "item %d: %s, want %s" % (b, got, allseq))
