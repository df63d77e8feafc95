"""C34 autoregressive scores carry the gradients of the model."""
import numpy as np
import torch
import torch_struct as ts

from ..ar import SoftModel, Spec, onehot
from ..core import to_np
from ..gen import pick

OPS = ("log_prob", "greedy score", "greedy logits", "beam scores", "reinforce", "mix", "soft")
WITH = ("all", "tables", "state", "computed")
N = {"quick": 12000, "thorough": 80000}
RULE = "one gradient of a score of an autoregressive model with respect to its tables and initial state; distinct by tables, initial states and query"
REQUIRED = ["op:" + o for o in OPS] + ["with:" + w for w in WITH] + ["normalize:yes", "normalize:no", "sparse:yes", "sparse:no", "batch:1", "batch:4+", "steps:7+", "classes:10+", "dtype:float32", "dtype:float64", "judged:beam", "judged:greedy", "backward", "grad", "twice"]
ASSUMPTIONS = ["scores of searches whose decisions are within rounding of a tie are not judged"]


def case(ctx, i):
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(62))
    op = OPS[i % len(OPS)]
    C = pick(rng, (0.5, 1), (6, rng.randint(2, 4)), (2, rng.randint(5, 9)), (0.7, rng.randint(10, 40)))
    n = pick(rng, (9, rng.randint(1, 6)), (1.5, rng.randint(7, 24)))
    B = pick(rng, (2, 1), (3, rng.randint(2, 3)), (3, rng.randint(4, 8)), (0.4, rng.randint(9, 40)))
    dtype = rng.choice([torch.float32, torch.float64])
    norm = rng.random() < 0.6
    sp = Spec(rng, nrng, C, n, B, dtype, norm, scale=rng.choice([0.5, 1.0, 2.0]), same=rng.random() < 0.15)
    src = WITH[i // len(OPS) % len(WITH)]
    tol = (1e-4 if dtype == torch.float32 else 1e-9) * max(1, n / 6)
    ctx.cover("op:" + op, "with:" + src, "normalize:" + ("yes" if norm else "no"), "dtype:" + str(dtype)[6:])
    if B == 1:
        ctx.cover("batch:1")
    if B >= 4:
        ctx.cover("batch:4+")
    if C >= 10:
        ctx.cover("classes:10+")
    if n >= 7:
        ctx.cover("steps:7+")
    ctx.desc = "ar C=%d N=%d b=%d %s normalize=%s start=%d %s %s" % (C, n, B, op, norm, sp.start, src, dtype)
    if op == "soft":
        soft(ctx, rng, nrng, C, n, B, dtype, norm, tol)
        return
    if C > 1:
        ctx.seen(op, src, sp.t1.tobytes(), sp.s.tobytes(), n)

    # the tensors to differentiate, and the factor between leaf and model
    m = sp.model()
    st = list(sp.state())
    vals = [m.t1, m.t2, m.t3, st[2]]
    leaves, fac = [], 1.0
    for j, t in enumerate(vals):
        use = src in ("all", "computed") or (src == "tables") == (j < 3)
        if use:
            fac = 0.5 if src == "computed" else 1.0
            leaf = (t / fac).clone().requires_grad_(True)
            leaves.append((j, leaf))
            vals[j] = leaf * fac if src == "computed" else leaf
    m.t1, m.t2, m.t3 = vals[:3]
    st[2] = vals[3]
    d = ctx.call("ar dist", ts.Autoregressive, m, tuple(st), C, n, normalize=norm, start_class=sp.start)

    want = sp.zero_grads()
    total = 0.0
    judged = [True] * B
    for part in (op,) if op != "mix" else rng.sample(OPS[:5], 2):
        obj = one(ctx, rng, nrng, sp, d, part, want, judged, tol)
        if obj is None:
            return
        total = total + obj
    if not all(judged):
        return
    want = [w * fac for w in want]
    size = max(1.0, max(np.abs(w).max() for w in want))
    for again in range(2 if rng.random() < 0.3 else 1):
        if again:
            ctx.cover("twice")
        if rng.random() < 0.5:
            ctx.cover("backward")
            for _, leaf in leaves:
                leaf.grad = None
            ctx.call("ar %s backward" % op, total.backward, retain_graph=True)
            got = [leaf.grad for _, leaf in leaves]
        else:
            ctx.cover("grad")
            got = ctx.call("ar %s grad" % op, torch.autograd.grad, total, [leaf for _, leaf in leaves], retain_graph=True, allow_unused=True)
        for (j, leaf), g in zip(leaves, got):
            name = "ar.%s gradient of %s" % (op, ("t1", "t2", "t3", "initial state")[j])
            if ctx.expect(name + " reaches", g is not None, "no gradient"):
                ctx.close(name, g, want[j], tol * size)


def soft(ctx, rng, nrng, C, n, B, dtype, norm, tol):
    """Gradients through the weighted tokens of greedy_tempmax, against a plain roll-out with the same noise."""
    C, B, n = max(2, C), min(B, 12), min(n, 10)
    m = SoftModel(nrng, C, rng.randint(1, 5), dtype)
    h = torch.tensor(nrng.standard_normal((B, m.w.shape[0])), dtype=dtype, requires_grad=True)
    start = rng.randrange(C)
    alpha = rng.choice([0.0, 0.5, 1.0, 3.0])
    ctx.desc = "ar soft C=%d N=%d b=%d alpha=%s normalize=%s start=%d %s" % (C, n, B, alpha, norm, start, dtype)
    ctx.seen("soft", to_np(h).tobytes(), n, alpha)
    d = ctx.call("ar dist", ts.Autoregressive, m, (h,), C, n, normalize=norm, start_class=start)
    _, score, logits = ctx.call("ar.greedy_tempmax", d.greedy_tempmax, alpha)
    leaves = [m.e, m.w, m.o, h]
    w = torch.tensor(nrng.standard_normal((B, n, C)), dtype=dtype)
    ws = torch.tensor(nrng.standard_normal(B), dtype=dtype)
    lg = logits.detach()
    if n * B and C > 1 and (lg.topk(2, -1)[0].diff(dim=-1).abs().min() < 10 * tol):
        return
    total = (logits * w).sum() + (score * ws).sum()
    got = ctx.call("ar soft grad", torch.autograd.grad, total, leaves)

    big = [x.detach().double().requires_grad_(True) for x in leaves]
    e, ww, o, st = big
    x = torch.nn.functional.one_hot(torch.full((B,), start), C).double()
    ref = 0.0
    for t in range(n):
        st = torch.tanh(st @ ww + x @ e)
        row = st @ o
        row = row + (lg[:, t].double() - row).detach()  # the noise of the run
        if norm:
            row = row.log_softmax(-1)
        ref = ref + (row * w[:, t].double()).sum() + (row.max(-1)[0] * ws.double()).sum()
        x = torch.softmax(alpha * row, -1)
    want = torch.autograd.grad(ref, big)
    size = max(1.0, max(float(g.abs().max()) for g in want))
    for name, g, r in zip(("token table", "transition", "output", "initial state"), got, want):
        ctx.close("ar.greedy_tempmax gradient of " + name, g, r, 10 * tol * size)


def one(ctx, rng, nrng, sp, d, op, want, judged, tol):
    """A scalar made from one query; its gradient is added to `want`."""
    B, C, n = sp.B, sp.C, sp.N
    if op in ("log_prob", "reinforce"):
        if op == "reinforce":
            S = rng.randint(1, 6)
            z = ctx.call("ar.sample", d.sample, (S,))
            seqs = to_np(z).argmax(-1)
            sparse = False
        else:
            S = pick(rng, (9, rng.randint(1, 5)), (1, rng.randint(6, 20)))
            seqs = nrng.integers(0, C, (S, B, n))
            sparse = rng.random() < 0.5
            ctx.cover("sparse:" + ("yes" if sparse else "no"))
            z = torch.tensor(seqs)
            if not sparse:
                z = torch.nn.functional.one_hot(z, C)
        lp = ctx.call("ar.log_prob", d.log_prob, z, **({"sparse": True} if sparse else {}))
        w = nrng.standard_normal((S, B))
        for s in range(S):
            for b in range(B):
                seq = seqs[s, b].tolist()
                sp.backward(b, seq, w[s, b] * onehot(seq, C), want)
        return (lp * torch.tensor(w, dtype=lp.dtype)).sum()
    if op in ("greedy score", "greedy logits"):
        path, score, logits = ctx.call("ar.greedy_max", d.greedy_max)
        w = nrng.standard_normal((B, n, C)) if op == "greedy logits" else nrng.standard_normal(B)
        for b in range(B):
            seq, _, gap = sp.greedy(b)
            if gap < 10 * tol:
                judged[b] = False
                continue
            ctx.cover("judged:greedy")
            sp.backward(b, seq, w[b] if op == "greedy logits" else w[b] * onehot(seq, C), want)
        out = logits if op == "greedy logits" else score
        return (out * torch.tensor(w, dtype=out.dtype)).sum()
    K = rng.randint(1, min(6, C ** n))
    scores = ctx.call("ar._beam_max", d._beam_max, K)
    if not ctx.expect("ar._beam_max shape", tuple(scores.shape) == (K, B), str(scores.shape)):
        return None
    w = nrng.standard_normal((K, B))
    for b in range(B):
        hyps, gap = sp.beam(b, K)
        if gap < 10 * tol:
            judged[b] = False
            continue
        ctx.cover("judged:beam")
        for r, (_, seq) in enumerate(hyps):
            sp.backward(b, seq, w[r, b] * onehot(seq, C), want)
    return (scores * torch.tensor(w, dtype=scores.dtype)).sum()
