"""C27 shapes and metadata of distributions and of every answer."""
import numpy as np
import torch
import torch_struct as ts

from ..ar import Spec, onehot
from ..gen import FAMS, cover_case, gen_case, size_at
from ..models import Fam
from ..ops import Session, max_k, ops_of

KINDS = FAMS + ("nonproj", "hmm", "ar")
N = {"quick": 8000, "thorough": 40000}
RULE = "one distribution with its metadata and the shapes of its answers; distinct by family, sizes, batch, k, number of samples and queries"
REQUIRED = ["family:" + f for f in KINDS] + ["batch:1", "batch:4+", "k:1", "samples:1", "samples:11+", "all ones", "lengths:none", "lengths:given", "sample shape:0", "sample shape:2", "sample shape:3"]


def dim(rng, lo=1, hi=5):
    """Sizes of one are where dimensions get lost."""
    return lo if rng.random() < 0.5 else rng.randint(lo, hi)


def draw(rng, fam):
    if fam == "chain":
        return Fam("chain", N=dim(rng, 2, 9), C=dim(rng))
    if fam == "semi":
        return Fam("semi", N=dim(rng, 2, 7), K=dim(rng, 2, 5), C=dim(rng, 1, 3))
    if fam[:3] == "dep":
        return Fam("dep", N=dim(rng, 1, 6), L=dim(rng, 1, 3) if fam.endswith("l") else 0, multiroot=fam[3] == "m")
    if fam == "tree":
        return Fam("tree", N=dim(rng, 1, 6), NT=dim(rng, 1, 4))
    return Fam("cfg", N=dim(rng, 2, 5), NT=dim(rng, 1, 3), T=dim(rng, 1, 3))


def shapes(a):
    return [tuple(x.shape) for x in (a if isinstance(a, (tuple, list)) else (a,))]


def expect(ctx, key, a, want):
    got = shapes(a)
    ctx.expect(key + " shape", got == want, lambda: "shape %s, want %s" % (got, want))


def meta(ctx, fam, d, batch, event):
    text = ctx.call(fam + " repr", repr, d)
    ctx.expect(fam + " repr", isinstance(text, str) and type(d).__name__ in text, lambda: text)
    ctx.expect(fam + " is a Distribution", isinstance(d, torch.distributions.Distribution))
    ctx.expect(fam + " batch_shape", tuple(d.batch_shape) == batch, lambda: "%s, want %s" % (d.batch_shape, batch))
    ctx.expect(fam + " event_shape", tuple(d.event_shape) == event, lambda: "%s, want %s" % (d.event_shape, event))


def crf(ctx, fam):
    rng = ctx.rng
    f = draw(rng, fam) if rng.random() < 0.75 else None
    B = 1 if rng.random() < 0.4 else rng.randint(1, 6)
    if f is None:
        c = gen_case(rng, fam, size_at(rng, (1, 2, 4, 2, 0.3)), budget=9000, layouts=True, grads=True)
    else:
        c = gen_case(rng, fam, budget=1e6, batch=B, fam=f, layouts=True, grads=True)
    B = c.batch
    k = rng.choice([1, 1, max_k(c), rng.randint(1, max_k(c))])
    if f is not None and rng.random() < 0.3:
        k = rng.randint(1, 6)
    n = rng.choice([1, 1, 2, 9, 10, 11, 12, 21])
    s = Session(ctx, fam, c, k=k, n=n)
    cover_case(ctx, c, fam)
    ctx.cover("k:1" if k == 1 else "k:2+", "samples:1" if n == 1 else "samples:11+" if n > 10 else "samples:2+")
    if B == 1 and fam != "cfg" and int(np.prod(c.fam.shape)) == 1:
        ctx.cover("all ones")
    ctx.desc = "%r k=%d n=%d" % (c, k, n)
    pot, ln = c.tensors(), c.len_tensor()
    d = ctx.call(fam + " dist", c.dist, pot, ln)
    event = c.fam.shape if fam != "cfg" else c.fam.cfg_shapes[0]
    meta(ctx, fam, d, (B,), tuple(event))
    if fam == "cfg":
        ok = all(bool((x.detach() == y.detach()).all()) and x.shape == y.shape for x, y in zip(d.log_potentials, pot))
    else:
        ok = d.log_potentials.shape == pot.shape and bool((d.log_potentials.detach() == pot.detach()).all())
    ctx.expect(fam + " log_potentials", ok, "the distribution does not hold the potentials it was given")
    ctx.expect(fam + " lengths", (d.lengths is None) == (ln is None) and (ln is None or bool((torch.as_tensor(d.lengths) == ln).all())),
               lambda: "lengths %s, given %s" % (d.lengths, ln))
    if fam[:3] == "dep":
        ctx.expect(fam + " multiroot", bool(d.multiroot) == c.fam.multiroot)
    ops = rng.sample(ops_of(c), rng.randint(3, len(ops_of(c))))
    ctx.seen(fam, c.fam.key, B, k, n, c.lengths, tuple(ops))
    full = [(B,) + tuple(event)] if fam != "cfg" else [(B,) + tuple(x) for x in c.fam.cfg_shapes]
    if fam == "cfg":
        f = c.fam
        full[3] = (B, f.N, f.N, f.NT)
    for op in ops:
        a = s.ask(d, op)
        key = "%s.%s" % (fam, op)
        if op in ("marginals", "argmax", "mode", "gumbel_crf"):
            expect(ctx, key, a, full)
        elif op == "topk":
            if fam == "cfg":
                ctx.expect(key + " shape", shapes(a)[3] == (k,) + full[3], lambda: "spans %s" % (shapes(a)[3],))
            else:
                expect(ctx, key, a, [(k,) + full[0]])
        elif op == "sample":
            expect(ctx, key, a, [(n,) + full[0]])
        elif op == "kmax":
            expect(ctx, key, a, [(k, B)])
        elif op == "log_prob":
            expect(ctx, key, a, [(2, B)])
        else:
            expect(ctx, key, a, [(B,)])
        s.judge(op, a)
    if fam == "cfg":
        return
    # any leading sample shape; shorter forms of the compact representation
    shape = rng.choice([(), (1,), (3,), (1, 1), (2, 3), (2, 1, 2)])
    ctx.cover("sample shape:%d" % len(shape))
    am = ctx.call(fam + ".argmax", lambda: d.argmax)
    v = am.detach().expand(shape + am.shape)
    lp = ctx.call(fam + ".log_prob", d.log_prob, v)
    expect(ctx, fam + ".log_prob", lp, [shape + (B,)])
    ctx.close(fam + ".log_prob", lp, np.broadcast_to(c.best() - c.logz(), shape + (B,)), 2 * c.tol)
    if fam in ("depm", "deps") or (c.lengths is None and not fam.endswith("l")):
        r = ctx.call(fam + ".from_event", d.from_event, am.detach())
        ctx.expect(fam + ".from_event pair", isinstance(r, tuple) and len(r) == 2, lambda: type(r).__name__)
        want = {"chain": (B, c.fam.N), "semi": (B, c.fam.N), "depm": (B, c.fam.N), "deps": (B, c.fam.N)}.get(fam)
        if want:
            expect(ctx, fam + ".from_event", r[0], [want])


def nonproj(ctx):
    rng = ctx.rng
    B, n = dim(rng, 1, 6), dim(rng, 1, 7)
    nrng = np.random.default_rng(rng.getrandbits(62))
    dt = rng.choice([torch.float32, torch.float64])
    x = torch.tensor(nrng.standard_normal((B, n, n)), dtype=dt)
    ln = None
    if rng.random() < 0.5:
        ln = torch.tensor([rng.randint(1, n) for _ in range(B)])
    kw = rng.choice([{}, {"multiroot": True}, {"multiroot": False}])
    ctx.desc = "nonproj B=%d n=%d %s %s" % (B, n, ln, kw)
    ctx.seen("nonproj", B, n, None if ln is None else ln.tolist(), sorted(kw.items()))
    d = ctx.call("nonproj dist", ts.NonProjectiveDependencyCRF, x, ln, **kw)
    meta(ctx, "nonproj", d, (B,), (n, n))
    ctx.expect("nonproj multiroot", bool(d.multiroot) == kw.get("multiroot", False))
    expect(ctx, "nonproj.partition", ctx.call("nonproj.partition", lambda: d.partition), [(B,)])
    expect(ctx, "nonproj.marginals", ctx.call("nonproj.marginals", lambda: d.marginals), [(B, n, n)])


def hmm(ctx):
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(62))
    C, V, n, B = dim(rng), dim(rng), dim(rng, 2, 9), dim(rng, 1, 6)
    dt = rng.choice([torch.float32, torch.float64])
    T = lambda *s: torch.tensor(nrng.standard_normal(s), dtype=dt).log_softmax(0)  # noqa: E731
    obs = torch.tensor(nrng.integers(0, V, (B, n)))
    ctx.desc = "hmm C=%d V=%d n=%d B=%d" % (C, V, n, B)
    ctx.seen("hmm", C, V, n, B, str(dt))
    d = ctx.call("hmm dist", ts.HMM, T(C, C), T(V, C), T(C), obs)
    meta(ctx, "hmm", d, (B,), (n - 1, C, C))
    expect(ctx, "hmm.partition", ctx.call("hmm.partition", lambda: d.partition), [(B,)])
    expect(ctx, "hmm.marginals", ctx.call("hmm.marginals", lambda: d.marginals), [(B, n - 1, C, C)])
    k = rng.randint(1, 4)
    expect(ctx, "hmm.topk", ctx.call("hmm.topk", d.topk, k), [(k, B, n - 1, C, C)])
    expect(ctx, "hmm.sample", ctx.call("hmm.sample", d.sample, (k,)), [(k, B, n - 1, C, C)])


def ar(ctx):
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(62))
    C, n, B = dim(rng), dim(rng, 1, 5), dim(rng, 1, 5)
    sp = Spec(rng, nrng, C, n, B, rng.choice([torch.float32, torch.float64]), rng.random() < 0.5)
    K = rng.randint(1, C) if rng.random() < 0.6 else 1
    S = rng.choice([1, 1, 2, 5])
    ctx.desc = "autoregressive C=%d N=%d B=%d K=%d S=%d" % (C, n, B, K, S)
    ctx.seen("ar", C, n, B, K, S)
    d = ctx.call("ar dist", sp.dist)
    meta(ctx, "ar", d, (B,), (n, C))
    seqs = [[[rng.randrange(C) for _ in range(n)] for _ in range(B)] for _ in range(S)]
    hot = torch.tensor(np.array([[onehot(q, C) for q in r] for r in seqs]))
    expect(ctx, "ar.log_prob", ctx.call("ar.log_prob", d.log_prob, hot), [(S, B)])
    expect(ctx, "ar.log_prob sparse", ctx.call("ar.log_prob", d.log_prob, torch.tensor(seqs), sparse=True), [(S, B)])
    expect(ctx, "ar.sample", ctx.call("ar.sample", d.sample, (S,)), [(S, B, n, C)])
    expect(ctx, "ar.greedy_max", ctx.call("ar.greedy_max", d.greedy_max), [(B, n, C), (B,), (B, n, C)])
    expect(ctx, "ar.greedy_tempmax", ctx.call("ar.greedy_tempmax", d.greedy_tempmax, 0.5), [(B, n, C), (B,), (B, n, C)])
    expect(ctx, "ar.beam_topk", ctx.call("ar.beam_topk", d.beam_topk, K), [(K, B, n, C)])
    expect(ctx, "ar.sample_without_replacement", ctx.call("ar.swor", d.sample_without_replacement, (K,)), [(K, B, n, C)])


def case(ctx, i):
    kind = KINDS[i % len(KINDS)]
    ctx.cover("family:" + kind)
    if kind in FAMS:
        crf(ctx, kind)
    else:
        dict(nonproj=nonproj, hmm=hmm, ar=ar)[kind](ctx)
