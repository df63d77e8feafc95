"""C16 answers are differentiable with the exact gradients."""
import numpy as np
import torch
import torch_struct as ts

from ..core import to_np
from ..gen import FAMS, Case, cover_case, fam_at, gen_case, pick, size_at
from ..models import Fam
from ..ops import max_k, partner_of
from .c03 import check_argmax
from .c04 import check_topk
from .c07 import events

OPS = ("partition", "log_prob", "marginals", "entropy", "cross_entropy", "kl", "max", "kmax", "mix")
CFG_OPS = ("partition", "marginals", "entropy", "mix")
N = {"quick": 16000, "thorough": 80000}
RULE = "one gradient of a query with respect to the tensors its potentials came from; distinct by potentials, lengths, query and source"
REQUIRED = ["family:" + f for f in FAMS] + ["op:" + o for o in OPS] + ["source:leaf", "source:scaled", "source:shared", "source:gathered", "lengths:mixed", "lengths:one", "lengths:none", "dtype:float32", "dtype:float64", "backward", "batch:4+", "source:hmm", "source:hsmm"]


def cov(c, v, b):
    return np.array(c.graph(b).covariance_vec(c.th(b), v))


def source(rng, c, kind, theta, dtype):
    """(leaf, potentials, map from potential-gradient to leaf-gradient)."""
    t = torch.tensor(theta, dtype=dtype)
    if kind == "leaf":
        t.requires_grad_(True)
        return t, t, lambda g: g
    if kind == "scaled":
        leaf = ((t - 1.0) / 2.0).requires_grad_(True)
        return leaf, leaf * 2.0 + 1.0, lambda g: 2 * g
    if kind == "shared":  # the same parameters for every item
        base = (t - 0.0).clone()
        off = torch.tensor(theta - theta[:1], dtype=dtype)
        leaf = base[:1].clone().requires_grad_(True)
        return leaf, leaf + off, lambda g: g.sum(axis=0, keepdims=True)
    # a table indexed in reverse order along the last dimension
    leaf = t.flip(-1).contiguous().requires_grad_(True)
    return leaf, leaf.index_select(-1, torch.arange(t.shape[-1] - 1, -1, -1)), lambda g: g[..., ::-1]


def want_grads(ctx, c, op, w, extra):
    """Gradient of sum_b w_b f_b as a list of arrays (p side, q side)."""
    B = c.batch
    cfg = c.fam.name == "cfg"

    def stack(fn):
        return c.split(np.stack([w[b] * fn(b) for b in range(B)]))

    m = lambda k: lambda b: np.array(k.ref("marg", b)[1])  # noqa: E731
    th = lambda k, b: k.th(b)  # noqa: E731
    if op == "partition":
        return stack(m(c)), None
    if op == "entropy":
        return stack(lambda b: -cov(c, th(c, b), b)), None
    if op == "marginals":  # w enters through the random direction
        return c.split(np.stack([cov(c, extra[b], b) for b in range(B)])), None
    q = extra
    if op == "cross_entropy":
        return stack(lambda b: -cov(c, th(q, b), b)), stack(lambda b: m(q)(b) - m(c)(b))
    if op == "kl":
        return stack(lambda b: cov(c, [x - y for x, y in zip(th(c, b), th(q, b))], b)), stack(lambda b: m(q)(b) - m(c)(b))
    raise KeyError(op)


def adapter(ctx, kind):
    """Gradients that reach the parameters of a hidden (semi-)Markov model."""
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(62))
    dtype = rng.choice([torch.float32, torch.float64])
    B = pick(rng, (2, 1), (4, rng.randint(2, 5)), (1, rng.randint(6, 16)))
    C = rng.randint(1, 4)
    R = lambda *s: nrng.standard_normal(s).astype(np.float32).astype(np.float64)  # noqa: E731
    if kind == "hmm":
        V, n = rng.randint(1, 6), rng.randint(2, 9)
        names = ("transition", "emission", "init")
        params = [R(C, C), R(V, C), R(C)]
        obs = nrng.integers(0, V, (B, n))
        tr, em, init = params
        th = tr[None, None] + em[obs[:, 1:]][:, :, :, None]
        th[:, 0] += (init + em[obs[:, 0]])[:, None, :]
        f = Fam("chain", N=n, C=C)
        lo = 2
    else:
        n, K = rng.randint(1, 5) + 1, rng.randint(2, 4)
        per = rng.random() < 0.5
        names = ("init", "transition", "lengths table", "emission")
        params = [R(B, C) if per else R(C), R(C, C), R(C, K), R(B, n - 1, K, C)]
        init, zz, zl, em = params
        th = zz.T[None, None, None] + zl.T[None, None, :, :, None] + em[..., None]
        th[:, 0] += (init if per else np.broadcast_to(init, (B, C)))[:, None, None, :]
        f = Fam("semi", N=n, K=K, C=C)
        lo = 1
    lens = None
    if rng.random() < 0.6:
        lens = [rng.randint(lo, n) for _ in range(B)]
        lens[rng.randrange(B)] = n
    c = Case(f, th, lens, torch.float64)
    c.dtype = dtype
    op = rng.choice(["partition", "entropy", "log_prob", "marginals"])
    ctx.desc = "%r grad of %s from %s" % (c, op, kind)
    ctx.cover("op:" + op, "source:" + kind, "dtype:" + str(dtype)[6:])
    ctx.seen(op, kind, th.tobytes(), lens)
    key = "%s.%s gradient" % (kind, op)
    leaves = [torch.tensor(p, dtype=dtype, requires_grad=True) for p in params]
    ln = None if lens is None else torch.tensor(lens)
    if kind == "hmm":
        d = ctx.call("hmm dist", ts.HMM, *leaves, torch.tensor(obs), ln)
    else:
        d = ctx.call("hsmm dist", ts.SemiMarkovCRF, ctx.call("hsmm edges", ts.SemiMarkov.hsmm, *leaves), ln)
    w = nrng.uniform(0.5, 2.0, B) * nrng.choice([-1, 1], B)
    tw = torch.tensor(w, dtype=dtype)
    if op == "log_prob":
        ev, _ = events(rng, c, (), True)
        loss = (ctx.call(kind + ".log_prob", d.log_prob, torch.tensor(ev, dtype=dtype)) * tw).sum()
        g = (ev - c.marg()) * w.reshape((-1,) + (1,) * (ev.ndim - 1))
    elif op == "marginals":
        v = nrng.standard_normal(c.theta.shape)
        loss = (ctx.call(kind + ".marginals", lambda: d.marginals) * torch.tensor(v, dtype=dtype)).sum()
        g = want_grads(ctx, c, op, w, [v[b].ravel().tolist() for b in range(B)])[0]
    else:
        loss = (ctx.call("%s.%s" % (kind, op), lambda: getattr(d, op)) * tw).sum()
        g = want_grads(ctx, c, op, w, None)[0]
    g = np.asarray(g).reshape(th.shape)
    if not ctx.expect(key + " attached", loss.requires_grad, "the answer does not require gradients"):
        return
    if rng.random() < 0.5:
        ctx.call(key, loss.backward)
        got = [x.grad for x in leaves]
    else:
        got = ctx.call(key, torch.autograd.grad, loss, leaves, allow_unused=True)
    if kind == "hmm":
        ge = np.zeros_like(em)
        np.add.at(ge, obs[:, 1:], g.sum(3))
        np.add.at(ge, obs[:, 0], g[:, 0].sum(1))
        want = [g.sum((0, 1)), ge, g[:, 0].sum((0, 1))]
    else:
        gi = g[:, 0].sum((1, 2))
        want = [gi if per else gi.sum(0), g.sum((0, 1, 2)).T, g.sum((0, 1, 4)).T, g.sum(4)]
    tol = (4 + n) * c.tol * 4 * B * n
    for name, x, y in zip(names, got, want):
        if ctx.expect(key + " reaches its source", x is not None, "no gradient at the %s" % name):
            ctx.close(key + " of the " + name, x, y, tol)


def case(ctx, i):
    rng = ctx.rng
    if i % 12 == 7:
        return adapter(ctx, "hmm" if i % 24 == 7 else "hsmm")
    fam = fam_at(i)
    nrng = np.random.default_rng(rng.getrandbits(62))
    c = gen_case(rng, fam, size_at(rng, (3, 5, 3, 1, 0.05)), budget=6000, mode=rng.choice(["normal", "normal", "tiny", "ties", "half", "peaked", "positive", "zeros", "wide"]))
    cfg = fam == "cfg"
    op = rng.choice(CFG_OPS if cfg else OPS)
    src = rng.choice(["leaf", "scaled", "shared", "gathered"])
    ctx.desc = "%r grad of %s from %s" % (c, op, src)
    cover_case(ctx, c, fam)
    ctx.cover("op:" + op, "source:" + src)
    if c.nontrivial():
        ctx.seen(op, src, *c.payload())
    B = c.batch
    w = nrng.uniform(0.5, 2.0, B) * nrng.choice([-1, 1], B)
    tw = torch.tensor(w, dtype=c.dtype)
    thetas = c.theta if cfg else (c.theta,)
    leaves, pots, maps = zip(*[source(rng, c, src, t, c.dtype) for t in thetas])
    if src in ("scaled", "shared"):  # potentials as the library sees them
        c = type(c)(c.fam, tuple(to_np(p) for p in pots) if cfg else to_np(pots[0]), c.lengths, c.dtype, tags=c.tags)
    d = ctx.call(fam + " dist", c.dist, pots if cfg else pots[0])
    key = "%s.%s gradient" % (fam, op)
    tol = (4 + c.fam.N) * c.tol * 4
    qleaf = None

    if op == "kmax":
        return ranks(ctx, key, c, d, src, leaves[0] if src != "shared" else pots[0], maps[0])
    if op == "mix":  # several queries of one object in one loss
        ops = ["partition", "entropy"] if cfg else ["partition", "entropy", "log_prob"]
        rng.shuffle(ops)
        loss = 0.0
        want = None
        for o in ops:
            if o == "log_prob":
                ev, _ = events(rng, c, (), True)
                loss = loss + (ctx.call(fam + ".log_prob", d.log_prob, torch.tensor(ev, dtype=c.dtype)) * tw).sum()
                g = (ev - c.marg()) * w.reshape((-1,) + (1,) * (ev.ndim - 1))
            else:
                loss = loss + (ctx.call("%s.%s" % (fam, o), lambda: getattr(d, o)) * tw).sum()
                g, _ = want_grads(ctx, c, o, w, None)
            g = tuple(g[:3]) if cfg else (g,)
            want = g if want is None else tuple(x + y for x, y in zip(want, g))
    elif op == "log_prob":
        shape = rng.choice([(), (2,), (2, 2)])
        ev, _ = events(rng, c, shape, True)
        ws = nrng.uniform(-1, 1, shape + (B,))
        lp = ctx.call(fam + ".log_prob", d.log_prob, torch.tensor(ev, dtype=c.dtype))
        loss = (lp * torch.tensor(ws, dtype=c.dtype)).sum()
        x = (ev - c.marg()) * ws.reshape(ws.shape + (1,) * len(c.fam.shape))
        want = (x.reshape((-1,) + c.theta.shape).sum(axis=0),)
    elif op == "marginals":
        m = ctx.call(fam + ".marginals", lambda: d.marginals)
        if cfg:
            vs = [nrng.standard_normal(t.shape) for t in thetas]
            loss = sum((x * torch.tensor(v, dtype=c.dtype)).sum() for x, v in zip(m[:3], vs))
            z = np.zeros(c.fam.cfg_sizes[3])
            dirs = [np.concatenate([v[b].ravel() for v in vs] + [z]).tolist() for b in range(B)]
            want = want_grads(ctx, c, op, w, dirs)[0][:3]
        else:
            v = nrng.standard_normal(c.theta.shape)
            loss = (m * torch.tensor(v, dtype=c.dtype)).sum()
            want = (want_grads(ctx, c, op, w, [v[b].ravel().tolist() for b in range(B)])[0],)
    elif op == "max":
        mx = ctx.call(fam + ".max", lambda: d.max)
        loss = mx.sum()
        want = None
    elif op in ("cross_entropy", "kl"):
        q = partner_of(c, rng.getrandbits(60))
        qleaf = torch.tensor(q.theta, dtype=c.dtype, requires_grad=True)
        r = ctx.call("%s.%s" % (fam, op), getattr(d, op), q.dist(qleaf))
        loss = (r * tw).sum()
        g, gq = want_grads(ctx, c, op, w, q)
        want = (g,)
        tol = tol + (4 + c.fam.N) * q.tol * 4
    else:
        r = ctx.call("%s.%s" % (fam, op), lambda: getattr(d, op))
        loss = (r * tw).sum()
        want, _ = want_grads(ctx, c, op, w, None)
        want = want[:3] if cfg else (want,)

    if not ctx.expect(key + " attached", loss.requires_grad, "the answer does not require gradients"):
        return
    every = list(leaves) + ([qleaf] if qleaf is not None else [])
    if rng.random() < 0.5:
        ctx.cover("backward")
        ctx.call(key, loss.backward)
        got = [x.grad for x in every]
    else:
        got = ctx.call(key, torch.autograd.grad, loss, every, allow_unused=True)
    if c.fam.n_parts == 0:
        return
    for x in got:
        if not ctx.expect(key + " reaches its source", x is not None, "no gradient at a source tensor"):
            return
    if op == "max":
        if src == "shared":
            return
        g = maps[0](to_np(got[0])) if src == "gathered" else to_np(got[0]) / (2.0 if src == "scaled" else 1.0)
        if untied(c):
            check_argmax(ctx, key, c, torch.tensor(g.copy()), c.best())
        return
    for j, (x, g, mp) in enumerate(zip(got, want, maps)):
        ctx.close(key + (" part %d" % j if cfg else ""), x, mp(np.asarray(g)), tol * (B if src == "shared" else 2))
    if qleaf is not None:
        ctx.close(key + " of the argument", got[-1], gq, tol)


def ranks(ctx, key, c, d, src, leaf, back):
    """The gradient of every k-best score is the structure of that rank."""
    k = ctx.rng.randint(1, max_k(c))
    km = ctx.call(key, d.kmax, k)
    if c.fam.n_parts == 0 or not ctx.expect(key + " attached", km.requires_grad, "the answer does not require gradients"):
        return
    gs = []
    for r in range(k):
        g = ctx.call(key, torch.autograd.grad, km[r].sum(), leaf, retain_graph=True, allow_unused=True)[0]
        if not ctx.expect(key + " reaches its source", g is not None, "no gradient at a source tensor"):
            return
        g = to_np(g)
        gs.append(back(g) if src == "gathered" else g / (2.0 if src == "scaled" else 1.0))
    check_topk(ctx, key, c, k, torch.tensor(np.stack(gs)))


def untied(c):
    """Ties may be split by a gradient; only unique optima are judged."""
    for b in range(c.batch):
        r = c.ref("kbest", b, 2)
        if len(r) > 1 and r[0] - r[1] < 100 * c.tol:
            return False
    return True
