"""C20 sparsemax: projection on the simplex, points of the marginal polytope."""
import numpy as np
import torch
import torch_struct as ts

from ..core import to_np
from ..gen import gen_case, gen_lengths, pick, sizes, Case
from ..algebra import semiring

FAMS = ("chain", "semi", "depm", "depml", "tree")
N = {"quick": 12000, "thorough": 40000}
RULE = "one projection (value, gradient, second order) or one sparsemax dynamic program; distinct by input"
REQUIRED = ["projection", "ties", "dim:last", "dim:other", "sparse", "second order", "dp:second order"] + ["family:" + f for f in FAMS] + ["hull", "lengths:mixed", "lengths:none", "lengths:one", "dtype:float32", "dtype:float64", "size:1", "wide"]


def project(x, d):
    """Euclidean projection on the simplex along d, by bisection on the threshold."""
    lo, hi = x.min(axis=d, keepdims=True) - 1.0, x.max(axis=d, keepdims=True)
    for _ in range(120):
        mid = 0.5 * (lo + hi)
        more = np.maximum(x - mid, 0).sum(axis=d, keepdims=True) > 1
        lo, hi = np.where(more, mid, lo), np.where(more, hi, mid)
    return np.maximum(x - 0.5 * (lo + hi), 0)


def projection(ctx):
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(62))
    ctx.cover("projection")
    rank = rng.randint(1, 4)
    shape = tuple(rng.randint(1, 5) for _ in range(rank))
    dim = rng.randrange(-rank, rank)
    d = dim % rank
    if rng.random() < 0.1:
        ctx.cover("wide")
        e = d if rng.random() < 0.7 else rng.randrange(rank)
        shape = tuple(rng.choice([9, 17, 33, 65, 130, 300]) if a == e else min(v, 3) for a, v in enumerate(shape))
    dtype = rng.choice([torch.float32, torch.float64])
    sc = rng.choice([0.1, 0.5, 1.0, 5.0])
    x = sc * nrng.standard_normal(shape) + rng.choice([0.0, 0.0, 10.0, -10.0])
    tied = rng.random() < 0.3
    if tied:
        x = np.round(x * 2) / 2
        ctx.cover("ties")
    if dtype == torch.float32:
        x = x.astype(np.float32).astype(np.float64)
    if shape[d] == 1:
        ctx.cover("size:1")
    ctx.cover("dim:last" if d == rank - 1 else "dim:other", "dtype:" + str(dtype)[6:])
    ctx.desc = "projection shape=%s dim=%d %s scale=%s" % (shape, dim, dtype, sc)
    ctx.seen(x.tobytes(), shape, dim)
    w = project(x, d)
    if (w == 0).any() and (w > 0).any():
        ctx.cover("sparse")
    tol = 2e-5 if dtype == torch.float32 else 1e-10
    t = torch.tensor(x, dtype=dtype, requires_grad=True)
    S = ts.SparseMaxSemiring
    y = ctx.call("sparsemax.sum", S.sum, t * 1.0, dim) if dim != -1 or rng.random() < 0.5 else ctx.call("sparsemax.sum", S.sum, t * 1.0)
    ctx.close("sparsemax.sum value", y, (x * w).sum(d) - 0.5 * (w * w).sum(d), tol * 30)
    up = nrng.standard_normal(y.shape)
    g, = ctx.call("sparsemax gradient", torch.autograd.grad, (y * torch.tensor(up, dtype=dtype)).sum(), t, create_graph=True)
    ctx.close("sparsemax gradient", g, np.expand_dims(up, d) * w, tol)
    # clear supports only: the projection is not differentiable at a kink
    tau = (x - w).max(axis=d, keepdims=True) if False else np.where(w > 0, x - w, -np.inf).max(axis=d, keepdims=True)
    if np.abs(x - tau).min() < 1e-3:
        return
    ctx.cover("second order")
    v = nrng.standard_normal(shape)
    h, = ctx.call("sparsemax second order", torch.autograd.grad, (g * torch.tensor(v, dtype=dtype)).sum(), t)
    supp = w > 0
    gv = np.where(supp, np.expand_dims(up, d) * v, 0.0)
    want = np.where(supp, gv - gv.sum(d, keepdims=True) / supp.sum(d, keepdims=True), 0.0)
    ctx.close("sparsemax second order", h, want, tol)
    y2 = ctx.call("sparsemax plus", S.plus, t.detach(), torch.zeros(shape, dtype=dtype))
    z = np.stack([x, np.zeros(shape)], -1)
    wz = project(z, -1)
    ctx.close("sparsemax plus", y2, (z * wz).sum(-1) - 0.5 * (wz * wz).sum(-1), tol * 30)


def conservation(ctx, key, c, b, m, tol):
    """Linear equations every convex combination of structures satisfies."""
    L, f = c.L(b), c.fam
    ctx.expect(key + " within [0,1]", (m >= -tol).all() and (m <= 1 + tol).all(), lambda: "item %d: %r..%r" % (b, m.min(), m.max()))
    if f.name == "chain":
        ctx.close(key + " one edge per position", m[: L - 1].sum((1, 2)), np.ones(L - 1), tol)
        if L > 2:
            ctx.close(key + " state flow", m[: L - 2].sum(2), m[1: L - 1].sum(1), tol)
        ctx.close(key + " padding", m[L - 1:], np.zeros_like(m[L - 1:]), tol)
    elif f.name == "semi":
        n = L - 1
        if n:
            ctx.close(key + " one first segment", m[0].sum(), 1.0, tol)
        for e in range(1, n):  # segments ending at e = segments starting at e, per label
            into = sum(m[e - k, k].sum(1) for k in range(1, f.K) if e - k >= 0)
            ctx.close(key + " label flow", m[e].sum((0, 1)), into, tol)
        ctx.close(key + " padding", m[n:], np.zeros_like(m[n:]), tol)
    elif f.name == "dep":
        a = m.sum(-1) if f.L else m
        ctx.close(key + " one head per word", a[:L, :L].sum(0), np.ones(L), tol)
        ctx.expect(key + " some root", np.trace(a[:L, :L]) >= 1 - tol, "roots %r" % np.trace(a))
        z = a.copy()
        z[:L, :L] = 0
        ctx.close(key + " padding", z, np.zeros_like(z), tol)
    else:
        a = m.sum(-1)
        ctx.close(key + " words covered", np.diag(a)[:L], np.ones(L), tol)
        ctx.close(key + " whole sentence", a[0, L - 1], 1.0, tol)
        ctx.close(key + " number of spans", a[:L, :L].sum(), 2 * L - 1, tol * L)
        z = a.copy()
        z[:L, :L] = 0
        ctx.close(key + " padding", z, np.zeros_like(z), tol)


def hull_distance(A, m):
    """Distance of m from the convex hull of the columns of A (active-set NNLS)."""
    A = np.vstack([A, 10 * np.ones(A.shape[1])])
    m = np.append(m, 10.0)
    n = A.shape[1]
    x = np.zeros(n)
    P = np.zeros(n, dtype=bool)
    for _ in range(6 * n + 60):
        w = A.T @ (m - A @ x)
        w[P] = -np.inf
        if P.all() or w.max() < 1e-10:
            break
        P[int(w.argmax())] = True
        while True:
            s = np.zeros(n)
            s[P] = np.linalg.lstsq(A[:, P], m, rcond=None)[0]
            if s[P].min() > 0:
                x = s
                break
            q = P & (s <= 0)
            al = np.min(x[q] / np.maximum(x[q] - s[q], 1e-300))
            x = x + al * (s - x)
            P &= x > 1e-12
            x[~P] = 0
            if not P.any():
                break
    return float(np.abs(A @ x - m).max())


def dp(ctx, i):
    rng = ctx.rng
    fam = FAMS[i % len(FAMS)]
    c = gen_case(rng, fam, pick(rng, (16, "tiny"), (8, "small"), (8, "medium"), (1, "large")), budget=5000, mode=rng.choice(["normal", "tiny", "wide", "ties", "positive", "zeros", "peaked"]))
    ctx.desc = "sparsemax %r" % c
    ctx.cover("family:" + fam, "dtype:" + str(c.dtype)[6:], "lengths:none" if c.lengths is None else "lengths:given")
    if c.lengths is not None:
        if len(set(c.lengths)) > 1:
            ctx.cover("lengths:mixed")
        if min(c.lengths) == 1:
            ctx.cover("lengths:one")
    if c.nontrivial():
        ctx.seen(*c.payload())
    st = {"chain": ts.LinearChain, "semi": ts.SemiMarkov, "dep": ts.DepTree, "tree": ts.CKY_CRF}[c.fam.name](ts.SparseMaxSemiring)
    key = "sparsemax %s" % fam
    pot = c.tensors(requires_grad=True)
    mt = ctx.call(key + " marginals", st.marginals, pot, lengths=c.len_tensor())
    m = to_np(mt)
    if not ctx.expect(key + " shape", m.shape == c.theta.shape, str(m.shape)):
        return
    tol = (1e-8 if c.dtype == torch.float64 else 1e-4 + 1e-6 * c.scale) * (1 + c.fam.N / 4)
    for b in range(c.batch):
        conservation(ctx, key, c, b, m[b], tol)
        if c.ref("count", b) <= 60 and c.L(b) > 1:
            ctx.cover("hull")
            cols = []
            for s in c.graph(b).enumerate():
                z = np.zeros(c.fam.n_parts)
                z[list(s)] = 1
                cols.append(z)
            dist = hull_distance(np.array(cols).T, m[b].ravel())
            ctx.expect(key + " in the marginal polytope", dist <= 10 * tol + 1e-7, lambda: "item %d is %r away from every mixture of structures" % (b, dist))
    if c.dtype == torch.float64 and rng.random() < 0.5:
        # the marginals are the gradient of the sum
        nrng = np.random.default_rng(rng.getrandbits(60))
        v = nrng.standard_normal(c.theta.shape) * (np.abs(c.theta) < 1e3)
        h = 1e-5
        f = lambda s: to_np(ctx.call(key + " sum", st.sum, torch.tensor(c.theta + s * h * v), lengths=c.len_tensor()))  # noqa: E731
        fd = (f(1) - f(-1)) / (2 * h)
        ctx.close(key + " marginals are the gradient", (m * v).reshape(c.batch, -1).sum(1), fd, 1e-4 * (1 + np.abs(v).max()) + 1e-5 * c.scale)
        # the Hessian is symmetric and reaches the potentials
        u = nrng.standard_normal(c.theta.shape)
        if not ctx.expect(key + " marginals attached", mt.requires_grad, "marginals carry no graph"):
            return
        a, = ctx.call(key + " second order", torch.autograd.grad, (mt * torch.tensor(u)).sum(), pot, retain_graph=True)
        b, = ctx.call(key + " second order", torch.autograd.grad, (mt * torch.tensor(v)).sum(), pot)
        a, b = to_np(a), to_np(b)
        ctx.cover("dp:second order")
        p, q = float((a * v).sum()), float((b * u).sum())
        ctx.close(key + " symmetric second order", p, q, 1e-7 * (1 + abs(p) + abs(q)) * (1 + c.fam.N))


def case(ctx, i):
    if i % 2 == 0:
        projection(ctx)
    else:
        dp(ctx, i // 2)
