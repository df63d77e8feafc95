"""C13 non-projective dependency trees: matrix-tree partition and marginals."""
import itertools
import math

import numpy as np
import torch
import torch_struct as ts

from ..core import to_np
from ..gen import layout, pick

N = {"quick": 12000, "thorough": 40000}
RULE = "one batch of arc scores (partition and marginals); distinct by scores, lengths and root mode"
REQUIRED = ["root:multi", "root:single", "lengths:none", "lengths:tensor", "lengths:list", "lengths:mixed", "lengths:one", "dtype:float32", "dtype:float64", "oracle:enumeration", "oracle:determinant", "batch:4+", "gradient", "n:17+", "batch:17+", "scores:large"]
EPS = 1e-5
ASSUMPTIONS = ["arc weights may be smoothed by at most 1e-5 (default of the library); answers between the smoothed and the unsmoothed values are accepted",
               "scores whose Laplacian is ill-conditioned for the dtype are not generated"]


def laplacian(w, root, multi):
    """Kirchhoff matrix with root weights (w[h, c], no diagonal)."""
    n = len(root)
    a = w.copy()
    a[np.arange(n), np.arange(n)] = 0
    lap = np.diag(a.sum(0)) - a
    if multi:
        return lap + np.diag(root)
    lap[0] = root
    return lap


def det_ref(w, root, multi):
    """logZ and arc marginals by derivatives of the determinant."""
    lap = laplacian(w, root, multi)
    s, ld = np.linalg.slogdet(lap)
    inv = np.linalg.inv(lap)  # d logdet / d lap[i, j] = inv[j, i]
    n = len(root)
    m = np.zeros((n, n))
    first = 0 if multi else 1
    for h in range(n):
        for c in range(n):
            if h == c:
                m[c, c] = root[c] * (inv[c, c] if multi else inv[c, 0])
                continue
            g = 0.0
            if c >= first:  # diagonal entry lap[c, c] grows with w[h, c]
                g += inv[c, c]
            if h >= first:
                g -= inv[c, h]
            m[h, c] = w[h, c] * g
    return ld, m, np.linalg.cond(lap)


def padded_ref(w, root, multi, n):
    """The smoothed answer when padding words are smoothed like real ones."""
    L = len(root)
    full = np.full((n, n), EPS)
    full[:L, :L] += w
    np.fill_diagonal(full, 0)
    lap = np.diag(full.sum(0)) - full
    lap[range(L, n), range(L, n)] += 1
    if multi:
        lap[range(L), range(L)] += root
    else:
        lap[0] = 0
        lap[0, :L] = root
    inv = np.linalg.inv(lap)
    m = np.zeros((L, L))
    f = 0 if multi else 1
    for h in range(L):
        for c in range(L):
            m[h, c] = root[c] * (inv[c, c] if multi else inv[c, 0]) if h == c else w[h, c] * ((c >= f) * inv[c, c] - (h >= f) * inv[c, h])
    return np.linalg.slogdet(lap)[1], m


def beyond(got, want, slack):
    """How far got lies outside want +- slack (NaN stays NaN)."""
    d = np.abs(got - want) - slack
    return np.where(np.isnan(d), np.nan, np.maximum(d, 0))


def enum_ref(w, root, multi):
    """logZ and marginals over all spanning trees by definition."""
    n = len(root)
    Z = 0.0
    m = np.zeros((n, n))
    for heads in itertools.product(range(n), repeat=n):
        roots = [c for c in range(n) if heads[c] == c]
        if not roots or (not multi and len(roots) != 1):
            continue
        ok = True
        for c in range(n):
            x, k = c, 0
            while heads[x] != x:
                x = heads[x]
                k += 1
                if k > n:
                    ok = False
                    break
            if not ok:
                break
        if not ok:
            continue
        p = 1.0
        for c, h in enumerate(heads):
            p *= root[c] if h == c else w[h, c]
        Z += p
        for c, h in enumerate(heads):
            m[h, c] += p
    return math.log(Z), m / Z


def case(ctx, i):
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(62))
    multi = i % 2 == 0
    n = pick(rng, (4, rng.randint(1, 4)), (4, rng.randint(4, 8)), (1, rng.randint(9, 16)), (0.15, rng.randint(17, 60)))
    B = pick(rng, (2, 1), (4, rng.randint(2, 5)), (1, rng.randint(6, 16)), (0.15, rng.randint(17, 120)))
    if n > 16:
        B = min(B, 6)
    dtype = rng.choice([torch.float32, torch.float64, torch.float64])
    sc = rng.choice([0.3, 1.0, 1.0, 2.0])
    th = sc * nrng.standard_normal((B, n, n)) + rng.choice([0.0, 0.0, -1.0, 1.5])
    if rng.random() < 0.1:
        th = np.zeros((B, n, n))
    if rng.random() < 0.15:  # several orders of magnitude between items
        th = th + nrng.uniform(-3, 3, (B, 1, 1))
    if rng.random() < 0.15:  # large scores; only differences matter
        th = th + rng.choice([4.0, 8.0, 12.0, 15.0])
        ctx.cover("scores:large")
    lmode = rng.choice(["none", "none", "tensor", "tensor", "list"])
    lens = None
    if lmode != "none":
        lens = [rng.randint(1, n) for _ in range(B)]
        if rng.random() < 0.6:
            lens[rng.randrange(B)] = n
        if len(set(lens)) > 1:
            ctx.cover("lengths:mixed")
        if min(lens) == 1:
            ctx.cover("lengths:one")
        for b, L in enumerate(lens):  # padding content is free
            g = nrng.standard_normal((n, n)) * rng.choice([0.0, 1.0, 5.0, 5.0, 50.0, 1e4])
            th[b, L:] = g[L:]
            th[b, :, L:] = g[:, L:]
    if dtype == torch.float32:
        th = th.astype(np.float32).astype(np.float64)
    ctx.cover("root:multi" if multi else "root:single", "lengths:" + lmode, "dtype:" + str(dtype)[6:])
    if n > 16:
        ctx.cover("n:17+")
    if B > 16:
        ctx.cover("batch:17+")
    if B >= 4:
        ctx.cover("batch:4+")
    ctx.desc = "nonproj n=%d b=%d multi=%s len=%s %s scale=%s" % (n, B, multi, lens, dtype, sc)
    if n > 1:
        ctx.seen(th.tobytes(), lens, multi, str(dtype))
    lay = rng.choice(["contig", "contig", "transposed", "strided"])
    pot = layout(th, dtype, lay, True)
    ln = {"none": None, "list": lens, "tensor": None if lens is None else torch.tensor(lens)}[lmode]
    kw = {"multiroot": multi}
    if not multi and rng.random() < 0.3:
        kw = {}  # single root is the default
    d = ctx.call("nonproj dist", ts.NonProjectiveDependencyCRF, pot, lengths=ln, **kw)
    order = rng.random() < 0.5
    if order:
        z = ctx.call("nonproj.partition", lambda: d.partition)
    m = ctx.call("nonproj.marginals", lambda: d.marginals)
    if not order:
        z = ctx.call("nonproj.partition", lambda: d.partition)
    zt = to_np(z)
    mt = to_np(m)
    if not ctx.expect("nonproj shapes", zt.shape == (B,) and mt.shape == (B, n, n), "%s %s" % (zt.shape, mt.shape)):
        return
    u = 1e-7 if dtype == torch.float32 else 1e-15
    good = True
    for b in range(B):
        L = n if lens is None else lens[b]
        s = th[b, :L, :L]
        w = np.exp(s)
        root = np.diag(w).copy()
        z0, m0, cond = det_ref(w, root, multi)
        if L <= 4:
            ctx.cover("oracle:enumeration")
            ze, me = enum_ref(w, root, multi)
            assert abs(ze - z0) < 1e-8 * (1 + abs(ze)) and np.abs(me - m0).max() < 1e-7, "reference disagrees with itself"
            z0, m0 = ze, me
        else:
            ctx.cover("oracle:determinant")
        z1, m1, _ = det_ref(w + EPS, root, multi)
        num = w / (w + EPS)  # smoothed arcs, original numerators
        np.fill_diagonal(num, 1.0)
        m1 = m1 * num
        z2, m2 = padded_ref(w, root, multi, n)
        tol = 30 * n * u * max(cond, 10) + 1e-7 * (dtype == torch.float32)
        if cond * u > 1e-4:
            good = False
            continue
        dz = 1.5 * max(abs(z1 - z0), abs(z2 - z0))
        dm = 1.5 * np.maximum(np.abs(m1 - m0), np.abs(m2 - m0))
        if dz > 0.02:  # weights so small that smoothing dominates
            good = False
            continue
        ctx.close("nonproj.partition", beyond(zt[b], z0, dz), 0.0, tol, "item %d length %d: got %r want %r within %r" % (b, L, zt[b], z0, dz))
        ctx.close("nonproj.marginals", beyond(mt[b, :L, :L], m0, dm), np.zeros((L, L)), tol, "item %d length %d multi=%s: got %s want %s" % (b, L, multi, mt[b, :L, :L].tolist() if L < 4 else "", m0.tolist() if L < 4 else ""))
        pad = mt[b].copy()
        pad[:L, :L] = 0
        ctx.expect("nonproj.marginals padding", not pad.any(), lambda: "item %d length %d has mass %r on padding" % (b, L, np.abs(pad).max()))
    if good and rng.random() < 0.4:
        ctx.cover("gradient")
        g, = ctx.call("nonproj.partition gradient", torch.autograd.grad, z.sum(), pot)
        # the gradient of the (smoothed) partition is the marginal
        ctx.close("nonproj.partition gradient", g, mt, 3e-3 if dtype == torch.float32 else 1e-6)
