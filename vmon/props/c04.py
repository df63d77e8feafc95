"""C04 k-best totals and structures."""
import numpy as np

from ..core import to_np
from ..gen import FAMS, cfg_counts, cfg_spans_ij, check_structure, cost, cover_case, fam_at, gen_case, pick, size_at, structure_score
from ..models import Fam

N = {"quick": 7000, "thorough": 24000}
RULE = "one monitored kmax/topk pair on a batch that has at least two structures; distinct by potentials, lengths, dtype and k"
REQUIRED = ["family:" + f for f in FAMS] + ["dtype:float32", "dtype:float64", "lengths:none", "lengths:mixed", "lengths:one", "k:1", "k:2", "k:3-5", "k:6-12", "k:13+", "k:25+", "k:81+", "k:81+ and as many structures", "k>count", "v:ties", "v:near"]
IMPOSSIBLE = -5e4


def check_kmax(ctx, key, c, k, km):
    km = to_np(km)
    if not ctx.expect(key + " shape", km.shape == (k, c.batch), str(km.shape)):
        return None
    for b in range(c.batch):
        want = c.ref("kbest", b, k)
        n = len(want)
        ctx.close(key, km[:n, b], want, c.tol, "item %d" % b)
        if n < k:
            ctx.cover("k>count")
            ctx.expect(key + " surplus", (km[n:, b] < IMPOSSIBLE).all(), lambda: "item %d has %d structures, got %s" % (b, n, km[:, b]))
    up = km[1:] > km[:-1] + c.tol
    ctx.expect(key + " order", not up.any(), lambda: "increasing in item %d: %s" % (np.argwhere(up)[0][1], km[:, np.argwhere(up)[0][1]]))
    return km


def check_topk(ctx, key, c, k, tk):
    if c.fam.name == "cfg":
        return check_topk_cfg(ctx, key, c, k, tk)
    t = to_np(tk)
    if not ctx.expect(key + " shape", t.shape == (k,) + c.theta.shape, str(t.shape)):
        return
    for b in range(c.batch):
        want = c.ref("kbest", b, k)
        seen = {}
        for r in range(len(want)):
            on = check_structure(ctx, key, c, b, t[r, b])
            if on is None:
                continue
            ctx.close(key + " score", structure_score(c, b, on), want[r], c.tol, "item %d rank %d" % (b, r))
            z = tuple(sorted(on))
            if z:
                ctx.expect(key + " distinct", z not in seen, lambda: "item %d: ranks %d and %d are the same structure" % (b, seen[z], r))
            seen.setdefault(z, r)


def check_topk_cfg(ctx, key, c, k, tk):
    t, r, o, s = [to_np(x) for x in tk]
    f = c.fam
    if not ctx.expect(key + " shape", s.shape == (k, c.batch, f.N, f.N, f.NT), str(s.shape)):
        return
    for b in range(c.batch):
        L = c.L(b)
        want = c.ref("kbest", b, k)
        n = len(want)
        for q in range(n):
            sp = cfg_counts(cfg_spans_ij(s[q, b]))
            ok = sp is not None and _span_tree({(i, j) for i, j, _ in sp}, sp, L)
            ctx.expect(key + " span tree", ok, lambda: "item %d rank %d: %s" % (b, q, sp))
        if n == k:
            tot = sum(float((x[b] * th[b])[x[b] != 0].sum()) for x, th in zip((t, r, o), c.theta))
            ctx.close(key + " total", tot, sum(want), c.tol * k, "item %d" % b)
            ctx.close(key + " terms", t[b][:L].sum(-1), np.full(L, k), 1e-6)
            ctx.close(key + " rules", r[b].sum(), k * (L - 1), 1e-6)
            ctx.close(key + " roots", o[b].sum(), k, 1e-6)
            # labels of the spans agree with the left-hand sides of the rules
            ctx.close(key + " rule heads", r[b].sum((-1, -2)), s[:n, b].sum((0, 1, 2)), 1e-6)


def _span_tree(keys, sp, L):
    if len(keys) != len(sp) or any(v != 1 for v in sp.values()) or len(keys) != L - 1:
        return False
    left = set(keys)
    full = keys | {(i, i) for i in range(L)}
    stack = [(0, L - 1)]
    while stack:
        i, j = stack.pop()
        if i == j:
            continue
        if (i, j) not in left:
            return False
        left.discard((i, j))
        ks = [k for k in range(i, j) if (i, k) in full and (k + 1, j) in full]
        if len(ks) != 1:
            return False
        stack += [(i, ks[0]), (ks[0] + 1, j)]
    return not left


def memory(f, b, k):
    """Elements of the largest intermediate of the library's k-best product."""
    if f.name == "chain":
        return b * f.N * f.C ** 3 * k * k
    if f.name == "semi":
        return b * f.N * ((f.K - 1) * f.C) ** 3 * k * k
    if f.name == "cfg":
        S = f.NT + f.T
        return b * f.N * (S ** 2 * f.N + S ** 2 * f.NT) * k * k
    return b * f.N ** 2 * k * k * 4


def draw_k(rng):
    return pick(rng, (1, 1), (2, 2), (3, rng.randint(3, 5)), (3, rng.randint(6, 12)), (1, rng.randint(13, 24)), (0.3, rng.randint(25, 80)), (0.15, rng.randint(81, 300)))


def case(ctx, i):
    fam = fam_at(i)
    rng = ctx.rng
    k = draw_k(rng)
    if fam == "cfg":
        k = min(k, 60)  # cubes of k in every rule
    mode = rng.choice(["ties", "zeros", "half", "near"]) if rng.random() < 0.25 else None
    if i % 160 == 7:  # many ranks, and an item that has as many structures
        fam = rng.choice(["chain", "depm", "tree"])
        k = rng.randint(81, 160)
        ctx.cover("k:81+ and as many structures")
        f = {"chain": Fam("chain", N=rng.randint(8, 9), C=2), "depm": Fam("dep", N=5, L=0, multiroot=True), "tree": Fam("tree", N=5, NT=2)}[fam]
        c = gen_case(rng, fam, fam=f, batch=1, mode=mode, lengths_mode="full")
        return judge_case(ctx, fam, c, k)
    for t in range(60):
        if t % 10 == 9:
            k = max(1, k * 2 // 3)
        c = gen_case(rng, fam, size_at(rng, (3, 4, 3, 1, 0.1)), budget=20000, layouts=True, grads=True, mode=mode)
        if memory(c.fam, c.batch, k) * max(1, k / 40) < 4e6 and cost(c.fam) * c.batch * k < 2e5:
            break
    else:
        c = gen_case(rng, fam, "tiny", budget=2000, batch=2, mode=mode)
    judge_case(ctx, fam, c, k)


def judge_case(ctx, fam, c, k):
    rng = ctx.rng
    ctx.desc = "%r k=%d" % (c, k)
    cover_case(ctx, c, fam)
    if k > 80:
        ctx.cover("k:81+")
    if k >= 25:
        ctx.cover("k:25+")
    ctx.cover("k:1" if k == 1 else "k:2" if k == 2 else "k:3-5" if k < 6 else "k:6-12" if k < 13 else "k:13+")
    if c.nontrivial():
        ctx.seen(k, *c.payload())
    d = ctx.call(fam + " dist", c.dist)
    first = rng.random() < 0.5
    if first:
        check_kmax(ctx, fam + ".kmax", c, k, ctx.call(fam + ".kmax", d.kmax, k))
    check_topk(ctx, fam + ".topk", c, k, ctx.call(fam + ".topk", d.topk, k))
    if not first:
        check_kmax(ctx, fam + ".kmax", c, k, ctx.call(fam + ".kmax", d.kmax, k))
