"""C06 samples follow the distribution and are independent."""
import math

import numpy as np
import torch

from ..core import to_np
from ..gen import TENSOR_FAMS, Case, fam_at, gen_theta, sizes
from ..models import Fam
from ..stats import binom_tail, fit

N = {"quick": 1200, "thorough": 6000}
RULE = "one statistical experiment (a small model replicated over a batch, one or two sample calls); distinct by potentials, lengths and layout"
REQUIRED = ["family:" + f for f in TENSOR_FAMS] + ["dtype:float32", "dtype:float64", "test:joint", "test:slot", "test:slot-pairs", "test:slot-lags", "many samples", "1000 samples", "many alternatives", "small batches", "as many samples as items", "test:batch-pairs", "test:calls", "lengths:mixed"]
P_MIN = 1e-10
ASSUMPTIONS = ["each statistical test rejects a correct sampler with probability below 1e-9; about 2e5 tests per run"]


WIDE = {
    "chain": lambda R: Fam("chain", N=2, C=R(9, 24)),
    "semi": lambda R: Fam("semi", N=2, K=R(2, 3), C=R(9, 24)),
    "depm": lambda R: Fam("dep", N=R(4, 5), L=0, multiroot=True),
    "deps": lambda R: Fam("dep", N=R(4, 5), L=0, multiroot=False),
    "depml": lambda R: Fam("dep", N=R(1, 2), L=R(9, 16), multiroot=True),
    "depsl": lambda R: Fam("dep", N=R(1, 2), L=R(9, 16), multiroot=False),
    "tree": lambda R: rng_tree(R),
}


def rng_tree(R):
    return Fam("tree", N=1, NT=R(17, 60)) if R(0, 1) else Fam("tree", N=2, NT=R(5, 8))


def wide(rng, fam, nrng):
    """One item with many alternatives in a single choice, a few of them likely."""
    f = WIDE[fam](rng.randint)
    th = gen_theta(rng, nrng, f, 1, "normal") * rng.choice([0.5, 1.0]) + rng.choice([2.0, 3.0, 4.0]) * (nrng.random((1,) + f.shape) < 0.15)
    return f, th, [f.N]


def gen(rng, fam, nrng):
    """A few small items (2..40 structures, no dominating one)."""
    for _ in range(200):
        f = sizes(rng, fam, rng.choice(["tiny", "tiny", "small"]))
        L = f.N
        cnt = f.graph(L).count()
        if 2 <= cnt <= 40:
            break
    else:
        f = sizes(rng, fam, "tiny")
        while f.graph(f.N).count() < 2:
            f = sizes(rng, fam, "tiny")
    items = rng.randint(1, 3)
    sc = rng.choice([0.0, 0.5, 1.0, 1.5])
    th = gen_theta(rng, nrng, f, items, "normal") * sc
    lens = [rng.randint(f.min_len, f.N) for _ in range(items)]
    lens[rng.randrange(items)] = f.N
    return f, th, lens


def structures(f, L, th):
    """dict event parts -> probability (length-1 structures share the empty event)."""
    g = f.graph(L)
    lz = g.logz(th)
    out = {}
    for s in g.enumerate():
        p = math.exp(sum(th[q] for q in s) - lz)
        out[s] = out.get(s, 0.0) + p
    return out


def report(ctx, key, p, msg):
    ctx.margin[key] = max(ctx.margin.get(key, 0.0), math.log(max(p, 1e-300)) / math.log(P_MIN))
    ctx.expect(key, p >= P_MIN, lambda: "p-value %.3g; %s" % (p, msg))


def experiment(ctx, fam, c, items, rep, n, draw, pairs=True, key=None):
    """draw() -> array (n, items*rep, *event); item of row r is r % items."""
    key = key or fam + ".sample"
    f = c.fam
    a = draw()
    B = items * rep
    if not ctx.expect(key + " shape", a.shape == (n, B) + f.shape, str(a.shape)):
        return None
    flat = a.reshape(n, B, -1) != 0
    all_ids = []
    for it in range(items):
        st = c.structures(it) if hasattr(c, "structures") else structures(f, c.L(it), c.th(it))
        keys = list(st)
        lookup = {}
        for q, s in enumerate(keys):
            v = np.zeros(f.n_parts, dtype=bool)
            v[list(s)] = True
            lookup[np.packbits(v).tobytes()] = q
        x = np.packbits(flat[:, it::items], axis=-1)
        ids = np.empty((n, rep), dtype=int)
        bad = 0
        for r in range(n):
            for b in range(rep):
                ids[r, b] = lookup.get(x[r, b].tobytes(), -1)
        bad = int((ids < 0).sum())
        if not ctx.expect(key + " legal", bad == 0, "%d of %d samples of item %d are not structures" % (bad, ids.size, it)):
            return None
        pr = [st[k] for k in keys]
        all_ids.append((ids, pr))
        if len(keys) < 2:
            continue
        ctx.count("samples", ids.size)
        cnt = np.bincount(ids.ravel(), minlength=len(keys))
        p, df = fit(cnt, pr, ids.size)
        if df:
            ctx.cover("test:joint")
            report(ctx, key + " distribution", p, "item %d, %d samples, counts %s, expected %s" % (it, ids.size, cnt.tolist()[:12], [round(q * ids.size, 1) for q in pr[:12]]))
        # each slot of the call on its own
        for r in range(n):
            cnt = np.bincount(ids[r], minlength=len(keys))
            p, df = fit(cnt, pr, rep)
            if df:
                ctx.cover("test:slot")
                report(ctx, key + " distribution by position", p, "item %d sample %d counts %s" % (it, r, cnt.tolist()[:12]))
        # agreement of two slots / two batch rows
        same = sum(q * q for q in pr)
        if same < 0.97:
            slots = [(r, s) for r in range(n) for s in range(r + 1, n)]
            for r, s in slots[:: max(1, len(slots) // 60)][:70]:
                k = int((ids[r] == ids[s]).sum())
                ctx.cover("test:slot-pairs")
                report(ctx, key + " independent samples", binom_tail(k, rep, same), "item %d: samples %d and %d agree %d of %d times, expected %.3f" % (it, r, s, k, rep, same))
            # slots a fixed distance apart, whatever the distance
            lags = range(1, n) if n < 300 else sorted({*range(1, 40), *ctx.rng.sample(range(40, n), 40)})
            for lag in lags:
                rs = [r for r in range(n - lag) if r % (2 * lag) < lag]
                k = sum(int((ids[r] == ids[r + lag]).sum()) for r in rs)
                ctx.cover("test:slot-lags")
                report(ctx, key + " independent samples", binom_tail(k, rep * len(rs), same), "item %d: samples %d apart agree %d of %d times, expected %.3f" % (it, lag, k, rep * len(rs), same))
            for lag in (1, 2, 3):
                k = sum(int((ids[:, b] == ids[:, b + lag]).sum()) for b in range(0, rep - lag, 2 * lag))
                tot = n * len(range(0, rep - lag, 2 * lag))
                ctx.cover("test:batch-pairs")
                report(ctx, key + " independent items", binom_tail(k, tot, same), "rows %d apart agree %d of %d times, expected %.3f" % (lag, k, tot, same))
            # joint table of neighbouring slots
            if len(keys) <= 8 and n >= 2:
                t = np.zeros((len(keys), len(keys)))
                for r in range(0, n - 1, 2):
                    np.add.at(t, (ids[r], ids[r + 1]), 1)
                pp = [x_ * y_ for x_ in pr for y_ in pr]
                p, df = fit(t.ravel().tolist(), pp, int(t.sum()))
                if df:
                    report(ctx, key + " joint of neighbouring samples", p, "item %d" % it)
    # neighbouring rows of different items
    for it in range(items - 1):
        (ia, pa), (ib, pb) = all_ids[it], all_ids[it + 1]
        if 2 <= len(pa) * len(pb) <= 64 and len(pa) > 1 and len(pb) > 1:
            t = np.zeros((len(pa), len(pb)))
            np.add.at(t, (ia.ravel(), ib.ravel()), 1)
            p, df = fit(t.ravel().tolist(), [x_ * y_ for x_ in pa for y_ in pb], int(t.sum()))
            if df:
                report(ctx, key + " joint of different items", p, "items %d and %d" % (it, it + 1))
    return all_ids


def make(ctx, fam, rep, many=False):
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(63))
    f, th, lens = (wide if many else gen)(rng, fam, nrng)
    items = th.shape[0]
    dtype = rng.choice([torch.float32, torch.float64])
    big = np.concatenate([th] * rep)
    use_len = len(set(lens)) > 1 or rng.random() < 0.3
    if not use_len:
        lens = [f.N] * items
    c = Case(f, big, lens * rep if use_len else None, dtype)
    ctx.cover("family:" + fam, "dtype:" + str(dtype)[6:])
    if len(set(lens)) > 1:
        ctx.cover("lengths:mixed")
    return c, items


def small(ctx, fam):
    """Few different items, few samples a call (often as many as items), many calls."""
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(63))
    f, _, _ = gen(rng, fam, nrng)
    B = rng.choice([1, 2, 3, 4, 5, 6, 8])
    n = B if rng.random() < 0.5 else rng.choice([1, 2, 3, 4, 7, 11])
    calls = max(20, min(100, 400 // n))
    th = gen_theta(rng, nrng, f, B, "normal") * rng.choice([0.7, 1.5, 2.5])
    lens = None
    if rng.random() < 0.5:
        lens = [rng.randint(f.min_len, f.N) for _ in range(B)]
        lens[rng.randrange(B)] = f.N
    c = Case(f, th, lens, rng.choice([torch.float32, torch.float64]))
    ctx.desc = "%r b=%d n=%d calls=%d lens=%s" % (f, B, n, calls, lens)
    ctx.cover("family:" + fam, "small batches", "test:calls")
    if n == B > 1:
        ctx.cover("as many samples as items")
    ctx.seen(n, calls, *c.payload())
    d = ctx.call(fam + " dist", c.dist)
    key = fam + ".sample"
    rows = []
    for _ in range(calls):
        a = to_np(ctx.call(key, d.sample, (n,)))
        if not ctx.expect(key + " shape", a.shape == (n, B) + f.shape, str(a.shape)):
            return
        rows.append(a.reshape(n, B, -1) != 0)
    x = np.packbits(np.stack(rows), axis=-1)  # calls, n, B
    for b in range(B):
        st = structures(f, c.L(b), c.th(b))
        keys = list(st)
        lookup = {}
        for q, s_ in enumerate(keys):
            v = np.zeros(f.n_parts, dtype=bool)
            v[list(s_)] = True
            lookup[np.packbits(v).tobytes()] = q
        ids = np.array([[lookup.get(x[k, r, b].tobytes(), -1) for r in range(n)] for k in range(calls)])
        bad = int((ids < 0).sum())
        if not ctx.expect(key + " legal", bad == 0, "%d of %d samples of item %d are not structures" % (bad, ids.size, b)):
            return
        if len(keys) < 2:
            continue
        pr = [st[k] for k in keys]
        p, df = fit(np.bincount(ids.ravel(), minlength=len(keys)), pr, ids.size)
        if df:
            report(ctx, key + " distribution", p, "item %d of %d, %d calls of %d samples" % (b, B, calls, n))
        same = sum(q * q for q in pr)
        if same < 0.97:
            k = int((ids[0:calls - 1:2] == ids[1:calls:2]).sum())
            report(ctx, key + " independent calls", binom_tail(k, (calls // 2) * n, same), "item %d: neighbouring calls agree %d times" % (b, k))
            if n > 1:
                k = int((ids[:, 0:n - 1:2] == ids[:, 1:n:2]).sum())
                report(ctx, key + " independent samples", binom_tail(k, calls * (n // 2), same), "item %d: neighbouring samples agree %d times" % (b, k))


def case(ctx, i):
    fam = fam_at(i, TENSOR_FAMS)
    rng = ctx.rng
    if rng.random() < 0.15:
        return small(ctx, fam)
    rep = rng.choice([60, 120, 200])
    n = rng.choice([1, 5, 10, 11, 12, 20, 23, 30])
    if rng.random() < 0.08:
        rep, n = 30, rng.choice([64, 101, 130, 260])
        ctx.cover("many samples")
    if i % 70 == (i // 70) % 7:  # every family in turn
        rep, n = 20, rng.choice([520, 650, 1030, 1300])
        ctx.cover("1000 samples" if n > 1000 else "many samples")
    many = n < 60 and rng.random() < 0.12
    if many:
        ctx.cover("many alternatives")
        rep, n = 200, rng.choice([10, 20])
    c, items = make(ctx, fam, rep, many)
    ctx.desc = "%r items=%d rep=%d n=%d lens=%s" % (c.fam, items, rep, n, None if c.lengths is None else c.lengths[:items])
    ctx.seen(rep, n, *c.payload())
    d = ctx.call(fam + " dist", c.dist)
    a = experiment(ctx, fam, c, items, rep, n, lambda: to_np(ctx.call(fam + ".sample", d.sample, (n,))))
    # a second call on the same or on an equal distribution
    d2 = d if rng.random() < 0.5 else c.dist()
    x = to_np(ctx.call(fam + ".sample", d2.sample, (n,)))
    if a is None:
        return
    ctx.cover("test:calls")
    a2 = experiment(ctx, fam, c, items, rep, n, lambda: x)
    if a2 is None:
        return
    for (ia, pr), (ib, _) in zip(a, a2):
        same = sum(q * q for q in pr)
        if same < 0.97:
            k = int((ia == ib).sum())
            report(ctx, fam + ".sample independent calls", binom_tail(k, ia.size, same), "two calls agree %d of %d times, expected %.3f" % (k, ia.size, same))
