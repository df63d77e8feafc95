"""Workload generator: shapes, lengths, potentials, layouts."""
import functools
import math

import numpy as np
import torch
import torch_struct as ts

from .models import Fam

FAMS = ("chain", "semi", "depm", "deps", "depml", "depsl", "tree", "cfg")
TENSOR_FAMS = FAMS[:-1]
TOTAL = 2e4  # bound on |score of a structure|; the library's log-zero is -1e5


def pick(rng, *opts):
    """Weighted choice: opts are (weight, value)."""
    tot = sum(w for w, _ in opts)
    u = rng.random() * tot
    for w, v in opts:
        u -= w
        if u < 0:
            return v
    return opts[-1][1]


def sizes(rng, fam, size):
    """A Fam with event size of the class tiny / small / medium / large / xlarge."""
    R = rng.randint
    if size == "xlarge":
        return xlarge(rng, fam)
    if fam == "chain":
        if size == "tiny":
            return Fam("chain", N=R(2, 5), C=R(1, 3))
        if size == "small":
            return Fam("chain", N=R(2, 9), C=R(1, 5))
        if size == "medium":
            return Fam("chain", N=rng.choice([2, 3, 5, 8, 9, 10, 11, 15, 16, 17, 18, 20, 24, 31, 32, 33, 34]), C=R(1, 8))
        n = rng.choice([2, 3, 33, 40, 48, 64, 65, 66, 70, 100, 127, 128, 129, 130])
        return Fam("chain", N=n, C=R(1, 4) if n > 40 else R(6, 20))
    if fam == "semi":
        if size == "tiny":
            return Fam("semi", N=R(2, 5), K=R(2, 4), C=R(1, 2))
        if size == "small":
            return Fam("semi", N=R(2, 8), K=R(2, 5), C=R(1, 3))
        if size == "medium":
            return Fam("semi", N=rng.choice([2, 3, 5, 7, 8, 9, 10, 12, 16, 17, 18, 20]), K=R(2, 7), C=R(1, 3))
        return rng.choice([
            Fam("semi", N=rng.choice([30, 33, 34, 40, 65]), K=R(2, 5), C=R(1, 2)),
            Fam("semi", N=R(9, 14), K=R(8, 12), C=R(1, 2)),
            Fam("semi", N=R(5, 10), K=R(2, 4), C=R(4, 8)),
        ])
    if fam.startswith("dep"):
        lab = R(1, 4) if fam.endswith("l") else 0
        mr = fam[3] == "m"
        n = dict(tiny=R(1, 4), small=R(1, 6), medium=R(1, 11), large=R(12, 20))[size]
        if size == "tiny" and lab:
            n = R(1, 3)
            lab = min(lab, 2)
        if size == "large" and lab:
            n = R(8, 13)
            lab = R(1, 7)
        return Fam("dep", N=n, L=lab, multiroot=mr)
    if fam == "tree":
        n = dict(tiny=R(1, 4), small=R(1, 7), medium=R(1, 12), large=R(12, 20))[size]
        return Fam("tree", N=n, NT=R(1, 2) if size == "tiny" else R(1, 6))
    if fam == "cfg":
        n = dict(tiny=R(2, 3), small=R(2, 5), medium=R(2, 7), large=R(7, 11))[size]
        if size == "tiny":
            return Fam("cfg", N=n, NT=R(1, 2), T=R(1, 2))
        if size == "large":
            return Fam("cfg", N=n, NT=R(1, 3), T=R(1, 3))
        return Fam("cfg", N=n, NT=R(1, 4), T=R(1, 4))
    raise KeyError(fam)


def xlarge(rng, fam):
    """Sizes far beyond the usual in one direction: length, states, widths, labels."""
    R = rng.randint
    if fam == "chain":
        if rng.random() < 0.6:
            n = rng.choice([R(131, 520), 255, 256, 257, 258, 259, 260, 512, 513, 514, 515])
            return Fam("chain", N=n, C=R(1, 3))
        return Fam("chain", N=R(2, 5), C=R(20, 70))
    if fam == "semi":
        return rng.choice([
            Fam("semi", N=rng.choice([R(66, 140), 128, 129, 130, 131]), K=R(2, 4), C=R(1, 2)),
            Fam("semi", N=R(13, 26), K=R(12, 22), C=1),
            Fam("semi", N=R(2, 5), K=R(2, 3), C=R(8, 16)),
        ])
    if fam.startswith("dep"):
        lab = fam.endswith("l")
        mr = fam[3] == "m"
        if lab and rng.random() < 0.5:
            return Fam("dep", N=R(2, 6), L=R(8, 40), multiroot=mr)
        return Fam("dep", N=R(14, 24) if lab else R(21, 36), L=R(1, 3) if lab else 0, multiroot=mr)
    if fam == "tree":
        return Fam("tree", N=R(21, 40), NT=R(1, 3)) if rng.random() < 0.6 else Fam("tree", N=R(2, 6), NT=R(8, 60))
    if fam == "cfg":
        return Fam("cfg", N=R(11, 14), NT=R(1, 2), T=R(1, 2)) if rng.random() < 0.6 else Fam("cfg", N=R(2, 4), NT=R(4, 9), T=R(4, 9))
    raise KeyError(fam)


def stretched(rng, fam):
    """Small sizes except for one that is well beyond the usual."""
    R = rng.randint
    if fam == "chain":
        return rng.choice([Fam("chain", N=R(2, 4), C=R(9, 24)), Fam("chain", N=R(2, 3), C=R(25, 66)), Fam("chain", N=R(35, 90), C=R(1, 2))])
    if fam == "semi":
        return rng.choice([Fam("semi", N=R(2, 14), K=R(8, 18), C=R(1, 2)), Fam("semi", N=R(2, 5), K=R(2, 3), C=R(5, 14)), Fam("semi", N=R(21, 50), K=R(2, 4), C=R(1, 2))])
    if fam.startswith("dep"):
        lab = fam.endswith("l")
        mr = fam[3] == "m"
        if lab and rng.random() < 0.7:
            return Fam("dep", N=R(1, 5), L=R(5, 24), multiroot=mr)
        return Fam("dep", N=R(9, 14) if lab else R(12, 18), L=R(1, 2) if lab else 0, multiroot=mr)
    if fam == "tree":
        return Fam("tree", N=R(1, 5), NT=R(7, 60)) if rng.random() < 0.6 else Fam("tree", N=R(13, 19), NT=R(1, 3))
    return rng.choice([Fam("cfg", N=R(8, 17), NT=1, T=1), Fam("cfg", N=R(8, 11), NT=R(1, 2), T=R(1, 2)), Fam("cfg", N=R(2, 3), NT=R(5, 9), T=R(1, 4)), Fam("cfg", N=R(2, 3), NT=R(1, 4), T=R(5, 12))])


def cost(f):
    """Rough number of reference edges per item."""
    if f.name == "chain":
        return f.N * f.C * f.C
    if f.name == "semi":
        return f.N * (f.K - 1) * f.C * f.C
    if f.name == "dep":
        return f.N ** 3 + f.N ** 2 * (f.L or 1)
    if f.name == "tree":
        return f.N ** 3 // 4 + f.N ** 2 * f.NT
    S = f.NT + f.T
    return (f.N ** 2 // 2) * S * S * (f.N // 3 + f.NT)


def per_structure(f):
    """Upper bound on the number of parts of a structure."""
    return dict(chain=f.N, semi=f.N, dep=f.N, tree=2 * f.N, cfg=2 * f.N + 2)[f.name]


VALUES = ("normal", "normal", "tiny", "wide", "huge", "positive", "ties", "zeros", "shift", "peaked", "mixed", "half")


def fill(rng, nrng, shape, mode, nper, batch_axis=True):
    """Potentials of one mode; every structure scores within +-TOTAL."""
    top = TOTAL / max(1, nper)
    x = nrng.standard_normal(shape)
    if mode == "normal":
        pass
    elif mode == "tiny":
        x = x * 1e-3
    elif mode == "wide":
        x = x * 8.0
    elif mode == "huge":
        x = x * min(100.0 * 10 ** rng.random(), top / 4)
    elif mode == "positive":
        x = nrng.random(shape)
    elif mode == "near":
        # nearly tied: only the sixth to eighth decimal tells the structures apart
        x = np.round(x) + rng.choice([1e-6, 1e-7, 1e-8]) * nrng.standard_normal(shape)
    elif mode == "ties":
        x = nrng.integers(-1, 2, shape).astype(float)
    elif mode == "zeros":
        x = np.zeros(shape) + rng.choice([0.0, 0.0, 1.0, -2.5])
    elif mode == "shift":
        x = x + rng.choice([-1, 1]) * rng.choice([20.0, 60.0, 100.0])
    elif mode == "lift":
        x = x + rng.choice([-1, 1, 1]) * top * rng.uniform(0.2, 0.9)
    elif mode == "peaked":
        x = x + 15.0 * (nrng.random(shape) < 0.2)
    elif mode == "half":
        x = np.round(x * 2) / 2
    elif mode == "mixed":
        if batch_axis and len(shape) > 1:
            sc = 10 ** nrng.uniform(-2, 2, (shape[0],) + (1,) * (len(shape) - 1))
            x = x * sc
    return np.clip(x, -top, top)


class Case:
    """One distribution: reference values plus how to hand it to the library."""

    big = False

    def __init__(self, fam, theta, lengths, dtype, layout="contig", grad=False, tags=()):
        self.fam, self.lengths, self.dtype, self.layout, self.grad = fam, lengths, dtype, layout, grad
        self.tags = set(tags)
        if fam.name == "cfg":
            self.theta = tuple(_round(t, dtype) for t in theta)
            self.batch = self.theta[0].shape[0]
        else:
            self.theta = _round(theta, dtype)
            self.batch = self.theta.shape[0]
        self._g = {}
        self._ref = {}

    # -- reference side
    def L(self, b):
        return self.fam.N if self.lengths is None else self.lengths[b]

    def graph(self, b):
        return self.fam.graph(self.L(b))

    def th(self, b):
        if self.fam.name == "cfg":
            z = np.zeros(self.fam.cfg_sizes[3])
            return np.concatenate([t[b].ravel() for t in self.theta] + [z]).tolist()
        return self.theta[b].ravel().tolist()

    def ref(self, what, b, *a):
        key = (what, b) + a
        if key not in self._ref:
            g, th = self.graph(b), self.th(b)
            if what == "marg":
                self._ref[key] = g.marginals(th)
            elif what == "logz":
                self._ref[key] = self.ref("marg", b)[0] if ("marg", b) in self._ref else g.logz(th)
            elif what == "best":
                self._ref[key] = g.best(th)
            elif what == "kbest":
                self._ref[key] = g.kbest(th, *a)
            elif what == "count":
                self._ref[key] = g.count()
            elif what == "entropy":
                lz, m = self.ref("marg", b)
                self._ref[key] = lz - math.fsum(x * t for x, t in zip(m, th) if x != 0.0)
        return self._ref[key]

    def logz(self):
        return np.array([self.ref("logz", b) for b in range(self.batch)])

    def best(self):
        return np.array([self.ref("best", b) for b in range(self.batch)])

    def entropy(self):
        return np.array([self.ref("entropy", b) for b in range(self.batch)])

    def marg(self):
        """Array like the event (cfg: 4 arrays, spans as [i, j, a])."""
        ms = [np.array(self.ref("marg", b)[1]) for b in range(self.batch)]
        return self.split(np.stack(ms))

    def split(self, flat):
        b = flat.shape[0]
        if self.fam.name != "cfg":
            return flat.reshape((b,) + self.fam.shape)
        out, o = [], 0
        for n, s in zip(self.fam.cfg_sizes, self.fam.cfg_shapes):
            out.append(flat[:, o:o + n].reshape((b,) + s))
            o += n
        return tuple(out)

    def dead(self, b):
        return dead_mask(self.fam, self.L(b)).reshape(self.fam.shape)

    def counts(self):
        return [self.ref("count", b) for b in range(self.batch)]

    def nontrivial(self):
        return max(self.counts()) > 1

    @property
    def scale(self):
        """Bound on the magnitude of intermediate scores (padding does not count)."""
        if "scale" not in self._ref:
            m = 0.0
            for b in range(self.batch):
                if self.fam.name == "cfg":
                    live = [self.theta[0][b, : self.L(b)], self.theta[1][b], self.theta[2][b]]
                else:
                    live = [self.theta[b][~pad_mask(self.fam, self.L(b))]]
                m = max([m] + [float(np.abs(_real(x)).max()) for x in live if x.size])
            self._ref["scale"] = (m + 2.0) * per_structure(self.fam)
        return self._ref["scale"]

    @property
    def tol(self):
        return 1e-9 + 1e-12 * self.scale if self.dtype == torch.float64 else 1e-4 + 2e-6 * self.scale

    # -- library side
    def tensors(self, requires_grad=None):
        rg = self.grad if requires_grad is None else requires_grad
        if self.fam.name == "cfg":
            return tuple(layout(t, self.dtype, self.layout, rg) for t in self.theta)
        return layout(self.theta, self.dtype, self.layout, rg)

    def len_tensor(self):
        if self.lengths is None:
            return None
        ln = torch.tensor(self.lengths, dtype=torch.long)
        if self.layout == "strided":  # views, like the potentials
            ln = torch.stack([ln, ln + 3], 1)[:, 0]
        elif self.layout == "offset":
            ln = torch.cat([ln[:1] + 3, ln, ln[:1] + 5])[1:-1]
        elif self.layout == "batchlast" and len(set(self.lengths)) == 1:
            ln = ln[:1].expand(len(ln))
        return ln

    def dist(self, pot=None, lengths="own"):
        if pot is None:
            pot = self.tensors()
        ln = self.len_tensor() if isinstance(lengths, str) else lengths
        return make_dist(self.fam, pot, ln)

    def __repr__(self):
        return "%r b=%d len=%s %s %s%s %s" % (
            self.fam, self.batch, self.lengths if self.lengths is None or len(self.lengths) < 12 else "%s..." % self.lengths[:12],
            str(self.dtype)[6:], self.layout, " grad" if self.grad else "", ",".join(sorted(self.tags)))

    def payload(self):
        ts_ = self.theta if isinstance(self.theta, tuple) else (self.theta,)
        return [repr(self.fam.key), repr(self.lengths), str(self.dtype)] + [t.tobytes() for t in ts_]


def _real(x):
    return np.where(np.abs(x) > 5e5, 0.0, x)


def _round(x, dtype):
    x = np.asarray(x, dtype=np.float64)
    return x.astype(np.float32).astype(np.float64) if dtype == torch.float32 else x


def layout(x, dtype, kind, requires_grad=False):
    """The same values in different memory layouts."""
    t = torch.tensor(x, dtype=dtype)
    if kind == "contig":
        r = t
    elif kind == "transposed":
        r = t.transpose(-1, -2).contiguous().transpose(-1, -2)
    elif kind == "strided":
        big = torch.full(t.shape[:-1] + (2 * t.shape[-1],), 7.25, dtype=dtype)
        big[..., ::2] = t
        r = big[..., ::2]
    elif kind == "expanded":  # batch of identical items
        r = t[:1].expand(t.shape)
    elif kind == "batchlast":
        perm = list(range(1, t.dim())) + [0]
        inv = [t.dim() - 1] + list(range(t.dim() - 1))
        r = t.permute(perm).contiguous().permute(inv)
    elif kind == "offset":
        big = torch.full((t.shape[0] + 2,) + t.shape[1:], -3.5, dtype=dtype)
        big[1:-1] = t
        r = big[1:-1]
    else:
        raise KeyError(kind)
    if requires_grad:
        r = r.requires_grad_(True)
    return r


def make_dist(fam, pot, lengths):
    if fam.name == "chain":
        return ts.LinearChainCRF(pot, lengths=lengths)
    if fam.name == "semi":
        return ts.SemiMarkovCRF(pot, lengths=lengths)
    if fam.name == "dep":
        if fam.multiroot:
            return ts.DependencyCRF(pot, lengths=lengths)
        return ts.DependencyCRF(pot, lengths=lengths, multiroot=False)
    if fam.name == "tree":
        return ts.TreeCRF(pot, lengths=lengths)
    if fam.name == "cfg":
        return ts.SentCFG(pot, lengths=lengths)
    raise KeyError(fam.name)


def gen_lengths(rng, fam, batch, mode=None):
    N, lo = fam.N, fam.min_len
    mode = mode or pick(rng, (3, "none"), (5, "mixed"), (1, "full"), (1, "short"), (1, "near"))
    if mode == "none":
        return None
    if mode == "full":
        return [N] * batch
    if mode == "short":
        ls = [lo] * batch
    elif mode == "near":
        ls = [max(lo, N - rng.randint(0, 2)) for _ in range(batch)]
    else:
        ls = [rng.randint(lo, N) for _ in range(batch)]
    if fam.name in ("chain", "semi") or rng.random() < 0.5:
        ls[rng.randrange(batch)] = N
    return ls


def gen_theta(rng, nrng, fam, batch, mode, lengths=None, pad=None):
    nper = per_structure(fam)
    if fam.name == "cfg":
        shp = [(batch,) + s for s in fam.cfg_shapes[:3]]
        out = tuple(fill(rng, nrng, s, mode, nper) for s in shp)
        if lengths is not None and pad is not None:
            for b, L in enumerate(lengths):
                out[0][b, L:] = fill_pad(rng, nrng, out[0][b, L:].shape, pad)
        return out
    x = fill(rng, nrng, (batch,) + fam.shape, mode, nper)
    if lengths is not None and pad is not None:
        unused = rng.random() < 0.3
        for b, L in enumerate(lengths):
            m = dead_mask(fam, L).reshape(fam.shape) if unused else pad_mask(fam, L)
            v = fill_pad(rng, nrng, x[b].shape, pad)
            if unused:  # inside the item such entries count as potentials
                v = np.where(pad_mask(fam, L), v, np.clip(v, -1e4, 1e4))
            x[b] = np.where(m, v, x[b])
    return x


PADS = ("zero", "small", "big", "neg", "mix")


def fill_pad(rng, nrng, shape, pad):
    if pad == "zero":
        return np.zeros(shape)
    if pad == "small":
        return nrng.standard_normal(shape)
    if pad == "big":
        return np.full(shape, rng.choice([50.0, 1e3, 1e4, 1e6, 1e12, 1e30]))
    if pad == "neg":
        return np.full(shape, -rng.choice([50.0, 1e3, 1e4, 1e6, 1e12, 1e30]))
    return nrng.uniform(-1, 1, shape) * rng.choice([10.0, 1e3, 1e4, 1e8, 1e30])


def pad_mask(fam, L):
    """True where the event of an item of length L is padding."""
    m = np.zeros(fam.shape, dtype=bool)
    if fam.name in ("chain", "semi"):
        m[L - 1:] = True
    elif fam.name == "dep":
        m[L:] = True
        m[:, L:] = True
    elif fam.name == "tree":
        m[L:] = True
        m[:, L:] = True
    return m


def dead_mask(fam, L):
    """Padding plus entries no structure can use (lower triangle, width 0...)."""
    return _dead(fam.name, tuple(sorted(fam.kw.items())), L)


@functools.lru_cache(maxsize=256)
def _dead(name, kw, L):
    g = Fam(name, **dict(kw)).graph(L)
    used = np.zeros(g.n_parts, dtype=bool)
    for es in g.edges:
        for _, parts in es:
            for p in parts:
                used[p] = True
    return ~used


def gen_batch(rng, fam, budget):
    c = max(1, cost(fam))
    top = max(1, min(200, int(budget // c)))
    b = pick(rng, (2, 1), (3, 2), (3, 3), (3, rng.randint(2, 6)), (2, rng.randint(4, 12)), (1, rng.randint(10, 40)), (0.05, rng.randint(65, 200)))
    return max(1, min(b, top))


def gen_case(rng, famname, size="medium", budget=30000, dtype=None, mode=None, lengths_mode=None, layouts=False,
             grads=False, batch=None, pad=True, fam=None):
    """A random Case.  Every choice comes from rng."""
    nrng = np.random.default_rng(rng.getrandbits(63))
    if fam is None:
        fam = stretched(rng, famname) if size in ("small", "medium") and rng.random() < 0.07 else sizes(rng, famname, size)
        tries = 0
        while cost(fam) > budget and tries < 20:
            fam = sizes(rng, famname, "large" if size == "xlarge" and tries > 9 else size)
            tries += 1
    b = batch or gen_batch(rng, fam, budget)
    any_mode = mode is None
    mode = mode or rng.choice(VALUES)
    lengths = gen_lengths(rng, fam, b, lengths_mode)
    if dtype is None:
        dtype = torch.float64 if rng.random() < 0.4 else torch.float32
    if any_mode and dtype == torch.float64 and rng.random() < 0.06:
        mode = "lift"  # scores near the bound, all alike: single precision would leave little of them
    padm = rng.choice(PADS) if (pad and lengths is not None) else None
    theta = gen_theta(rng, nrng, fam, b, mode, lengths, padm)
    lay = "contig"
    if layouts and rng.random() < 0.4:
        lay = rng.choice(["transposed", "strided", "batchlast", "offset"])
    grad = grads and rng.random() < 0.5
    tags = {"v:" + mode}
    if padm:
        tags.add("pad:" + padm)
    return Case(fam, theta, lengths, dtype, lay, grad, tags)


def fam_at(i, fams=FAMS):
    return fams[i % len(fams)]


def size_at(rng, weights=(2, 4, 4, 1, 0.15)):
    return pick(rng, *zip(weights, ("tiny", "small", "medium", "large", "xlarge")))


def cover_case(ctx, case, famname):
    """Common strata of a case."""
    ctx.cover("family:" + famname, "dtype:" + str(case.dtype)[6:])
    ctx.cover("lengths:" + ("none" if case.lengths is None else "given"))
    if case.lengths is not None:
        if len(set(case.lengths)) > 1:
            ctx.cover("lengths:mixed")
        if min(case.lengths) == 1:
            ctx.cover("lengths:one")
    if case.batch >= 4:
        ctx.cover("batch:4+")
    if case.batch == 1:
        ctx.cover("batch:1")
    if case.fam.name == "chain" and case.fam.N > 256:
        ctx.cover("long chain")
    for t in case.tags:
        ctx.cover(t)


def structure_parts(fam, event):
    """Index tuples of the ones of a 0/1 event; None if it is not 0/1."""
    e = np.asarray(event)
    on = np.argwhere(e != 0)
    if on.size and not (e[tuple(on.T)] == 1).all():
        return None
    return [tuple(int(x) for x in r) for r in on]


def structure_score(case, b, on):
    th = case.theta[b]
    return math.fsum(float(th[i]) for i in on)


def check_structure(ctx, key, case, b, event):
    """event must be one legal 0/1 structure of item b; returns its parts."""
    on = structure_parts(case.fam, event)
    if not ctx.expect(key + " 0/1", on is not None, lambda: "item %d is not 0/1: %s" % (b, np.unique(np.asarray(event))[:6])):
        return None
    why = case.fam.legal(on, case.L(b))
    if not ctx.expect(key + " legal", why is None, lambda: "item %d (length %d): %s; parts %s" % (b, case.L(b), why, on[:12])):
        return None
    return on


def cfg_counts(t, tol=1e-6):
    """dict index -> integer count of a (rounded) count tensor, or None."""
    a = np.asarray(t, dtype=np.float64)
    r = np.round(a)
    if not np.all(np.abs(a - r) <= tol):
        return None
    return {tuple(int(x) for x in i): int(r[tuple(i)]) for i in np.argwhere(r != 0)}


def cfg_spans_ij(spans):
    """library span chart [w, i, a] (width w+2) -> array [i, j, a]."""
    s = np.asarray(spans, dtype=np.float64)
    N = s.shape[0]
    out = np.zeros_like(s)
    for w in range(N):
        for i in range(N - w - 1):
            out[i, i + w + 1] = s[w, i]
    return out
