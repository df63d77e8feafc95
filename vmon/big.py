"""Reference for inputs too large for the hypergraph: plain left-to-right (or
width-by-width) recursions in float64 torch, one item at a time, differentiated
by autograd.  Used for partition, max, marginals and entropy only."""
import numpy as np
import torch

from .gen import PADS, Case, fill_pad, gen_lengths, gen_theta, pad_mask
from .models import Fam

NEG = -1e30


def red(x, dim, log):
    if not log:
        return x.max(dim)[0]
    m = x.max(dim, keepdim=True)[0].detach()
    return (x - m).exp().sum(dim).log() + m.squeeze(dim)


def chain(th, L, log):
    a = torch.zeros(th.shape[-1], dtype=torch.float64)
    for n in range(L - 1):
        a = red(th[n] + a, 1, log)
    return red(a, 0, log)


def semi(th, L, log):
    K = th.shape[1]
    at = [torch.zeros(th.shape[-1], dtype=torch.float64)]
    for n in range(1, L):
        x = [th[n - k, k] + at[n - k] for k in range(1, min(K - 1, n) + 1)]
        at.append(red(torch.cat(x, 1), 1, log))
    return red(at[L - 1], 0, log)


def dep(th, L, log, multiroot):
    """Eisner's algorithm by width; rows of the lists are start positions."""
    if th.dim() == 3:
        th = red(th, 2, log)
    n = L + 1 if multiroot else L
    if multiroot:
        s = torch.full((n, n), NEG, dtype=torch.float64)
        s[1:, 1:] = th[:L, :L]
        s[0, 1:] = torch.diagonal(th)[:L]
    else:
        s = th[:L, :L]
    CR = [torch.zeros(n, dtype=torch.float64)]  # by width, over the start
    CL = [torch.zeros(n, dtype=torch.float64)]
    IR, IL = [None], [None]
    for w in range(1, n):
        m = n - w
        inner = red(torch.stack([CR[k][:m] + CL[w - 1 - k][k + 1:k + 1 + m] for k in range(w)]), 0, log)
        IR.append(inner + torch.diagonal(s, w))
        IL.append(inner + torch.diagonal(s, -w))
        CR.append(red(torch.stack([IR[k][:m] + CR[w - k][k:k + m] for k in range(1, w + 1)]), 0, log))
        CL.append(red(torch.stack([CL[k][:m] + IL[w - k][k:k + m] for k in range(w)]), 0, log))
    if multiroot:
        return CR[n - 1][0]
    return red(torch.stack([th[r, r] + CL[r][0] + CR[L - 1 - r][r] for r in range(L)]), 0, log)


def tree(th, L, log):
    s = red(th, 2, log)
    B = [torch.diagonal(s)[:L]]
    for w in range(1, L):
        m = L - w
        x = red(torch.stack([B[k][:m] + B[w - 1 - k][k + 1:k + 1 + m] for k in range(w)]), 0, log)
        B.append(x + torch.diagonal(s[:L, :L], w))
    return B[L - 1][0]


def cfg(terms, rules, roots, L, log):
    NT, S = rules.shape[0], rules.shape[1]
    T = S - NT
    low = torch.full((L, NT), NEG, dtype=torch.float64)
    B = [torch.cat([low, terms[:L]], 1)]
    for w in range(1, L):
        m = L - w
        pair = red(torch.stack([B[k][:m, :, None] + B[w - 1 - k][k + 1:k + 1 + m, None, :] for k in range(w)]), 0, log)
        x = red((pair[:, None] + rules).reshape(m, NT, -1), 2, log)
        B.append(torch.cat([x, torch.full((m, T), NEG, dtype=torch.float64)], 1))
    return red(B[L - 1][0, :NT] + roots, 0, log)


def total(f, th, L, log):
    if f.name == "chain":
        return chain(th[0], L, log)
    if f.name == "semi":
        return semi(th[0], L, log)
    if f.name == "dep":
        return dep(th[0], L, log, f.multiroot)
    if f.name == "tree":
        return tree(th[0], L, log)
    return cfg(*th, L, log)


class BigCase(Case):
    big = True

    def _items(self, b):
        return [t[b] for t in self.theta] if self.fam.name == "cfg" else [self.theta[b]]

    def ref(self, what, b, *a):
        key = (what, b) + a
        if key not in self._ref:
            if what in ("logz", "best"):
                with torch.no_grad():
                    self._ref[key] = float(total(self.fam, [torch.tensor(x) for x in self._items(b)], self.L(b), what == "logz"))
            elif what == "marg":
                th = [torch.tensor(x, requires_grad=True) for x in self._items(b)]
                v = total(self.fam, th, self.L(b), True)
                gs = torch.autograd.grad(v, th, allow_unused=True) if v.requires_grad else [None] * len(th)
                self._ref[key] = float(v.detach()), np.concatenate([np.zeros(t.numel()) if g is None else g.numpy().ravel() for t, g in zip(th, gs)])
            elif what == "count":
                with torch.no_grad():
                    lz = float(total(self.fam, [torch.zeros(x.shape, dtype=torch.float64) for x in self._items(b)], self.L(b), True))
                self._ref[key] = 2 ** int(round(lz / np.log(2.0), 6) + 0.999)  # rounded up
            elif what == "entropy":
                lz, m = self.ref("marg", b)
                self._ref[key] = lz - float(np.dot(m, np.concatenate([x.ravel() for x in self._items(b)])))
            else:
                raise KeyError(what)
        return self._ref[key]

    def split(self, flat):
        if self.fam.name != "cfg":
            return super().split(flat)
        out, o = [], 0
        for t in self.theta:
            n = t[0].size
            out.append(flat[:, o:o + n].reshape(t.shape))
            o += n
        return tuple(out)

    def dead(self, b):
        return pad_mask(self.fam, self.L(b))


def big_fam(rng, fam):
    R = rng.randint
    if fam == "chain":
        return rng.choice([
            Fam("chain", N=rng.choice([R(521, 3000), 1023, 1024, 1025, 1026, 2047, 2048, 2049]), C=R(1, 3)),
            Fam("chain", N=R(2, 9), C=rng.choice([R(71, 200), 100, 127, 128, 129, 256])),
            Fam("chain", N=R(30, 200), C=R(16, 40)),
        ])
    if fam == "semi":
        return rng.choice([
            Fam("semi", N=rng.choice([R(141, 600), 256, 257, 258, 513]), K=R(2, 4), C=R(1, 2)),
            Fam("semi", N=R(20, 70), K=R(20, 50), C=R(1, 2)),
            Fam("semi", N=R(2, 8), K=R(2, 5), C=R(16, 48)),
            Fam("semi", N=R(30, 60), K=R(5, 9), C=R(3, 7)),
        ])
    if fam.startswith("dep"):
        lab, mr = fam.endswith("l"), fam[3] == "m"
        if lab:
            return Fam("dep", N=R(2, 12), L=R(40, 150), multiroot=mr) if rng.random() < 0.5 else Fam("dep", N=R(25, 45), L=R(1, 6), multiroot=mr)
        return Fam("dep", N=rng.choice([R(37, 90), 63, 64, 65]), L=0, multiroot=mr)
    if fam == "tree":
        return Fam("tree", N=rng.choice([R(41, 90), 63, 64, 65]), NT=R(1, 4)) if rng.random() < 0.6 else Fam("tree", N=R(2, 12), NT=R(60, 300))
    return Fam("cfg", N=R(12, 24), NT=R(1, 4), T=R(1, 4)) if rng.random() < 0.5 else Fam("cfg", N=R(2, 6), NT=R(9, 24), T=R(9, 24))


def work(f):
    """Rough number of operations of the library per item."""
    if f.name == "chain":
        return f.N * f.C ** 3
    if f.name == "semi":
        return f.N * (f.K * f.C) ** 3
    if f.name == "cfg":
        return f.N ** 3 * (f.NT + f.T) ** 2 * f.NT // 4
    return f.N ** 3 * 8


def gen_big(rng, fam, cap=2e7, batch=None):
    nrng = np.random.default_rng(rng.getrandbits(63))
    if batch is None and rng.random() < 0.15:  # a very large batch of ordinary items
        f = Fam(**{
            "chain": dict(name="chain", N=6, C=2), "semi": dict(name="semi", N=5, K=3, C=2), "tree": dict(name="tree", N=4, NT=2), "cfg": dict(name="cfg", N=3, NT=2, T=2),
        }.get(fam) or dict(name="dep", N=4, L=2 if fam.endswith("l") else 0, multiroot=fam[3] == "m"))
        batch = rng.choice([257, 300, 513, rng.randint(201, 600)])
    else:
        batch = batch or rng.choice([1, 1, 2, 3])
        f = big_fam(rng, fam)
        while work(f) * batch > cap:
            f = big_fam(rng, fam)
    mode = rng.choice(["normal", "normal", "tiny", "wide", "ties", "zeros", "peaked", "shift", "positive"])
    lengths = gen_lengths(rng, f, batch, rng.choice(["none", "mixed", "near", "full"]))
    dtype = torch.float64 if rng.random() < 0.5 else torch.float32
    pad = rng.choice(PADS) if lengths is not None else None
    x = gen_theta(rng, nrng, f, batch, mode, None, None)
    if pad and f.name != "cfg":
        for b, L in enumerate(lengths):
            x[b] = np.where(pad_mask(f, L), fill_pad(rng, nrng, x[b].shape, pad), x[b])
    lay = rng.choice(["contig", "contig", "contig", "transposed", "batchlast"])
    c = BigCase(f, x, lengths, dtype, lay, rng.random() < 0.5, {"v:" + mode, "big:" + fam} | ({"pad:" + pad} if pad else set()))
    if batch > 200:
        c.tags.add("big:batch")
    return c
