"""Small autoregressive models with prefix-dependent state, and their reference."""
import itertools
import math

import numpy as np
import torch

M1, M2 = 11, 7


class Model(torch.nn.Module):
    """Three state tensors of different rank and dtype, updated by every token."""

    def __init__(self, t1, t2, t3, dtype, wrong=None):
        super().__init__()
        self.t1, self.t2, self.t3 = (torch.tensor(t, dtype=dtype) for t in (t1, t2, t3))
        self.calls = 0
        self.wrong = wrong

    def forward(self, inputs, state=None):
        self.calls += 1
        s, u, v = state
        out = []
        for n in range(inputs.shape[1]):
            x = inputs[:, n]
            if x.dim() == 2:  # soft tokens
                x = x.argmax(-1)
            x = x.long()
            s = (5 * s + 3 * x + 1) % M1
            u = (2 * u + (x * x + 3).view(-1, 1, 1)) % M2
            v = 0.5 * v + x.to(v.dtype).unsqueeze(-1) * torch.tensor([0.3, -0.2], dtype=v.dtype)
            out.append(self.t1[s] + self.t2[u.view(-1)] + v[:, :1] * self.t3[0] + v[:, 1:] * self.t3[1])
        logits = torch.stack(out, dim=1)
        st = (s, u, v)
        if self.wrong == "classes":
            logits = logits[..., :-1]
        elif self.wrong == "steps":
            logits = torch.cat([logits, logits[:, :1]], 1)
        elif self.wrong == "batch":
            logits = torch.cat([logits, logits[:1]], 0)
        elif self.wrong == "state":
            st = (s, torch.cat([u, u[:1]], 0), v)
        return logits, st


class SoftModel(torch.nn.Module):
    """A recurrent model that takes tokens, one-hot or weighted; it records what it was given."""

    def __init__(self, nrng, C, H, dtype):
        super().__init__()
        r = lambda *sh: torch.nn.Parameter(torch.tensor(nrng.standard_normal(sh) * 0.8, dtype=dtype))  # noqa: E731
        self.e, self.w, self.o = r(C, H), r(H, H), r(H, C)
        self.seen = []

    def forward(self, inputs, state=None):
        (h,) = state
        out = []
        for n in range(inputs.shape[1]):
            x = inputs[:, n]
            if x.dim() == 1:
                x = torch.nn.functional.one_hot(x.long(), self.e.shape[0]).to(h.dtype)
            self.seen.append(x.detach().clone())
            h = torch.tanh(h @ self.w + x @ self.e)
            out.append(h @ self.o)
        return torch.stack(out, 1), (h,)


class Spec:
    """Tables and initial states shared by the model and the reference."""

    def __init__(self, rng, nrng, C, N, B, dtype, normalize, scale=1.0, same=False):
        self.C, self.N, self.B, self.dtype, self.normalize = C, N, B, dtype, normalize
        r = (lambda x: x.astype(np.float32).astype(np.float64)) if dtype == torch.float32 else (lambda x: x)
        self.t1 = r(scale * nrng.standard_normal((M1, C)))
        self.t2 = r(scale * nrng.standard_normal((M2, C)))
        self.t3 = r(scale * min(1.0, 20 / C) * nrng.standard_normal((2, C)))
        self.s = nrng.integers(0, M1, B)
        self.u = nrng.integers(0, M2, B)
        self.v = r(nrng.standard_normal((B, 2)))
        if same:
            self.s[:], self.u[:], self.v[:] = self.s[0], self.u[0], self.v[0]
        self.start = rng.randrange(C)
        self.layout = rng.random() < 0.3

    def state(self):
        v = torch.tensor(self.v, dtype=self.dtype)
        if self.layout:
            v = v.t().contiguous().t()
        return (torch.tensor(self.s), torch.tensor(self.u).view(-1, 1, 1), v)

    def model(self, wrong=None):
        return Model(self.t1, self.t2, self.t3, self.dtype, wrong)

    def dist(self, wrong=None, **kw):
        import torch_struct as ts

        args = dict(normalize=self.normalize, start_class=self.start)
        if self.normalize and self.start == 0:
            args = {}  # the defaults
        args.update(kw)
        return ts.Autoregressive(self.model(wrong), self.state(), self.C, self.N, **args)

    # -- reference
    def first(self, b):
        return self.step((int(self.s[b]), int(self.u[b]), self.v[b]), self.start)

    def step(self, st, x):
        s, u, v = st
        s = (5 * s + 3 * x + 1) % M1
        u = (2 * u + x * x + 3) % M2
        v = 0.5 * v + x * np.array([0.3, -0.2])
        lg = self.t1[s] + self.t2[u] + v[0] * self.t3[0] + v[1] * self.t3[1]
        return (s, u, v), lg

    def norm(self, lg, force=False):
        if self.normalize or force:
            m = lg.max()
            return lg - m - math.log(np.exp(lg - m).sum())
        return lg

    def score(self, b, seq, force=False):
        st, lg = self.first(b)
        tot = 0.0
        for i, x in enumerate(seq):
            tot += self.norm(lg, force)[x]
            if i + 1 < len(seq):
                st, lg = self.step(st, x)
        return tot

    def backward(self, b, seq, weights, out):
        """Add to `out` the gradient of sum_t weights[t] . rows[t] along `seq`.

        rows[t] are the (normalised, if requested) stepwise scores; out holds one array per table and one for the initial states.
        """
        st, lg = self.first(b)
        decay = 0.5
        for t, x in enumerate(seq):
            w = np.asarray(weights[t], dtype=float)
            g = w - np.exp(self.norm(lg, True)) * w.sum() if self.normalize else w
            s, u, v = st
            out[0][s] += g
            out[1][u] += g
            out[2][0] += v[0] * g
            out[2][1] += v[1] * g
            out[3][b] += decay * (self.t3 @ g)
            decay *= 0.5
            st, lg = self.step(st, x)

    def zero_grads(self):
        return [np.zeros_like(self.t1), np.zeros_like(self.t2), np.zeros_like(self.t3), np.zeros_like(self.v)]

    def greedy(self, b):
        """(sequence, stepwise scores, smallest margin)."""
        st, lg = self.first(b)
        seq, rows, gap = [], [], 1e9
        for i in range(self.N):
            r = self.norm(lg)
            rows.append(r)
            o = np.sort(r)[::-1]
            if self.C > 1:
                gap = min(gap, o[0] - o[1])
            seq.append(int(r.argmax()))
            st, lg = self.step(st, seq[-1])
        return tuple(seq), np.array(rows), gap

    def beam(self, b, K):
        """Width-K beam search: list of (score, sequence), smallest margin."""
        st, lg = self.first(b)
        hyps = [(0.0, (), st, lg)]
        gap = 1e9
        for i in range(self.N):
            cand = []
            for sc, seq, st, lg in hyps:
                r = self.norm(lg)
                for x in range(self.C):
                    cand.append((sc + r[x], seq + (x,), st, x))
            cand.sort(key=lambda t: -t[0])
            last = i + 1 == self.N
            for a in range(min(K, len(cand) - 1)):
                if last or a == K - 1:
                    gap = min(gap, cand[a][0] - cand[a + 1][0])
            hyps = [(sc, seq) + self.step(st, x) for sc, seq, st, x in cand[:K]]
        return [(sc, seq) for sc, seq, _, _ in hyps], gap

    def all(self):
        return list(itertools.product(range(self.C), repeat=self.N))


def onehot(seq, C):
    e = np.zeros((len(seq), C))
    e[np.arange(len(seq)), list(seq)] = 1
    return e
