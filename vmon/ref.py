"""Reference model: weighted acyclic hypergraphs in float64.

A graph describes the legal structures of one batch item.  Nodes are numbered
in topological order; node n has hyperedges (tails, parts): it can be built
from all its tails while using all the listed parts.  The last node is the
goal.  Every derivation of the goal is exactly one structure, and the score of
a structure is the sum of the potentials of the parts it uses.  Nothing in
here is taken from the library under test.
"""
import heapq
import math

NEG = float("-inf")


class Graph:
    __slots__ = ("edges", "n_parts", "_count")

    def __init__(self, n_parts):
        self.edges = []
        self.n_parts = n_parts
        self._count = None

    def node(self, edges):
        self.edges.append([(tuple(t), tuple(p)) for t, p in edges])
        return len(self.edges) - 1

    # -- log-sum ---------------------------------------------------------
    def inside(self, th):
        alpha = [NEG] * len(self.edges)
        exp, log = math.exp, math.log
        for n, es in enumerate(self.edges):
            sc = []
            for tails, parts in es:
                s = 0.0
                for t in tails:
                    s += alpha[t]
                for p in parts:
                    s += th[p]
                sc.append(s)
            m = max(sc) if sc else NEG
            if m == NEG:
                continue
            if len(sc) == 1:
                alpha[n] = m
            else:
                alpha[n] = m + log(math.fsum(exp(s - m) for s in sc))
        return alpha

    def logz(self, th):
        return self.inside(th)[-1]

    def marginals(self, th):
        """(logZ, expected number of uses of each part)."""
        alpha = self.inside(th)
        M = len(self.edges)
        w = [0.0] * M  # posterior probability of each node
        w[-1] = 1.0
        out = [0.0] * self.n_parts
        exp = math.exp
        for n in range(M - 1, -1, -1):
            wn = w[n]
            an = alpha[n]
            if wn == 0.0 or an == NEG:
                continue
            for tails, parts in self.edges[n]:
                s = 0.0
                for t in tails:
                    s += alpha[t]
                for p in parts:
                    s += th[p]
                if s == NEG:
                    continue
                q = wn * exp(s - an)
                if q == 0.0:
                    continue
                for t in tails:
                    w[t] += q
                for p in parts:
                    out[p] += q
        return alpha[-1], out

    # -- max -------------------------------------------------------------
    def best(self, th):
        b = [NEG] * len(self.edges)
        for n, es in enumerate(self.edges):
            m = NEG
            for tails, parts in es:
                s = 0.0
                for t in tails:
                    s += b[t]
                for p in parts:
                    s += th[p]
                if s > m:
                    m = s
            b[n] = m
        return b[-1]

    def kbest(self, th, k):
        """The k largest structure scores (with multiplicity), descending."""
        best = []
        for es in self.edges:
            cand = []
            for tails, parts in es:
                s = 0.0
                for p in parts:
                    s += th[p]
                cur = [s]
                for t in tails:
                    bt = best[t]
                    if len(cur) == 1:
                        c = cur[0]
                        cur = [c + x for x in bt]
                    else:
                        # only pairs (i, j) with i*j < k can be among the k best
                        new = []
                        for i, a in enumerate(cur):
                            for j, x in enumerate(bt):
                                if (i + 1) * (j + 1) > k:
                                    break
                                new.append(a + x)
                        cur = heapq.nlargest(k, new)
                cand.extend(cur)
            cand = [c for c in cand if c != NEG]
            best.append(heapq.nlargest(k, cand))
        return best[-1]

    # -- counting and enumeration ---------------------------------------
    def count(self, allowed=None):
        """Exact number of structures (using only the allowed parts)."""
        if allowed is None and self._count is not None:
            return self._count
        c = []
        for es in self.edges:
            tot = 0
            for tails, parts in es:
                if allowed is not None and not all(allowed[p] for p in parts):
                    continue
                x = 1
                for t in tails:
                    x *= c[t]
                tot += x
            c.append(tot)
        if allowed is None:
            self._count = c[-1]
        return c[-1]

    def enumerate(self, node=None):
        """All derivations as sorted tuples of parts (with multiplicity)."""
        memo = {}

        def rec(n):
            if n in memo:
                return memo[n]
            res = []
            for tails, parts in self.edges[n]:
                cur = [tuple(parts)]
                for t in tails:
                    sub = rec(t)
                    cur = [a + b for a in cur for b in sub]
                res.extend(cur)
            memo[n] = res
            return res

        # topological order: no deep recursion
        for n in range(len(self.edges)):
            rec(n)
        return [tuple(sorted(d)) for d in memo[len(self.edges) - 1 if node is None else node]]

    def random(self, rng, th=None):
        """One structure: exact sample (th given) or uniform over structures."""
        if th is None:
            th = [0.0] * self.n_parts
        alpha = self.inside(th)
        out = []
        stack = [len(self.edges) - 1]
        while stack:
            n = stack.pop()
            es = self.edges[n]
            u = rng.random()
            acc = 0.0
            pick = None
            for tails, parts in es:
                s = sum(alpha[t] for t in tails) + sum(th[p] for p in parts)
                if s == NEG:
                    continue
                pick = (tails, parts)
                acc += math.exp(s - alpha[n])
                if acc > u:
                    break
            tails, parts = pick
            out.extend(parts)
            stack.extend(tails)
        return tuple(sorted(out))

    # -- derived quantities ---------------------------------------------
    def entropy(self, th):
        lz, m = self.marginals(th)
        return lz - sum(mi * ti for mi, ti in zip(m, th) if mi != 0.0)

    def cross_entropy(self, th, th2):
        _, m = self.marginals(th)
        return self.logz(th2) - sum(mi * ti for mi, ti in zip(m, th2) if mi != 0.0)

    def covariance_vec(self, th, v, lz_m=None):
        """Cov(parts, v . parts) under th, by a forward-mode inside-outside.

        Directional derivative of the marginals in direction v.
        """
        alpha = self.inside(th)
        M = len(self.edges)
        # d alpha
        da = [0.0] * M
        probs = []
        dsc = []
        for n, es in enumerate(self.edges):
            pr, ds = [], []
            an = alpha[n]
            d = 0.0
            for tails, parts in es:
                s = 0.0
                x = 0.0
                for t in tails:
                    s += alpha[t]
                    x += da[t]
                for p in parts:
                    s += th[p]
                    x += v[p]
                q = 0.0 if (s == NEG or an == NEG) else math.exp(s - an)
                pr.append(q)
                ds.append(x)
                d += q * x
            da[n] = d
            probs.append(pr)
            dsc.append(ds)
        w = [0.0] * M
        dw = [0.0] * M
        w[-1] = 1.0
        out = [0.0] * self.n_parts
        for n in range(M - 1, -1, -1):
            if w[n] == 0.0 and dw[n] == 0.0:
                continue
            for (tails, parts), q, x in zip(self.edges[n], probs[n], dsc[n]):
                if q == 0.0:
                    continue
                dq = q * (x - da[n])
                f = w[n] * q
                df = dw[n] * q + w[n] * dq
                for t in tails:
                    w[t] += f
                    dw[t] += df
                for p in parts:
                    out[p] += df
        return out
