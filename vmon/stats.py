"""Goodness-of-fit tests with explicit p-values (no scipy in the sandbox venv)."""
import math


def chi2_sf(x, k):
    """Upper tail of chi-square with k degrees of freedom (regularised gamma)."""
    if x <= 0:
        return 1.0
    return _gammaincc(k / 2.0, x / 2.0)


def _gammaincc(a, x):
    if x < a + 1:
        # series for P
        term = 1.0 / a
        tot = term
        n = a
        for _ in range(10000):
            n += 1
            term *= x / n
            tot += term
            if term < tot * 1e-16:
                break
        return max(0.0, 1.0 - tot * math.exp(-x + a * math.log(x) - math.lgamma(a)))
    # continued fraction for Q
    tiny = 1e-300
    b = x + 1 - a
    c = 1 / tiny
    d = 1 / b
    h = d
    for i in range(1, 10000):
        an = -i * (i - a)
        b += 2
        d = an * d + b
        d = tiny if abs(d) < tiny else d
        c = b + an / c
        c = tiny if abs(c) < tiny else c
        d = 1 / d
        de = d * c
        h *= de
        if abs(de - 1) < 1e-15:
            break
    return math.exp(-x + a * math.log(x) - math.lgamma(a)) * h


def fit(counts, probs, n, floor=25.0):
    """p-value of a chi-square test; cells with small expectation are merged."""
    cells = sorted(range(len(probs)), key=lambda i: probs[i])
    obs, exp = [], []
    o = e = 0.0
    for i in cells:
        o += counts[i]
        e += probs[i] * n
        if e >= floor:
            obs.append(o)
            exp.append(e)
            o = e = 0.0
    if e > 0 or o > 0:
        if exp:
            exp[-1] += e
            obs[-1] += o
        else:
            return 1.0, 0
    if len(exp) < 2:
        return 1.0, 0
    x = sum((a - b) ** 2 / b for a, b in zip(obs, exp))
    return chi2_sf(x, len(exp) - 1), len(exp) - 1


def binom_tail(k, n, p):
    """Two-sided Chernoff bound on P(|Binomial(n, p) deviates at least as far as k|)."""
    if n == 0 or p <= 0 or p >= 1:
        return 1.0 if (p <= 0) == (k == 0) or (p >= 1) == (k == n) else 0.0
    q = k / n
    d = 0.0
    if q > 0:
        d += q * math.log(q / p)
    if q < 1:
        d += (1 - q) * math.log((1 - q) / (1 - p))
    return min(1.0, 2 * math.exp(-n * d))
