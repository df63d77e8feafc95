"""setup_cmd: validates the reference model against definitional enumeration."""
import itertools
import math
import random
import sys
from collections import Counter

from .models import Fam, cfg_enum, cfg_flat


def check(fam, length, structs, rng):
    g = fam.graph(length)
    a = Counter(g.enumerate())
    b = Counter(structs)
    assert a == b, (fam, length, len(a), len(b))
    n = sum(b.values())
    assert g.count() == n
    th = [rng.gauss(0, 2) for _ in range(fam.n_parts)]
    if fam.name == "cfg":
        for i in range(sum(fam.cfg_sizes[:3]), fam.n_parts):
            th[i] = 0.0
    sc = [sum(th[p] for p in s) for s in structs]
    m = max(sc)
    lz = m + math.log(math.fsum(math.exp(x - m) for x in sc))
    close = lambda x, y: abs(x - y) < 1e-9 * (1 + abs(y))  # noqa: E731
    lz2, mu = g.marginals(th)
    assert close(lz2, lz)
    assert close(g.best(th), m)
    for k in (1, 2, 5, 12):
        kb = g.kbest(th, k)
        want = sorted(sc, reverse=True)[:k]
        assert len(kb) == len(want) and all(map(close, kb, want)), (fam, length, k)
    ex = [0.0] * fam.n_parts
    for s, x in zip(structs, sc):
        p = math.exp(x - lz)
        for q in s:
            ex[q] += p
    assert all(abs(x - y) < 1e-9 for x, y in zip(ex, mu))
    H = -sum(math.exp(x - lz) * (x - lz) for x in sc)
    assert close(g.entropy(th), H)
    th2 = [t + rng.gauss(0, 1) for t in th]
    if fam.name == "cfg":
        for i in range(sum(fam.cfg_sizes[:3]), fam.n_parts):
            th2[i] = 0.0
    sc2 = [sum(th2[p] for p in s) for s in structs]
    m2 = max(sc2)
    lzq = m2 + math.log(math.fsum(math.exp(x - m2) for x in sc2))
    CE = -sum(math.exp(x - lz) * (y - lzq) for x, y in zip(sc, sc2))
    assert close(g.cross_entropy(th, th2), CE)
    v = [rng.gauss(0, 1) for _ in range(fam.n_parts)]
    cov = g.covariance_vec(th, v)
    ev = sum(x * y for x, y in zip(ex, v))
    want = [0.0] * fam.n_parts
    for s, x in zip(structs, sc):
        p = math.exp(x - lz)
        sv = sum(v[q] for q in s)
        for q in s:
            want[q] += p * (sv - ev)
    assert all(abs(x - y) < 1e-8 for x, y in zip(cov, want))
    allowed = [rng.random() < 0.8 for _ in range(fam.n_parts)]
    assert g.count(allowed) == sum(all(allowed[p] for p in s) for s in structs)
    for _ in range(3):
        assert g.random(rng, th) in a
    return n


def main():
    rng = random.Random(7)
    total = graphs = 0
    cfgs = []
    for C, N in itertools.product((1, 2, 3), (2, 3, 4, 5)):
        cfgs.append(Fam("chain", N=N, C=C))
    for C, K, N in itertools.product((1, 2), (2, 3, 4), (2, 3, 4, 5)):
        cfgs.append(Fam("semi", N=N, K=K, C=C))
    for mr, L, N in itertools.product((True, False), (0, 1, 2), (1, 2, 3, 4)):
        cfgs.append(Fam("dep", N=N, L=L, multiroot=mr))
    for mr in (True, False):
        cfgs.append(Fam("dep", N=5, L=0, multiroot=mr))
    for NT, N in itertools.product((1, 2), (1, 2, 3, 4)):
        cfgs.append(Fam("tree", N=N, NT=NT))
    for f in cfgs:
        for L in range(1, f.N + 1):
            st = [tuple(sorted(f.flat(i) for i in s)) for s in f.all_structures(L)]
            for s in f.all_structures(L):
                assert f.legal(s, L) is None, (f, L, s)
            total += check(f, L, st, rng)
            graphs += 1
    for NT, T, N in ((1, 1, 4), (1, 2, 3), (2, 1, 3), (2, 2, 3)):
        f = Fam("cfg", N=N, NT=NT, T=T)
        for L in range(2, N + 1):
            st = [cfg_flat(f, *d) for d in cfg_enum(f, L)]
            total += check(f, L, st, rng)
            graphs += 1
    # the legality checkers reject broken structures
    rejected = 0
    for f in cfgs:
        L = f.N
        for s in itertools.islice(f.all_structures(L), 6):
            for drop in s:
                bad = [x for x in s if x != drop]
                assert f.legal(bad, L) is not None
                rejected += 1
    print("selftest: %d graphs, %d structures, %d broken structures rejected" % (graphs, total, rejected))
    return 0


if __name__ == "__main__":
    sys.exit(main())
