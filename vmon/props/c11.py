"""C11 compact representations, events, charts and graphs."""
import numpy as np
import torch
import torch_struct as ts

from ..core import to_np
from ..gen import Case, check_structure, gen_lengths, make_dist, pick, sizes
from ..models import Fam

KINDS = ("chain", "semi", "dep", "tree", "cfgparts", "networkx", "cfgchart", "argmax", "splits", "wide")
N = {"quick": 16000, "thorough": 60000}
RULE = "one batch of random legal structures converted both ways; distinct by structures and lengths"
REQUIRED = ["kind:" + k for k in KINDS] + ["lengths:mixed", "lengths:none", "lengths:one", "batch:4+"]


def chain_like(ctx, fam):
    """to_event / from_event against an independent encoding."""
    rng = ctx.rng
    name = {"dep": rng.choice(["depm", "deps"])}.get(fam, fam)
    f = sizes(rng, name, rng.choice(["tiny", "small", "medium", "large"]))
    B = pick(rng, (2, 1), (4, rng.randint(2, 5)), (2, rng.randint(6, 20)))
    lens = gen_lengths(rng, f, B)
    L = [f.N if lens is None else lens[b] for b in range(B)]
    ev = np.zeros((B, f.n_parts), dtype=np.int64)
    for b in range(B):
        ev[b, list(f.graph(L[b]).random(rng))] = 1
    ev = ev.reshape((B,) + f.shape)
    seq = np.zeros((B, f.N), dtype=np.int64)
    for b in range(B):
        on = [tuple(x) for x in np.argwhere(ev[b])]
        if fam == "chain":
            s = [rng.randrange(f.C) for _ in range(f.N)]  # free on padding (and on length 1)
            for n, c, o in on:
                s[n], s[n + 1] = o, c
        elif fam == "semi":
            s = [-1] * f.N
            s[0] = rng.randrange(f.C)
            for n, k, c, o in on:
                s[n], s[n + k] = o, c
        else:
            s = [rng.randint(0, f.N) for _ in range(f.N)]
            for h, c in on:
                s[c] = 0 if h == c else h + 1
        seq[b] = s
    extra = {"chain": lambda: f.C, "semi": lambda: (f.C, f.K), "dep": lambda: None}[fam]()
    ctx.desc = "%r b=%d len=%s" % (f, B, lens)
    cover(ctx, B, lens, L)
    ctx.seen(f.key, seq.tobytes(), lens)
    d = ctx.call(fam + " dist", make_dist, f, torch.zeros((B,) + f.shape), None if lens is None else torch.tensor(lens))
    st = torch.tensor(seq)
    keep = st.clone()
    kw = {} if lens is None and rng.random() < 0.5 else {"lengths": None if lens is None else torch.tensor(lens)}
    out = ctx.call(fam + ".to_event", d.to_event, st, extra, **kw)
    ctx.close(fam + ".to_event", out, ev, 0.0 + 1e-12)
    ctx.expect(fam + ".to_event input", bool((st == keep).all()), "sequence changed")
    e = torch.tensor(ev)
    if rng.random() < 0.5:
        e = e.float()
    back, ex = ctx.call(fam + ".from_event", d.from_event, e)
    bk = to_np(back)
    if ctx.expect(fam + ".from_event shape", bk.shape == seq.shape, str(bk.shape)):
        for b in range(B):
            n = L[b]
            if n == 1 and fam in ("chain", "semi"):
                continue  # a length-1 chain has no parts to carry the label
            ctx.expect(fam + ".from_event", (bk[b, :n] == seq[b, :n]).all(), lambda: "item %d length %d: %s, want %s" % (b, n, bk[b], seq[b]))
    if fam != "dep":
        ctx.expect(fam + ".from_event extra", tuple(np.atleast_1d(ex)) == tuple(np.atleast_1d(extra)), "%s, want %s" % (ex, extra))
    # round trip through the library alone
    back = back.clone().long()
    for b in range(B):
        if L[b] == 1 and fam == "semi":
            back[b, 0] = int(seq[b, 0])
    again = ctx.call(fam + ".to_event", d.to_event, back, extra, **kw)
    ctx.close(fam + " event round trip", again, ev, 1e-12)


def wide(ctx):
    """Many states, positions or words: no graph, the structures are drawn directly."""
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(62))
    fam = rng.choice(["chain", "semi", "depm"])
    B = rng.randint(1, 3)
    big = rng.choice([100, 129, 200, 257, 258, 300, 520])
    high = rng.random() < 0.5  # labels from the upper end
    if fam == "chain":
        f = Fam("chain", **(dict(N=rng.randint(2, 5), C=big) if rng.random() < 0.5 else dict(N=big, C=rng.randint(1, 4))))
    elif fam == "semi":
        f = Fam("semi", **rng.choice([dict(N=4, K=3, C=big), dict(N=big, K=5, C=2), dict(N=big + 5, K=big, C=2)]))
    else:
        f = Fam("dep", N=big, L=0, multiroot=True)
    lens = None if rng.random() < 0.3 else [rng.randint(max(2, f.N // 2), f.N) for _ in range(B)]
    if lens is not None:
        lens[rng.randrange(B)] = f.N
    L = [f.N if lens is None else lens[b] for b in range(B)]
    ev = np.zeros((B,) + f.shape, dtype=np.int64)
    seq = np.zeros((B, f.N), dtype=np.int64)
    for b in range(B):
        if fam == "chain":
            seq[b] = nrng.integers(max(0, f.C - 3) if high else 0, f.C, f.N)
            for n in range(L[b] - 1):
                ev[b, n, seq[b, n + 1], seq[b, n]] = 1
        elif fam == "semi":
            seq[b] = -1
            n, y = 0, rng.randrange(max(0, f.C - 3) if high else 0, f.C)
            seq[b, 0] = y
            while n < L[b] - 1:
                k = rng.randint(1, min(f.K - 1, L[b] - 1 - n))
                if rng.random() < 0.3:
                    k = min(f.K - 1, L[b] - 1 - n)
                z = rng.randrange(max(0, f.C - 3) if high else 0, f.C)
                ev[b, n, k, z, y] = 1
                n, y = n + k, z
                seq[b, n] = z
        else:
            seq[b] = nrng.integers(0, f.N + 1, f.N)
            for c in range(L[b]):
                h = int(nrng.integers(0, L[b]))
                ev[b, h, c] = 1
                seq[b, c] = 0 if h == c else h + 1
    extra = {"chain": lambda: f.C, "semi": lambda: (f.C, f.K), "depm": lambda: None}[fam]()
    ctx.desc = "wide %r b=%d len=%s" % (f, B, lens)
    cover(ctx, B, lens, L)
    ctx.seen(f.key, seq.tobytes(), lens)
    st = {"chain": ts.LinearChain, "semi": ts.SemiMarkov, "depm": ts.DepTree}[fam]
    out = ctx.call(fam + ".to_parts", st.to_parts, torch.tensor(seq), extra, lengths=None if lens is None else torch.tensor(lens))
    ctx.close(fam + ".to_parts", out, ev, 1e-12)
    back, _ = ctx.call(fam + ".from_parts", st.from_parts, torch.tensor(ev))
    bk = to_np(back)
    if ctx.expect(fam + ".from_parts shape", bk.shape == seq.shape, str(bk.shape)):
        for b in range(B):
            ctx.expect(fam + ".from_parts", (bk[b, :L[b]] == seq[b, :L[b]]).all(), lambda: "item %d: %s, want %s" % (b, bk[b], seq[b]))


def cover(ctx, B, lens, L):
    ctx.cover("lengths:none" if lens is None else "lengths:given")
    if lens is not None and len(set(lens)) > 1:
        ctx.cover("lengths:mixed")
    if min(L) == 1:
        ctx.cover("lengths:one")
    if B >= 4:
        ctx.cover("batch:4+")


def from_argmax(ctx):
    """argmax and samples of a real distribution survive the round trip."""
    rng = ctx.rng
    fam = rng.choice(["chain", "semi", "depm", "deps", "tree"])
    f = sizes(rng, fam, rng.choice(["tiny", "small"]))
    B = rng.randint(1, 4)
    lens = gen_lengths(rng, f, B)
    L = [f.N if lens is None else lens[b] for b in range(B)]
    nrng = np.random.default_rng(rng.getrandbits(62))
    c = Case(f, nrng.standard_normal((B,) + f.shape), lens, torch.float32)
    ctx.desc = repr(c)
    ctx.cover("kind:argmax")
    cover(ctx, B, lens, L)
    ctx.seen(*c.payload())
    d = c.dist()
    z = ctx.call(fam + ".argmax", lambda: d.argmax) if rng.random() < 0.5 else ctx.call(fam + ".sample", d.sample, (1,))[0]
    seq, extra = ctx.call(fam + ".from_event", d.from_event, z)
    extra = {"chain": lambda: f.C, "semi": lambda: (f.C, f.K)}.get(f.name, lambda: extra)()
    if f.name != "tree":
        seq = seq.clone()
        want = to_np(z)
        for b in range(B):
            if f.name == "semi" and L[b] == 1:
                seq[b, 0] = max(0, int(seq[b, 0]))
    else:
        want = to_np(z)
    ev = ctx.call(fam + ".to_event", d.to_event, seq, extra, lengths=None if lens is None else torch.tensor(lens))
    ctx.close(fam + " round trip of %s" % "argmax", ev, want, 1e-12)


def random_tree(rng, L):
    """Random binary bracketing: list of (i, j, k) internal spans with split."""
    out = []
    shape = rng.choice(["random", "left", "right", "random"])
    stack = [(0, L - 1)]
    while stack:
        i, j = stack.pop()
        if i == j:
            continue
        k = {"random": lambda: rng.randint(i, j - 1), "left": lambda: j - 1, "right": lambda: i}[shape]()
        out.append((i, j, k))
        stack += [(i, k), (k + 1, j)]
    return out


def cfg_batch(rng):
    N_ = pick(rng, (12, rng.randint(2, 10)), (1, rng.randint(11, 24)))
    NT, T = rng.randint(1, 5), rng.randint(1, 5)
    if N_ < 8 and rng.random() < 0.03:
        NT, T = rng.choice([(2, 40), (24, 3), (3, 130)])
    B = pick(rng, (2, 1), (4, rng.randint(2, 5)), (1, rng.randint(6, 12)))
    lens = [rng.randint(2, N_) for _ in range(B)]
    lens[rng.randrange(B)] = N_
    return N_, NT, T, B, lens


def cfg_trees(rng, N_, NT, T, B, lens):
    S = NT + T
    spans = np.zeros((B, N_, N_, S))
    terms, rules, roots = np.zeros((B, N_, T)), np.zeros((B, NT, S, S)), np.zeros((B, NT))
    charts = np.zeros((B, N_, N_, NT, S, S))
    trees = []
    for b, L in enumerate(lens):
        lab = {(n, n): NT + rng.randrange(T) for n in range(L)}
        tr = random_tree(rng, L)
        for i, j, _ in tr:
            lab[i, j] = rng.randrange(NT)
        for (i, j), a in lab.items():
            spans[b, i, j, a] = 1
            if i == j:
                terms[b, i, a - NT] = 1
        for i, j, k in tr:
            rules[b, lab[i, j], lab[i, k], lab[k + 1, j]] += 1
            charts[b, j - i - 1, i, lab[i, j], lab[i, k], lab[k + 1, j]] = 1
        roots[b, lab[0, L - 1]] = 1
        trees.append((lab, {(i, j): k for i, j, k in tr}))
    return spans, terms, rules, roots, charts, trees


def cfg_parts(ctx):
    rng = ctx.rng
    N_, NT, T, B, lens = cfg_batch(rng)
    spans, terms, rules, roots, _, _ = cfg_trees(rng, N_, NT, T, B, lens)
    ctx.desc = "cfg to_parts N=%d NT=%d T=%d len=%s" % (N_, NT, T, lens)
    ctx.seen(spans.tobytes(), NT, lens)
    ctx.cover("kind:cfgparts")
    dt = rng.choice([torch.float32, torch.long, torch.float64])
    got = ctx.call("cfg.to_parts", ts.CKY.to_parts, torch.tensor(spans).to(dt), (NT, T), lengths=torch.tensor(lens))
    for n, g, w in zip(("terms", "rules", "roots"), got, (terms, rules, roots)):
        ctx.close("cfg.to_parts " + n, g, w, 1e-12)


def cfg_chart(ctx):
    rng = ctx.rng
    N_, NT, T, B, lens = cfg_batch(rng)
    spans, terms, rules, roots, charts, _ = cfg_trees(rng, N_, NT, T, B, lens)
    ctx.desc = "cfg from_parts N=%d NT=%d T=%d len=%s" % (N_, NT, T, lens)
    ctx.seen(spans.tobytes(), NT, lens, "chart")
    ctx.cover("kind:cfgchart")
    got, extra = ctx.call("cfg.from_parts", ts.CKY.from_parts, (torch.tensor(terms), torch.tensor(charts), torch.tensor(roots)))
    ctx.close("cfg.from_parts spans", got, spans, 1e-12)
    ctx.expect("cfg.from_parts extra", tuple(extra) == (NT, T), str(extra))
    t, r, o = ctx.call("cfg.to_parts", ts.CKY.to_parts, got, extra, lengths=torch.tensor(lens))
    ctx.close("cfg chart round trip", r, rules, 1e-12)


def networkx(ctx):
    rng = ctx.rng
    N_, NT, T, B, lens = cfg_batch(rng)
    spans, _, _, _, _, trees = cfg_trees(rng, N_, NT, T, B, lens)
    ctx.desc = "cfg to_networkx N=%d NT=%d T=%d len=%s" % (N_, NT, T, lens)
    ctx.seen(spans.tobytes(), NT, lens, "nx")
    ctx.cover("kind:networkx")
    (n, a, b_, label), idx, topo = ctx.call("cfg.to_networkx", ts.CKY.to_networkx, torch.tensor(spans).long() if rng.random() < 0.5 else torch.tensor(spans))
    a, b_ = [int(x) for x in a], [int(x) for x in b_]
    label = [int(x) for x in label]
    want_n = sum(2 * L - 1 for L in lens)
    key = "cfg.to_networkx"
    if not ctx.expect(key + " nodes", n == want_n == len(label), "%s nodes, %d labels, want %d" % (n, len(label), want_n)):
        return
    kids = {}
    for x, y in zip(a, b_):
        kids.setdefault(y, []).append(x)
    ok = len(a) == len(b_) and all(len(v) == 2 for v in kids.values()) and sorted(a) == sorted(set(a))
    if not ctx.expect(key + " links", ok and all(0 <= x < n for x in a + b_), "children %s parents %s" % (a[:20], b_[:20])):
        return
    layer = {}
    for h, xs in enumerate(topo):
        for x in xs:
            layer[int(x)] = h
    ctx.expect(key + " layers complete", sorted(layer) == list(range(n)) and sum(map(len, topo)) == n, "%d nodes in layers" % sum(map(len, topo)))

    def shape_of(x, depth=0):
        if depth > 60:
            return ("deep", 0)
        if x not in kids:
            h, s = 0, (label[x],)
        else:
            (h1, s1), (h2, s2) = (shape_of(y, depth + 1) for y in kids[x])
            h, s = max(h1, h2) + 1, (label[x], s1, s2)
        ctx.expect(key + " layer", layer.get(x) == h, lambda: "node %d is in layer %s, its height is %s" % (x, layer.get(x), h))
        return h, s

    def want_shape(lab, sp, i, j):
        if i == j:
            return (lab[i, i],)
        k = sp[i, j]
        return (lab[i, j], want_shape(lab, sp, i, k), want_shape(lab, sp, k + 1, j))

    for b, L in enumerate(lens):
        for i in range(L):  # the index names the longest constituent that starts at a word
            top = idx.get((b, i))
            if not ctx.expect(key + " index", top is not None, "no node for the start of word %d of item %d" % (i, b)):
                continue
            h, s = shape_of(int(top[0]))
            w = want_shape(*trees[b], i, max(j for a_, j in trees[b][0] if a_ == i))
            ctx.expect(key + " tree", s == w, lambda: "item %d, word %d: %s, want %s" % (b, i, s, w))
            ctx.expect(key + " index height", int(top[1]) == h, lambda: "item %d, word %d: height %s, want %s" % (b, i, top[1], h))


def splits(ctx):
    """Where each constituent of a chart splits, and into which symbols."""
    rng = ctx.rng
    N_, NT, T, B, lens = cfg_batch(rng)
    spans, _, _, _, _, trees = cfg_trees(rng, N_, NT, T, B, lens)
    ctx.desc = "cfg splits N=%d NT=%d T=%d len=%s" % (N_, NT, T, lens)
    ctx.seen(spans.tobytes(), NT, lens, "splits")
    if not hasattr(ts.CKY, "_intermediary"):
        return
    got = ctx.call("cfg splits", ts.CKY._intermediary, torch.tensor(spans).to(rng.choice([torch.float32, torch.long])))
    want = {(b, i, j): (k, lab[i, k], lab[k + 1, j]) for b, (lab, sp) in enumerate(trees) for (i, j), k in sp.items()}
    ctx.expect("cfg splits", {k: tuple(map(int, v)) for k, v in got.items()} == want, lambda: "%s, want %s" % (got, want))


def tree_same(ctx):
    rng = ctx.rng
    f = sizes(rng, "tree", rng.choice(["tiny", "small", "medium"]))
    B = rng.randint(1, 6)
    lens = gen_lengths(rng, f, B)
    L = [f.N if lens is None else lens[b] for b in range(B)]
    ev = np.zeros((B, f.n_parts))
    for b in range(B):
        ev[b, list(f.graph(L[b]).random(rng))] = 1
    ev = ev.reshape((B,) + f.shape)
    ctx.desc = "%r len=%s" % (f, lens)
    ctx.seen(f.key, ev.tobytes(), lens)
    cover(ctx, B, lens, L)
    d = make_dist(f, torch.zeros((B,) + f.shape), None if lens is None else torch.tensor(lens))
    e = ctx.call("tree.to_event", d.to_event, torch.tensor(ev), None, lengths=None if lens is None else torch.tensor(lens))
    ctx.close("tree.to_event", e, ev, 1e-12)
    back = ctx.call("tree.from_event", d.from_event, torch.tensor(ev))
    ctx.close("tree.from_event", back[0], ev, 1e-12)


def case(ctx, i):
    kind = KINDS[i % len(KINDS)]
    ctx.cover("kind:" + kind)
    if kind in ("chain", "semi", "dep"):
        chain_like(ctx, kind)
    elif kind == "tree":
        tree_same(ctx)
    elif kind == "cfgparts":
        cfg_parts(ctx)
    elif kind == "cfgchart":
        cfg_chart(ctx)
    elif kind == "networkx":
        networkx(ctx)
    elif kind == "splits":
        splits(ctx)
    elif kind == "wide":
        if i // len(KINDS) % 3 == 0:
            wide(ctx)
        else:
            chain_like(ctx, ctx.rng.choice(["chain", "semi", "dep"]))
    else:
        from_argmax(ctx)
