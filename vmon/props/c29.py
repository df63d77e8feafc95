"""C29 the example networks and the self-critical example."""
import importlib.util
import itertools
import math
import os

import numpy as np
import torch
import torch_struct as ts

from ..core import REPO, to_np
from ..gen import Case, gen_case
from ..models import Fam

KINDS = ("neural cfg", "neural cfg total", "span lstm", "self critical")
N = {"quick": 8000, "thorough": 50000}
RULE = "one network with random parameters on one batch (or one self-critical call); distinct by parameters, words and sizes"
REQUIRED = ["kind:" + k for k in KINDS] + ["dtype:float32", "dtype:float64", "batch:1", "batch:4+", "NT:1", "T:1", "gradient", "padding word", "wide", "family:chain", "family:depm", "family:deps", "family:tree"]
ASSUMPTIONS = ["examples/networks/TreeLSTM.py, examples/data and examples/tree.py need dgl and torchtext, which are not installed"]
_mods = {}


def module(name):
    if name not in _mods:
        path = os.path.join(REPO, "examples", *name.split("/")) + ".py"
        spec = importlib.util.spec_from_file_location("example_" + name.replace("/", "_"), path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _mods[name] = m
    return _mods[name]


def lsm(x):
    m = x.max(axis=-1, keepdims=True)
    return x - m - np.log(np.exp(x - m).sum(axis=-1, keepdims=True))


def lse(xs):
    m = max(xs)
    return m if m == -math.inf else m + math.log(math.fsum(math.exp(x - m) for x in xs))


def lin(p, pre, x):
    return x @ p[pre + ".weight"].T + p[pre + ".bias"]


def res(p, pre, y):
    relu = lambda a: np.maximum(a, 0)  # noqa: E731
    y = lin(p, pre + ".w", y)
    y = y + relu(lin(p, pre + ".v1", relu(lin(p, pre + ".u1", y))))
    return y + relu(lin(p, pre + ".v2", relu(lin(p, pre + ".u2", y))))


def params(net):
    return {k: to_np(v) for k, v in net.state_dict().items()}


def scramble(net, rng, nrng, dtype):
    """Parameters of our own choice (biases and scales included)."""
    net = net.to(dtype)
    sc = rng.choice([0.3, 0.7, 1.0])
    with torch.no_grad():
        for p in net.parameters():
            p.copy_(torch.tensor(sc * nrng.standard_normal(p.shape), dtype=dtype))
    return net


def tables(p, NT, T, V):
    """log p(word|preterminal), log p(pair|nonterminal), log p(root)."""
    term = lsm(res(p, "mlp1", p["term_emb"]) @ p["word_emb"].T)
    rule = lsm(np.einsum("sh,tuh->stu", p["nonterm_emb"], p["nonterm_emb_c"]).reshape(NT, -1)).reshape(NT, NT + T, NT + T)
    root = lsm((res(p, "mlp2", p["root_emb"]) @ p["s_emb"].T)[:, 0])
    return term, rule, root


def net_cfg(ctx, total):
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(62))
    dtype = rng.choice([torch.float32, torch.float64])
    NT, T, H = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 6)
    V = rng.randint(1, 3) if total else rng.randint(1, 9)
    wide = not total and rng.random() < 0.08
    if wide:
        ctx.cover("wide")
        NT, T, H, V = rng.randint(2, 9), rng.randint(2, 9), rng.randint(7, 40), rng.randint(10, 400)
    torch.manual_seed(rng.getrandbits(40))
    own = rng.random() < 0.5
    net = ctx.call("NeuralCFG", module("networks/NeuralCFG").NeuralCFG, V, T, NT, H)
    fresh = [q for q in net.parameters()]
    ctx.expect("NeuralCFG parameters finite", all(bool(torch.isfinite(q).all()) for q in fresh), "uninitialised parameters")
    net = scramble(net, rng, nrng, dtype) if own else net.to(dtype)
    p = params(net)
    ctx.cover("dtype:" + str(dtype)[6:])
    if NT == 1:
        ctx.cover("NT:1")
    if T == 1:
        ctx.cover("T:1")
    term, rule, root = tables(p, NT, T, V)
    tol = 1e-9 if dtype == torch.float64 else 2e-4
    mag = 1 + max(np.abs(x).max() for x in (term, rule, root))
    if total:
        n = rng.randint(2, 4 if V < 3 else 3)
        words = np.array(list(itertools.product(range(V), repeat=n)))
        ctx.desc = "all %d sentences of length %d, NT=%d T=%d H=%d %s" % (len(words), n, NT, T, H, dtype)
    else:
        n = rng.randint(2, 7)
        if wide:
            n = rng.randint(4, 10)
        B = rng.choice([1, 2, 3, 6])
        ctx.cover("batch:1" if B == 1 else "batch:4+" if B > 3 else "batch:2-3")
        words = nrng.integers(0, V, (B, n))
        ctx.desc = "NeuralCFG B=%d n=%d NT=%d T=%d V=%d H=%d %s" % (B, n, NT, T, V, H, dtype)
    ctx.seen(p["nonterm_emb"].tobytes(), words.tobytes())
    a, b_, r = ctx.call("NeuralCFG.forward", net, torch.tensor(words))
    B = len(words)
    ctx.close("NeuralCFG terms", a, term.T[words], tol * mag)
    ctx.close("NeuralCFG rules", b_, np.broadcast_to(rule, (B,) + rule.shape), tol * mag)
    ctx.close("NeuralCFG roots", r, np.broadcast_to(root, (B,) + root.shape), tol * mag)
    d = ctx.call("cfg dist", ts.SentCFG, (a, b_, r))
    z = ctx.call("cfg.partition", lambda: d.partition)
    fam = Fam("cfg", N=n, NT=NT, T=T)
    c = Case(fam, (term.T[words], np.broadcast_to(rule, (B,) + rule.shape).copy(), np.broadcast_to(root, (B,) + root.shape).copy()), None, dtype)
    ctx.close("NeuralCFG log-likelihood", z, c.logz(), 4 * c.tol + 20 * tol * mag * n)
    ctx.expect("NeuralCFG probability", bool((z <= 50 * tol * mag * n).all()), "a sentence has probability above one")
    if total:
        # probability that the grammar yields n words, from the rules alone
        q = {1: [-math.inf] * NT + [0.0] * T}
        for w in range(2, n + 1):
            q[w] = [lse([rule[s, x, y] + q[k][x] + q[w - k][y] for k in range(1, w) for x in range(NT + T) for y in range(NT + T)]) for s in range(NT)] + [-math.inf] * T
        want = math.exp(lse([root[s] + q[n][s] for s in range(NT)]))
        ctx.close("NeuralCFG total probability", float(torch.exp(z.double()).sum()), want, (1e-8 if dtype == torch.float64 else 1e-3) * (1 + n) * (want + 0.01))
        return
    if rng.random() < 0.5:
        ctx.cover("gradient")
        net.zero_grad()
        ctx.call("NeuralCFG backward", z.sum().backward)
        # root of the chain rule: gradients through a softmax add up to zero
        g = [q.grad for q in net.parameters()]
        ctx.expect("NeuralCFG gradients finite", all(x is not None and bool(torch.isfinite(x).all()) for x in g), "missing or infinite gradient")
        m = c.marg()
        dr = m[2].sum(0) - B * np.exp(root)
        want = dr @ res(p, "mlp2", p["root_emb"])
        ctx.close("NeuralCFG gradient of s_emb", net.s_emb.grad[0], want, (1e-7 if dtype == torch.float64 else 2e-3) * (1 + np.abs(want).max()) * mag)


def sigmoid(x):
    return 1 / (1 + np.exp(-x))


def lstm(p, suffix, x, H):
    """One direction of an LSTM layer on one sentence."""
    h, cell = np.zeros(H), np.zeros(H)
    out = []
    for t in (range(len(x)) if not suffix else reversed(range(len(x)))):
        g = p["lstm.weight_ih_l0" + suffix] @ x[t] + p["lstm.bias_ih_l0" + suffix] + p["lstm.weight_hh_l0" + suffix] @ h + p["lstm.bias_hh_l0" + suffix]
        i, f, gg, o = g[:H], g[H:2 * H], g[2 * H:3 * H], g[3 * H:]
        cell = sigmoid(f) * cell + sigmoid(i) * np.tanh(gg)
        h = sigmoid(o) * np.tanh(cell)
        out.append(h)
    return out if not suffix else out[::-1]


def net_span(ctx):
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(62))
    dtype = rng.choice([torch.float32, torch.float64])
    NT, V, H, B, n = rng.randint(1, 5), rng.randint(2, 8), rng.randint(1, 5), rng.choice([1, 2, 3, 5]), rng.randint(1, 8)
    if rng.random() < 0.06:
        ctx.cover("wide")
        NT, V, H, B, n = rng.randint(1, 12), rng.randint(9, 300), rng.randint(6, 20), rng.choice([1, 2, 9]), rng.randint(9, 24)
    torch.manual_seed(rng.getrandbits(40))
    net = scramble(ctx.call("SpanLSTM", module("networks/SpanLSTM").SpanLSTM, NT, V, H), rng, nrng, dtype)
    ctx.cover("dtype:" + str(dtype)[6:], "batch:1" if B == 1 else "batch:4+" if B > 3 else "batch:2-3")
    if NT == 1:
        ctx.cover("NT:1")
    words = nrng.integers(0, V, (B, n))
    lens = [rng.randint(1, n) for _ in range(B)]
    lens[rng.randrange(B)] = n
    for b in range(B):
        words[b, lens[b]:] = 1
    if (words == 1).any():
        ctx.cover("padding word")
    ctx.desc = "SpanLSTM NT=%d V=%d H=%d B=%d n=%d %s" % (NT, V, H, B, n, dtype)
    p = params(net)
    p["emb.weight"] = p["emb.weight"].copy()
    p["emb.weight"][1] = 0  # the padding word has no embedding
    ctx.seen(p["proj.weight"].tobytes(), words.tobytes())
    out = ctx.call("SpanLSTM.forward", net, torch.tensor(words), torch.tensor(lens))
    want = np.zeros((B, n, n, NT))
    for b in range(B):
        x = p["emb.weight"][words[b]]
        f, ba = lstm(p, "", x, H), lstm(p, "_reverse", x, H)
        for i in range(n):
            for j in range(n):
                u = f[j + 1] - f[i] if j + 1 < n else np.zeros(H)
                v = ba[i - 1] - ba[j] if i > 0 else np.zeros(H)
                want[b, i, j] = lin(p, "proj", res(p, "res", np.concatenate([u, v])))
    ctx.close("SpanLSTM scores", out, want, (1e-9 if dtype == torch.float64 else 2e-4) * (1 + np.abs(want).max()))
    d = ctx.call("tree dist", ts.TreeCRF, out, torch.tensor(lens))
    c = Case(Fam("tree", N=n, NT=NT), want, lens, dtype)
    ctx.close("SpanLSTM tree partition", ctx.call("tree.partition", lambda: d.partition), c.logz(), 10 * c.tol + 1e-3 * (dtype == torch.float32) * (1 + np.abs(want).max()))


def critical(ctx):
    rng = ctx.rng
    fam = rng.choice(["chain", "depm", "deps", "tree"])
    ctx.cover("family:" + fam)
    c = gen_case(rng, fam, rng.choice(["tiny", "small"]), budget=1500, lengths_mode=rng.choice(["none", "full"]))
    B, K = c.batch, rng.choice([1, 2, 5, 11])
    ctx.cover("batch:1" if B == 1 else "batch:4+" if B > 3 else "batch:2-3")
    ctx.desc = "self critical K=%d %r" % (K, c)
    ctx.seen(K, *c.payload())
    d = ctx.call(fam + " dist", c.dist)
    seen = []
    w = None

    def reward(trees, k):
        nonlocal w
        seen.append((trees.clone(), k))
        x = trees.double()
        if w is None:
            w = torch.tensor(np.random.default_rng(7).standard_normal(x.shape[1:]))
        return (x * w).reshape(k, B, -1).sum(-1)

    s = ctx.call("SelfCritical", module("rl").SelfCritical, reward)
    if K == 5 and rng.random() < 0.5:
        r = ctx.call("SelfCritical.forward", s.forward, d)
    else:
        r = ctx.call("SelfCritical.forward", s.forward, d, K)
    structs, rewards, total, best = r
    if not ctx.expect("self critical reward call", len(seen) == 1 and seen[0][1] == K + 1, "%s calls" % len(seen)):
        return
    trees = seen[0][0]
    if not ctx.expect("self critical trees", trees.shape[0] == (K + 1) * B and tuple(structs.shape) == (K,) + (B,) + tuple(trees.shape[1:]), lambda: "%s %s" % (trees.shape, structs.shape)):
        return
    trees = trees.view((K + 1, B) + tuple(trees.shape[1:]))
    ctx.expect("self critical structs", bool((trees[:K] == structs).all()), "the structures returned are not those that were scored")
    am = ctx.call(fam + ".argmax", lambda: d.argmax).detach()
    comp = ctx.call(fam + ".from_event", d.from_event, am)[0]
    ctx.expect("self critical baseline", bool((trees[K] == comp).all()), "the baseline is not the argmax")
    sc = to_np((trees.double() * w).reshape(K + 1, B, -1).sum(-1))
    ctx.close("self critical rewards", rewards, sc[:K] - sc[K], 1e-9)
    ctx.close("self critical total", total, sc[:K].mean(0), 1e-9)
    ctx.close("self critical best", best, sc[K], 1e-9)
    for k in range(K):
        ev = structs[k] if fam == "tree" else ctx.call(fam + ".to_event", d.to_event, structs[k], c.fam.C if fam == "chain" else None)
        for b in range(B):
            why = c.fam.legal([tuple(int(v) for v in q) for q in np.argwhere(to_np(ev[b]) != 0)], c.L(b))
            ctx.expect("self critical legal", why is None, lambda: "sample %d item %d: %s" % (k, b, why))


def case(ctx, i):
    k = KINDS[i % 4]
    ctx.cover("kind:" + k)
    if k == "self critical":
        critical(ctx)
    elif k == "span lstm":
        net_span(ctx)
    else:
        net_cfg(ctx, k.endswith("total"))
