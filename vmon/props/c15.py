"""C15 checkpointing changes neither values nor gradients."""
import numpy as np
import torch
import torch_struct as ts

from ..algebra import Algebra, semiring
from ..core import to_np
from ..gen import gen_case, pick
from ..ops import Session

OPERANDS = ("apart", "same", "transposed", "computed", "only a", "only b")
BASES = ("log", "max", "std")
N = {"quick": 14000, "thorough": 60000}
RULE = "one product (value, both gradients) or one dynamic program under a wrapped semiring; distinct by operands, wrapper and sizes"
REQUIRED = ["wrap:check", "wrap:shard", "path:sharded", "path:whole", "path:below minimum", "base:log", "base:max", "base:std", "op:matmul", "op:dot", "broadcast:a", "broadcast:b", "broadcast:none", "upstream:strided", "dp:chain", "dp:semi", "rows:1", "wide"] + ["operands:" + x for x in OPERANDS]
ASSUMPTIONS = ["operands have the same rank"]


def wrap(rng, base, numel):
    S = {"log": ts.LogSemiring, "max": ts.MaxSemiring, "std": ts.StdSemiring}[base]
    mn = rng.choice([0, 0, 0, 1, 8, 64, 10 ** 6])
    if rng.random() < 0.4:
        return S, semiring("CheckpointSemiring")(S, mn) if rng.random() < 0.7 else semiring("CheckpointSemiring")(S), "check", mn, None
    mx = rng.choice([1, 2, 5, 10, 20, 50, 100, 300, 1000, 3000, 10 ** 6])
    return S, semiring("CheckpointShardSemiring")(S, mx, mn), "shard", mn, mx


def product(ctx, i):
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(62))
    base = BASES[i % 3]
    lead = tuple(rng.randint(1, 4) for _ in range(rng.randint(0, 4)))
    n, m, c = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4)
    op = rng.choice(["matmul", "matmul", "matmul", "dot"])
    if rng.random() < 0.15:
        ctx.cover("wide")
        wide = rng.choice([9, 17, 33, 65, 130, 260, 520, 1030])
        lead = rng.choice([(), (rng.randint(1, 3),), (wide,), (2, wide), (wide, 2)]) if wide < 200 else rng.choice([(wide,), (2, wide), (wide, 2), (1, wide, 1)])
        n, m, c = rng.sample((1 if wide in lead else wide, rng.randint(1, 3), rng.randint(1, 3)), 3)

    how = rng.choice(OPERANDS) if rng.random() < 0.4 else "apart"
    ctx.cover("operands:" + how)
    if how in ("same", "transposed", "computed"):
        n = c = m

    def squash(s):
        return tuple(1 if rng.random() < (0.3 if v < 200 else 0.1) else v for v in s)

    la, lb = squash(lead), squash(lead)
    if how in ("same", "transposed", "computed"):
        lb = la
    out_lead = tuple(max(x, y) for x, y in zip(la, lb))
    ctx.cover("broadcast:a" if la != out_lead else "broadcast:none", "broadcast:b" if lb != out_lead else "broadcast:none")
    sa, sb = (la + (n, m), lb + (m, c)) if op == "matmul" else (la + (m,), lb + (m,))
    dtype = rng.choice([torch.float32, torch.float64])
    S, W, name, mn, mx = wrap(rng, base, 0)
    ctx.desc = "%s(%s, max=%s, min=%s) %s %s x %s %s operands %s" % (name, base, mx, mn, op, sa, sb, dtype, how)
    ctx.cover("wrap:" + name, "base:" + base, "op:" + op)
    mmn, mmc = (n, c) if op == "matmul" else (1, 1)
    if mmn == 1:
        ctx.cover("rows:1")
    if mn:
        ctx.cover("path:below minimum")
    elif name == "shard":
        step = mx // (m * m) + 2
        total = int(np.prod(out_lead, dtype=int)) * mmn * mmc
        ctx.cover("path:whole" if step > total else "path:sharded")
    xa, xb = nrng.standard_normal(sa), nrng.standard_normal(sb)
    if how in ("same", "computed"):
        xb = xa
    elif how == "transposed":
        xb = xa.swapaxes(-1, -2) if op == "matmul" else xa
    ctx.seen(xa.tobytes(), xb.tobytes(), ctx.desc)
    leafy = rng.random() < 0.7

    def run(sem, who):
        a0 = torch.tensor(xa, dtype=dtype, requires_grad=how != "only b")
        b0 = torch.tensor(xb, dtype=dtype, requires_grad=how != "only a")
        a, b = (a0, b0) if leafy else (a0 * 1.5, b0 + 0.25)
        if how in ("same", "transposed", "computed"):  # one operand comes from the other
            b0, b = a0, a
        if how == "transposed" and op == "matmul":
            b = a.transpose(-1, -2)
        elif how == "computed":
            b = a * 0.5 + 0.25
        out = ctx.call("%s %s.%s" % (name, base, op) if who else "base %s" % op, getattr(sem, op), a, b)
        return a0, b0, out

    wa, wb, wout = run(W, True)
    ra, rb, rout = run(S, False)
    tol = 1e-4 if dtype == torch.float32 else 1e-10
    key = "%s %s.%s" % (name, base, op)
    if not ctx.close(key + " value", wout, to_np(rout), tol):
        return
    # the value itself, independently of the library
    A = Algebra(base)
    fa, fb = (xa, xb) if leafy else (xa * 1.5, xb + 0.25)
    if how in ("same", "transposed", "computed"):
        fb = fa * 0.5 + 0.25 if how == "computed" else fa.swapaxes(-1, -2) if how == "transposed" and op == "matmul" else fa
    ea, eb = fa[None], fb[None]
    want = A.matmul(ea, eb)[0] if op == "matmul" else A.sum(A.mul(ea, eb), -1)[0]
    ctx.close(key + " reference value", wout, want, 10 * tol)
    up = torch.tensor(nrng.standard_normal(tuple(wout.shape)), dtype=dtype)
    weigh = rng.choice(["weights", "weights", "sum", "strided"])
    if weigh == "strided" and wout.dim() >= 2:
        ctx.cover("upstream:strided")
        perm = list(range(wout.dim()))
        rng.shuffle(perm)
        f = lambda o: (o.permute(perm) * up.permute(perm).contiguous()).sum()  # noqa: E731
    elif weigh == "sum":
        f = lambda o: o.sum()  # noqa: E731
    else:
        f = lambda o: (o * up).sum()  # noqa: E731
    if how != "apart":
        key += " of related operands" if how[:4] != "only" else " with one gradient"
    both = [(w, r, n_) for w, r, n_ in ((wa, ra, "a"), (wb, rb, "b")) if w.requires_grad]
    gw = ctx.call(key + " backward", torch.autograd.grad, f(wout), [w for w, _, _ in both])
    gr = torch.autograd.grad(f(rout), [r for _, r, _ in both])
    for w, r, (_, _, n_) in zip(gw, gr, both):
        ctx.close("%s grad %s" % (key, n_), w, to_np(r), 10 * tol)


def dp(ctx, i):
    rng = ctx.rng
    fam = ("chain", "semi")[i % 2]
    c = gen_case(rng, fam, rng.choice(["tiny", "small", "medium"]), budget=4000, mode=rng.choice(["normal", "wide", "zeros", "half", "peaked"]))
    base = rng.choice(["log", "max"])
    S, W, name, mn, mx = wrap(rng, base, 0)
    ctx.desc = "%s(%s, max=%s, min=%s) %r" % (name, base, mx, mn, c)
    ctx.cover("dp:" + fam, "wrap:" + name, "base:" + base)
    if mn:
        ctx.cover("path:below minimum")
    ctx.seen(ctx.desc, *c.payload())
    st = (ts.LinearChain if fam == "chain" else ts.SemiMarkov)(W)
    s = Session(ctx, "%s dp %s" % (name, fam), c, k=1)
    pot = c.tensors()
    if rng.random() < 0.5:
        v = ctx.call("%s dp %s.sum" % (name, fam), st.sum, pot, lengths=c.len_tensor())
        s.judge("partition" if base == "log" else "max", v)
    m = ctx.call("%s dp %s.marginals" % (name, fam), st.marginals, pot, lengths=c.len_tensor())
    ties = base == "max" and any(ctx_ties(c, b) for b in range(c.batch))
    if base == "log":
        s.judge("marginals", m)
    elif not ties:
        s.judge("argmax", m)


def ctx_ties(c, b):
    r = c.ref("kbest", b, 2)
    return len(r) > 1 and r[0] - r[1] < 1e-3


def case(ctx, i):
    if i % 3 == 2:
        dp(ctx, i // 3)
    else:
        product(ctx, i // 3 * 2 + i % 3)
