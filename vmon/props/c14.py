"""C14 semiring operations compute their documented algebra."""
import math

import numpy as np
import torch
import torch_struct as ts

from ..core import to_np
from ..gen import fill_pad, gen_case, pick
from .. import algebra as al

KINDS = ("log", "max", "std", "kmax", "entropy", "ce", "kl", "sampled", "multisampled", "gumbelmax", "gumbelcrf")
OPS = ("sum", "plus", "mul", "times", "prod", "dot", "matmul", "laws", "convert")
DP = ("log", "max", "std", "kmax", "entropy", "ce", "kl")
N = {"quick": 22000, "thorough": 90000}
RULE = "one operation on generated operands, or one dynamic program whose semiring operations are all monitored; distinct by operands"
REQUIRED = ["kind:" + k for k in KINDS] + ["op:" + o for o in OPS] + ["dp:%s" % k for k in DP] + ["broadcast", "dtype:float32", "dtype:float64", "dim:positive", "dim:negative", "values:zero entries", "rank:5+", "wide"]


def base_of(rng, kind, k):
    return {
        "log": lambda: ts.LogSemiring, "max": lambda: ts.MaxSemiring, "std": lambda: ts.StdSemiring,
        "kmax": lambda: ts.KMaxSemiring(k), "entropy": lambda: ts.EntropySemiring,
        "ce": lambda: ts.CrossEntropySemiring, "kl": lambda: ts.KLDivergenceSemiring,
        "sampled": lambda: ts.SampledSemiring, "multisampled": lambda: ts.MultiSampledSemiring,
        "gumbelmax": lambda: al.semiring("GumbelMaxSemiring")(rng.choice([0.5, 1.0, 2.0])),
        "gumbelcrf": lambda: al.semiring("GumbelCRFSemiring")(rng.choice([0.5, 1.0, 2.0])),
    }[kind]()


def element(rng, nrng, A, shape, mode):
    x = nrng.standard_normal((A.size,) + shape)
    if mode == "wide":
        x = x * 30
    elif mode == "ties":
        x = np.round(x)
    elif mode == "shift":
        x = x + rng.choice([-80.0, 80.0, 300.0])
    if A.kind == "std":
        x = np.clip(x, -3, 3)
    if mode == "zeros" and A.kind != "std":
        x = np.where(nrng.random(shape)[None] < 0.3, A.zero.reshape((-1,) + (1,) * len(shape)), x)
    elif mode == "zeros":
        x = x * (nrng.random(shape)[None] < 0.7)
    if A.kind == "kmax":
        x = -np.sort(-x, axis=0)
    return x


def direct(ctx, i):
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(62))
    kind = KINDS[i % len(KINDS)]
    k = pick(rng, (8, rng.randint(1, 5)), (1, rng.randint(6, 24)))
    S = base_of(rng, kind, k)
    A = al.Algebra(kind, k)
    op = rng.choice(OPS)
    if op == "prod" and kind == "kmax":
        op = "times"  # prod of k-best lists is only used on one component
    mode = rng.choice(["normal", "normal", "wide", "ties", "shift"] + ["zeros"] * (op != "laws"))
    dtype = rng.choice([torch.float32, torch.float64])
    ctx.cover("kind:" + kind, "op:" + op, "dtype:" + str(dtype)[6:])
    if mode == "zeros":
        ctx.cover("values:zero entries")
    u = 4e-5 if dtype == torch.float32 else 1e-11
    rank = rng.randint(1, 4)
    shape = tuple(rng.randint(1, 4) for _ in range(rank))
    wide = rng.choice([0] * 8 + [1]) * rng.choice([9, 17, 33, 65, 130, 300])
    if wide and kind == "kmax" and k > 5:
        wide = min(wide, 33)
    if wide:
        ctx.cover("wide")
        rank = rng.randint(1, 2)
        shape = shape[:rank] if op in ("dot", "matmul") else tuple(rng.sample((wide,) + shape[:rank - 1], rank))
    elif rng.random() < 0.1:
        rank = rng.randint(5, 6)
        shape = tuple(rng.randint(1, 2) for _ in range(rank))
    if rank >= 4:
        ctx.cover("rank:5+")

    def mk(shp):
        x = element(rng, nrng, A, shp, mode)
        if dtype == torch.float32:
            x = x.astype(np.float32).astype(np.float64)
        t = torch.tensor(x, dtype=dtype)
        if t.dim() > 2 and rng.random() < 0.2 and kind != "kmax":
            t = t.transpose(-1, -2).contiguous().transpose(-1, -2)
        if rng.random() < 0.3:
            t.requires_grad_(True)
        return x, t

    def judge(name, got, want):
        tol = u * A.scale(want)
        ctx.close("%s.%s" % (kind, name), got, want, tol)

    def squash(shp):
        s = tuple(1 if rng.random() < 0.3 else v for v in shp)
        if s != shp:
            ctx.cover("broadcast")
        return s

    ctx.desc = "%s%s %s shape=%s %s %s" % (kind, k if kind == "kmax" else "", op, shape, mode, dtype)
    if op == "sum":
        x, t = mk(shape)
        if kind == "kmax":
            dim = -1
        else:
            dim = rng.choice([d for d in range(-rank, rank + 1) if d != 0])
        ctx.cover("dim:positive" if dim > 0 else "dim:negative")
        args = () if dim == -1 and rng.random() < 0.5 else (dim,)
        got = ctx.call(kind + ".sum", S.sum, t, *args)
        judge("sum", got, A.sum(x, dim))
    elif op == "plus":
        (x, t), (y, v) = mk(shape), mk(shape)
        got = ctx.call(kind + ".plus", S.plus, t, v)
        judge("plus", got, A.sum(np.stack([x, y], -1), -1))
    elif op in ("mul", "times"):
        xs = [mk(squash(shape)) for _ in range(2 if op == "mul" else rng.randint(1, 4))]
        got = ctx.call("%s.%s" % (kind, op), getattr(S, op), *[t for _, t in xs])
        want = xs[0][0]
        for x, _ in xs[1:]:
            want = A.mul(want, x)
        judge(op, got, want)
    elif op == "prod":
        x, t = mk(shape)
        if wide and kind == "std":  # long products stay within the range of the dtype
            x = (1 + 0.2 * np.tanh(x)).astype(np.float32).astype(np.float64)
            t = torch.tensor(x, dtype=dtype)
        dim = -1 if rng.random() < 0.5 else rng.choice([d for d in range(-rank, rank + 1) if d != 0])
        got = ctx.call(kind + ".prod", S.prod, t) if dim == -1 and rng.random() < 0.5 else ctx.call(kind + ".prod", S.prod, t, dim=dim)
        judge("prod", got, np.prod(x, dim) if kind == "std" else x.sum(dim))
    elif op == "dot":
        n = wide or rng.randint(1, 6)
        x, t = mk(squash(shape) + (n,))
        y, v = mk(squash(shape) + (n,))
        got = ctx.call(kind + ".dot", S.dot, t, v)
        judge("dot", got, A.sum(A.mul(x, y), -1))
    elif op == "matmul":
        n, m, c = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 5)
        lead = shape[: rng.randint(0, 3)]
        if wide:
            n, m, c = rng.sample((wide, rng.randint(1, 3), rng.randint(1, 3)), 3)
            lead = shape[:1]
        x, t = mk(squash(lead) + (n, m))
        y, v = mk(squash(lead) + (m, c))
        got = ctx.call(kind + ".matmul", S.matmul, t, v)
        judge("matmul", got, A.matmul(x, y))
    elif op == "convert":
        if rng.random() < 0.3:
            shape = tuple(rng.randint(1, 3) for _ in range(rng.randint(3, 6)))
            if kind == "kmax":
                k = rng.randint(1, 20)
                S, A = base_of(rng, kind, k), al.Algebra(kind, k)
            ctx.desc = "%s%s %s shape=%s %s %s" % (kind, k if kind == "kmax" else "", op, shape, mode, dtype)
        if kind in ("ce", "kl"):
            p, q = torch.tensor(nrng.standard_normal(shape), dtype=dtype), torch.tensor(nrng.standard_normal(shape), dtype=dtype)
            e = ctx.call(kind + ".convert", S.convert, [p, q])
            ctx.close(kind + ".convert", e, np.stack([to_np(p), to_np(q), np.zeros(shape)]), 0.0 + 1e-30)
        else:
            p = torch.tensor(nrng.standard_normal(shape), dtype=dtype)
            e = ctx.call(kind + ".convert", S.convert, p)
            ctx.expect(kind + ".convert size", tuple(e.shape) == (S.size(),) + shape, str(e.shape))
            if kind == "entropy":
                ctx.close(kind + ".convert", e, np.stack([to_np(p), np.zeros(shape)]), 1e-30)
            else:
                back = ctx.call(kind + ".unconvert", S.unconvert, e)
                ctx.close(kind + ".convert round trip", back, to_np(p), 1e-30)
        ctx.expect(kind + ".size", S.size() == A.size, "%s" % S.size())
        ctx.seen(kind, "convert", to_np(p).tobytes())
        return
    else:
        laws(ctx, kind, S, A, mk, shape, u, judge)
    ctx.seen(kind, op, ctx.tseed)


def laws(ctx, kind, S, A, mk, shape, u, judge):
    (x, a), (y, b), (z, c) = mk(shape), mk(shape), mk(shape)
    call = lambda f, *args: ctx.call(kind + " law", f, *args)  # noqa: E731
    vw = lambda e: e.view((-1,) + (1,) * len(shape)).type_as(a).expand_as(a)  # noqa: E731
    zero, one = vw(S.zero), vw(S.one)
    judge("a*1 = a", call(S.mul, a, one), x)
    judge("1*a = a", call(S.mul, one, a), x)
    judge("a+0 = a", call(S.plus, a, zero), x)
    judge("0+a = a", call(S.plus, zero, a), x)
    judge("b+a*0 = b", call(S.plus, b, call(S.mul, a, zero)), y)
    ab = A.sum(np.stack([x, y], -1), -1)
    judge("a+b = b+a", call(S.plus, b, a), ab)
    judge("a*b = b*a", call(S.mul, b, a), A.mul(x, y))
    s3 = A.sum(np.stack([x, y, z], -1), -1)
    judge("(a+b)+c = a+(b+c)", call(S.plus, call(S.plus, a, b), c), s3)
    judge("a+(b+c)", call(S.plus, a, call(S.plus, b, c)), s3)
    p3 = A.mul(A.mul(x, y), z)
    judge("(a*b)*c = a*(b*c)", call(S.mul, a, call(S.mul, b, c)), p3)
    dis = A.mul(x, A.sum(np.stack([y, z], -1), -1))
    judge("a*(b+c) = a*b+a*c", call(S.plus, call(S.mul, a, b), call(S.mul, a, c)), dis)


def traffic(ctx, i):
    """Every semiring operation issued by a real dynamic program."""
    rng = ctx.rng
    kind = DP[i % len(DP)]
    fams = ["chain", "semi", "depm", "depml", "tree"] + (["cfg"] if kind not in ("ce", "kl") else [])
    fam = rng.choice(fams)
    c = gen_case(rng, fam, rng.choice(["tiny", "small"]), budget=3000, dtype=torch.float64, mode=rng.choice(["normal", "ties", "wide", "zeros"]), batch=rng.randint(1, 3))
    k = rng.randint(1, 3)
    S = base_of(rng, kind, k)
    A = al.Algebra(kind, k)
    ctx.desc = "dp %s%s %r" % (kind, k if kind == "kmax" else "", c)
    ctx.cover("dp:" + kind, "kind:" + kind, "dtype:float64")
    ctx.seen(kind, k, *c.payload())
    left = [40 if kind != "kmax" else 15]

    def judge(name, got, want):
        if np.isfinite(want).all():
            ctx.count("dp operations judged")
            ctx.close("%s.%s in %s" % (kind, name, fam), got, want, 1e-11 * A.scale(want) + 1e-9)

    def small(*ts_):
        if left[0] <= 0 or any(t.numel() > 4000 for t in ts_):
            return False
        left[0] -= 1
        return True

    class Mon(S):
        @staticmethod
        def sum(xs, dim=-1):
            out = S.sum(xs, dim)
            ctx.count("dp operations")
            if small(xs):
                judge("sum", out, A.sum(to_np(xs), dim))
            return out

        @staticmethod
        def mul(a, b):
            out = S.mul(a, b)
            ctx.count("dp operations")
            if small(a, b):
                judge("mul", out, A.mul(to_np(a), to_np(b)))
            return out

        @classmethod
        def matmul(cls, a, b):
            out = S.matmul(a, b)
            ctx.count("dp operations")
            if small(a, b, out) and out.numel() * a.shape[-1] < 20000:
                judge("matmul", out, A.matmul(to_np(a), to_np(b)))
            return out

        @classmethod
        def dot(cls, a, b):
            out = S.dot(a, b)
            ctx.count("dp operations")
            if small(a, b):
                judge("dot", out, A.sum(A.mul(to_np(a), to_np(b)), -1))
            return out

    st = struct(c, Mon)
    pot = c.tensors()
    if kind == "std":
        pot = tuple(p.clamp(-5, 2).exp() for p in pot) if fam == "cfg" else pot.clamp(-5, 2).exp()
    if kind in ("ce", "kl"):
        q = c.tensors().flip(0) * 0.5
        pot = [pot, q]
    ctx.call("%s dp %s" % (kind, fam), st.sum, pot, c.len_tensor())


def struct(c, S):
    f = c.fam
    if f.name == "chain":
        return ts.LinearChain(S)
    if f.name == "semi":
        return ts.SemiMarkov(S)
    if f.name == "dep":
        return ts.DepTree(S)  # multi-root is the default
    if f.name == "tree":
        return ts.CKY_CRF(S)
    return ts.CKY(S)


def case(ctx, i):
    if i % 4 == 3:
        traffic(ctx, i // 4)
    else:
        direct(ctx, i // 4 * 3 + i % 4)
