"""C26 malformed input is rejected instead of answered."""
import numpy as np
import torch
import torch_struct as ts

from ..ar import Spec, onehot
from ..core import Timeout
from ..gen import FAMS, gen_case, make_dist, size_at
from ..ops import Session, max_k, ops_of

CRF = {
    "length too long": FAMS,
    "no full length": ("chain", "semi"),
    "non-square": ("chain", "semi", "depm", "deps", "depml", "depsl"),
    "wrong rank": ("chain", "semi", "depm", "deps", "depml", "depsl", "tree"),
    "sample shape": FAMS[:-1],
    "validated lengths": FAMS,
    "validated values": FAMS[:-1],
}
AR = ("classes", "steps", "batch", "state")
NONPROJ = ("length too long", "non-square", "wrong rank", "validated lengths", "validated values")
PAIRS = [(k, f) for k, fs in CRF.items() for f in fs] + [(k, "nonproj") for k in NONPROJ]
N = {"quick": 16000, "thorough": 40000}
RULE = "one malformed request; distinct by kind, family, query and shapes"
REQUIRED = ["%s:%s" % p for p in PAIRS] + ["model:" + w for w in AR] + ["well-formed accepted", "validated and accepted", "validated without lengths"]


def rejected(ctx, key, fn, what):
    """fn must raise; returning anything is a violation."""
    ctx.count("requests")
    try:
        a = fn()
    except (Timeout, KeyboardInterrupt, MemoryError):
        raise
    except Exception as e:  # noqa: B902
        ctx.count("rejected:" + type(e).__name__)
        ctx.expect(key, True)
        return
    shape = [tuple(x.shape) for x in (a if isinstance(a, (tuple, list)) else (a,)) if hasattr(x, "shape")]
    ctx.fail(key, "%s: %s was answered with shapes %s" % (key, what, shape))


def ask(s, fam, d, op):
    """The query itself, unmonitored (exceptions wanted)."""
    if op in ("kmax", "topk"):
        return getattr(d, op)(s.k)
    if op == "sample":
        return d.sample((s.n,))
    if op == "log_prob":
        return d.log_prob(s.value)
    if op in ("cross_entropy", "kl"):
        return getattr(d, op)(s.q.dist())
    if op == "gumbel_crf":
        return d.gumbel_crf()
    return getattr(d, op)


CLASSES = dict(chain="LinearChainCRF", semi="SemiMarkovCRF", dep="DependencyCRF", tree="TreeCRF", cfg="SentCFG")


def build(f, pot, lengths):
    kw = {"multiroot": f.multiroot} if f.name == "dep" else {}
    return getattr(ts, CLASSES[f.name])(pot, lengths=lengths, validate_args=True, **kw)


def validated(ctx, s, c, fam, pot, op):
    """Validation accepts well-formed arguments and changes no answer."""
    ctx.cover("validated and accepted")
    given = ctx.rng.random() < 0.5
    if given:
        s.judge(op, s.ask(ctx.call(fam + " validated", build, c.fam, pot, c.len_tensor()), op), " validated")
    else:
        ctx.cover("validated without lengths")
        ctx.call(fam + " validated without lengths", build, c.fam, pot, None)


def crf(ctx, kind, fam):
    rng = ctx.rng
    c = gen_case(rng, fam, rng.choice(["tiny", "small", "medium"]), budget=4000, lengths_mode=rng.choice(["mixed", "full", "near"]))
    ctx.cover("%s:%s" % (kind, fam))
    s = Session(ctx, fam, c, k=rng.randint(1, max_k(c)), n=rng.randint(1, 3))
    op = rng.choice(ops_of(c))
    N = c.fam.N
    ctx.desc = "%s %s %r" % (kind, op, c)
    ctx.seen(kind, fam, op, c.fam.key, c.lengths)
    pot = c.tensors()
    lens = list(c.lengths)
    if rng.random() < 0.05:  # control: the well-formed request is answered
        ctx.cover("well-formed accepted")
        s.check(c.dist(), op)
    key = "%s %s" % (fam, kind)
    if kind == "length too long":
        lens[rng.randrange(len(lens))] = N + rng.choice([1, 1, 2, 5])
        if rng.random() < 0.3 and fam not in ("chain", "semi"):
            lens = [min(x, N - 1) if x <= N else x for x in lens]
        rejected(ctx, key, lambda: ask(s, fam, make_dist(c.fam, pot, torch.tensor(lens)), op), "%s with lengths %s and N=%d" % (op, lens, N))
    elif kind == "no full length":
        if N < 3:
            return
        lens = [min(x, N - rng.choice([1, 1, 2])) for x in lens]
        rejected(ctx, key, lambda: ask(s, fam, make_dist(c.fam, pot, torch.tensor(lens)), op), "%s with lengths %s and N=%d" % (op, lens, N))
    elif kind == "non-square":
        ax = rng.choice([-1, -2]) if fam in ("chain", "semi") else rng.choice([1, 2])
        if rng.random() < 0.5:
            bad = torch.cat([pot, pot.narrow(ax, 0, 1)], ax)
        elif pot.shape[ax] > 1:
            bad = pot.narrow(ax, 0, pot.shape[ax] - 1)
        else:
            return
        ln = torch.tensor(lens) if rng.random() < 0.5 else None
        s.value = None if s.value is None else torch.zeros((2,) + tuple(bad.shape), dtype=bad.dtype)
        rejected(ctx, key, lambda: ask(s, fam, make_dist(c.fam, bad, ln), op), "%s of potentials %s" % (op, tuple(bad.shape)))
    elif kind == "wrong rank":
        bad = pot[..., 0] if fam not in ("depml", "depsl") and rng.random() < 0.5 else pot.unsqueeze(-1).unsqueeze(-1)
        if fam in ("depml", "depsl"):
            bad = rng.choice([pot[0, ..., 0], pot.unsqueeze(-1)])
        ln = torch.tensor(lens) if rng.random() < 0.5 else None
        s.value = None if s.value is None else torch.zeros((2,) + tuple(bad.shape), dtype=bad.dtype)
        rejected(ctx, key, lambda: ask(s, fam, make_dist(c.fam, bad, ln), op), "%s of potentials %s" % (op, tuple(bad.shape)))
    elif kind == "validated lengths":
        validated(ctx, s, c, fam, pot, op)
        lens[rng.randrange(len(lens))] = -rng.choice([1, 1, 2, 7])
        rejected(ctx, key, lambda: build(c.fam, pot, torch.tensor(lens)), "validation with lengths %s" % lens)
    elif kind == "validated values":
        validated(ctx, s, c, fam, pot, op)
        bad = pot.detach().clone()
        if not bad.numel():
            return
        bad.view(-1)[rng.randrange(bad.numel())] = float("nan")
        ln = torch.tensor(lens) if rng.random() < 0.5 else None
        rejected(ctx, key, lambda: build(c.fam, bad, ln), "validation of potentials with a NaN")
    else:
        d = c.dist()
        shape = rng.choice([(), (2, 3), (1, 1), (3, 1, 2), torch.Size(), torch.Size([2, 2]), None])
        ctx.seen(shape)
        rejected(ctx, key, d.sample if shape is None else (lambda: d.sample(shape)), "sample(%s)" % (shape,))


def nonproj(ctx, kind):
    rng = ctx.rng
    ctx.cover("%s:nonproj" % kind)
    B, N = rng.randint(1, 4), rng.randint(1, 6)
    dtype = rng.choice([torch.float32, torch.float64])
    pot = torch.tensor(np.random.default_rng(rng.getrandbits(62)).normal(0, 1, (B, N, N)), dtype=dtype)
    lens = [rng.randint(1, N) for _ in range(B)]
    op = rng.choice(["partition", "marginals"])
    kw = {"multiroot": rng.random() < 0.5} if rng.random() < 0.8 else {}
    listed = rng.random() < 0.3
    ctx.desc = "nonproj %s %s B=%d N=%d lengths=%s %s" % (kind, op, B, N, lens, kw)
    ctx.seen(kind, "nonproj", op, B, N, lens, sorted(kw.items()), listed)

    def given(lens):
        return lens if listed else torch.tensor(lens)

    def query(pot, lens, **more):
        return getattr(ts.NonProjectiveDependencyCRF(pot, lengths=lens, **kw, **more), op)

    key = "nonproj " + kind
    ln = given(lens) if rng.random() < 0.5 else None
    plain = ctx.call("nonproj " + op, query, pot, ln)
    if kind.startswith("validated"):
        ctx.cover("validated and accepted")
        if ln is None:
            ctx.cover("validated without lengths")
        got = ctx.call("nonproj validated", query, pot, ln, validate_args=True)
        ctx.expect("nonproj validated", torch.equal(got, plain), "validation changes the answer")
    if kind == "length too long":
        lens[rng.randrange(B)] = N + rng.choice([1, 1, 2, 5])
        rejected(ctx, key, lambda: query(pot, given(lens)), "%s with lengths %s and N=%d" % (op, lens, N))
    elif kind == "non-square":
        n, m = rng.choice([(a, b) for a in range(1, 6) for b in range(1, 6) if a != b])
        lens = [min(x, n, m) for x in lens]
        rejected(ctx, key, lambda: query(torch.randn(B, n, m, dtype=dtype), ln if ln is None else given(lens)), "%s of potentials %s" % (op, (B, n, m)))
    elif kind == "wrong rank":
        bad = rng.choice([pot[0], pot.unsqueeze(-1), pot.unsqueeze(1), pot.unsqueeze(-1).expand(B, N, N, N), pot[:, 0]])
        rejected(ctx, key, lambda: query(bad, ln), "%s of potentials %s" % (op, tuple(bad.shape)))
    elif kind == "validated lengths":
        lens[rng.randrange(B)] = -rng.choice([1, 1, 2, 7])
        rejected(ctx, key, lambda: ts.NonProjectiveDependencyCRF(pot, lengths=given(lens), validate_args=True, **kw), "validation with lengths %s" % lens)
    else:
        bad = pot.clone()
        bad.view(-1)[rng.randrange(bad.numel())] = float("nan")
        rejected(ctx, key, lambda: ts.NonProjectiveDependencyCRF(bad, lengths=ln, validate_args=True, **kw), "validation of potentials with a NaN")


def autoregressive(ctx):
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(62))
    wrong = rng.choice(AR)
    ctx.cover("model:" + wrong)
    C, N, B = rng.randint(2, 5), rng.randint(1, 5), rng.randint(1, 4)
    sp = Spec(rng, nrng, C, N, B, rng.choice([torch.float32, torch.float64]), rng.random() < 0.5)
    K = rng.randint(1, min(4, C))
    n = rng.randint(1, 3)
    seqs = [[[rng.randrange(C) for _ in range(N)] for _ in range(B)] for _ in range(n)]
    hot = torch.tensor(np.array([[onehot(q, C) for q in r] for r in seqs]))
    ops = {
        "greedy_max": lambda d: d.greedy_max(),
        "beam_topk": lambda d: d.beam_topk(K),
        "sample_without_replacement": lambda d: d.sample_without_replacement((K,)),
        "log_prob": lambda d: d.log_prob(hot),
        "log_prob sparse": lambda d: d.log_prob(torch.tensor(seqs), sparse=True),
    }
    if wrong == "state":  # scoring uses no returned state
        ops = {k: v for k, v in ops.items() if not k.startswith("log_prob")}
    op = rng.choice(sorted(ops))
    ctx.desc = "model with wrong %s: %s C=%d N=%d B=%d K=%d" % (wrong, op, C, N, B, K)
    ctx.seen("ar", wrong, op, C, N, B, K, n)
    ctx.call("autoregressive " + op, ops[op], sp.dist())
    rejected(ctx, "autoregressive %s with wrong %s" % (op, wrong), lambda: ops[op](sp.dist(wrong)), ctx.desc)


def case(ctx, i):
    if i % 5 == 4:
        autoregressive(ctx)
    else:
        kind, fam = PAIRS[(i - i // 5) % len(PAIRS)]
        nonproj(ctx, kind) if fam == "nonproj" else crf(ctx, kind, fam)
