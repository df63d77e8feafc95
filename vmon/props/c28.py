"""C28 queries leave no trace in the process."""
import contextlib
import gc
import io
import random
import weakref

import numpy as np
import torch
import torch_struct as ts

from ..ar import Spec, onehot
from ..core import Timeout
from ..gen import FAMS, cover_case, fam_at, gen_case, make_dist, size_at
from ..ops import Session, max_k, ops_of

N = {"quick": 6000, "thorough": 36000}
RULE = "one query with the process observed before and after; distinct by family, query, potentials, mode"
MODES = ("plain", "leaf", "leaf with grad", "computed", "no_grad")
REQUIRED = ["family:" + f for f in FAMS + ("nonproj", "ar", "semiring")] + ["mode:" + m for m in MODES] + ["released", "trained model", "rejected", "random query", "deterministic query"]
RANDOM = ("sample", "gumbel_crf")


def settings():
    """Process-wide settings of torch that a library has no business changing."""
    return dict(
        grad=torch.is_grad_enabled(),
        inference=torch.is_inference_mode_enabled(),
        anomaly=torch.is_anomaly_enabled(),
        dtype=str(torch.get_default_dtype()),
        threads=torch.get_num_threads(),
        deterministic=torch.are_deterministic_algorithms_enabled(),
        validate=torch.distributions.Distribution._validate_args,
        printing=repr(torch._tensor_str.PRINT_OPTS),
        numpy=repr(sorted(np.geterr().items())),
    )


class Watch:
    """Everything observed around one query."""

    def __init__(self, ctx, key, random_query, tensors=()):
        self.ctx, self.key, self.random_query = ctx, key, random_query
        self.tensors = [t for t in tensors if t is not None]

    def __enter__(self):
        self.set = settings()
        self.rng = torch.get_rng_state()
        self.np = np.random.get_state()[1].tobytes(), np.random.get_state()[2]
        self.py = hash(random.getstate())
        self.bytes = [t.detach().clone() for t in self.tensors]
        self.version = [t._version for t in self.tensors]
        self.grads = [None if not t.is_leaf or t.grad is None else t.grad.detach().clone() for t in self.tensors]
        self.out = io.StringIO()
        self.cm = contextlib.redirect_stdout(self.out)
        self.cm.__enter__()
        return self

    def __exit__(self, *a):
        self.cm.__exit__(*a)
        ctx, key = self.ctx, self.key
        now = settings()
        ctx.expect(key + " settings", now == self.set, lambda: "changed: %s" % {k: (self.set[k], now[k]) for k in now if now[k] != self.set[k]})
        if not self.random_query:
            ctx.expect(key + " random state", bool((torch.get_rng_state() == self.rng).all()), "a deterministic query consumed random numbers")
        st = np.random.get_state()
        ctx.expect(key + " numpy random state", (st[1].tobytes(), st[2]) == self.np, "numpy's generator moved")
        ctx.expect(key + " python random state", hash(random.getstate()) == self.py, "python's generator moved")
        ctx.expect(key + " silent", self.out.getvalue() == "", lambda: "printed %r" % self.out.getvalue()[:200])
        for j, (t, b, v, g) in enumerate(zip(self.tensors, self.bytes, self.version, self.grads)):
            d = t.detach()
            ok = d.shape == b.shape and bool(((d == b) | (d.isnan() & b.isnan())).all()) if d.dtype.is_floating_point else bool((d == b).all())
            ctx.expect(key + " inputs kept", ok, lambda: "input %d changed" % j)
            ctx.expect(key + " inputs not written", t._version == v, lambda: "input %d was written in place" % j)
            if t.is_leaf:
                now = t.grad
                ok = (now is None) == (g is None) and (g is None or bool((now == g).all()))
                ctx.expect(key + " grad", ok, lambda: "the query wrote .grad of input %d" % j)
        return False


def tup(x):
    return x if isinstance(x, (tuple, list)) else (x,)


def crf(ctx, fam):
    rng = ctx.rng
    mode = rng.choice(MODES)
    c = gen_case(rng, fam, size_at(rng), budget=5000, layouts=True)
    cover_case(ctx, c, fam)
    ctx.cover("mode:" + mode)
    s = Session(ctx, fam, c, k=rng.randint(1, max_k(c)), n=rng.choice([1, 2, 11]))
    base = []
    pot = []
    for t in tup(c.tensors()):
        if mode.startswith("leaf"):
            t = t.detach().requires_grad_(True)
            if mode == "leaf with grad":
                t.grad = torch.full(t.shape, 0.25, dtype=t.dtype)
            base.append(t)
        elif mode == "computed":
            p = t.detach().clone().requires_grad_(True)
            base.append(p)
            t = p * 1.0
        pot.append(t)
    pot = tuple(pot) if fam == "cfg" else pot[0]
    ln = c.len_tensor()
    ops = rng.sample(ops_of(c), rng.randint(2, 4))
    ctx.seen(mode, tuple(ops), *c.payload())
    watched = list(tup(pot)) + base + [ln, s.value]
    answers = []
    with torch.set_grad_enabled(mode != "no_grad"):
        ctx.desc = "construction %s %r" % (mode, c)
        with Watch(ctx, fam + " dist", False, watched):
            d = ctx.call(fam + " dist", c.dist, pot, ln)
        for op in ops:
            ctx.desc = "%s %s %r" % (op, mode, c)
            other = s.q.dist() if op in ("cross_entropy", "kl") else None
            more = [] if other is None else list(tup(other.log_potentials))
            ctx.cover("random query" if op in RANDOM else "deterministic query")
            with Watch(ctx, "%s.%s" % (fam, op), op in RANDOM, watched + more):
                a = s.ask_other(d, op, other)
            s.judge(op, a)
            answers.append(a)
        if rng.random() < 0.3 and fam != "cfg":  # a rejected request is no exception
            ctx.cover("rejected")
            bad = torch.tensor([c.fam.N + 1] * c.batch)
            op = rng.choice(ops)
            ctx.desc = "rejected %s %s %r" % (op, mode, c)
            with Watch(ctx, "%s.%s rejected" % (fam, op), True, watched):
                try:
                    s.ask_raw(make_dist(c.fam, pot, bad), op)
                except (Timeout, KeyboardInterrupt, MemoryError):
                    raise
                except Exception:  # noqa: B902
                    ctx.count("rejected")
    if rng.random() < 0.5:
        ctx.cover("released")
        refs = [("potentials", weakref.ref(t)) for t in tup(pot)] + [("distribution", weakref.ref(d))]
        refs += [("leaf", weakref.ref(t)) for t in base]
        refs += [("answer of " + op, weakref.ref(t)) for op, a in zip(ops, answers) for t in tup(a)]
        s.value = None
        del pot, base, watched, d, answers, a, t
        if mode in ("leaf", "leaf with grad", "computed"):
            p = None  # noqa: F841
        other = more = None  # noqa: F841
        gc.collect()
        ctx.desc = "after %s of %r" % (ops, c)
        for what, r in refs:
            ctx.expect(fam + " released", r() is None, lambda: "the %s is still alive after everything that referred to it was deleted" % what)


def nonproj(ctx):
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(62))
    B, n = rng.randint(1, 4), rng.randint(1, 7)
    x = torch.tensor(nrng.standard_normal((B, n, n)), dtype=rng.choice([torch.float32, torch.float64]), requires_grad=rng.random() < 0.5)
    ln = torch.tensor([rng.randint(1, n) for _ in range(B)]) if rng.random() < 0.5 else None
    multi = rng.random() < 0.5
    ctx.desc = "nonproj B=%d n=%d len=%s multi=%s" % (B, n, ln, multi)
    ctx.seen("nonproj", x.detach().numpy().tobytes(), multi, None if ln is None else ln.tolist())
    for op in rng.sample(["partition", "marginals"], 2):
        with Watch(ctx, "nonproj." + op, False, [x, ln]):
            d = ctx.call("nonproj dist", ts.NonProjectiveDependencyCRF, x, ln, multiroot=multi)
            a = ctx.call("nonproj." + op, lambda: getattr(d, op))
        refs = [weakref.ref(a), weakref.ref(d)]
        del a, d
        gc.collect()
        ctx.expect("nonproj released", all(r() is None for r in refs), "the distribution or its answer is still alive")


def ar(ctx):
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(62))
    C, n, B = rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 4)
    sp = Spec(rng, nrng, C, n, B, rng.choice([torch.float32, torch.float64]), rng.random() < 0.5)
    K = rng.randint(1, C)
    d = ctx.call("ar dist", sp.dist)
    if rng.random() < 0.6:  # a model in training
        ctx.cover("trained model")
        for t in (d.model.t1, d.model.t2, d.model.t3):
            t.requires_grad_(True)
            if rng.random() < 0.5:
                t.grad = torch.full(t.shape, 0.25, dtype=t.dtype)
    seqs = torch.tensor([[[rng.randrange(C) for _ in range(n)] for _ in range(B)] for _ in range(2)])
    hot = torch.tensor(np.array([[onehot(q, C) for q in r] for r in seqs.tolist()]))
    ops = {
        "log_prob": (False, lambda: d.log_prob(hot)),
        "log_prob sparse": (False, lambda: d.log_prob(seqs, sparse=True)),
        "greedy_max": (False, d.greedy_max),
        "beam_topk": (False, lambda: d.beam_topk(K)),
        "sample": (True, lambda: d.sample((K,))),
        "sample_without_replacement": (True, lambda: d.sample_without_replacement((K,))),
        "greedy_tempmax": (True, lambda: d.greedy_tempmax(0.7)),
    }
    ctx.seen("ar", sp.t1.tobytes(), K)
    for op in rng.sample(sorted(ops), 3):
        ctx.desc = "autoregressive %s C=%d N=%d B=%d K=%d" % (op, C, n, B, K)
        with Watch(ctx, "ar." + op, ops[op][0], list(d.init) + [hot, seqs, d.model.t1, d.model.t2, d.model.t3]):
            a = ctx.call("ar." + op, ops[op][1])
        refs = [weakref.ref(t) for t in tup(a)]
        del a
        if rng.random() < 0.5:
            gc.collect()
            ctx.expect("ar released", all(r() is None for r in refs), "an answer of %s is still alive" % op)
    refs = [("distribution", d), ("model", d.model), ("parameter", d.model.t1), ("parameter", d.model.t2), ("parameter", d.model.t3)]
    refs = [(w, weakref.ref(t)) for w, t in refs + [("initial state", t) for t in d.init]]
    t = None  # noqa: F841
    del d, ops
    gc.collect()
    for what, r in refs:
        ctx.expect("ar released", r() is None, lambda: "the %s is still alive after everything that referred to it was deleted" % what)


def semirings(ctx):
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(62))
    name = rng.choice(["LogSemiring", "MaxSemiring", "StdSemiring", "KMaxSemiring", "EntropySemiring", "SparseMaxSemiring", "SampledSemiring", "MultiSampledSemiring"])
    dt = rng.choice([torch.float32, torch.float64])
    T = lambda *s: torch.tensor(nrng.standard_normal(s), dtype=dt, requires_grad=True)  # noqa: E731
    from torch_struct.semirings import semirings as S, sample as SS, sparse_max as SP

    cls = {"KMaxSemiring": lambda: S.KMaxSemiring(rng.randint(1, 4))}.get(name)
    cls = cls() if cls else getattr(S, name, None) or getattr(SS, name, None) or getattr(SP, name)
    n, m, q = rng.randint(1, 4), rng.randint(1, 4), rng.randint(1, 4)
    ctx.desc = "%s %d %d %d" % (name, n, m, q)
    a0, b0 = T(2, n, m), T(2, m, q)
    ctx.seen(name, a0.detach().numpy().tobytes())
    rand = "Sampled" in name
    fns = {
        "convert": lambda: cls.convert(a0),
        "matmul": lambda: cls.matmul(cls.convert(a0), cls.convert(b0)),
        "sum": lambda: cls.sum(cls.convert(a0)),
        "mul": lambda: cls.mul(cls.convert(a0), cls.convert(a0)),
        "plus": lambda: cls.plus(cls.convert(a0), cls.convert(a0)),
    }
    for op in rng.sample(sorted(fns), 3):
        with Watch(ctx, "%s.%s" % (name, op), rand, [a0, b0]):
            r = ctx.call("%s.%s" % (name, op), fns[op])
        w = weakref.ref(r)
        del r
        gc.collect()
        ctx.expect(name + " released", w() is None, "the result of %s is still alive" % op)


_frozen = []


def case(ctx, i):
    if not _frozen:  # what exists before the first case need not be traversed again
        gc.collect()
        gc.freeze()
        _frozen.append(1)
    if i % 10 == 9:
        k = rng_kind(i)
        ctx.cover("family:" + k)
        dict(nonproj=nonproj, ar=ar, semiring=semirings)[k](ctx)
    else:
        crf(ctx, fam_at(i - i // 10))


def rng_kind(i):
    return ("nonproj", "ar", "semiring")[(i // 10) % 3]
