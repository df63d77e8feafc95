"""C30 answers do not depend on process-wide settings of torch."""
import contextlib

import numpy as np
import torch
import torch_struct as ts

from ..ar import Spec, onehot
from ..gen import FAMS, cover_case, gen_case, size_at
from ..ops import Session, max_k, ops_of
from .c13 import det_ref

SETTINGS = ("default float64", "default float32", "poisoned memory", "anomaly detection", "threads", "denormals flushed", "validation off", "two at once")
KINDS = FAMS + ("nonproj", "ar")
N = {"quick": 2500, "thorough": 11000}
RULE = "one query of a distribution under one process-wide setting; distinct by potentials, dtype, setting and query"
REQUIRED = ["family:" + f for f in KINDS] + ["setting:" + s for s in SETTINGS] + ["built inside", "built outside", "dtype:float32", "dtype:float64"]
ASSUMPTIONS = ["poisoned memory: torch.use_deterministic_algorithms(True, warn_only=True) with torch.utils.deterministic.fill_uninitialized_memory, which fills torch.empty with NaN"]


@contextlib.contextmanager
def setting(name, rng):
    if name == "two at once":
        a, b = rng.sample(SETTINGS[:-1], 2)
        with setting(a, rng), setting(b, rng):
            yield
        return
    dt, det, thr = torch.get_default_dtype(), torch.are_deterministic_algorithms_enabled(), torch.get_num_threads()
    fill = torch.utils.deterministic.fill_uninitialized_memory
    val = torch.distributions.Distribution._validate_args
    try:
        if name.startswith("default"):
            torch.set_default_dtype(getattr(torch, name.split()[1]))
        elif name == "poisoned memory":
            torch.use_deterministic_algorithms(True, warn_only=True)
            torch.utils.deterministic.fill_uninitialized_memory = True
        elif name == "threads":
            torch.set_num_threads(rng.randint(2, 4))
        elif name == "denormals flushed":
            torch.set_flush_denormal(True)
        elif name == "validation off":
            torch.distributions.Distribution.set_default_validate_args(False)
        if name == "anomaly detection":
            with torch.autograd.set_detect_anomaly(True):
                yield
        else:
            yield
    finally:
        torch.set_default_dtype(dt)
        torch.use_deterministic_algorithms(det)
        torch.utils.deterministic.fill_uninitialized_memory = fill
        torch.set_num_threads(thr)
        torch.set_flush_denormal(False)
        torch.distributions.Distribution.set_default_validate_args(val)


def crf(ctx, fam, name):
    rng = ctx.rng
    c = gen_case(rng, fam, size_at(rng), budget=8000, layouts=True, grads=True)
    cover_case(ctx, c, fam)
    s = Session(ctx, fam, c, k=rng.randint(1, max_k(c)), n=rng.choice([1, 2, 11]))
    ops = rng.sample(ops_of(c), min(len(ops_of(c)), 5))
    if c.nontrivial():
        ctx.seen(name, tuple(ops), *c.payload())
    inside = rng.random() < 0.5
    ctx.cover("built inside" if inside else "built outside")
    d = None if inside else ctx.call(fam + " dist", c.dist)
    out = []
    with setting(name, rng):
        if inside:
            d = ctx.call(fam + " dist", c.dist)
        for op in ops:
            ctx.desc = "%s, %s, %r" % (name, op, c)
            out.append(s.ask(d, op))
    for op, a in zip(ops, out):
        ctx.desc = "%s, %s, %r" % (name, op, c)
        s.judge(op, a)
        dts = {x.dtype for x in (a if isinstance(a, (tuple, list)) else (a,))}
        ctx.expect("%s.%s dtype" % (fam, op), dts == {c.dtype}, lambda: "potentials %s, answer %s" % (c.dtype, dts))


def nonproj(ctx, name):
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(62))
    B, n = rng.randint(1, 5), rng.randint(1, 7)
    dt = rng.choice([torch.float32, torch.float64])
    ctx.cover("dtype:" + str(dt)[6:])
    x = nrng.standard_normal((B, n, n)).astype(np.float32).astype(np.float64)
    ln = [rng.randint(1, n) for _ in range(B)] if rng.random() < 0.5 else None
    multi = rng.random() < 0.5
    ctx.desc = "nonproj %s B=%d n=%d len=%s multi=%s %s" % (name, B, n, ln, multi, dt)
    ctx.seen(name, x.tobytes(), ln, multi, str(dt))
    with setting(name, rng):
        d = ctx.call("nonproj dist", ts.NonProjectiveDependencyCRF, torch.tensor(x, dtype=dt), None if ln is None else torch.tensor(ln), multiroot=multi)
        z = ctx.call("nonproj.partition", lambda: d.partition)
        m = ctx.call("nonproj.marginals", lambda: d.marginals)
    for b in range(B):
        L = n if ln is None else ln[b]
        w = np.exp(x[b, :L, :L])
        lz, mg, _ = det_ref(w, np.diag(w).copy(), multi)
        tol = 2e-3 + 1e-4 * n  # smoothing of 1e-5 per arc
        ctx.close("nonproj.partition", z[b], lz, tol)
        ctx.close("nonproj.marginals", m[b, :L, :L], mg, tol)


def ar(ctx, name):
    rng = ctx.rng
    nrng = np.random.default_rng(rng.getrandbits(62))
    C, n, B, S = rng.randint(1, 5), rng.randint(1, 5), rng.randint(1, 4), rng.randint(1, 3)
    sp = Spec(rng, nrng, C, n, B, rng.choice([torch.float32, torch.float64]), rng.random() < 0.5)
    seqs = [[[rng.randrange(C) for _ in range(n)] for _ in range(B)] for _ in range(S)]
    hot = torch.tensor(np.array([[onehot(q, C) for q in r] for r in seqs]))
    ctx.desc = "autoregressive %s C=%d N=%d B=%d" % (name, C, n, B)
    ctx.seen(name, sp.t1.tobytes(), sp.normalize)
    tol = 1e-9 if sp.dtype == torch.float64 else 1e-4
    inside = rng.random() < 0.5
    d = None if inside else ctx.call("ar dist", sp.dist)
    with setting(name, rng):
        if inside:
            d = ctx.call("ar dist", sp.dist)
        a = ctx.call("ar.log_prob", d.log_prob, hot)
        g = ctx.call("ar.greedy_max", d.greedy_max)
        smp = ctx.call("ar.sample", d.sample, (S,))
        bt = ctx.call("ar.beam_topk", d.beam_topk, 1)
    ctx.close("ar.log_prob", a, np.array([[sp.score(b, seqs[r][b]) for b in range(B)] for r in range(S)]), tol * (1 + n))
    ctx.expect("ar.sample one-hot", bool(((smp == 0) | (smp == 1)).all()) and bool((smp.sum(-1) == 1).all()), "not one-hot")
    for b in range(B):
        seq, rows, gap = sp.greedy(b)
        if gap > 1e-3:
            ctx.close("ar.greedy_max", g[0][b], onehot(seq, C), 1e-6)
            ctx.close("ar.beam_topk", bt[0, b], onehot(seq, C), 1e-6)
            ctx.close("ar.greedy_max value", g[1][b], sum(rows[t][x] for t, x in enumerate(seq)), 1e-3)


def case(ctx, i):
    kind = KINDS[i % len(KINDS)]
    name = SETTINGS[(i // len(KINDS)) % len(SETTINGS)]
    ctx.cover("family:" + kind, "setting:" + name)
    if kind == "nonproj":
        nonproj(ctx, name)
    elif kind == "ar":
        ar(ctx, name)
    else:
        crf(ctx, kind, name)
