"""C03 max and argmax."""
import math

import numpy as np

from ..core import to_np
from ..big import gen_big
from ..gen import FAMS, cfg_counts, cfg_spans_ij, check_structure, cover_case, fam_at, gen_case, size_at, structure_score
from ..models import cfg_legal

BIG = 67  # every so many cases: an input beyond the reach of the hypergraph
N = {"quick": 12000, "thorough": 50000}
RULE = "one monitored max/argmax pair on a batch that has at least two structures; distinct by potentials, lengths and dtype"
REQUIRED = ["family:" + f for f in FAMS] + ["dtype:float32", "dtype:float64", "lengths:none", "lengths:mixed", "lengths:one", "batch:4+", "batch:1", "v:ties", "v:zeros", "v:near", "mode"] + ["big:" + f for f in FAMS] + ["big:batch"]


def check_cfg_argmax(ctx, key, c, am, best):
    t, r, o, s = [to_np(x) for x in am]
    for b in range(c.batch):
        dd = [cfg_counts(x[b]) for x in (t, r, o)] + [cfg_counts(cfg_spans_ij(s[b]))]
        if not ctx.expect(key + " integer", all(x is not None for x in dd), "item %d" % b):
            continue
        why = cfg_legal(c.fam, *dd, c.L(b))
        if not ctx.expect(key + " one derivation", why is None, lambda: "item %d: %s" % (b, why)):
            continue
        sc = math.fsum(n * float(th[b][k]) for d_, th in zip(dd, c.theta) for k, n in d_.items())
        ctx.close(key + " score", sc, best[b], c.tol, "item %d" % b)


def check_argmax(ctx, key, c, am, best):
    if c.fam.name == "cfg":
        return check_cfg_argmax(ctx, key, c, am, best)
    a = to_np(am)
    if not ctx.expect(key + " shape", a.shape == c.theta.shape, str(a.shape)):
        return
    for b in range(c.batch):
        on = check_structure(ctx, key, c, b, a[b])
        if on is not None:
            ctx.close(key + " score", structure_score(c, b, on), best[b], c.tol, "item %d" % b)


def case(ctx, i):
    fam = fam_at(i)
    mode = ctx.rng.choice(["ties", "zeros", "half", "near"]) if ctx.rng.random() < 0.3 else None
    c = gen_big(ctx.rng, fam) if i % BIG == BIG - 1 else gen_case(ctx.rng, fam, size_at(ctx.rng), budget=40000, layouts=True, grads=True, mode=mode)
    ctx.desc = repr(c)
    cover_case(ctx, c, fam)
    if c.nontrivial():
        ctx.seen(*c.payload())
    best = c.best()
    d = ctx.call(fam + " dist", c.dist)
    am = None
    if ctx.rng.random() < 0.5:  # either order
        am = ctx.call(fam + ".argmax", lambda: d.argmax)
    mx = ctx.call(fam + ".max", lambda: d.max)
    ctx.close(fam + ".max", mx, best, c.tol)
    if am is None:
        am = ctx.call(fam + ".argmax", lambda: d.argmax)
    check_argmax(ctx, fam + ".argmax", c, am, best)
    if ctx.rng.random() < 0.1:
        ctx.cover("mode")
        d2 = c.dist()
        check_argmax(ctx, fam + ".mode", c, ctx.call(fam + ".mode", lambda: d2.mode), best)
