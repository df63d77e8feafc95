"""C24 answers do not depend on dtype, memory layout or gradient mode."""
import numpy as np
import torch

from ..gen import FAMS, Case, cover_case, fam_at, gen_case, layout, pick, size_at
from ..ops import Session, max_k, ops_of

LAYOUTS = ("contig", "transposed", "strided", "batchlast", "offset", "expanded", "tied")
MODES = ("plain", "leaf", "computed", "no_grad", "no_grad leaf", "detached", "built before no_grad", "built in no_grad")
N = {"quick": 10000, "thorough": 45000}
RULE = "one query of a distribution in one layout and gradient mode; distinct by potentials, dtype, layout, mode and query"
REQUIRED = ["family:" + f for f in FAMS] + ["layout:" + x for x in LAYOUTS] + ["mode:" + m for m in MODES] + ["dtype:float32", "dtype:float64", "lengths:none", "lengths:mixed", "same values in both dtypes"]


def place(t, dtype, kind, tied_axis):
    if kind == "tied":  # one slice expanded along an inner axis
        x = torch.tensor(t, dtype=dtype)
        return x.narrow(tied_axis, 0, 1).expand(x.shape) if x.shape[tied_axis] else x
    return layout(t, dtype, kind)


def arrange(rng, c, kind):
    """Values that the layout can express, and the axis shared by a tied layout."""
    ths = c.theta if isinstance(c.theta, tuple) else (c.theta,)
    ax = [rng.randrange(1, t.ndim) for t in ths]
    if kind == "expanded":
        ths = tuple(np.broadcast_to(t[:1], t.shape).copy() for t in ths)
    elif kind == "tied":
        ths = tuple(np.broadcast_to(t.take([0], axis=a) if t.shape[a] else t, t.shape).copy() for t, a in zip(ths, ax))
    return ths, ax


def tensors(c, ths, ax, kind, mode):
    out = []
    for t, a in zip(ths, ax):
        x = place(t, c.dtype, kind, a)
        if mode in ("leaf", "no_grad leaf"):
            x = x.detach().requires_grad_(True)
        elif mode == "computed":
            base = torch.zeros(x.shape, dtype=x.dtype, requires_grad=True)
            x = x.detach() + base if kind == "contig" else (x.detach().requires_grad_(True)).view_as(x)
        elif mode == "detached":
            x = x.clone().requires_grad_(True).detach() if kind == "contig" else x.detach()
        out.append(x)
    return tuple(out) if c.fam.name == "cfg" else out[0]


def dtypes(x):
    return {y.dtype for y in (x if isinstance(x, (tuple, list)) else (x,))}


def case(ctx, i):
    rng = ctx.rng
    fam = fam_at(i)
    kind = LAYOUTS[(i // 8) % len(LAYOUTS)]
    mode = rng.choice(MODES)
    c0 = gen_case(rng, fam, size_at(rng), budget=12000, pad=kind not in ("expanded", "tied"))
    ths, ax = arrange(rng, c0, kind)
    both = rng.random() < 0.3
    dts = [torch.float32, torch.float64] if both else [c0.dtype]
    if both:
        ctx.cover("same values in both dtypes")
        ths = tuple(t.astype(np.float32).astype(np.float64) for t in ths)
    ops = None
    for dt in dts:
        c = Case(c0.fam, ths if fam == "cfg" else ths[0], c0.lengths, dt, kind, tags=c0.tags)
        cover_case(ctx, c, fam)
        ctx.cover("layout:" + kind, "mode:" + mode)
        s = Session(ctx, fam, c, k=rng.randint(1, max_k(c)), n=rng.choice([1, 2, 11]))
        if ops is None:
            ops = rng.sample(ops_of(c), min(len(ops_of(c)), 4))
        if c.nontrivial():
            ctx.seen(kind, mode, ops, *c.payload())
        inside = "no_grad" in mode
        before = mode == "built before no_grad"
        with torch.set_grad_enabled(not inside or before):
            pot = tensors(c, ths, ax, kind, mode)
            d = ctx.call(fam + " dist", c.dist, pot)
        for op in ops:
            if op == "count" and op not in ops_of(c):
                continue
            ctx.desc = "%s %s %r" % (op, mode, c)
            with torch.set_grad_enabled(not inside or mode == "built in no_grad"):
                a = s.ask(d, op)
            s.judge(op, a)
            ctx.expect("%s.%s dtype" % (fam, op), dtypes(a) == {dt}, lambda: "potentials %s, answer %s" % (dt, dtypes(a)))
