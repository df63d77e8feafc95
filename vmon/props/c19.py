"""C19 answers do not depend on other objects, past queries or threads."""
import threading

import numpy as np
import torch
import torch_struct as ts

from ..core import to_np
from ..gen import FAMS, TOTAL, Case, cover_case, fill, gen_case, per_structure, pick
from ..ops import Session, max_k, ops_of
from ..algebra import semiring

N = {"quick": 2800, "thorough": 16000}
RULE = "one history of constructions and queries over several live distributions (or one set of parallel threads); distinct by potentials and operation sequence"
REQUIRED = ["family:" + f for f in FAMS] + ["history", "threads", "update in place", "shared potentials", "same query twice", "answers kept", "equal seeds", "backward between", "roots mixed", "constants", "struct object reused", "relatives", "relatives in place", "answer overwritten", "two gradients"] + ["relative:" + h for h in ("lengths permuted", "lengths moved", "items permuted", "entries swapped", "one item", "one entry", "sign", "dtype", "grad", "full lengths")]
SEEDABLE = ("sample", "gumbel_crf")
FRESH = SEEDABLE + ("kmax", "topk", "log_prob", "cross_entropy", "kl")  # computed anew on every call


def constants():
    """Values of the public semiring constants."""
    out = []
    for n in ("LogSemiring", "StdSemiring", "MaxSemiring", "EntropySemiring", "KLDivergenceSemiring", "CrossEntropySemiring", "SampledSemiring", "MultiSampledSemiring", "SparseMaxSemiring"):
        s = semiring(n)
        out.append(tuple(s.zero.reshape(-1).tolist()) + tuple(s.one.reshape(-1).tolist()))
    return out


def flat(ans):
    xs = ans if isinstance(ans, (tuple, list)) else (ans,)
    return [x.detach().clone() for x in xs]


def same(a, b):
    xs = a if isinstance(a, (tuple, list)) else (a,)
    return len(xs) == len(b) and all(x.shape == y.shape and bool(((x == y) | (x.isnan() & y.isnan())).all()) for x, y in zip(xs, b))


def pots(c):
    return c if isinstance(c, tuple) else (c,)


class Live:
    """A distribution under observation."""

    def __init__(self, ctx, fam, c, pot=None):
        self.fam, self.c = fam, c
        self.pot = c.tensors() if pot is None else pot
        self.len = c.len_tensor()
        self.s = Session(ctx, fam, c, k=min(2, max_k(c)), n=ctx.rng.choice([1, 3, 11]))
        self.d = ctx.call(fam + " dist", c.dist, self.pot, self.len)
        self.keep = [p.detach().clone() for p in pots(self.pot)]
        self.len_keep = None if self.len is None else self.len.clone()

    def untouched(self, ctx):
        ok = all(bool((p.detach() == k).all()) for p, k in zip(pots(self.pot), self.keep))
        ctx.expect(self.fam + " potentials unchanged", ok, "a query changed the potentials")
        if self.len is not None:
            ctx.expect(self.fam + " lengths unchanged", bool((self.len == self.len_keep).all()), "a query changed the lengths")


def small(rng, fam, **kw):
    return gen_case(rng, fam, pick(rng, (12, "tiny"), (12, "small"), (12, "medium"), (1, "large")), budget=4000, grads=True, **kw)


def history(ctx):
    rng = ctx.rng
    ctx.cover("history")
    lives, answers, trace = [], [], []
    const = constants()
    n_ops = rng.randint(8, 20)
    fams = [rng.choice(FAMS) for _ in range(rng.randint(2, 4))]
    if rng.random() < 0.4:
        fams[:2] = rng.sample(["depm", "deps", "depml", "depsl"], 2)
    for step in range(n_ops):
        act = rng.random()
        if len(lives) < len(fams) and (not lives or act < 0.5):
            fam = fams[len(lives)]
            like = [x for x in lives if x.c.fam.name == fam[:3] or x.fam == fam]
            shared = [x for x in lives if x.fam == fam or (fam[:3] == "dep" and x.fam[:3] == "dep" and fam.endswith("l") == x.fam.endswith("l"))]
            if shared and rng.random() < 0.4:  # two objects on the very same tensor
                x = rng.choice(shared)
                f = type(x.c.fam)(x.c.fam.name, **dict(x.c.fam.kw, **({"multiroot": fam[3] == "m"} if fam[:3] == "dep" else {})))
                c = Case(f, x.c.theta, x.c.lengths, x.c.dtype, x.c.layout, x.c.grad)
                lives.append(Live(ctx, fam, c, x.pot))
                ctx.cover("shared potentials")
            else:
                lives.append(Live(ctx, fam, small(rng, fam)))
            cover_case(ctx, lives[-1].c, fam)
            ctx.seen(*lives[-1].c.payload())
            trace.append("new %s" % fam)
            names = {x.fam for x in lives}
            if names & {"depm", "depml"} and names & {"deps", "depsl"}:
                ctx.cover("roots mixed")
            continue
        x = rng.choice(lives)
        if act < 0.6 and not x.c.grad and not any(y is not x and y.pot is x.pot for y in lives):
            # parameters move in place; the next object must see the new values
            nrng = np.random.default_rng(rng.getrandbits(60))
            new = [fill(rng, nrng, p.shape, "normal", per_structure(x.c.fam)) for p in pots(x.pot)]
            with torch.no_grad():
                for p, v in zip(pots(x.pot), new):
                    p.copy_(torch.tensor(v, dtype=p.dtype))
            vals = tuple(to_np(p) for p in pots(x.pot))
            c = Case(x.c.fam, vals if x.fam == "cfg" else vals[0], x.c.lengths, x.c.dtype, x.c.layout)
            lives[lives.index(x)] = Live(ctx, x.fam, c, x.pot)
            ctx.cover("update in place")
            trace.append("update %s" % x.fam)
            continue
        op = rng.choice(ops_of(x.c))
        trace.append("%s.%s" % (x.fam, op))
        ctx.desc = " ; ".join(trace[-12:]) + " | %r" % x.c
        if op in SEEDABLE:
            seed = rng.getrandbits(40)
            torch.manual_seed(seed)
            a = x.s.ask(x.d, op)
            if rng.random() < 0.5:  # something else happens in between
                y = rng.choice(lives)
                y.s.ask(y.d, rng.choice(["partition", "marginals"]))
            torch.manual_seed(seed)
            d2 = x.d if rng.random() < 0.5 else x.c.dist()
            b = x.s.ask(d2, op)
            ctx.cover("equal seeds")
            ctx.expect("%s.%s equal seeds" % (x.fam, op), same(b, flat(a)), "different samples for equal seeds")
        else:
            a = x.s.ask(x.d, op)
        x.s.judge(op, a, " in a history")
        if rng.random() < 0.15 and op in FRESH:  # the caller writes into the answer
            ctx.cover("answer overwritten")
            for y in a if isinstance(a, (tuple, list)) else (a,):
                y.detach().mul_(0.5).add_(7.0)
            x.s.judge(op, x.s.ask(x.d, op), " after the caller changed the answer")
            for y in {id(z): z for z in lives}.values():
                y.untouched(ctx)
            continue
        answers.append((x, op, a, flat(a)))
        if rng.random() < 0.3 and op not in SEEDABLE:
            b = x.s.ask(x.d, op)
            ctx.cover("same query twice")
            ctx.expect("%s.%s repeated" % (x.fam, op), same(b, answers[-1][3]), "the same query gave another answer")
        if rng.random() < 0.3 and x.c.grad and op in ("kmax", "log_prob", "cross_entropy", "kl"):
            ctx.cover("backward between")
            keep = op == "log_prob"  # cached parts of the graph serve later queries
            g = []
            for ans in [a] if rng.random() < 0.5 else [a, x.s.ask(x.d, op)]:
                for p in pots(x.pot):
                    p.grad = None
                ctx.call("%s.%s gradient" % (x.fam, op), lambda: ans.sum().backward(retain_graph=keep))
                g.append([p.grad for p in pots(x.pot) if p.is_leaf and p.grad is not None])
            b = x.s.ask(x.d, op)
            for p in pots(x.pot):
                p.grad = None
            ctx.call("%s.%s gradient again" % (x.fam, op), lambda: b.sum().backward(retain_graph=keep))
            g.append([p.grad for p in pots(x.pot) if p.is_leaf and p.grad is not None])
            ctx.cover("two gradients")
            ctx.expect("%s.%s gradients alike" % (x.fam, op), all(same(h, g[0]) for h in g), lambda: "the same query gave another gradient: %s" % g)
        for y in {id(z): z for z in lives}.values():
            y.untouched(ctx)
    ctx.cover("answers kept")
    for x, op, a, keep in answers:
        ctx.expect("%s.%s answer kept" % (x.fam, op), same(a, keep), "a returned answer changed later")
    ctx.cover("constants")
    ctx.expect("library constants", constants() == const, "a semiring constant changed")
    ctx.seen(trace)


def structs(ctx):
    """One struct object (semiring bound) used for several inputs."""
    rng = ctx.rng
    ctx.cover("struct object reused")
    fam = rng.choice(["chain", "semi", "depm", "tree", "cfg"])
    S = rng.choice([ts.LogSemiring, ts.MaxSemiring])
    st = {"chain": ts.LinearChain, "semi": ts.SemiMarkov, "depm": ts.DepTree, "tree": ts.CKY_CRF, "cfg": ts.CKY}[fam](S)
    kept = []
    nrng = np.random.default_rng(rng.getrandbits(60))
    c = None
    for _ in range(rng.randint(2, 5)):
        c = small(rng, fam) if c is None or not tame(c) or rng.random() < 0.5 else turn(rng, nrng, c)[1]
        ctx.desc = "%s reused on %r" % (type(st).__name__, c)
        ctx.seen("struct", *c.payload())
        s = Session(ctx, fam, c, k=1)
        pot = c.tensors()
        if rng.random() < 0.5:
            a = ctx.call(fam + " struct sum", st.sum, pot, c.len_tensor())
            s.judge("partition" if S is ts.LogSemiring else "max", a, " of a reused struct")
        elif fam != "cfg":
            a = ctx.call(fam + " struct marginals", st.marginals, pot, c.len_tensor())
            s.judge("marginals" if S is ts.LogSemiring else "argmax", a, " of a reused struct")
        else:
            continue
        kept.append((a, flat(a)))
    for a, k in kept:
        ctx.expect(fam + " struct answer kept", same(a, k), "a returned answer changed later")


def tame(c):
    """No entry, not even padding, is beyond what a structure may score."""
    return max(float(np.abs(t).max()) for t in pots(c.theta) if t.size) * per_structure(c.fam) <= TOTAL


def turn(rng, nrng, c):
    """A case that agrees with c in most respects: shape, sums, some items, some entries."""
    th = [t.copy() for t in pots(c.theta)]
    lens, dtype, how = c.lengths, c.dtype, rng.choice(["lengths permuted", "lengths moved", "items permuted", "entries swapped", "one item", "one entry", "sign", "dtype", "grad", "full lengths"])
    B, f = c.batch, c.fam
    if how == "lengths permuted" and lens is not None:
        lens = rng.sample(list(lens), B)
    elif how == "lengths moved" and lens is not None:  # the same sum and maximum
        lens = list(lens)
        for _ in range(20):
            a, b = rng.randrange(B), rng.randrange(B)
            if a != b and lens[a] < f.N and lens[b] > f.min_len:
                new = list(lens)
                new[a] += 1
                new[b] -= 1
                if max(new) == f.N:
                    lens = new
                    break
    elif how == "items permuted":
        o = rng.sample(range(B), B)
        th = [t[o] for t in th]
    elif how == "entries swapped":
        for t in th:
            x = t.reshape(B, -1)
            o = list(range(x.shape[1]))
            rng.shuffle(o)
            x[:] = x[:, o]
    elif how == "one item":
        b = rng.randrange(B)
        for t in th:
            t[b] = nrng.standard_normal(t[b].shape)
    elif how == "one entry":
        t = rng.choice(th).reshape(-1)
        t[rng.randrange(t.size)] += rng.choice([-3.0, 2.0])
    elif how == "sign":
        th = [-t for t in th]
    elif how == "dtype":
        dtype = torch.float32 if dtype == torch.float64 else torch.float64
    elif how == "full lengths":
        lens = [f.N] * B if lens is None else None
    return how, Case(f, tuple(th) if f.name == "cfg" else th[0], lens, dtype, c.layout, c.grad != (how == "grad"))


def relatives(ctx):
    """Distributions that differ from an earlier one in a single respect."""
    rng = ctx.rng
    ctx.cover("relatives")
    nrng = np.random.default_rng(rng.getrandbits(60))
    fam = rng.choice(FAMS)
    c = gen_case(rng, fam, pick(rng, (1, "tiny"), (2, "small"), (1, "medium")), budget=2000, grads=True, mode="normal", pad=False,
                 batch=rng.choice([1, 2, 3, 4, 8, 9, 16]), lengths_mode=rng.choice([None, "mixed"]))
    ops = rng.sample(ops_of(c), 2)
    trace, kept = [], []
    pot = ln = None
    for step in range(rng.randint(3, 6)):
        how = "new"
        if step:
            how, c = turn(rng, nrng, c)
        if step and rng.random() < 0.3 and not c.grad and not any(p.requires_grad for p in pots(pot)) and all(p.dtype == c.dtype for p in pots(pot)):
            # the caller's tensors take the new values
            for p, t in zip(pots(pot), pots(c.theta)):
                p.copy_(torch.tensor(t, dtype=p.dtype))
            if ln is not None and c.lengths is not None:
                ln.copy_(torch.tensor(c.lengths))
            elif c.lengths is None or ln is None:
                ln = c.len_tensor()
            how += " in place"
            ctx.cover("relatives in place")
        else:
            pot, ln = c.tensors(), c.len_tensor()
            if ln is not None:
                ln = ln.clone()
        ctx.cover("relative:" + how.replace(" in place", ""))
        trace.append(how)
        ctx.desc = "%s %s | %r" % (ops, " ; ".join(trace), c)
        ctx.seen("relative", *c.payload())
        cover_case(ctx, c, fam)
        s = Session(ctx, fam, c, k=min(2, max_k(c)))
        d = ctx.call(fam + " dist", c.dist, pot, ln)
        for op in ops:
            a = s.ask(d, op)
            s.judge(op, a, " of a relative")
            if "in place" not in how:
                kept.append((op, a, flat(a)))
    for op, a, k in kept:
        ctx.expect("%s.%s answer of a relative kept" % (fam, op), same(a, k), "a returned answer changed later")


def threads(ctx):
    rng = ctx.rng
    ctx.cover("threads")
    n = rng.randint(2, 4)
    work = []
    fams = [rng.choice(FAMS) for _ in range(n)]
    if rng.random() < 0.5:
        fams[:2] = [rng.choice(["depm", "depml"]), rng.choice(["deps", "depsl"])]
        ctx.cover("roots mixed")
    one = rng.random() < 0.2  # one object shared by all threads
    for t in range(n):
        if one and work:
            work.append((work[0][0], [rng.choice(ops_of(work[0][0].c)) for _ in range(5)], []))
            continue
        x = Live(ctx, fams[t], small(rng, fams[t]))
        cover_case(ctx, x.c, fams[t])
        ctx.seen(*x.c.payload())
        work.append((x, [rng.choice(ops_of(x.c)) for _ in range(5)], []))
    ctx.desc = "%d threads%s %s" % (n, " on one object" if one else "", "; ".join("%s:%s" % (x.fam, ",".join(o)) for x, o, _ in work))
    gate = threading.Barrier(n)
    errors = []

    def run(x, ops, out):
        gate.wait()
        try:
            for op in ops:
                d = x.d if one else x.c.dist(x.pot, x.len)
                other = x.s.q.dist() if op in ("cross_entropy", "kl") else None
                out.append((op, ask(d, x, op, other)))
        except Exception as e:  # noqa: B902
            errors.append((x.fam, ops[len(out)], e))

    def ask(d, x, op, other):
        s = x.s
        if op in ("kmax", "topk"):
            return getattr(d, op)(s.k)
        if op == "sample":
            return d.sample((s.n,))
        if op == "log_prob":
            return d.log_prob(s.value)
        if op in ("cross_entropy", "kl"):
            return getattr(d, op)(other)
        if op == "gumbel_crf":
            return d.gumbel_crf()
        return getattr(d, op)

    ths = [threading.Thread(target=run, args=w) for w in work]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for fam, op, e in errors:
        ctx.fail("%s.%s in a thread raises %s" % (fam, op, type(e).__name__), "%s.%s raised %s: %s in a thread" % (fam, op, type(e).__name__, str(e)[:200]))
    for x, ops, out in work:
        for op, a in out:
            ctx.count("threaded queries")
            x.s.judge(op, a, " in threads")
        x.untouched(ctx)


def case(ctx, i):
    if i % 7 == 3:
        threads(ctx)
    elif i % 7 in (1, 5):
        relatives(ctx)
    elif i % 7 == 4:
        structs(ctx)
    else:
        history(ctx)
