"""C05 every sample is a legal structure."""
import math

from ..core import to_np
from ..big import gen_big
from ..gen import TENSOR_FAMS, check_structure, cost, cover_case, fam_at, gen_case, pick, size_at, structure_score

BIG = 67  # every so many cases: an input beyond the reach of the hypergraph
N = {"quick": 7000, "thorough": 20000}
RULE = "one monitored sample call on a batch that has at least two structures; distinct by potentials, lengths, dtype and n"
REQUIRED = ["family:" + f for f in TENSOR_FAMS] + ["dtype:float32", "dtype:float64", "lengths:none", "lengths:mixed", "lengths:one", "n:1", "n:2-10", "n:11-20", "n:21+", "n:101+", "batch:4+"] + ["big:" + f for f in TENSOR_FAMS] + ["big:batch"]


def case(ctx, i):
    fam = fam_at(i, TENSOR_FAMS)
    rng = ctx.rng
    n = pick(rng, (1, 1), (4, rng.randint(2, 10)), (4, rng.randint(11, 20)), (2, rng.randint(21, 45)), (0.3, rng.randint(46, 130)), (0.1, rng.randint(131, 600)))
    for _ in range(50):
        if i % BIG == BIG - 1:
            n = min(n, 12)
            c = gen_big(rng, fam, 2.5e6)
            break
        c = gen_case(rng, fam, size_at(rng), budget=20000, layouts=True, grads=True)
        if cost(c.fam) * c.batch * n < 4e5:
            break
    else:
        c = gen_case(rng, fam, "tiny", budget=400, batch=rng.randint(1, 3))
    ctx.desc = "%r n=%d" % (c, n)
    cover_case(ctx, c, fam)
    ctx.cover("n:1" if n == 1 else "n:2-10" if n < 11 else "n:11-20" if n < 21 else "n:21+")
    if n > 100:
        ctx.cover("n:101+")
    if c.nontrivial():
        ctx.seen(n, *c.payload())
    d = ctx.call(fam + " dist", c.dist)
    shape = rng.choice([(n,), [n]]) if n % 2 else (n,)
    s = ctx.call(fam + ".sample", d.sample, shape)
    a = to_np(s)
    if not ctx.expect(fam + ".sample shape", a.shape == (n,) + c.theta.shape, str(a.shape)):
        return
    logz = c.logz()
    for b in range(c.batch):
        floor = -(math.log(c.ref("count", b)) + 30.0 + 2 * c.tol)
        memo = {}
        for r in range(n):
            h = a[r, b].tobytes()
            if h in memo:
                continue
            memo[h] = 1
            on = check_structure(ctx, fam + ".sample", c, b, a[r, b])
            ctx.count("samples")
            if on is not None and c.L(b) > 1:
                lp = structure_score(c, b, on) - logz[b]
                ctx.expect(fam + ".sample probable", lp >= floor, lambda: "sample %d of item %d has log-probability %r" % (r, b, lp))
