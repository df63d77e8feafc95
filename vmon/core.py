"""Runner: workload -> monitored calls -> oracle -> three-valued verdict.

held          exit 0   every monitor observed events and none of them disagreed
violated      exit 1   VIOLATION property=<id> replay=<path>
inconclusive  exit 2/3 harness error, time-out, or a monitor that saw nothing
"""
import hashlib
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", ROOT)
CASE_TIMEOUT = 150


class Abort(Exception):
    """The case cannot go on after a recorded violation."""


class Timeout(Exception):
    pass


class Ctx:
    """Everything one case records."""

    def __init__(self, prop, tier, seed, index):
        self.prop, self.tier, self.seed, self.index = prop, tier, seed, index
        h = hashlib.sha256(("%s/%s/%s" % (seed, prop, index)).encode()).digest()
        self.rng = random.Random(h)
        self.tseed = int.from_bytes(h[:7], "big")
        self.fails = []  # (key, message)
        self.events = {}
        self.strata = set()
        self.hashes = set()
        self.margin = {}  # key -> worst error/tolerance
        self.desc = ""
        self.sample = None
        self._pre = ""

    # -- monitors
    def count(self, what, n=1):
        self.events[what] = self.events.get(what, 0) + n

    def cover(self, *names):
        self.strata.update(names)

    def seen(self, *payload):
        """Register a distinct non-trivial input."""
        h = hashlib.sha1()
        for p in payload:
            h.update(p if isinstance(p, bytes) else repr(p).encode())
        self.hashes.add(h.hexdigest()[:16])

    def fail(self, key, msg):
        self.fails.append((key, "%s%s [%s]" % (self._pre, msg, self.desc)))

    def call(self, op, fn, *a, **kw):
        """One call at the client boundary; an exception is a violation."""
        self.count("calls")
        try:
            return fn(*a, **kw)
        except (Timeout, KeyboardInterrupt):
            raise
        except Exception as e:  # noqa: B902
            tb = traceback.extract_tb(e.__traceback__)
            where = ["%s:%d" % (os.path.basename(t.filename), t.lineno) for t in tb if t.filename.startswith(REPO)]
            if isinstance(e, MemoryError):
                raise
            self.fail("%s raises %s" % (op, type(e).__name__), "%s raised %s: %s at %s" % (op, type(e).__name__, str(e)[:200], where[-3:]))
            raise Abort()

    def expect(self, key, ok, msg=""):
        self.count("expectations")
        if not ok:
            self.fail(key, "%s: %s" % (key, msg() if callable(msg) else msg))
        return bool(ok)

    def close(self, key, got, want, tol, msg=""):
        """Elementwise |got - want| <= tol; NaN never passes."""
        import numpy as np

        got = to_np(got)
        want = np.asarray(want, dtype=np.float64)
        self.count("expectations")
        self.count("values", int(want.size))
        if got.shape != want.shape:
            self.fail(key, "%s: shape %s, want %s %s" % (key, got.shape, want.shape, msg))
            return False
        if want.size == 0:
            return True
        with np.errstate(all="ignore"):
            err = np.abs(got - want)
            both = (got == want)
            err = np.where(both, 0.0, err)
            r = err / tol
        bad = ~(r <= 1.0)
        fin = r[np.isfinite(r)]
        if fin.size:
            self.margin[key] = max(self.margin.get(key, 0.0), float(fin.max()))
        if bad.any():
            rr = np.where(np.isnan(r), np.inf, r)
            i = np.unravel_index(int(np.argmax(rr)), r.shape) if r.shape else ()
            t = tol[i] if isinstance(tol, np.ndarray) and tol.shape == r.shape else tol
            self.fail(key, "%s: got %r want %r at %s (tolerance %s, %d of %d values off) %s" % (
                key, float(got[i]), float(want[i]), tuple(int(x) for x in i), np.max(t), int(bad.sum()), int(bad.size), msg))
            return False
        return True


def to_np(x):
    import numpy as np

    if hasattr(x, "detach"):
        return x.detach().double().cpu().numpy()
    return np.asarray(x, dtype=np.float64)


# ----------------------------------------------------------------- running
_MOD = None


def _alarm(*_):
    raise Timeout()


def _load(prop):
    global _MOD
    if _MOD is None:
        import importlib

        sys.path.insert(0, REPO)
        import torch
        import warnings

        warnings.filterwarnings("ignore")
        torch.set_num_threads(1)
        import torch_struct

        src = os.path.realpath(torch_struct.__file__)
        if not src.startswith(os.path.realpath(REPO) + os.sep):
            raise RuntimeError("torch_struct imported from %s, not from %s" % (src, REPO))
        _MOD = importlib.import_module("vmon.props." + prop.lower())
    return _MOD


def run_one(prop, tier, seed, index):
    mod = _load(prop)
    import torch

    ctx = Ctx(prop, tier, seed, index)
    torch.manual_seed(ctx.tseed)
    status, err = "ok", ""
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_TIMEOUT)
    try:
        mod.case(ctx, index)
    except Abort:
        pass
    except Timeout:
        status, err = "timeout", "case %d exceeded %d s" % (index, CASE_TIMEOUT)
    except Exception:
        status, err = "error", traceback.format_exc()
    finally:
        signal.alarm(0)
    return dict(
        index=index, status=status, err=err, fails=ctx.fails, events=ctx.events, strata=sorted(ctx.strata),
        hashes=sorted(ctx.hashes), margin=ctx.margin, desc=ctx.desc, sample=ctx.sample, wall=time.time() - t0,
    )


def _worker(args):
    return run_one(*args)


def known_findings(prop):
    """key -> text of the findings recorded for this property."""
    out = {}
    with open(os.path.join(ROOT, "known_findings.json")) as f:
        for e in json.load(f)["known"]:
            if e["property"] == prop:
                out[e["key"]] = e["what"]
    return out


def main(prop, tier, seed, only=None, cap=None, verbose=False, workers=None):
    t0 = time.time()
    try:
        mod = _load(prop)
    except Exception:
        traceback.print_exc()
        print("INCONCLUSIVE property=%s the code under test cannot be imported" % prop)
        return 2
    n = mod.N[tier]
    wall_cap = cap or {"quick": 420, "thorough": 780}[tier]
    idx = list(range(n)) if only is None else list(only)
    results = []
    capped = False
    workers = workers or min(8, os.cpu_count() or 1, len(idx))
    if workers <= 1:
        for i in idx:
            results.append(run_one(prop, tier, seed, i))
    else:
        with mp.get_context("fork").Pool(workers) as pool:
            it = pool.imap_unordered(_worker, [(prop, tier, seed, i) for i in idx], chunksize=1)
            for _ in idx:
                left = wall_cap - (time.time() - t0)
                try:
                    results.append(it.next(timeout=max(left, 0.01)))
                except mp.TimeoutError:
                    capped = True
                    break
            pool.terminate()
    results.sort(key=lambda r: r["index"])

    known = known_findings(prop)
    events, strata, hashes, margin = {}, {}, set(), {}
    fails, hits, errors = [], {}, []
    for r in results:
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for s in r["strata"]:
            strata[s] = strata.get(s, 0) + 1
        hashes.update(r["hashes"])
        for k, v in r["margin"].items():
            margin[k] = max(margin.get(k, 0.0), v)
        for key, msg in r["fails"]:
            if key in known:
                hits[key] = hits.get(key, 0) + 1
            else:
                fails.append((r["index"], key, msg))
        if r["status"] != "ok":
            errors.append((r["index"], r["status"], r["err"]))

    for key in sorted(hits):
        print("KNOWN-FINDING: property=%s %s (%s; seen %d times)" % (prop, known[key], key, hits[key]))

    code, verdict = 0, "held"
    replay = None
    if fails:
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        replay = os.path.join(OUT, "replays", "%s-%s-%s.json" % (prop, tier, seed))
        with open(replay, "w") as f:
            json.dump(dict(property=prop, tier=tier, seed=seed, indices=sorted({i for i, _, _ in fails})[:50],
                           fails=[dict(index=i, key=k, message=m) for i, k, m in fails[:50]]), f, indent=1)
        by = {}
        for i, k, m in fails:
            by.setdefault(k, []).append((i, m))
        for k in sorted(by, key=lambda k: -len(by[k]))[:8]:
            print("  %s: %d times, first in case %d: %s" % (k, len(by[k]), by[k][0][0], by[k][0][1][:600]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        code, verdict = 1, "violated"
    elif errors:
        for i, s, e in errors[:3]:
            print("case %d %s: %s" % (i, s, e))
        print("INCONCLUSIVE property=%s %d harness errors or time-outs" % (prop, len(errors)))
        code, verdict = 2, "inconclusive"
    elif only is None:
        missing = [s for s in mod.REQUIRED if s not in strata]
        if not events.get("expectations") or not hashes:
            print("INCONCLUSIVE property=%s the monitors observed nothing" % prop)
            code, verdict = 3, "inconclusive"
        elif missing and not capped:
            print("INCONCLUSIVE property=%s strata never reached: %s" % (prop, missing))
            code, verdict = 3, "inconclusive"
        elif capped and len(results) < n // 4:
            print("INCONCLUSIVE property=%s only %d of %d cases finished in %d s" % (prop, len(results), n, wall_cap))
            code, verdict = 3, "inconclusive"

    wall = time.time() - t0
    ev = dict(
        property=prop, tier=tier, seed=seed, level="exploration",
        coverage=dict(
            evaluations=len(results),
            distinct_nontrivial=len(hashes),
            rule=mod.RULE,
            samples=[r["sample"] or r["desc"] for r in results[:: max(1, len(results) // 8)]][:8],
            expectations=events.get("expectations", 0), cases_planned=len(idx), capped=capped,
            events=events, strata=strata,
            worst_error_over_tolerance={k: round(v, 4) for k, v in sorted(margin.items())},
            known_findings_hit=hits, verdict=verdict,
            failed=[dict(index=i, key=k, message=m[:500]) for i, k, m in fails[:20]],
        ),
        wall_s=round(wall, 2),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        violations=len(fails),
    )
    if only is None:
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(os.path.join(OUT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
    print("%s %s seed=%s: %s; %d cases, %d expectations, %d distinct inputs, %.1f s%s" % (
        prop, tier, seed, verdict, len(results), events.get("expectations", 0), len(hashes), wall, " (capped)" if capped else ""))
    if verbose:
        for k, v in sorted(margin.items(), key=lambda x: -x[1])[:12]:
            print("   worst err/tol %-40s %.3f" % (k, v))
        print("   strata", strata)
        slow = sorted(results, key=lambda r: -r["wall"])[:5]
        print("   slowest", [(r["index"], round(r["wall"], 2), r["desc"]) for r in slow], "cpu", round(sum(r["wall"] for r in results), 1))
    return code
