"""C03: seed probabilities and stopping rules."""
import itertools

import numpy as np

from ..core import Suite
from .. import scenes as S

PROPERTY = "C03"
ASSUMPTIONS = ["positive probability is required of available sources at most 10000 iterations (20 targets for the sigmoid weighting) behind the least fitted one: beyond, double precision underflows"]

LAY = tuple((3.3 * i + 0.01 * i * i, 0.02 * i) for i in range(6))


def weights_ok(ctx, s, w, avail, n, what, span):
    w = np.array(w, dtype=float)
    ctx.check(w.shape == (s.n_sources,), f"{what}: shape {w.shape}")
    ctx.check(bool(np.all(np.isfinite(w))), f"{what}: not finite: {w}", avail=avail, n_iter=n)
    ctx.check(bool(np.all(w >= 0)), f"{what}: negative: {w}", avail=avail, n_iter=n)
    ctx.check(abs(w.sum() - 1) < 1e-8, f"{what}: sums to {w.sum()}", avail=avail, n_iter=n)
    try:
        with np.errstate(all="ignore"):
            np.random.choice(len(w), p=w)
    except ValueError as e:
        ctx.fail(f"{what}: can not be drawn from ({e})", avail=avail, n_iter=n)
    if not np.any(avail):
        return
    ctx.check(bool(np.all(w[~avail] == 0)), f"{what}: unavailable sources have weight: {w}", avail=avail, n_iter=n)
    a = np.flatnonzero(avail)
    near = (n[a] - n[a].min()) <= span
    ctx.check(bool(np.all(w[a][near] > 0)), f"{what}: an available source can never be drawn: {w}", avail=avail, n_iter=n)
    o = a[np.argsort(n[a], kind="stable")]
    tol = 1e-12 * w.max()
    ctx.check(bool(np.all(np.diff(w[o]) <= tol)), f"{what}: a source with more iterations is more likely: {w}",
              avail=avail, n_iter=n)
    same = n[o][1:] == n[o][:-1]
    ctx.check(bool(np.all(np.abs(np.diff(w[o]))[same] <= tol)), f"{what}: equal iterations, different weight: {w}")


def tables(case, ctx):
    kind, nsrc, valid = case["kind"], case["n"], np.array(case["valid"], dtype=bool)
    s = S.make(kind, LAY[:nsrc], tuple([0.4] * nsrc), target_niter=case["target"])
    for its in itertools.product(case["alphabet"], repeat=nsrc):
        n = np.array(its)
        c = s.sourcecat
        c["n_iter"] = n
        c["is_valid"] = valid
        for act in ([~valid] if nsrc > 3 else [~valid, np.zeros(nsrc, bool)]):
            c["is_active"] = act
            ctx.trail = [valid.tolist(), list(its), act.tolist()]
            absn = np.abs(n)
            weights_ok(ctx, s, s.seed_weight(), valid, absn, "seed_weight", 10000)
            weights_ok(ctx, s, s.exp_weight(), valid, absn, "exp_weight", 10000)
            if np.all(n >= 0):
                weights_ok(ctx, s, s.sigmoid_weight(), act == 0, n, "sigmoid_weight", 20 * case["target"])
            ctx.step(3)
        und = bool(np.any(absn < case["target"]))
        ctx.check(bool(s.undone) == und, f"undone is {s.undone} with n_iter={its}, target {case['target']}")
        ctx.state((valid, n))
    ctx.trace(len(ctx.states))


def sparsity(case, ctx):
    s = S.make(case["kind"], LAY[:case["n"]], tuple([0.4] * case["n"]), maxactive_fraction=case["frac"])
    for na in range(case["n"] + 1):
        s.n_active = na
        want = na < case["frac"] * case["n"]
        if abs(na - case["frac"] * case["n"]) > 1e-9:
            ctx.check(bool(s.sparse) == want, f"sparse is {s.sparse} with {na} of {case['n']} active, limit {case['frac']}")
        ctx.state((case["n"], na, case["frac"]))
        ctx.step()


class Draw:
    """stand-in for np.random.choice: records the probabilities and returns the
    prescribed outcomes in turn (the last one for ever)"""

    def __init__(self, seq):
        self.seq, self.i, self.ps = list(seq), 0, []

    def __call__(self, a, size=None, replace=True, p=None):
        n = len(a) if np.ndim(a) else int(a)
        self.ps.append(None if p is None else np.array(p, dtype=float))
        k = self.seq[min(self.i, len(self.seq) - 1)]
        self.i += 1
        if p is not None and self.ps[-1][k] == 0:
            pos = np.flatnonzero(self.ps[-1] > 0)
            k = int(pos[k % len(pos)])
        return a[k] if np.ndim(a) else k


def random_checkouts(case, ctx):
    """reachable states of the scene under random checkouts: every outcome of the
    draw is followed"""
    s0 = S.make(case["kind"], case["layout"], case["rhalf"], **case["cfg"])
    n = s0.n_sources
    todo = [(s0, [], [])]
    ctx.state(key(s0, []))
    real = np.random.choice
    while todo:
        s, out, trail = todo.pop()
        ref = [(S.idx(a), S.idx(f)) for a, f in out]
        valid = np.array(s.sourcecat["is_valid"]) != 0
        it = np.abs(np.array(s.sourcecat["n_iter"]))
        ctx.trail = trail
        weights_ok(ctx, s, s.seed_weight(), valid, it, "seed_weight", 10000)
        frac = s.n_active / s.n_sources
        ctx.check(s.n_active == int(np.sum(s.sourcecat["is_active"] != 0)), "n_active is not the number of active sources")
        ctx.check(bool(s.sparse) == (frac < s.maxactive_fraction), f"sparse is {s.sparse} at active fraction {frac}")
        ctx.check(bool(s.undone) == bool(np.any(it < s.target_niter)), "undone is wrong")
        before = S.snapshot(s)
        for k in range(n):
            for seq in ([k], [k, (k + 1) % n], [k, (k + 2) % n, (k + 1) % n]):
                t = S.clone(s)
                d = Draw(seq)
                np.random.choice = d
                try:
                    reg, act, fix = t.checkout_region()
                except Exception as e:
                    np.random.choice = real
                    ctx.trail = trail + [("random checkout", seq)]
                    ctx.fail(f"random checkout raised {type(e).__name__}: {e}", valid=valid, n_iter=it)
                finally:
                    np.random.choice = real
                ctx.step()
                ctx.trail = trail + [("random checkout", seq)]
                if np.any(valid):
                    for p in d.ps:
                        ctx.check(p is not None and np.all(p[~valid] == 0), f"seed drawn with probabilities {p} while "
                                  f"{np.flatnonzero(~valid)} are unavailable")
                if act is None:
                    ok, what = S.same(before, S.snapshot(t))
                    ctx.check(ok and fix is None, f"refused random checkout changed the scene ({what})")
                    ctx.outcome(("refused", len(out)))
                    continue
                ctx.check(np.any(valid), "random checkout succeeded although no source is available")
                a, f = S.idx(act), S.idx(fix)
                for ra, rf in ref:
                    ctx.check(not set(a + f) & set(ra + rf), "random checkout shares sources with another region")
                o2 = out + [(act, fix)]
                if ctx.state(key(t, o2)):
                    todo.append((t, o2, ctx.trail))
        for i, (act, fix) in enumerate(out):
            if len(trail) > case["depth"]:
                continue
            t = S.clone(s)
            t.checkin_region(act.copy(), fix, niter=case["niter"])
            ctx.step()
            o2 = out[:i] + out[i + 1:]
            if np.max(t.sourcecat["n_iter"]) <= 3 * case["niter"] and ctx.state(key(t, o2)):
                todo.append((t, o2, trail + [("checkin", S.idx(act))]))
    ctx.trace(len(ctx.states))


def key(s, out):
    return (np.array(s.sourcecat["is_valid"]), np.array(s.sourcecat["is_active"]), np.array(s.sourcecat["n_iter"]),
            S.canon_outstanding([(S.idx(a), S.idx(f)) for a, f in out]))


def suites(tier):
    q = tier == "quick"
    tb = []
    for kind in ("circ", "link"):
        for nsrc in ((1, 2, 3, 4) if q else (1, 2, 3, 4, 5)):
            for valid in itertools.product((0, 1), repeat=nsrc):
                for target in (1, 200):
                    al = (0, 1, 199, 200, 50000) if nsrc < 4 else (0, 200, 20000) if nsrc == 4 else (0, 5, 100000)
                    if not q:
                        al = al + (-3, 2000000000) if nsrc < 4 else al + (30,)
                    elif nsrc <= 2:
                        al = al + (-3, 1500, 2000000000)
                    tb.append(dict(kind=kind, n=nsrc, valid=valid, target=target, alphabet=al))
    sp = [dict(kind=k, n=n, frac=f) for k in ("circ", "link") for n in range(1, 7) for f in (0, 0.1, 0.25, 0.5, 0.9, 1.0, 2.0)]
    rc = []
    for lay in (list(S.line_layouts(4, (0.7, 5.3))) if q else list(S.line_layouts(4, (0.7, 2.3, 5.3, 9.1)))):
        for kind in ("circ", "link"):
            for mx in (1, 2):
                rc.append(dict(kind=kind, layout=lay, rhalf=tuple([0.5] * len(lay)), niter=60, depth=2 if q else 5,
                               cfg=dict(maxactive_per_patch=mx, boundary_radius=3., target_niter=100,
                                        maxactive_fraction=0.5)))
    return [Suite("tables", tb, tables, note="every availability pattern x iteration assignment from the alphabet"),
            Suite("sparse", sp, sparsity),
            Suite("random", rc, random_checkouts, note="every outcome of the seed draw from every reached state")]
