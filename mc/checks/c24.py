"""C24: optimisation and sampling.  Every combination of dimension, bounds, start, initial
covariance, draws, warm-up and options from finite alphabets runs the real drivers on models
that record every evaluation; the result is compared with the recorded evaluations, with
closed-form optima and with an independent least-squares solution."""
import argparse
import itertools
import logging
import warnings

import numpy as np

from ..core import Suite
from .. import env
env.load_kernel()
from .. import kern as K
from forcepho import fitting, tasks
from forcepho.model import BoundedTransform, Posterior, Transform
from forcepho.priors import ExpBeta
from forcepho.superscene import bounds_vectors, flux_bounds, make_bounds

PROPERTY = "C24"
ASSUMPTIONS = ["the sampler and minimiser themselves (littlemcmc, scipy) are taken as they are; what is decided is what the drivers hand "
               "them and what they make of the answer",
               "starts strictly inside the bounds", "mass matrices compared in single precision, as the sampler keeps them"]
RND = np.random.RandomState(7)
ROT = {1: np.eye(1), 2: np.array([[0.8, 0.6], [-0.6, 0.8]]), 3: np.linalg.qr(RND.normal(size=(3, 3)))[0]}


class Model(Posterior):
    """a quadratic or quartic ln-likelihood that remembers where it was evaluated"""
    _lnpriorfn = None
    _z = -99

    def __init__(self, n, kind, mean, **kw):
        super().__init__(**kw)
        self.kind, self.mean, self.seen = kind, np.array(mean, float), []
        ev = np.array([1.0, 3.0, 0.5])[:n]
        self.prec = ROT[n] @ np.diag(ev) @ ROT[n].T
        self.n = n
        self.sampling = True

    def value(self, q):
        d = q - self.mean
        l, g = -0.5 * d @ self.prec @ d, -self.prec @ d
        if self.kind == "quartic":
            l, g = l - 0.1 * np.sum(d ** 4), g - 0.4 * d ** 3
        return l, g

    def evaluate(self, z):
        z = np.array(z, dtype=float)
        q = self.make_transform(z)
        l, g = self.value(np.array(q))
        self._lnp = l + (self._lndetjac if self.sampling else 0.0)
        self._lnp_grad = g * self._jacobian + (self._lndetjac_grad if self.sampling else 0.0)
        self._z = z.copy()
        self.ncall += 1
        self.seen.append((z.copy(), np.array(q)))


BOUNDS = {None: None, "wide": (-6.0, 7.0), "near": (-1.0, 1.5), "off": (0.5, 2.0)}


def make(n, kind, bound, nobound="none"):
    mean = np.array([0.3, -0.2, 0.45])[:n]
    if bound is None:
        return Model(n, kind, mean, transform=Transform(n)), None, None
    lo = BOUNDS[bound][0] + 0.1 * np.arange(n)
    hi = BOUNDS[bound][1] + 0.2 * np.arange(n)
    return Model(n, kind, mean, lower=lo, upper=hi), lo, hi


def starts(n, lo, hi):
    if lo is None:
        return [np.zeros(n), np.linspace(-1.5, 2.0, n)]
    return [lo + f * (hi - lo) for f in (0.5, 0.08, np.linspace(0.9, 0.3, n))]


def inside(x, lo, hi):
    """inside the box up to rounding at its edge"""
    eps = 4e-16 * (np.abs(lo) + np.abs(hi) + (hi - lo))
    return bool((x >= lo - eps).all() and (x <= hi + eps).all())


# ---- mass matrix ----------------------------------------------------------

def covs(n):
    pd = ROT[n] @ np.diag([0.5, 2.0, 1.3][:n]) @ ROT[n].T
    out = {"none": None, "eye": np.eye(n), "diag": np.diag([0.3, 1.7, 0.9][:n]), "full": pd,
           "small": 1e-3 * pd, "zero": np.zeros((n, n))}
    if n > 1:
        out["singular"] = np.ones((n, n))
        out["indefinite"] = pd - (np.linalg.eigvalsh(pd)[0] + 1.5e-3) * np.eye(n)
    return out


def traces(n):
    r = np.random.RandomState(3)
    full = ROT[n] @ np.diag([0.5, 2.0, 1.3][:n]) @ r.normal(size=(n, 40))
    flat = np.outer(np.arange(1, n + 1), np.linspace(0, 1, 12))
    return {"none": None, "full": full, "flat": flat}


def run_pot(case, ctx):
    n, c, t, full, weight = case
    cov, tr = covs(n)[c], traces(n)[t]
    c0 = None if cov is None else cov.copy()
    t0 = None if tr is None else tr.copy()
    mean = np.linspace(0.1, 0.4, n)
    m0 = mean.copy()
    pot = fitting.get_pot(n, init_mean=mean, init_cov=cov, trace=tr, full=full, weight=weight)
    ctx.check(cov is None or np.array_equal(cov, c0), f"{case}: the caller's covariance was changed")
    ctx.check(tr is None or np.array_equal(tr, t0), f"{case}: the caller's trace was changed")
    ctx.check(np.array_equal(mean, m0), f"{case}: the caller's mean was changed")
    base = c0 if c0 is not None else (np.atleast_2d(np.cov(t0, rowvar=True)) if t0 is not None else np.eye(n))
    got = np.array([pot.velocity(np.eye(n)[i].astype(np.float32)) for i in range(n)], dtype=float).T
    if not full:
        ctx.check(np.allclose(got, np.diag(np.diag(got))), f"{case}: diagonal mass matrix has off-diagonal entries")
        add = np.diag(got) - np.diag(base)
    else:
        d = got - base
        ctx.check(np.abs(d - np.diag(np.diag(d))).max() <= 1e-6 * max(1e-3, np.abs(base).max()), f"{case}: off-diagonal elements differ from what was given")
        ctx.check(np.linalg.eigvalsh(0.5 * (got + got.T))[0] > 0, f"{case}: not positive definite")
        add = np.diag(d)
    tol = 1e-6 * max(1e-3, np.abs(base).max())
    ctx.check(np.abs(add - add[0]).max() <= tol and add[0] >= -tol, f"{case}: the diagonal was changed by {add.tolist()}")
    if np.linalg.eigvalsh(base)[0] > 1e-8:
        ctx.check(abs(add[0]) <= tol, f"{case}: a positive definite matrix was changed by {add[0]:g} on the diagonal")
    else:
        ctx.check(0 < add[0] <= 5.1e-3, f"{case}: a singular matrix was changed by {add[0]:g} on the diagonal")
    # it adapts as one that starts from the mean and covariance given
    from littlemcmc import QuadPotentialDiagAdapt, QuadPotentialFullAdapt
    m = np.mean(t0, axis=1) if c0 is None and t0 is not None else m0
    ref = (QuadPotentialFullAdapt if full else QuadPotentialDiagAdapt)(n, m, got.copy() if full else np.diag(got).copy(), weight)
    r = np.random.RandomState(4)
    for i in range(3 * 101 if weight == 10 else 102):
        x, g = r.normal(size=n), r.normal(size=n)
        for p in (pot, ref):
            p.update(x.copy(), g.copy(), True)
    v = [np.array([p.velocity(np.eye(n)[i].astype(np.float32)) for i in range(n)], dtype=float) for p in (pot, ref)]
    ctx.check(np.allclose(v[0], v[1], rtol=1e-3, atol=1e-5), f"{case}: after {102} samples the mass matrix is {v[0].tolist()}, expected {v[1].tolist()}")
    ctx.outcome(np.round(got, 5))


def pot_cases(tier):
    for n in (1, 2, 3):
        for c in covs(n):
            for t in traces(n):
                for full in (True, False):
                    for w in (0, 1, 10, 50):
                        if n == 1 and t != "none" and c == "none":
                            continue                  # the covariance of one row is a scalar
                        yield n, c, t, full, w


# ---- sampling -------------------------------------------------------------

def run_sample(case, ctx):
    n, kind, bound, si, draws, tune, discard, full, c, seed = case
    runs = []
    for rep in range(2):
        model, lo, hi = make(n, kind, bound)
        q = starts(n, lo, hi)[si]
        q0 = q.copy()
        cov = covs(n)[c]
        c0 = None if cov is None else cov.copy()
        np.random.seed(rep)
        kw = {} if seed is None else dict(random_seed=seed)
        res, step, stats = fitting.run_lmc(model, q, draws, warmup=[tune], full=full, z_cov=cov, discard_tuned_samples=discard, max_treedepth=4, **kw)
        ctx.check(np.array_equal(q, q0) and (cov is None or np.array_equal(cov, c0)), f"{case}: the caller's start or covariance was changed")
        runs.append((res, stats, model))
    res, stats, model = runs[0]
    chain = np.array(res.chain)
    ctx.check(np.array_equal(chain, runs[1][0].chain), f"{case}: the same seed gave another chain")
    want = draws + (0 if discard else tune)
    ctx.check(chain.shape == (want, n), f"{case}: chain has shape {chain.shape}, asked for {draws} draws after {tune}")
    ctx.check(len(stats) == want, f"{case}: {len(stats)} statistics for {want} samples")
    ctx.check(sum(bool(s["tune"]) for s in stats) == want - draws, f"{case}: tuning flags do not match")
    ctx.check(np.array_equal(res.starting_position, q0) and res.ndim == n, f"{case}: start {res.starting_position}, {res.ndim} dimensions")
    ctx.check(res.n_call == model.ncall == len(model.seen), f"{case}: {res.n_call} calls reported, {len(model.seen)} made")
    zs, qs = np.array([s[0] for s in model.seen]), np.array([s[1] for s in model.seen])
    ctx.check(np.isfinite(zs).all(), f"{case}: evaluated at a position that is not finite")
    if lo is not None:
        ctx.check(inside(qs, lo, hi), f"{case}: evaluated outside the bounds")
        ctx.check(inside(chain, lo, hi), f"{case}: chain leaves the bounds")
    ctx.check(np.abs(qs[0] - q0).max() <= 1e-9 * (1 + np.abs(q0).max()), f"{case}: first evaluation at {qs[0]}, start was {q0}")
    for i, row in enumerate(chain):
        d = np.abs(qs - row).max(axis=1)
        k = int(np.argmin(d))
        ctx.check(d[k] <= 1e-12 * (1 + np.abs(row).max()), f"{case}: sample {i} was never evaluated")
        ref, _, _ = make(n, kind, bound)
        lp = ref.lnprob(zs[k])
        ctx.check(abs(lp - float(stats[i]["model_logp"])) <= 1e-9 * (1 + abs(lp)), f"{case}: sample {i} has ln-probability {lp:.10g}, "
                  f"recorded {float(stats[i]['model_logp']):.10g}")
        ctx.step()
    if tune == 0:
        base = np.eye(n) if c0 is None else c0
        got = np.array([step.potential.velocity(np.eye(n)[i].astype(np.float32)) for i in range(n)], dtype=float).T
        want = base if full else np.diag(np.diag(base))
        ctx.check(np.allclose(got, want, rtol=1e-5, atol=5.1e-3 if c == "singular" else 1e-6), f"{case}: mass matrix is {got.tolist()}")
    ctx.outcome(np.round(chain, 6))


def sample_cases(tier):
    big = tier == "thorough"
    for n, bound in itertools.product((1, 2, 3), (None, "wide", "near", "off")):
        nstart = 2 if bound is None else 3
        for si in range(nstart):
            for draws, tune in ((1, 0), (3, 0), (4, 3), (2, 6)) if not big else ((1, 0), (3, 0), (4, 3), (2, 6), (10, 10), (30, 60)):
                for discard in (True, False):
                    for full in (True, False):
                        for c in ("none", "full") + (("singular", "small") if big and n > 1 else ()):
                            for seed in (None,) + ((0,) if (c, si) == ("full", 0) or big else ()) + ((5,) if big else ()):
                                for kind in ("quadratic",) if not big else ("quadratic", "quartic"):
                                    yield n, kind, bound, si, draws, tune, discard, full, c, seed


# ---- optimisation ---------------------------------------------------------

def boxed(prec, mean, lo, hi):
    """minimum of the quadratic inside the box, by its faces"""
    n = len(mean)
    best = None
    for face in itertools.product((0, -1, 1), repeat=n):
        x = np.array([0 if f == 0 else (lo[i] if f < 0 else hi[i]) for i, f in enumerate(face)], dtype=float)
        free = [i for i in range(n) if face[i] == 0]
        fix = [i for i in range(n) if face[i] != 0]
        if free:
            b = -prec[np.ix_(free, fix)] @ (x[fix] - mean[fix]) if fix else np.zeros(len(free))
            x[free] = mean[free] + np.linalg.solve(prec[np.ix_(free, free)], b)
        if np.all(x >= lo - 1e-12) and np.all(x <= hi + 1e-12):
            v = 0.5 * (x - mean) @ prec @ (x - mean)
            if best is None or v < best[0]:
                best = (v, x)
    return best


def run_opt(case, ctx):
    n, kind, bound, si, driver, jac = case
    model, lo, hi = make(n, kind, bound)
    model.sampling = False
    q = starts(n, lo, hi)[si]
    q0 = q.copy()
    fn = getattr(fitting, driver)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        kw = dict(disp=False, iprint=-1) if driver == "run_opt_bounded" else {}
        res, sci = fn(model, q, jac=jac, **kw)
    ctx.check(np.array_equal(q, q0), f"{case}: the caller's start was changed")
    chain = np.array(res.chain)
    ctx.check(chain.shape == (1, n) and res.ndim == n and np.array_equal(res.starting_position, q0), f"{case}: chain shape {chain.shape}")
    qs = np.array([s[1] for s in model.seen])
    if lo is not None:
        ctx.check(inside(qs, lo, hi), f"{case}: evaluated outside the bounds")
        ctx.check(inside(chain, lo, hi), f"{case}: result outside the bounds")
    ctx.check(np.abs(qs[0] - q0).max() <= 1e-9 * (1 + np.abs(q0).max()), f"{case}: first evaluation at {qs[0]}, start was {q0}")
    v0, v1 = -model.value(q0)[0], -model.value(chain[0])[0]
    ctx.check(v1 <= v0 + 1e-9 * (1 + abs(v0)), f"{case}: objective went from {v0:.8g} to {v1:.8g}")
    ctx.check(abs(v1 - res.fun) <= 1e-6 * (1 + abs(v1)), f"{case}: objective at the result is {v1:.8g}, reported {res.fun:.8g}")
    ctx.check(abs(v1 + np.squeeze(res.lnp)) <= 1e-6 * (1 + abs(v1)), f"{case}: ln-probability at the result is {-v1:.8g}, reported {np.squeeze(res.lnp):.8g}")
    ctx.check(np.allclose(model.transform.transform(np.array(sci.x)), chain[0], rtol=1e-12, atol=1e-12), f"{case}: result is not the transformed optimum")
    if kind == "quadratic":
        v, x = (0.0, model.mean) if lo is None else boxed(model.prec, model.mean, lo, hi)
        ctx.check(v1 - v <= 2e-3, f"{case}: stopped at {chain[0].tolist()} ({v1:.6g}), the optimum is {x.tolist()} ({v:.6g})")
    ctx.step(len(qs))
    ctx.outcome(np.round(chain, 4))


def opt_cases(tier):
    for n, kind, bound in itertools.product((1, 2, 3), ("quadratic", "quartic"), (None, "wide", "near", "off")):
        for si in range(2 if bound is None else 3):
            for driver in ("run_opt", "run_opt_bounded"):
                for jac in (True, False):
                    yield n, kind, bound, si, driver, jac


# ---- the tasks that a worker runs -----------------------------------------

def bed(nsrc, nfix, expb, k):
    exps, bands, mix, cat, pf = K.config(nsrc + nfix, tuple(expb), ((2, 0), (1, 1)), 3, k, cat_kw=dict(spread=0.22, k=k))
    im, _, _, _ = K.reference(cat, exps, mix)
    for e in exps:
        e.data = im[e.name] + 0.02 * e.data
        e.ierr = 30.0 * e.ierr
    p = K.make_patch(exps, bands, pf)
    cat["n_iter"] = 7 + np.arange(len(cat))
    return exps, bands, mix, cat, p


def linear(exps, bands, mix, active, fixed):
    """weighted least-squares fluxes per band and their precision matrix, given the shapes"""
    out, prec = {}, {}
    for b in bands:
        A, y = [], []
        for e in exps:
            if e.band != b:
                continue
            d = e.data.astype(np.float32).astype(float)
            if fixed is not None and len(fixed):
                d = d - K.model_image(fixed, e, mix[b])[0]
            A.append(np.array([K.source_image(r, e, mix[b]) for r in active]).T * e.ierr[:, None])
            y.append(d * e.ierr)
        A = np.concatenate(A)
        out[b], prec[b] = np.linalg.lstsq(A, np.concatenate(y), rcond=None)[0], A.T @ A
    return out, prec


def other_columns(ctx, got, want, skip, where):
    for c in want.dtype.names:
        if c not in skip:
            ctx.check(c in got.dtype.names and np.array_equal(got[c], want[c]), f"{where}: column {c} changed")


def run_task(case, ctx):
    which, nsrc, nfix, expb, k, barriers, lin = case
    exps, bands, mix, cat, p = bed(nsrc, nfix, expb, k)
    active, fixed = cat[:nsrc].copy(), (cat[nsrc:].copy() if nfix else None)
    bounds = make_bounds(active, bands)
    a0, b0, f0 = active.copy(), bounds.copy(), None if fixed is None else fixed.copy()
    cfg = argparse.Namespace(bands=bands, add_barriers=barriers, gtol=3000.0 if lin else 1e-2, linear_optimize=lin, flux_prior_expansion=5.0,
                             sampling_draws=3, warmup=[2 * (k % 2)], max_treedepth=2, progressbar=False)
    log = logging.getLogger("c24")
    pad = argparse.Namespace()
    shapes = K.SHAPES
    if which == "optimize":
        (out, step, stats), (region, act, fix, bnd), model = tasks.optimize(p, ("region", active, fixed, bounds), cfg, log, scratchpad=pad)
    else:
        n = nsrc * (len(bands) + 6)
        cov = None if k == 1 else np.diag(np.linspace(0.5, 1.5, n)) + 0.02 * k + 0.01
        (out, step, stats), (region, act, fix, bnd), model = tasks.sample(p, ("region", active, fixed, bounds), cfg, log, cov=cov, scratchpad=pad)
    ctx.check(region == "region", f"{case}: the region was changed")
    ctx.check((fix is None and f0 is None) or np.array_equal(fix, f0), f"{case}: the fixed sources were changed")
    ctx.check(np.array_equal(active, a0), f"{case}: the caller's catalog was changed")
    ref = np.array(p.patch_reference_coordinates, dtype=float)
    lo, hi = bounds_vectors(b0, bands, shapenames=shapes, reference_coordinates=ref)
    chain = np.array(out.chain)
    ctx.check(chain.shape[1] == len(lo), f"{case}: chain has {chain.shape[1]} columns")
    ctx.check(inside(chain, lo, hi), f"{case}: chain outside the prior bounds")
    last = K.theta_to_cat(chain[-1], a0, bands, ref)
    if which == "sample":
        ctx.check(chain.shape[0] == 3 + 2 * (k % 2), f"{case}: {chain.shape[0]} samples for 3 draws after {2 * (k % 2)}")
        if k % 2 == 0:
            got = np.array([step.potential.velocity(np.eye(n)[i].astype(np.float32)) for i in range(n)], dtype=float).T
            ctx.check(np.allclose(got, cov, rtol=1e-5, atol=1e-6), f"{case}: the sampler's mass matrix is not the one of the task")
        q0 = K.theta_to_cat(np.array(out.starting_position), a0, bands, ref)
        for c in bands + shapes:
            ctx.check(np.allclose(q0[c], a0[c], rtol=1e-9, atol=1e-9), f"{case}: sampling did not start at the catalog's {c}")
        ctx.check(np.array_equal(act, a0) and np.array_equal(bnd, b0), f"{case}: sampling changed the catalog or the bounds")
        # the recorded probabilities are those of a fresh model
        exps2, bands2, mix2, cat2, p2 = bed(nsrc, nfix, expb, k)
        m2, _ = p2.prepare_model(active=a0.copy(), fixed=f0, bounds=b0.copy())
        for i in range(len(chain)):
            z = m2.transform.inverse_transform(chain[i])
            lp = m2.lnprob(z)
            ctx.check(abs(lp - float(stats[i]["model_logp"])) <= 1e-5 * (1 + abs(lp)), f"{case}: sample {i} has ln-probability {lp:.9g}, recorded "
                      f"{float(stats[i]['model_logp']):.9g}")
        return
    ctx.check(model._lnpriorfn is None and bool(model.sampling), f"{case}: the model was left with barriers or without the volume correction")
    skip = set(bands + shapes) | {"roi", "n_iter"}
    other_columns(ctx, act, a0, skip, f"{case}")
    for c in shapes + ([] if lin else bands):
        ctx.check(np.allclose(act[c], last[c], rtol=1e-6, atol=1e-9), f"{case}: returned {c} {act[c].tolist()}, optimum {last[c].tolist()}")
    start = np.array(pad.q_start)
    ctx.check(inside(start, lo, hi), f"{case}: random start outside the bounds")
    # what was minimised is the posterior in the bounded parameters, without the volume of the transform
    _, _, _, _, p2 = bed(nsrc, nfix, expb, k)
    m2, _ = p2.prepare_model(active=a0.copy(), fixed=f0, bounds=b0.copy())
    if barriers:
        m2._lnpriorfn = ExpBeta(m2.transform.lower, m2.transform.upper)
    m2.sampling = False
    nll = [-m2.lnprob(m2.transform.inverse_transform(v)) for v in (start, chain[-1])]
    ctx.check(abs(nll[1] - out.fun) <= 1e-5 * (1 + abs(nll[1])), f"{case}: the optimum has -ln(p) {nll[1]:.9g}, reported {out.fun:.9g}")
    ctx.check(nll[1] <= nll[0] + 1e-5 * (1 + abs(nll[0])), f"{case}: -ln(p) went from {nll[0]:.9g} to {nll[1]:.9g}")
    if not barriers:
        want = [0.0, 0.0]
        for j, v in enumerate((start, chain[-1])):
            c = K.theta_to_cat(v, a0, bands, ref)
            for e in exps:
                m = K.model_image(c, e, mix[e.band])[0] + (K.model_image(f0, e, mix[e.band])[0] if nfix else 0.0)
                want[j] += float(np.sum(((e.data - m) * e.ierr) ** 2))
        ctx.check(want[1] <= want[0] * (1 + 1e-4), f"{case}: chi-square went from {want[0]:.7g} to {want[1]:.7g}")
    if not lin:
        ctx.check(np.array_equal(bnd, b0), f"{case}: the bounds changed")
        return
    want, prec = linear(exps, bands, mix, act, f0)
    for b in bands:
        s = np.abs(want[b]).max()
        ctx.check(np.allclose(act[b], want[b], rtol=1e-3, atol=1e-3 * s), f"{case}: fluxes {act[b].tolist()} in {b}, least squares gives {want[b].tolist()}")
        ctx.check((bnd[b][:, 0] < act[b]).all() and (act[b] < bnd[b][:, 1]).all(), f"{case}: flux outside its new bounds")
        blo, bhi = flux_bounds(np.array(want[b]), 5.0, precisions=prec[b])
        w = np.array(bhi) - np.array(blo)
        ctx.check(np.allclose(bnd[b][:, 1] - bnd[b][:, 0], w, rtol=0.02), f"{case}: new flux bounds of {b} have widths "
                  f"{(bnd[b][:, 1] - bnd[b][:, 0]).tolist()}, the uncertainties imply {w.tolist()}")
    for c in shapes:
        ctx.check(np.array_equal(bnd[c], b0[c]), f"{case}: bounds of {c} changed")
    ctx.outcome(np.round(chain, 3))


def run_sequence(case, ctx):
    """several tasks on one patcher: each one answers as it would on a new one"""
    seq, nfix, expb, k, lin = case
    exps, bands, mix, cat, p = bed(2, nfix, expb, k)
    cfg = argparse.Namespace(bands=bands, add_barriers=False, gtol=3000.0 if lin else 1.0, linear_optimize=lin, flux_prior_expansion=5.0,
                             sampling_draws=2, warmup=[1], max_treedepth=2, progressbar=False)
    log = logging.getLogger("c24")
    scene = {}
    for i, (kind, who) in enumerate(seq):
        # each step fits one subset of the sources, the others (of this step) are fixed or absent
        act = cat[list(who)].copy()
        rest = [j for j in range(len(cat)) if j not in who]
        fix = cat[rest].copy() if nfix and rest else None
        bnd = make_bounds(act, bands)
        res = []
        for patcher in (p, bed(2, nfix, expb, k)[4]):
            np.random.seed(11 + i)
            fn = tasks.optimize if kind == "o" else tasks.sample
            (out, step, stats), sc, model = fn(patcher, ("region", act.copy(), None if fix is None else fix.copy(), bnd.copy()), cfg, log,
                                               scratchpad=argparse.Namespace())
            res.append((np.array(out.chain), sc[1], sc[3]))
        ctx.check(res[0][0].shape == res[1][0].shape and np.allclose(res[0][0], res[1][0], rtol=1e-4, atol=1e-5),
                  f"{case}: step {i} ends at {res[0][0][-1].tolist()}, on a new patcher at {res[1][0][-1].tolist()}")
        for c in res[1][1].dtype.names:
            a, b = res[0][1][c], res[1][1][c]
            ctx.check(np.allclose(a, b, rtol=1e-4, atol=1e-5) if a.dtype.kind == "f" else np.array_equal(a, b),
                      f"{case}: step {i}: {c} {a.tolist()}, on a new patcher {b.tolist()}")
        for c in res[1][2].dtype.names:
            a, b = res[0][2][c], res[1][2][c]
            ctx.check(np.allclose(a, b, rtol=1e-4, atol=1e-5), f"{case}: step {i}: bounds of {c} {a.tolist()}, on a new patcher {b.tolist()}")
        ctx.step()
    ctx.outcome(np.round(res[0][0], 3))


def sequence_cases(tier):
    big = tier == "thorough"
    ops = [(kind, who) for kind in "os" for who in ((0,), (0, 1), (1,))]
    for n in (2,) if not big else (2, 3):
        for seq in itertools.product(ops, repeat=n):
            for nfix in (0, 1):
                for expb in ((2, 1),) if not big or n == 3 else ((1,), (1, 1), (2, 1)):
                    for lin in (False, True):
                        if lin and not any(o[0] == "o" for o in seq):
                            continue
                        yield seq, nfix, expb, 0, lin


def task_cases(tier):
    big = tier == "thorough"
    for nsrc in (1, 2) if not big else (1, 2, 3):
        for nfix in (0, 1) if not big else (0, 1, 2):
            for expb in ((1,), (1, 1), (2, 1)) if not big else ((1,), (2,), (1, 1), (2, 1), (1, 2), (2, 2), (1, 1, 1)):
                for k in (0, 1, 2) if not big else (0, 1, 2, 3, 4, 5):
                    for barriers in (False, True):
                        for lin in (False, True):
                            yield "optimize", nsrc, nfix, expb, k, barriers, lin
                    yield "sample", nsrc, nfix, expb, k, False, False


def suites(tier):
    return [Suite("potential", pot_cases(tier), run_pot, note="dimension x covariance x trace x full/diagonal x weight"),
            Suite("sample", sample_cases(tier), run_sample, note="dimension x bounds x start x draws x tuning x discard x mass matrix, twice each"),
            Suite("optimise", opt_cases(tier), run_opt, note="dimension x objective x bounds x start x driver x gradient"),
            Suite("tasks", task_cases(tier), run_task, note="sources x fixed x exposures x barriers x linear step"),
            Suite("sequences", sequence_cases(tier), run_sequence, note="every sequence of tasks on one patcher: kind x active sources, fixed or not, linear or not")]
