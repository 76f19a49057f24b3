"""C14: linear flux solutions, for every pattern of supplied and generating fluxes,
weights, sources, bands and exposures from finite alphabets, against float64 least
squares on the independent image model."""
import itertools
import os
import contextlib

import numpy as np

from ..core import Suite
from .. import env
env.load_kernel()
from .. import kern as K
from forcepho.fitting import optimize_fluxes, optimize_one_band

PROPERTY = "C14"
ASSUMPTIONS = ["CPU patches; single precision unit-flux images, so fluxes are compared within 1e-4 times the conditioning of the problem",
               "sources that the data can tell apart (well-conditioned normal equations)"]


def design(cat, exps, bands, mix):
    """float64 unit flux images, data and weights per band, in packed order"""
    X, y, w = [], [], []
    for b in bands:
        ee = [e for e in exps if e.band == b]
        X.append(np.array([np.concatenate([K.source_image(r, e, mix[b]) for e in ee]) for r in cat]))
        y.append(np.concatenate([e.data for e in ee]))
        w.append(np.concatenate([e.ierr for e in ee]))
    return X, y, w


def setup(nsrc, expb, wshift, weight=None):
    exps, bands, mix, cat, pf = K.config(nsrc, tuple(expb), ((1, 0), (2, 0)), 3, wshift, weight=weight)
    cat = K.catalog(nsrc, bands, spread=0.22)
    return exps, bands, mix, cat, pf


def generate(exps, bands, mix, cat, true, extra=None):
    """data = sum of the sources at the true fluxes (band, source)"""
    for e in exps:
        ib = bands.index(e.band)
        e.data = np.sum([true[ib][i] * K.source_image(r, e, mix[e.band]) for i, r in enumerate(cat)], axis=0) * 1.0
        if extra is not None:
            e.data = e.data + extra(e)


def solve(p, cat, **kw):
    with open(os.devnull, "w") as o, contextlib.redirect_stdout(o):
        return optimize_fluxes(p, cat, **kw)


def blur(cat, exps, band, X):
    """relative rounding of a unit-flux image obtained in single precision next to the data"""
    d = max(float(np.abs(e.data).max()) for e in exps if e.band == band)
    f = min([abs(float(v)) for v in cat[band] if v != 0] + [1.0])
    return 2e-7 * (d / f + np.abs(X).max()) / np.abs(X).max()


def check_solution(ctx, got, cat, exps, bands, mix, where, true=None, Xref=None):
    X, y, w = design(cat, exps, bands, mix) if Xref is None else Xref
    fl, pr = got[:2]
    ctx.check(len(fl) == len(bands) and len(pr) == len(bands), f"{where}: solution for {len(fl)} bands of {len(bands)}")
    for i, b in enumerate(bands):
        A = X[i] * w[i]
        ATA = A @ A.T
        cond = np.linalg.cond(ATA)
        if not cond < 1e5:
            continue
        best = np.linalg.solve(ATA, A @ (y[i] * w[i]))
        sc = np.abs(best).max() + np.sqrt(np.sum((y[i] * w[i]) ** 2) / np.diag(ATA).max()) * 0.1
        rel = 1e-5 + blur(cat, exps, b, X[i])
        ctx.check(np.shape(fl[i]) == (len(cat),), f"{where}: fluxes of {b} have shape {np.shape(fl[i])}")
        ctx.check(np.all(np.abs(fl[i] - best) <= rel * (1 + cond) * sc), f"{where}: fluxes in {b} are {fl[i]}, weighted least squares gives {best}")
        if true is not None:
            ctx.check(np.all(np.abs(fl[i] - true[i]) <= rel * (1 + cond) * sc), f"{where}: fluxes in {b} are {fl[i]}, the data were made with {true[i]}")
        ctx.check(np.shape(pr[i]) == (len(cat),) * 2 and np.all(np.abs(pr[i] - ATA) <= 10 * rel * np.abs(ATA).max()),
                  f"{where}: precision matrix of {b} is {np.round(pr[i], 6).tolist()}, inner products of the unit images {np.round(ATA, 6).tolist()}")
        ctx.step()
    return X, y, w


def run_fluxes(case, ctx):
    """all supplied flux patterns recover all generating flux patterns"""
    nsrc, expb, wshift, true0, supplied = case
    exps, bands, mix, cat, pf = setup(nsrc, expb, wshift)
    true = [np.array([t * (1 + 0.3 * ib) for t in true0], dtype=float) for ib in range(len(bands))]
    generate(exps, bands, mix, cat, true)
    p = K.make_patch(exps, bands, pf)
    with open(os.devnull, "w") as o, contextlib.redirect_stdout(o):
        model, q = p.prepare_model(active=cat)
    l0 = float(model.lnprob(q))
    d0 = np.array(p.data)
    X = None
    for sup in itertools.product(supplied, repeat=nsrc):
        c = cat.copy()
        for ib, b in enumerate(bands):
            c[b] = np.roll(sup, ib)
        keep = c.copy()
        got = solve(p, c, return_all=True)
        X = check_solution(ctx, got, c, exps, bands, mix, f"supplied fluxes {sup}, generating {true0}, exposures {expb}", true, X)
        ctx.check(np.array_equal(c, keep), "the caller's catalog changed")
        # unit images
        for ib, b in enumerate(bands):
            ctx.check(np.all(np.abs(got[2][ib] - X[0][ib]) <= (3e-5 + blur(c, exps, b, X[0][ib])) * np.abs(X[0][ib]).max()), f"supplied fluxes {sup}: unit-flux images of {b} differ from those of the sources")
            ctx.check(np.allclose(got[3][ib], X[1][ib], rtol=1e-6, atol=1e-6 * np.abs(X[1][ib]).max()) and np.allclose(got[4][ib], X[2][ib], rtol=1e-6), f"data or weights of {b}")
            m = true[ib] @ got[2][ib]
            ctx.check(np.all(np.abs(m - X[1][ib]) <= (5e-5 + blur(c, exps, b, X[0][ib])) * (np.abs(X[1][ib]).max() + np.abs(true[ib]).max() * np.abs(X[0][ib]).max())),
                      f"unit images of {b} times the fluxes are not the image")
        ctx.state(sup)
    ctx.check(np.array_equal(p.data, d0), "the pixel data changed")
    l1 = float(model.lnprob(q + 1e-9)), float(model.lnprob(q))
    ctx.check(l1[1] == l0, f"after the linear solution the prepared model gives {l1[1]}, before {l0}")
    ctx.outcome(case)


def flux_cases(tier):
    big = tier == "thorough"
    trues = {1: [(5.0,), (-2.0,), (0.0,), (1e3,)], 2: [(5.0, 2.0), (-1.0, 3.0), (0.0, 4.0), (300.0, 1.0), (0.0, 0.0)], 3: [(5.0, 2.0, 1.0), (0.0, -4.0, 7.0)]}
    sup = [0.0, -3.0, 1e-3, 6.0, 1e4]
    for nsrc in (1, 2, 3):
        for expb in [(1,), (2,), (1, 1), (2, 1)] if not big else [(1,), (2,), (1, 1), (2, 1), (1, 2), (1, 1, 1), (3,)]:
            for w in range(2 if not big else 6):
                for t in trues[nsrc]:
                    yield nsrc, expb, w, t, sup if nsrc < 3 or big else [0.0, -3.0, 6.0]


def run_general(case, ctx):
    """data that are not of the model: the weighted optimum; fixed sources subtracted; band orders; zero weights"""
    nsrc, expb, order, nfix, k = case
    exps, bands, mix, cat, pf = setup(nsrc, expb, k)
    true = [np.array([4.0 + i for i in range(nsrc)]) * (1 + ib) for ib in range(len(bands))]
    fixed = K.catalog(nfix, bands, spread=0.15, k=3) if nfix else None
    generate(exps, bands, mix, cat, true, extra=lambda e: 0.05 * np.sin(1.7 * e.xpix + 0.9 * e.ypix + k))
    if nfix:
        for e in exps:
            e.data = e.data + K.model_image(fixed, e, mix[e.band])[0]
    ask = [bands[i] for i in order]
    p = K.make_patch(exps, ask, pf)
    with open(os.devnull, "w") as o, contextlib.redirect_stdout(o):
        p.prepare_model(active=cat, fixed=fixed)
    used = [e for e in exps if e.band in ask]
    sub = [K.Exp(e.name, e.hdr, e.xpix, e.ypix, e.data - (K.model_image(fixed, e, mix[e.band])[0] if nfix else 0), e.ierr) for e in used]
    got = solve(p, cat)
    X = design(cat, sub, ask, mix)
    check_solution(ctx, got, cat, sub, ask, mix, f"{case}", None, X)
    # and the kernel agrees that it is the optimum
    c = cat.copy()
    for i, b in enumerate(ask):
        c[b] = got[0][i]
    p2 = K.make_patch(sub, ask, pf)
    chi, der, res, scene, prop = K.evaluate(p2, c)
    for i, b in enumerate(ask):
        sc = 2 * np.sum(np.abs(X[0][i] * X[1][i]) * X[2][i] ** 2, axis=1)
        ctx.check(np.all(np.abs(der[i, :, 0]) <= 2e-3 * sc), f"{case}: the chi-square of {b} still changes with the fluxes at the solution: {der[i, :, 0]}")
    for f in np.eye(nsrc):
        for h in (0.3, -0.3):
            d = c.copy()
            for i, b in enumerate(ask):
                d[b] = got[0][i] + h * f
            chi2 = K.evaluate(p2, d)[0]
            ctx.check(np.all(chi2 >= chi - 1e-5 * np.abs(chi)), f"{case}: chi-square decreases away from the solution ({chi} to {chi2})")
            ctx.step()
    ctx.outcome(case)


def general_cases(tier):
    big = tier == "thorough"
    for nsrc in (1, 2, 3):
        for expb in [(1,), (2,), (1, 1), (2, 1), (1, 1, 1)]:
            for m in range(1, len(expb) + 1):
                for order in itertools.permutations(range(len(expb)), m):
                    for nfix in (0, 2):
                        for k in range(1 if not big else 4):
                            yield nsrc, expb, order, nfix, k


def run_weights(case, ctx):
    """every zero-weight pattern of a period of pixels: those pixels do not matter"""
    masks, period, nsrc = case
    for m in masks:
        on = np.array([(m >> i) & 1 for i in range(period)], dtype=float)
        if on.sum() < 2:
            continue
        exps, bands, mix, cat, pf = setup(nsrc, (1, 1), 0, weight=on)
        true = [np.array([4.0, 2.5, 7.0])[:nsrc] * (1 + ib) for ib in range(len(bands))]
        generate(exps, bands, mix, cat, true)
        for e in exps:
            e.data = np.where(e.ierr == 0, 1e3 + e.data, e.data)
        p = K.make_patch(exps, bands, pf)
        with open(os.devnull, "w") as o, contextlib.redirect_stdout(o):
            p.prepare_model(active=cat)
        got = solve(p, cat)
        for e in exps:
            e.data = np.where(e.ierr == 0, 0.0, e.data)
        check_solution(ctx, got, cat, exps, bands, mix, f"weight pattern {on.astype(int).tolist()}", true)
        ctx.state(m)
    ctx.outcome(case)


def run_oneband(case, ctx):
    """the solver itself: all small integer problems"""
    n, npix, fx = case
    rng = [-1.0, 0.0, 2.0]
    Xs = [np.array(x).reshape(n, npix) for x in itertools.product([0.0, 1.0, -1.0], repeat=n * npix)]
    for X in Xs:
        for w in itertools.product([0.0, 1.0, 0.5], repeat=npix):
            w = np.array(w)
            A = X * w
            if abs(np.linalg.det(A @ A.T)) < 1e-9:
                continue
            y = np.array([1.5, -2.0, 0.5, 3.0])[:npix]
            f = np.array([0.25, 1.0, -1.0, 0.0])[:npix] if fx else 0
            flux, prec = optimize_one_band(X.copy(), w.copy(), y.copy(), fixedX=f)
            best = np.linalg.solve(A @ A.T, A @ ((y - f) * w))
            ctx.check(np.allclose(np.ravel(flux), best, rtol=1e-9, atol=1e-9) and np.allclose(prec, A @ A.T), f"X={X.tolist()} w={w} fixed={fx}: {np.ravel(flux)}, expected {best}")
            ctx.step()
    ctx.outcome(case)


def suites(tier):
    K.splinefile(3)
    for e in [(1,), (2,), (3,), (1, 1), (2, 1), (1, 2), (1, 1, 1)]:
        K.config(1, e, ((1, 0), (2, 0)), 3, 1)
    big = tier == "thorough"
    ms = list(range(64 if not big else 256))
    return [
        Suite("fluxes", flux_cases(tier), run_fluxes, note="all supplied flux patterns over 5 values x generating fluxes x exposures"),
        Suite("general", general_cases(tier), run_general, note="data outside of the model; every ordered band subset; fixed sources"),
        Suite("weights", [(ms[i::16], 6 if not big else 8, n) for i in range(16) for n in (1, 2)], run_weights, note="all zero-weight patterns of period 6 (8)"),
        Suite("solver", [(1, 2, f) for f in (0, 1)] + [(1, 3, f) for f in (0, 1)] + [(2, 2, f) for f in (0, 1)] + [(2, 3, f) for f in (0, 1)], run_oneband,
              note="all design matrices over {-1,0,1} and weights over {0,1/2,1}"),
    ]
