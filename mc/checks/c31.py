"""C31: the tools that make Gaussian approximations of Sersic profiles.  Every combination of
index, size, smoothing, dispersions and amplitudes from finite alphabets through the real
functions, against direct quadrature of the profile (and of its convolution) and against sums
written out term by term; small grids of fits, and the files they write, against the optimum
of the same objective found by non-negative least squares."""
import contextlib
import itertools
import os
import shutil
import tempfile
import warnings

os.environ["MPLBACKEND"] = "Agg"
import h5py
import numpy as np
from scipy.integrate import quad
from scipy.optimize import brentq, nnls
from scipy.special import ive

from ..core import Suite
from .. import env
env.load_kernel()
from .. import kern as K

PROPERTY = "C31"
ASSUMPTIONS = ["indices 1 to 4 for smoothed profiles, smoothing up to half of the half-light radius, within 14 smoothing lengths of the centre",
               "how close to the optimum a fit gets is left to scipy's minimisers"]
warnings.filterwarnings("ignore", category=RuntimeWarning)


def mod():
    from forcepho.mixtures import sersic_mix_oned
    return sersic_mix_oned


_BN = {}


def bn(n):
    """the exponent at the half-light radius, from the definition"""
    if n not in _BN:
        tot = quad(lambda t: t ** (2 * n - 1) * np.exp(-t), 0, np.inf, limit=200, epsabs=0, epsrel=1e-12)[0]
        _BN[n] = brentq(lambda b: quad(lambda t: t ** (2 * n - 1) * np.exp(-t), 0, b, limit=200, epsabs=0, epsrel=1e-12)[0] / tot - 0.5, 0.05, 40, xtol=1e-13)
    return _BN[n]


def intensity(r, n, rh):
    return np.exp(-bn(n) * ((np.asarray(r) / rh) ** (1.0 / n) - 1))


def smoothed(x, n, rh, s):
    f = lambda r: intensity(r, n, rh) * r / s ** 2 * np.exp(-(r - x) ** 2 / (2 * s ** 2)) * ive(0, r * x / s ** 2)
    lo, hi = max(0.0, x - 12 * s), x + 12 * s
    return quad(f, lo, x, limit=300, epsrel=1e-9)[0] + quad(f, x, hi, limit=300, epsrel=1e-9)[0]


def light_within(r, n, rh):
    t = bn(n) * (r / rh) ** (1.0 / n)
    g = lambda u: u ** (2 * n - 1) * np.exp(-u)
    return quad(g, 0, t, limit=200)[0] / quad(g, 0, np.inf, limit=200)[0]


def mixture(x, amps, disps):
    return sum(a / (2 * np.pi * d ** 2) * np.exp(-np.asarray(x) ** 2 / (2 * d ** 2)) for a, d in zip(amps, disps))


def run_profile(case, ctx):
    n, rh = case
    S = mod()
    where = f"index {n}, half-light radius {rh}"
    x = rh * np.array([1e-3, 0.01, 0.1, 0.3, 0.7, 1.0, 1.5, 3.0, 8.0])
    keep = x.copy()
    got = S.sersic_profile(x, n=n, rh=rh)
    ctx.check(np.array_equal(x, keep), f"{where}: the radii were changed")
    ctx.check(np.allclose(got, intensity(x, n, rh), rtol=1e-8, atol=0), f"{where}: profile {got.tolist()}, expected {intensity(x, n, rh).tolist()}")
    for f in (0.05, 0.2, 0.5, 0.8, 0.9, 0.99):
        r = S.rfrac_from_halfn(f, n=n, rh=rh)
        ctx.check(abs(light_within(r, n, rh) - f) < 1e-7, f"{where}: within the radius {r} of {f} of the light there is {light_within(r, n, rh)} of it")
        ctx.step()
    ctx.check(abs(S.rfrac_from_halfn(0.5, n=n, rh=rh) / rh - 1) < 1e-10, f"{where}: half of the light is within {S.rfrac_from_halfn(0.5, n=n, rh=rh)}")
    try:
        S.rfrac_from_halfn(1.2, n=n, rh=rh)
        ctx.fail("a radius of more than all of the light is given")
    except AssertionError:
        pass
    ctx.outcome(case)


def run_smooth(case, ctx):
    n, rh, f = case
    S = mod()
    s = f * rh
    where = f"index {n}, half-light radius {rh}, smoothing {s}"
    x = s * np.array([0.01, 0.2, 0.5, 1.0, 2.0, 4.0, 7.0, 10.0, 13.5, 40.0])
    got = S.sersic_profile(x, n=n, rh=rh, sigma=s)
    want = np.array([smoothed(t, n, rh, s) for t in x[:-1]])
    sharp = intensity(x, n, rh)
    for t, g, c in zip(x, got, want):
        ctx.check(abs(g / c - 1) < 1e-3, f"{where}: at {t} the smoothed profile is {g}, the convolution {c}")
    ctx.check(abs(got[-1] / sharp[-1] - 1) < 1e-8, f"{where}: far out the smoothed profile is {got[-1]}, the profile {sharp[-1]}")
    ctx.step()
    ctx.outcome(case)


AMP = [0.0, 0.4, 2.0]
RAD = [[0.3], [0.1, 0.8], [0.05, 0.3, 2.0], [0.0, 0.3, 1.5]]


def run_mixture(case, ctx):
    k, smoothing = case
    S = mod()
    r = np.array(RAD[k])
    x = np.array([0.02, 0.1, 0.5, 1.0, 3.0, 9.0])
    for a in itertools.product(AMP, repeat=len(r)):
        if not any(a):
            continue
        a = np.array(a)
        where = f"amplitudes {a.tolist()}, dispersions {r.tolist()}, smoothing {smoothing}"
        ka, kr = a.copy(), r.copy()
        cfd = S.gauss_cfd(x, a, r)
        want = sum(A * (1.0 if d == 0 else 1 - np.exp(-x ** 2 / (2 * d * d))) for A, d in zip(a, r)) / a.sum()
        ctx.check(np.allclose(cfd, want, rtol=1e-10, atol=1e-14), f"{where}: light within {x.tolist()} is {cfd.tolist()}, expected {np.array(want).tolist()}")
        ctx.check(np.array_equal(a, ka) and np.array_equal(r, kr), f"{where}: the inputs were changed")
        d = np.hypot(r, smoothing)
        if np.all(d > 0):
            mu = np.array([0.0, 0.4, -1.0])[:len(r)]
            for m in (0.0, mu):
                g = S.normal_oned(x, m, a, d)
                w = sum(A / (D * np.sqrt(2 * np.pi)) * np.exp(-(x - M) ** 2 / (2 * D * D)) for A, D, M in zip(a, d, np.broadcast_to(m, len(r))))
                ctx.check(np.allclose(g, w, rtol=1e-10), f"{where}: gaussians at {m} are {g.tolist()}, expected {np.array(w).tolist()}")
            if np.all(a > 0):
                with np.errstate(divide="ignore"):
                    lr = np.log(r)
                own = mixture(x, a, d)
                forms = [(np.log(a), dict(radii=lr))]
                if np.all(r > 0):
                    forms.append((np.concatenate([np.log(a), lr]), {}))
                for p, kw in forms:
                    free = "free" if not kw else "given"
                    kp = p.copy()
                    c, xx, tt, gg = S.chisq(p, x=x, target=own, smoothing=smoothing, return_models=True, **kw)
                    ctx.check(np.array_equal(p, kp), f"{where}: the parameters were changed")
                    ctx.check(np.allclose(gg, own, rtol=1e-10), f"{where} ({free} radii): the mixture is {np.array(gg).tolist()}, expected {own.tolist()}")
                    ctx.check(abs(c) < 1e-20 and np.array_equal(xx, x) and np.array_equal(tt, own), f"{where} ({free} radii): a mixture is {c} away from itself")
                    t2 = own * (1 + 0.1 * np.cos(np.arange(len(x))))
                    want = 1e-2 * np.sum((own / t2 - 1) ** 2 * t2 * x) / np.sum(x * t2)
                    c = S.chisq(p, x=x, target=t2, smoothing=smoothing, **kw)
                    ctx.check(abs(c / want - 1) < 1e-9, f"{where} ({free} radii): distance {c}, expected {want}")
                    sc = S.chisq(p, x=x, target=t2, smoothing=smoothing, asmooth=0.3, **kw)
                    h = a / (d * np.sqrt(2 * np.pi))
                    la = np.log(h)
                    L = 2 * la - np.r_[0, la[:-1]] - np.r_[la[1:], 0] if len(la) > 1 else 2 * la
                    ctx.check(abs(sc - want - 0.3 * np.dot(L, L)) < 1e-9 * (abs(sc) + 1), f"{where} ({free} radii): with a penalty on steps {sc}, expected {want + 0.3 * np.dot(L, L)}")
                    pc = S.chisq(p, x=x, target=t2, smoothing=smoothing, arpenalty=0.2, arscale=1.7, **kw)
                    ex = want + 0.2 * np.sum(h * np.exp(d / 1.7))
                    ctx.check(abs(pc - ex) < 1e-9 * (abs(pc) + 1), f"{where} ({free} radii): with a penalty on wings {pc}, expected {ex}")
                    ctx.step()
        ctx.step()
        ctx.trace()
    ctx.outcome(case)


def optimum(x, t, disps):
    A = np.exp(-x[:, None] ** 2 / (2 * disps ** 2)) / (2 * np.pi * disps ** 2)
    W = np.sqrt(x / t)
    return nnls(A * W[:, None], t * W)[1] ** 2 / np.sum(x * t) * 1e-2


FR = [[0.1, 0.3, 0.9], [0.05, 0.15, 0.4, 1.0, 2.5]]


def run_fit(case, ctx):
    n, rh, s, k = case
    S = mod()
    x = np.linspace(0.05, 4, 40)
    where = f"fit of index {n}, half-light radius {rh}, smoothing {s}, dispersions {k}"
    t = S.sersic_profile(x, n=n, rh=rh, sigma=s)
    if k == "free":
        res = S.fit_gaussians(nsersic=n, rh=rh, smoothing=s, ncomp=3, x=x)
        ctx.check(len(res.x) == 6, f"{where}: {len(res.x)} parameters for three gaussians")
        kw = {}
        d = np.hypot(np.exp(res.x[3:]), s)
    else:
        with np.errstate(divide="ignore"):
            lr = np.log(np.array(([0.0] if s > 0 else []) + FR[k]))
        keep = lr.copy()
        res = S.fit_gaussians(nsersic=n, rh=rh, smoothing=s, radii=lr, x=x)
        ctx.check(np.array_equal(lr, keep), f"{where}: the dispersions were changed")
        ctx.check(len(res.x) == len(lr), f"{where}: {len(res.x)} amplitudes for {len(lr)} gaussians")
        kw = dict(radii=lr)
        d = np.hypot(np.exp(lr), s)
    v = S.chisq(res.x, x=x, target=t, smoothing=s, **kw)
    ctx.check(abs(v - res.fun) <= 1e-9 * (abs(v) + 1e-12), f"{where}: reports {res.fun}, its parameters give {v}")
    best = optimum(x, t, d)
    ctx.check(best * (1 - 1e-6) - 1e-15 <= v <= 1.0001e-2, f"{where}: distance {v}, no gaussians at all are at 0.01 and the best amplitudes at {best}")
    ctx.step()
    ctx.outcome(case)


@contextlib.contextmanager
def folder():
    d = tempfile.mkdtemp(dir=K.scratch())
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run_files(case, ctx):
    ng, rg, s, k = case
    S = mod()
    x = np.linspace(0.05, 3, 20)
    where = f"fits over indices {ng} and radii {rg}, smoothing {s}, dispersions {FR[k]}"
    with folder() as d, open(os.devnull, "w") as o, contextlib.redirect_stdout(o):
        name = S.fit_profiles(outroot=d + "/out", rgrid=np.array(rg), ngrid=np.array(ng), lnradii=np.log(FR[k]), smoothing=s, x=x)
        ctx.check(name == d + "/out.h5", f"{where}: written to {name}")
        S.amplitude_table(name)
        rows = [[float(v) for v in l.split()] for l in open(d + "/out.tbl") if l.strip() and not l.startswith("#")]
        with h5py.File(name, "r") as f:
            r = np.array(([0.0] if s > 0 else []) + FR[k])
            ctx.check(np.allclose(f["radii"][:], r) and np.allclose(f["x"][:], x) and abs(f.attrs["smoothing"] - s) < 1e-12, f"{where}: dispersions {f['radii'][:].tolist()}")
            grid = list(itertools.product(ng, rg))
            ctx.check(len(f["nsersic"]) == len(grid) == len(rows), f"{where}: {len(f['nsersic'])} fits, {len(rows)} rows in the table")
            for i, (n, rh) in enumerate(grid):
                w = f"{where}: fit {i}"
                ctx.check(abs(f["nsersic"][i] - n) < 1e-5 and abs(f["rh"][i] - rh) < 1e-5, f"{w} is of index {f['nsersic'][i]}, radius {f['rh'][i]}, expected {n}, {rh}")
                a = f["amplitudes"][i].astype(float)
                ctx.check(abs(a.sum() - 1) < 1e-5, f"{w}: amplitudes add up to {a.sum()}")
                ctx.check(np.allclose(f["truth"][i], intensity(x, n, rh), rtol=1e-5), f"{w}: another profile is recorded")
                ctx.check(np.allclose(f["smooth_sersic"][i], S.sersic_profile(x, n=n, rh=rh, sigma=s), rtol=1e-5), f"{w}: another smoothed profile is recorded")
                m, own = f["model"][i].astype(float), mixture(x, a, np.hypot(r, s))
                q = np.dot(m, own) / np.dot(own, own)
                ctx.check(q > 0 and np.allclose(m, q * own, rtol=1e-3, atol=1e-4 * m.max()), f"{w}: the recorded model is not that of the recorded amplitudes")
                lr = np.log(np.array(FR[k]))
                lr = np.insert(lr, 0, -np.inf) if s > 0 else lr
                sel = x < 2 * max(FR[k])
                v = S.chisq(np.log(a * q + 1e-300), x=x[sel], target=S.sersic_profile(x, n=n, rh=rh, sigma=s)[sel], radii=lr, smoothing=s)
                ctx.check(abs(v - f["chisq"][i]) <= 1e-2 * v + 1e-7, f"{w}: recorded distance {f['chisq'][i]}, its amplitudes give {v}")
                ctx.check(abs(rows[i][0] - n) <= 0.051 and abs(rows[i][1] - rh) <= 0.0051 and np.allclose(rows[i][2:], a, rtol=1e-3, atol=1e-8), f"{w}: row of the table {rows[i]}")
                ctx.step()
    ctx.outcome(case)


def suites(tier):
    K.scratch()
    q = tier == "quick"
    ns = tuple(np.round(np.arange(0.8, 6.01, 0.2 if q else 0.1), 2).tolist())
    rs = (0.05, 0.5, 1.0, 6.0) if q else (0.02, 0.05, 0.2, 0.5, 1.0, 2.0, 6.0, 20.0)
    files = [([1.0], [0.5], 0.0, 0), ([1.0, 2.0], [0.6, 1.2], 0.0, 1), ([2.0, 1.5], [1.0, 0.5, 0.75], 0.1, 0), ([4.0], [0.5, 1.0], 0.05, 1)]
    return [Suite("profile", [(n, r) for n in ns for r in rs], run_profile, note="index x half-light radius"),
            Suite("smooth", [(n, r, f) for n in ns if 1 <= n <= 4 for r in rs for f in (0.02, 0.1, 0.3, 0.5)], run_smooth, note="index x radius x smoothing"),
            Suite("mixture", [(k, s) for k in range(len(RAD)) for s in (0.0, 0.1, 0.7)], run_mixture, note="dispersions x all amplitudes x smoothing"),
            Suite("fits", [(n, r, s, k) for n in ((0.8, 1.0, 1.5, 2.0, 3.0, 4.0) if q else (0.8, 1.0, 1.2, 1.5, 2.0, 2.5, 3.0, 3.5, 4.0, 5.0)) for r in (0.3, 0.5, 1.0) for s in (0.0, 0.1)
                           for k in (0, 1, "free")], run_fit, note="index x radius x smoothing x dispersions"),
            Suite("files", files, run_files, note="grids of fits and their files")]
