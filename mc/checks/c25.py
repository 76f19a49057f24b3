"""C25: fitting a PSF image with a mixture of Gaussians and converting the fit.  Every
combination of image shape, true mixture, number of components, random start and stopping
threshold runs the real expectation-maximisation; each answer is judged by the exact moment
identities of a maximisation step, an independent likelihood and an independent extra step.
The conversions are enumerated over parameter alphabets and judged by rendering."""
import contextlib
import io
import itertools
import os
import pickle
import shutil
import tempfile

import numpy as np
from astropy.io import fits

from ..core import Suite
from .. import env
env.load_kernel()
from .. import kern as K

PROPERTY = "C25"
ASSUMPTIONS = ["images are positive everywhere and sum to one", "fits that degenerate (a likelihood that is not a number, or a component "
               "without any flux) are outside of the claim", "the least-squares and greedy modes are not claimed",
               "starting points are those of the enumerated random seeds"]


def mod():
    from forcepho.mixtures import psf_mix_em
    return psf_mix_em


def mvn(r, c, p):
    """one Gaussian on the pixel grid: p = amp, mean row, mean col, sd row, sd col, correlation"""
    S = np.array([[p[3] ** 2, p[5] * p[3] * p[4]], [p[5] * p[3] * p[4], p[4] ** 2]])
    d = np.stack(np.broadcast_arrays(r - p[1], c - p[2]), axis=-1)
    e = np.einsum("...i,ij,...j->...", d, np.linalg.inv(S), d)
    return p[0] * np.exp(-0.5 * e) / (2 * np.pi * np.sqrt(np.linalg.det(S)))


def render(params, shape):
    r, c = np.arange(shape[0])[:, None], np.arange(shape[1])[None, :]
    return sum(mvn(r, c, p) for p in np.reshape(params, (-1, 6)))


TRUE = {
    "round": [[1, .5, .5, 1.6, 1.6, 0.0]],
    "tilted": [[1, .45, .55, 1.3, 2.1, 0.5]],
    "two": [[.7, .5, .5, 1.2, 1.2, 0.0], [.3, .4, .6, 2.6, 2.2, -0.3]],
    "wing": [[.8, .52, .48, 1.0, 1.4, -0.4], [.2, .5, .5, 3.2, 3.2, 0.1]],
    "apart": [[.6, .25, .3, 1.1, 1.1, 0.0], [.4, .75, .7, 1.3, 1.0, 0.2]],
}


def image(kind, shape, floor=1e-7):
    p = np.array(TRUE[kind], float)
    p[:, 1] *= shape[0] - 1
    p[:, 2] *= shape[1] - 1
    im = render(p, shape) + floor
    return im / im.sum()


def moments(im):
    r, c = np.arange(im.shape[0])[:, None], np.arange(im.shape[1])[None, :]
    s = im.sum()
    m = np.array([(im * r).sum(), (im * c).sum()]) / s
    return m, np.array([[(im * r * r).sum(), (im * r * c).sum()], [(im * r * c).sum(), (im * c * c).sum()]]) / s


def mix_moments(params):
    m, S = np.zeros(2), np.zeros((2, 2))
    for a, x, y, sx, sy, rho in np.reshape(params, (-1, 6)):
        mu = np.array([x, y])
        m += a * mu
        S += a * (np.array([[sx ** 2, rho * sx * sy], [rho * sx * sy, sy ** 2]]) + np.outer(mu, mu))
    return m, S


def em_step(im, params):
    r, c = np.arange(im.shape[0])[:, None], np.arange(im.shape[1])[None, :]
    P = np.reshape(params, (-1, 6))
    w = np.array([mvn(r, c, p) for p in P])
    w = w / w.sum(axis=0)
    out = []
    for wk in w:
        n = (im * wk).sum()
        x, y = (im * wk * r).sum() / n, (im * wk * c).sum() / n
        sx, sy = np.sqrt((im * wk * (r - x) ** 2).sum() / n), np.sqrt((im * wk * (c - y) ** 2).sum() / n)
        out += [n / im.sum(), x, y, sx, sy, (im * wk * (r - x) * (c - y)).sum() / (n * sx * sy)]
    return np.array(out)


def lnlike(im, params):
    return np.sum(im * np.log(render(params, im.shape)))


def quiet(fn, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def judge(ctx, ans, im, nmix, thresh):
    p = np.array(ans["fitted_params"], float)
    ctx.check(p.shape == (6 * nmix,), "number of fitted parameters", got=p.shape, want=6 * nmix)
    ctx.check(np.array_equal(ans["original_image"], im), "the answer carries the fitted image")
    P = p.reshape(-1, 6)
    if not np.isfinite(p).all() or not np.isfinite(ans["final_log_likelihood"]) or P[:, 0].min() < 1e-9 or P[:, 3:5].min() < 0.25:
        return False
    ctx.check(np.all(P[:, 0] > 0) and abs(P[:, 0].sum() - 1) < 1e-9, "the amplitudes are positive and sum to one", amps=P[:, 0])
    ctx.check(np.all(P[:, 3:5] > 0) and np.all(np.abs(P[:, 5]) < 1), "widths are positive and correlations below one", params=P)
    m, S = moments(im)
    gm, gS = mix_moments(p)
    ctx.check(np.allclose(gm, m, rtol=1e-8, atol=1e-8), "the mixture has the mean of the image", got=gm, want=m)
    ctx.check(np.allclose(gS, S, rtol=1e-8, atol=1e-8), "the mixture has the second moments of the image", got=gS, want=S)
    rec = render(p, im.shape)
    ctx.check(np.allclose(ans["recon_image"], rec, rtol=1e-9, atol=1e-300), "the model image is that of the fitted mixture")
    l = np.sum(im * np.log(rec))
    ctx.check(abs(ans["final_log_likelihood"] - l) < 1e-9, "the reported likelihood is that of the fitted mixture",
              got=ans["final_log_likelihood"], want=l)
    ctx.check(np.isclose(ans["error_original"], np.sqrt((im ** 2).sum())) and
              np.isclose(ans["error_residual"], np.sqrt(((im - rec) ** 2).sum())), "reported residual norms")
    if ans["loop_count"] < 19999:
        q = em_step(im, p)
        ctx.check(-1e-11 < lnlike(im, q) - l < (10 * thresh + 1e-11 if thresh < 1e-4 and ans["loop_count"] > 5 else np.inf),
                  "at the fitted mixture a further step gains no more than about the threshold", gain=lnlike(im, q) - l, thresh=thresh)
    if nmix == 1:
        V = S - np.outer(m, m)
        want = [1, m[0], m[1], np.sqrt(V[0, 0]), np.sqrt(V[1, 1]), V[0, 1] / np.sqrt(V[0, 0] * V[1, 1])]
        ctx.check(np.allclose(p, want, rtol=1e-7, atol=1e-8), "one component has the moments of the image", got=p, want=want)
    return True


def run_fit(case, ctx):
    E = mod()
    kind, shape, nmix, seed, dt = case["kind"], case["shape"], case["nmix"], case["seed"], case["dtype"]
    im = image(kind, shape).astype(dt)
    keep = im.copy()
    last = -np.inf
    for thresh in case["thresh"]:
        np.random.seed(seed)
        a = quiet(E.fit_mvn_mix, im, nmix, method_opt="em", method_init="random", repeat=1, dlnlike_thresh=thresh)
        ctx.step()
        ctx.check(np.array_equal(im, keep), "fitting leaves the image alone")
        if not a:
            ctx.outcome("no convergence")
            return
        ctx.check(len(a) == 1, "one answer per start", got=len(a))
        ok = judge(ctx, a[0], im, nmix, thresh)
        ctx.outcome((ok, nmix, kind))
        ctx.trace()
        if not ok:
            return
        l = a[0]["final_log_likelihood"]
        ctx.check(l >= last - 1e-10, "a smaller threshold does not give a worse fit", coarse=last, fine=l)
        last = l
        ctx.state((kind, shape, nmix, np.round(a[0]["fitted_params"], 9)))


def run_repeat(case, ctx):
    """several starts: one answer per start in order, none sharing arrays, the best one when asked for one"""
    E = mod()
    im = image(case["kind"], case["shape"])
    kw = dict(method_opt="em", method_init="random", dlnlike_thresh=1e-6)
    np.random.seed(case["seed"])
    singles = []
    for _ in range(case["repeat"]):
        singles += quiet(E.fit_mvn_mix, im, case["nmix"], repeat=1, **kw)
    np.random.seed(case["seed"])
    many = quiet(E.fit_mvn_mix, im, case["nmix"], repeat=case["repeat"], **kw)
    ctx.step(2)
    ctx.check(len(many) == len(singles), "as many answers as starts", got=len(many), want=len(singles))
    good = 0
    for a, b in zip(many, singles):
        good += judge(ctx, a, im, case["nmix"], 1e-6)
        ctx.check(np.array_equal(a["fitted_params"], b["fitted_params"], equal_nan=True), "each start is fitted on its own")
        ctx.check(a["loop_count"] == b["loop_count"], "loop count of each start")
    for a, b in itertools.combinations(many, 2):
        ctx.check(not np.shares_memory(a["fitted_params"], b["fitted_params"]), "answers do not share their parameters")
    np.random.seed(case["seed"])
    best = quiet(E.fit_mvn_mix, im, case["nmix"], repeat=case["repeat"], returnfull=False, **kw)
    err = [a["error_residual"] for a in many]
    if np.isfinite(err).all():
        ctx.check(best["error_residual"] == min(err) and
                  np.array_equal(best["fitted_params"], many[int(np.argmin(err))]["fitted_params"]),
                  "the single answer is the one with the smallest residual", got=best["error_residual"], want=err)
    ctx.state((case["kind"], case["shape"], case["nmix"], case["seed"], np.round(err, 9)))
    ctx.outcome((good, len(many)))
    ctx.trace()


def gauss(x, y, vx, vy, vxy, amp, X, Y):
    V = np.array([[vx, vxy], [vxy, vy]])
    d = np.stack(np.broadcast_arrays(X - x, Y - y), axis=-1)
    e = np.einsum("...i,ij,...j->...", d, np.linalg.inv(V), d)
    return amp * np.exp(-0.5 * e) / (2 * np.pi * np.sqrt(np.linalg.det(V)))


ROWS = [[.6, 3.0, 5.0, 1.0, 2.0, .3], [.4, 4.5, 2.25, 2.5, 1.5, -.6], [.25, 0.5, 7.75, 1.25, 1.25, 0.0]]


def run_convert(case, ctx):
    """the converted mixture, in detector pixels, is the image-space mixture seen with x along columns"""
    from forcepho.slow.psf import params_to_gauss, make_psf
    rows, os_, start, center = case["rows"], case["oversample"], case["start"], case["center"]
    p = np.array([ROWS[i] for i in rows]).ravel()
    ans = dict(fitted_params=p.copy())
    kw = dict(oversample=os_, start=start, center=center)
    out = params_to_gauss(ans, **kw)
    ctx.step()
    ctx.check(np.array_equal(ans["fitted_params"], p), "converting leaves the answer alone")
    x, y, vx, vy, vxy, amp = [np.array(o) for o in out]
    ctx.check(all(len(o) == len(rows) for o in out), "one value per component")
    r, c = np.arange(9)[:, None], np.arange(9)[None, :]
    im = render(p, (9, 9))
    got = sum(gauss(*g, (c + start - center) / os_, (r + start - center) / os_) for g in zip(x, y, vx, vy, vxy, amp))
    ctx.check(np.allclose(got, im * os_ ** 2, rtol=1e-9, atol=1e-14), "the converted mixture is the fitted one in detector pixels, x along the columns")
    psf = make_psf(ans, **kw)
    ctx.step()
    ctx.check(psf.n_gauss == len(rows), "number of Gaussians of the PSF")
    ctx.check(np.allclose(psf.means, np.array([x, y]).T) and np.allclose(psf.amplitudes, amp), "means and amplitudes of the PSF")
    for i in range(len(rows)):
        ctx.check(np.allclose(psf.covariances[i], [[vx[i], vxy[i]], [vxy[i], vy[i]]]), "covariances of the PSF")
    t = psf.as_tuplelist()
    ctx.check(np.allclose(t, np.array([amp, x, y, vx, vy, vxy]).T), "the PSF as a list of Gaussians")
    ctx.state((rows, os_, start, center))
    ctx.outcome(len(rows))
    ctx.trace()


@contextlib.contextmanager
def folder():
    d = tempfile.mkdtemp(dir=K.scratch())
    cwd = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def run_getpsf(case, ctx):
    from forcepho.slow.psf import get_psf
    kind = case["kind"]
    if kind == "fwhm":
        f = case["fwhm"]
        psf = get_psf(fwhm=f)
        ctx.check(psf.n_gauss == 1 and np.allclose(psf.means, 0) and np.allclose(psf.amplitudes, 1), "a single centred Gaussian of unit flux")
        C = psf.covariances[0]
        # half of the peak at half of the width
        h = 0.5 * f
        for d in ([h, 0], [0, h], [h / np.sqrt(2), h / np.sqrt(2)]):
            v = np.exp(-0.5 * np.array(d) @ np.linalg.inv(C) @ np.array(d))
            ctx.check(abs(v - 0.5) < 1e-3, "the PSF has the requested full width at half maximum", fwhm=f, got=v)
        again = get_psf(fwhm=f)
        ctx.check(np.array_equal(again.covariances, psf.covariances), "asking again gives the same PSF")
        ctx.step(2)
    else:
        rows, realization = case["rows"], case["realization"]
        with folder():
            if kind == "pickle":
                ans = {len(rows): [dict(fitted_params=np.array([ROWS[i] for i in rr]).ravel()) for rr in (rows, rows[::-1])]}
                with open("psf.p", "wb") as f:
                    pickle.dump(ans, f)
                kw = dict(n_gauss=len(rows)) if case["explicit"] else {}
                psf = get_psf("psf.p", psf_realization=realization, oversample=2, center=4, **kw)
                use = rows if realization == 0 else rows[::-1]
                want = [(ROWS[i][0], (ROWS[i][2] - 4) / 2, (ROWS[i][1] - 4) / 2, (ROWS[i][4] / 2) ** 2, (ROWS[i][3] / 2) ** 2,
                         ROWS[i][5] * ROWS[i][3] * ROWS[i][4] / 4) for i in use]
            else:
                import h5py
                cols = ["amp", case["names"][0], case["names"][1], "Cxx", "Cyy", "Cxy"]
                dt = np.dtype([(c, np.float32) for c in (cols if case["explicit"] else cols[::-1])])
                tab = np.zeros((2, len(rows)), dtype=dt)
                want = []
                for k, rr in enumerate((rows, rows[::-1])):
                    for j, i in enumerate(rr):
                        a, x, y, sx, sy, rho = ROWS[i]
                        v = (a, x, y, sx ** 2, sy ** 2, rho * sx * sy)
                        for n, z in zip(cols, v):
                            tab[n][k, j] = z
                        if k == realization:
                            want.append(v)
                with h5py.File("psf.h5", "w") as f:
                    f.create_dataset("parameters", data=tab)
                psf = get_psf("psf.h5", psf_realization=realization)
        ctx.step()
        ctx.check(psf.n_gauss == len(rows), "number of Gaussians")
        ctx.check(np.allclose(psf.as_tuplelist(), want, rtol=1e-6, atol=1e-7), "the PSF is the stored one", got=psf.as_tuplelist(), want=want)
    ctx.state(case)
    ctx.outcome(kind)
    ctx.trace()


def run_file(case, ctx):
    """PSF image file to mixture file"""
    from forcepho.mixtures import utils_em
    import h5py
    shape, width, os_, kind, nmix, nrep = case["shape"], case["width"], case["oversample"], case["kind"], case["nmix"], case["repeat"]
    im = image(kind, shape) * case["scale"]
    old = getattr(utils_em, "plot_model", None)
    utils_em.plot_model = lambda *a, **k: None
    try:
        with folder():
            fits.writeto("psf.fits", im.astype(case["dtype"]))
            im = np.array(fits.getdata("psf.fits"), dtype=float)
            np.random.seed(case["seed"])
            out = quiet(utils_em.psf_mixture, "psf.fits", "F1", nmix, nrepeat=nrep, newstyle=True, width=width, oversample=os_)
            files = sorted(os.listdir("."))
            h5 = [f for f in files if f.endswith(".h5")]
            ctx.check(len(h5) == 1, "one mixture file", files=files)
            with h5py.File(h5[0], "r") as f:
                fpars, fmod, fim, fl = f["parameters"][:], f["models"][:], f["psf_image"][:], f["lnlike"][:]
                attrs = {k: np.array(f.attrs[k]) if k not in ("band", "image_path") else f.attrs[k] for k in f.attrs}
    finally:
        if old is not None:
            utils_em.plot_model = old
    ctx.step()
    cen = (np.array(shape) - 1) / 2.0
    lo = np.zeros(2, int) if width is None else np.clip(cen - width, 0, None).astype(int)
    hi = np.array(shape) if width is None else np.minimum(cen + width, shape).astype(int)
    cut = im[lo[0]:hi[0], lo[1]:hi[1]]
    ctx.check(np.allclose(out["data"], cut.T / cut.sum(), rtol=1e-5, atol=1e-9), "the fitted image is the normalised central part, transposed")
    ctx.check(np.isclose(out["flux_fraction"], cut.sum() / im.sum(), rtol=1e-5), "fraction of the flux in the fitted part")
    ctx.check(np.array_equal(fim, out["data"]) and np.array_equal(fpars, out["parameters"]) and np.array_equal(fl, out["lnlike"]) and
              np.array_equal(fmod, np.array(out["models"])), "the file holds what is returned")
    ctx.check(np.isclose(attrs["flux_fraction"], out["flux_fraction"]) and attrs["oversample"] == os_ and attrs["nmix"] == nmix and
              attrs["nrepeat"] == nrep and attrs["band"] == "F1", "attributes of the file", attrs={k: str(v) for k, v in attrs.items()})
    ctx.check(fpars.shape == (nrep, nmix), "a row of components for each start", got=fpars.shape)
    good = 0
    for k in range(len(fmod)):
        p = fpars[k]
        if not all(np.isfinite(p[n]).all() for n in p.dtype.names) or not np.isfinite(fl[k]) or p["amp"].min() < 1e-6 \
                or min(p["vxx"].min(), p["vyy"].min()) * os_ ** 2 < 0.07:
            continue
        good += 1
        # x runs along the columns of the file's image, i.e. the first index of the transposed model
        X = (np.arange(cut.shape[1]) + lo[1] - cen[1]) / os_
        Y = (np.arange(cut.shape[0]) + lo[0] - cen[0]) / os_
        got = sum(gauss(q["x"], q["y"], q["vxx"], q["vyy"], q["vxy"], q["amp"], X[:, None], Y[None, :]) for q in p)
        ctx.check(np.allclose(got, fmod[k] * os_ ** 2, rtol=2e-3, atol=1e-6 * fmod[k].max() * os_ ** 2),
                  "the stored components, in detector pixels from the centre of the image, render the stored model",
                  case=case, pars=[tuple(map(float, q)) for q in p])
        # mean of the mixture: mean of the data, relative to the centre of the whole image
        d = cut / cut.sum()
        mx = ((d * (np.arange(cut.shape[1]) + lo[1] - cen[1])[None, :]).sum()) / os_
        my = ((d * (np.arange(cut.shape[0]) + lo[0] - cen[0])[:, None]).sum()) / os_
        ctx.check(abs((p["amp"] * p["x"]).sum() - mx) < 1e-4 and abs((p["amp"] * p["y"]).sum() - my) < 1e-4,
                  "the mixture is centred on the light, relative to the centre of the image")
        ctx.check(abs(fl[k] - np.sum(d * np.log(fmod[k].T))) < 1e-5, "stored likelihood")
    ctx.state((case, good))
    ctx.outcome(good)
    ctx.trace()


def suites(tier):
    deep = tier != "quick"
    shapes = [(9, 9), (8, 11), (12, 7)]
    fit = [dict(kind=k, shape=s, nmix=n, seed=sd, dtype=dt, thresh=[1e-3, 1e-5, 1e-7] + ([1e-9] if deep else []))
           for k in TRUE for s in shapes for n in (1, 2, 3) for sd in range(1, 7 if not deep else 40)
           for dt in (["f8"] if not deep else ["f8", ">f8"])]
    rep = [dict(kind=k, shape=s, nmix=n, seed=sd, repeat=r) for k in ("two", "apart") for s in shapes[:2] for n in (1, 2)
           for sd in range(1, 3 if not deep else 9) for r in (1, 2, 3)]
    conv = [dict(rows=list(r), oversample=o, start=st, center=c) for n in (1, 2, 3) for r in itertools.permutations(range(3), n)
            for o in (1, 2, 8, 0.5) for st in (0, 3) for c in (0, 4, 4.5)]
    get = [dict(kind="fwhm", fwhm=f) for f in (0.5, 1.0, 2.0, 3.3)]
    get += [dict(kind=kd, rows=list(r), realization=z, explicit=e, names=nm) for kd, nms in
            (("pickle", [None]), ("h5", [("xcr", "ycr"), ("xcen", "ycen")])) for nm in nms
            for n in (1, 2, 3) for r in itertools.permutations(range(3), n) for z in (0, 1) for e in (True, False)]
    fl = [dict(kind=k, shape=s, width=w, oversample=o, nmix=n, repeat=rp, seed=sd, dtype=dt, scale=sc)
          for k, n in (("round", 1), ("tilted", 1), ("two", 2)) for s in [(9, 9), (9, 13), (14, 10)] for w in (None, 3, 4.5, 20)
          for o in (1, 4) for rp in (1, 2) for sd in ((3,) if not deep else (3, 4, 5)) for dt in ("f8", "f4")
          for sc in ((1.0, 37.0) if deep else (37.0,))]
    return [Suite("fit", fit, run_fit, note="mixtures x shapes x components x starts x thresholds"),
            Suite("repeat", rep, run_repeat, note="several starts"),
            Suite("convert", conv, run_convert, note="parameters x oversampling x offsets"),
            Suite("get-psf", get, run_getpsf, note="PSF by width or from file"),
            Suite("file", fl, run_file, note="image file to mixture file")]
