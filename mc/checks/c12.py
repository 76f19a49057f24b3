"""C12: the reported derivatives are those of the chi-square, for every entry of the
gradient on every small configuration; float64 derivatives of an independent image
model are the oracle for the kernel, and the slow implementation is compared with
differences of its own likelihood."""
import itertools

import numpy as np

from ..core import Suite
from .. import env
env.load_kernel()
from .. import kern as K
from . import c11

PROPERTY = "C12"
ASSUMPTIONS = ["g++ -O3 as in the package's build; the GPU kernel cannot run here and is not covered",
               "derivatives compared to a small fraction of the sum of the absolute values of their terms (single precision kernel)",
               "slow implementation: sources with nonzero flux and amplitudes, parameterised by axis ratio and angle"]
PAR = ["flux", "ra", "dec", "q", "pa", "sersic", "rhalf"]


def unit_image(v, loc, exp, mix, refpos, G=1.0):
    """unit flux image; v = (ra, dec, q, pa, sersic, rhalf), loc = packed local astrometry"""
    pos, CW, D = loc
    pos = pos + CW @ np.array([v[0] - refpos[0], v[1] - refpos[1]])
    c, s = np.cos(v[3]), np.sin(v[3])
    T = D @ np.array([[c, -s], [s, c]]) @ np.diag([1 / v[2], v[2]])
    TT = T @ T.T
    x, y = exp.xpix.astype(float), exp.ypix.astype(float)
    im = np.zeros(len(x))
    for p in mix:
        b = int(p["sersic_bin"])
        cov = K.RADII[b] ** 2 * TT + np.array([[p["Cxx"], p["Cxy"]], [p["Cxy"], p["Cyy"]]], dtype=float)
        g, _ = K.gaussian(x, y, pos[0] + float(p["xcen"]), pos[1] + float(p["ycen"]), cov)
        im = im + G * K.amp(b, v[4], v[5]) * float(p["amp"]) * g
    return im


STEP = [1e-8, 1e-8, 1e-5, 1e-5, 1e-4, 1e-5]


def ref_grad(cat, exps, bands, mix, ref=None, G=None):
    """d chi2 / d parameter with shape (band, source, 7), and the sum of the absolute terms"""
    n = len(cat)
    g = np.zeros((len(bands), n, 7))
    sc = np.zeros((len(bands), n, 7))
    for e in exps:
        ib = bands.index(e.band)
        gain = 1.0 if G is None else G[e.name]
        ims, ders, mags = [], [], []
        for i, row in enumerate(cat):
            r = row if ref is None else ref[i]
            refpos = (float(r["ra"]), float(r["dec"]))
            loc = K.local(e.wcs, *refpos)
            v = np.array([float(row[c]) for c in K.SHAPES])
            f = float(row[e.band])
            u = unit_image(v, loc, e, mix[e.band], refpos, gain)
            d = [u]
            for k in range(6):
                a, b = v.copy(), v.copy()
                a[k] += STEP[k]
                b[k] -= STEP[k]
                d.append(f * (unit_image(a, loc, e, mix[e.band], refpos, gain) - unit_image(b, loc, e, mix[e.band], refpos, gain)) / (a[k] - b[k]))
            ims.append(f * u)
            ders.append(d)
        res = e.data - np.sum(ims, axis=0)
        mag = np.abs(e.data) + np.sum(np.abs(ims), axis=0)
        for i in range(n):
            for k in range(7):
                t = -2 * res * e.ierr ** 2 * ders[i][k]
                g[ib, i, k] += np.sum(t)
                sc[ib, i, k] += np.sum(np.abs(2 * mag * e.ierr ** 2 * ders[i][k]))
    # the derivative with respect to the angle cancels for round sources
    sc[:, :, 4] = np.maximum(sc[:, :, 4], sc[:, :, 3])
    return g, sc


def own_difference(p, prop, scene, theta, bands, ib, s, k, scale):
    """derivative of the kernel's own chi-square by differences, and how far it can be trusted"""
    npar = len(bands) + 6
    j = s * npar + (ib if k == 0 else len(bands) + k - 1)
    best = None
    for h in ([1e-2, 5e-3] if k == 0 else [2e-7, 1e-7] if k <= 2 else [2e-3, 1e-3]):
        h = h * (abs(theta[j]) + 1 if k == 0 else 1)
        c = []
        for sg in (1, -1):
            th = theta.copy()
            th[j] += sg * h
            c.append(K.propose(p, prop, scene, th)[0][ib])
        d = (c[0] - c[1]) / (2 * h)
        best = d if best is None else (4 * d - best) / 3
    K.propose(p, prop, scene, theta)
    return best


def compare(ctx, p, prop, scene, theta, exps, bands, mix, cat, der, chi, where, tol, nrad=3, ref=None, G=None):
    g, sc = ref_grad(cat, exps, bands, mix, ref, G)
    ctx.check(der.shape == g.shape, f"{where}: derivatives have shape {der.shape}, expected {g.shape}")
    # cross terms between the parameters of one source: the largest sensible scale per entry
    bad = ~(np.abs(der - g) <= tol * sc + 1e-9)
    if bad.any():
        ib, s, k = [int(x[0]) for x in np.nonzero(bad)]
        msg = (f"{where}: derivative of the chi-square of band {bands[ib]} with respect to {PAR[k]} of source {s} is {der[ib, s, k]:.7g}, "
               f"expected {g[ib, s, k]:.7g} (scale {sc[ib, s, k]:.4g})")
        im, mag, c2, s2 = K.reference(cat, exps, mix, nrad, ref, G)
        d2 = {b: sum(float(np.sum((e.data * e.ierr) ** 2)) for e in exps if e.band == b) for b in bands}
        if all(abs(chi[i] - c2[b]) <= 1e-4 * s2[b] + 1e-6 * d2[b] for i, b in enumerate(bands)):
            ctx.fail(msg)
        # the chi-square itself is not the expected one (C11); judge by its own differences
        own = own_difference(p, prop, scene, theta, bands, ib, s, k, sc[ib, s, k])
        ctx.check(abs(der[ib, s, k] - own) <= 2e-2 * sc[ib, s, k], msg + f"; differences of the same chi-square give {own:.7g}")
    ctx.step(der.size)
    return float(np.max(np.abs(der - g) / (sc + 1e-30)))


def run_config(case, ctx):
    nsrc, expb, psfs, nrad, wshift, order, k = case
    exps, bands, mix, cat, pf = K.config(nsrc, tuple(expb), tuple(map(tuple, psfs)), nrad, wshift, cat_kw=dict(k=k))
    p = K.make_patch(exps, bands, pf, nrad, order=order)
    chi, der, res, scene, prop = K.evaluate(p, cat)
    theta = scene.get_all_source_params().copy()
    compare(ctx, p, prop, scene, theta, exps, bands, mix, cat, der, chi, f"{case}", 2e-5, nrad)
    ref = p.patch_reference_coordinates
    q = theta.copy()
    n = len(bands) + 6
    for i in range(nsrc):
        q[i * n:i * n + len(bands)] *= -0.7 if i % 2 else 1.6
        q[i * n + len(bands)] += 1.2e-5 * (i + 1)
        q[i * n + len(bands) + 1] -= 0.9e-5 * (i + 1)
        q[i * n + len(bands) + 2] += 0.07
        q[i * n + len(bands) + 3] -= 0.5
        q[i * n + len(bands) + 4] += 0.31
        q[i * n + len(bands) + 5] += 0.013
    chi, der, res = K.propose(p, prop, scene, q)
    moved = K.theta_to_cat(q, cat, bands, ref)
    compare(ctx, p, prop, scene, q, exps, bands, mix, moved, der, chi, f"{case} moved", 2e-5, nrad, ref=cat)
    ctx.outcome(np.round(der, 3))


def run_dark(case, ctx):
    """every set of exposures without any weight"""
    nsrc, expb, dark = case
    exps, bands, mix, cat, pf = K.config(nsrc, tuple(expb), ((1, 0), (2, 0)), 3, 1)
    exps = [K.Exp(e.name, e.hdr, e.xpix, e.ypix, e.data, e.ierr * (0.0 if i in dark else 1.0)) for i, e in enumerate(exps)]
    p = K.make_patch(exps, bands, pf)
    chi, der, res, scene, prop = K.evaluate(p, cat)
    theta = scene.get_all_source_params().copy()
    compare(ctx, p, prop, scene, theta, exps, bands, mix, cat, der, chi, f"{case}", 2e-5)
    for ib, b in enumerate(bands):
        if all(e.ierr.max() == 0 for e in exps if e.band == b):
            ctx.check(chi[ib] == 0 and np.all(der[ib] == 0), f"{case}: band {b} has no weight, but chi-square {chi[ib]} and derivatives {der[ib].tolist()}")
    ctx.outcome(np.round(der, 3))


def dark_cases(tier):
    for expb in [(1,), (1, 1), (2, 1), (1, 1, 1)] + ([(1, 2, 1), (1, 1, 1, 1)] if tier == "thorough" else []):
        for n in range(sum(expb) + 1):
            for dark in itertools.combinations(range(sum(expb)), n):
                for nsrc in (1, 2):
                    yield nsrc, expb, dark


def run_wings(case, ctx):
    """patches of one pixel, out to the cut-off of the exponent: relative to the derivative at that pixel"""
    q, pa, n, rh, ng = case
    h = K.header("B0", nx=34, ny=29, rot=0.5, scale=0.06, shear=0.1, crpix=(15.0, 14.0))
    full = K.make_exp("e", h)
    mix = {"B0": K.psf(0, ng)}
    pf = K.psffile(f"wings{ng}", {"B0": [mix["B0"]]})
    cat = K.catalog(1, ["B0"])
    cat["ra"], cat["dec"] = full.wcs.pixel_to_world_values(14.3, 13.6)
    cat["q"], cat["pa"], cat["sersic"], cat["rhalf"], cat["B0"] = q, pa, n, rh, 1e5
    m0, _, D = K.local(full.wcs, float(cat["ra"][0]), float(cat["dec"][0]))
    c, s = np.cos(pa), np.sin(pa)
    T = D @ np.array([[c, -s], [s, c]]) @ np.diag([1 / q, q])
    ex = []
    for g in mix["B0"]:
        k = int(g["sersic_bin"])
        F = np.linalg.inv(K.RADII[k] ** 2 * T @ T.T + np.array([[g["Cxx"], g["Cxy"]], [g["Cxy"], g["Cyy"]]], dtype=float))
        d = np.array([full.xpix - m0[0] - float(g["xcen"]), full.ypix - m0[1] - float(g["ycen"])])
        ex.append((d * (F @ d)).sum(axis=0))
    ex = np.array(ex)
    ok = (np.abs(ex - 36.0) > 0.5).all(axis=0) & (ex.min(axis=0) < 35.0)
    low = ex.min(axis=0)
    for i in np.nonzero(ok)[0][::1 if ctx.tier == "thorough" else 3]:
        e = K.Exp("e", h, full.xpix[i:i + 1], full.ypix[i:i + 1], np.zeros(1), np.ones(1))
        p = K.make_patch([e], ["B0"], pf)
        chi, der, res, scene, prop = K.evaluate(p, cat)
        g, sc = ref_grad(cat, [e], ["B0"], mix)
        # derivatives whose terms cancel are judged by those of the same pixel that do not
        m = abs(float(g[0, 0, 0])) * 1e5
        nat = np.array([1e-5, np.abs(D).max() * 3600 * 2, np.abs(D).max() * 3600 * 2, 2.0, 2.0, 0.3, 3.0]) * m
        bad = ~(np.abs(der[0, 0] - g[0, 0]) <= 4e-3 * (sc[0, 0] + nat))
        if bad.any():
            k = int(np.argmax(bad))
            ctx.fail(f"{case}: pixel ({e.xpix[0]:g}, {e.ypix[0]:g}), {low[i]:.1f} in the exponent: derivative with respect to {PAR[k]} is {der[0, 0, k]:.6g}, expected {g[0, 0, k]:.6g}")
        ctx.step(7)
    ctx.outcome(case)


def run_astrometry(case, ctx):
    rot, flip, scale, stretch, shear, sip, pos, dec0 = case
    h = K.header("B0", nx=8, ny=7, rot=rot, flip=flip, scale=scale, stretch=stretch, shear=shear,
                 sip=K.SIP if sip else None, crval=(K.RA0, dec0))
    e = K.make_exp("e", h)
    mix = {"B0": K.psf(0, 2)}
    pf = K.psffile("astro", {"B0": [mix["B0"]]})
    cat = K.catalog(2, ["B0"], cy=dec0)
    cat["ra"][0], cat["dec"][0] = e.wcs.pixel_to_world_values(*pos)
    cat["ra"][1], cat["dec"][1] = e.wcs.pixel_to_world_values(pos[1], pos[0])
    p = K.make_patch([e], ["B0"], pf)
    chi, der, res, scene, prop = K.evaluate(p, cat)
    compare(ctx, p, prop, scene, scene.get_all_source_params().copy(), [e], ["B0"], mix, cat, der, chi, f"{case}", 5e-3 if sip else 4e-4)
    ctx.outcome(np.round(der, 3))


def run_profile(case, ctx):
    q, pas, ns, rhs, flux = case
    exps, bands, mix, cat, pf = K.config(1, (1,), ((2, 0),), 3, 1)
    p = K.make_patch(exps, bands, pf)
    for pa in pas:
        for n in ns:
            for rh in rhs:
                c = cat.copy()
                c["q"], c["pa"], c["sersic"], c["rhalf"], c["B0"] = q, pa, n, rh, flux
                chi, der, res, scene, prop = K.evaluate(p, c)
                compare(ctx, p, prop, scene, scene.get_all_source_params().copy(), exps, bands, mix, c, der, chi,
                        f"q={q} pa={pa} n={n} rh={rh} flux={flux}", 2e-4)
                ctx.outcome(np.round(der, 3))


def run_fluxcal(case, ctx):
    expb, gains = case
    exps, bands, mix, cat, pf = K.config(2, tuple(expb), ((2, 0), (1, 1)), 3, 2)
    G = {e.name: g for e, g in zip(exps, gains)}
    p = K.make_patch(exps, bands, pf)
    chi, der, res, scene, prop = K.evaluate(p, cat, G=G)
    compare(ctx, p, prop, scene, scene.get_all_source_params().copy(), exps, bands, mix, cat, der, chi, f"flux calibration {gains}", 2e-5, G=G)
    ctx.outcome(np.round(der, 3))


def run_weights(case, ctx):
    h = K.header("B0", nx=3, ny=2, rot=0.7, scale=0.06, shear=0.1)
    h2 = K.header("B1", nx=2, ny=2, rot=-0.7, scale=0.07, shear=0.1)
    mix = {b: K.psf(i, 2) for i, b in enumerate(("B0", "B1"))}
    pf = K.psffile("weights", {b: [m] for b, m in mix.items()})
    cat = K.catalog(2, ["B0", "B1"])
    for m in case:
        on = np.array([(m >> i) & 1 for i in range(6)])
        e, e2 = K.make_exp("e", h, weight=on), K.make_exp("e2", h2, k=3)
        p = K.make_patch([e, e2], ["B0", "B1"], pf)
        chi, der, res, scene, prop = K.evaluate(p, cat)
        compare(ctx, p, prop, scene, scene.get_all_source_params().copy(), [e, e2], ["B0", "B1"], mix, cat, der, chi, f"weights {on}", 1e-4)
        # pixels of zero weight, whatever they hold
        for val in (50.0, -1e4, 1e10):
            f = K.make_exp("e", h, weight=on)
            f.data[on == 0] = val
            chi2, der2, _, _, _ = K.evaluate(K.make_patch([f, e2], ["B0", "B1"], pf), cat)
            ctx.check(np.array_equal(der, der2), f"zero-weight pixels of value {val} change the gradient (weights {on})")
            # and the other band
            g = K.make_exp("e", h, weight=on * 0.3)
            g.data += val
            chi3, der3, _, _, _ = K.evaluate(K.make_patch([g, e2], ["B0", "B1"], pf), cat)
            ctx.check(np.array_equal(der[1], der3[1]), "the gradient of one band depends on the data of another")
            ctx.step(2)
        if not on.any():
            ctx.check(np.all(der[0] == 0), f"a band of zero weight has a gradient {der[0]}")
        ctx.outcome(np.round(der, 3))


# ---- posterior ------------------------------------------------------------

def run_total(case, ctx):
    """the gradient vector of the posterior is that of its probability"""
    from forcepho.model import FastPosterior, Transform
    nsrc, expb, wshift = case
    exps, bands, mix, cat, pf = K.config(nsrc, tuple(expb), ((2, 0), (1, 1)), 3, wshift)
    p = K.make_patch(exps, bands, pf)
    chi, der, res, scene, prop = K.evaluate(p, cat)
    theta = scene.get_all_source_params().copy()
    m = FastPosterior(prop, p, scene=scene, transform=Transform(len(theta)))
    got = np.array(m.lnprob_grad(theta))
    g, sc = ref_grad(cat, exps, bands, mix)
    npar = len(bands) + 6
    for i in range(nsrc):
        for j in range(npar):
            if j < len(bands):
                w, s = -0.5 * g[j, i, 0], sc[j, i, 0]
            else:
                w, s = -0.5 * g[:, i, j - len(bands) + 1].sum(), sc[:, i, j - len(bands) + 1].sum()
            ctx.check(abs(got[i * npar + j] - w) <= 1e-4 * s + 1e-9, f"{case}: gradient of ln-probability, entry {j} of source {i} is "
                      f"{got[i * npar + j]:.7g}, expected {w:.7g}")
            ctx.step()
    ctx.outcome(np.round(got, 3))


# ---- slow -----------------------------------------------------------------

def slow_setup(cat, exps, bands, mix, ng, fast, kind):
    from forcepho import sources
    from forcepho.slow.stamp import PostageStamp
    from forcepho.slow.psf import PointSpreadFunction
    from forcepho.slow.likelihood import WorkPlan, FastWorkPlan
    cls = {"galaxy": sources.Galaxy, "simple": sources.SimpleGalaxy, "star": sources.Star}[kind]
    srcs = []
    for row in cat:
        s = cls(filters=list(bands)) if kind != "galaxy" else cls(filters=list(bands), splinedata=K.splinefile(3))
        s.ra, s.dec = float(row["ra"]), float(row["dec"])
        s.flux = np.array([float(row[b]) for b in bands])
        if kind != "star":
            s.q, s.pa = float(row["q"]), float(row["pa"])
        if kind == "galaxy":
            s.sersic, s.rhalf = float(row["sersic"]), float(row["rhalf"])
        srcs.append(s)
    scene = sources.Scene(sources=srcs)
    plans = []
    ref = cat[0]
    for e in exps:
        st = PostageStamp(nx=e.hdr["NAXIS1"], ny=e.hdr["NAXIS2"], filtername=e.band)
        pos, CW, D = K.local(e.wcs, float(ref["ra"]), float(ref["dec"]))
        st.scale, st.dpix_dsky, st.crpix, st.crval = D, CW, pos, np.array([float(ref["ra"]), float(ref["dec"])])
        st.psf = PointSpreadFunction(mix[e.band][:ng])
        st.pixel_values = e.data.reshape(e.hdr["NAXIS1"], e.hdr["NAXIS2"]).copy()
        st.ierr = e.ierr.copy()
        plans.append((FastWorkPlan if fast else WorkPlan)(st))
    return scene, plans


def run_slow(case, ctx):
    from forcepho.slow.likelihood import lnlike_multi
    kind, nsrc, expb, ng, wshift, k = case
    exps, bands, mix, cat, pf = K.config(nsrc, tuple(expb), ((ng, 0),), 3, wshift, cat_kw=dict(k=k), same_bins=True)
    both = []
    for fast in (False, True):
        scene, plans = slow_setup(cat, exps, bands, mix, ng, fast, kind)
        th = np.array(scene.get_all_source_params(), dtype=float)
        ll, grad = lnlike_multi(th.copy(), scene, plans)
        ctx.check(len(grad) == len(th), f"{case}: gradient of length {len(grad)} for {len(th)} parameters")
        both.append(grad)
        npar = len(th) // nsrc
        for j in range(len(th)):
            c = j % npar
            h = 1e-4 * (1 + abs(th[j])) if c < len(bands) else (1e-7 if c < len(bands) + 2 else 2e-4)
            d = []
            for s in (2, 1, -1, -2):
                t = th.copy()
                t[j] += s * h
                d.append(lnlike_multi(t, scene, plans)[0])
            w1, w2 = (d[1] - d[2]) / (2 * h), (d[0] - d[3]) / (4 * h)
            w = (4 * w1 - w2) / 3
            # the rounding of the likelihood and of positions of tens of degrees
            noise = (abs(ll) + 1) * 1e-13 / h + abs(w1 - w2) * 0.1
            pos = 3e-5 if len(bands) <= c < len(bands) + 2 else 0
            ctx.check(abs(grad[j] - w) <= 1e-4 * abs(w) + pos * abs(w) + 1e2 * noise + 1e-4 * typical(grad, c, npar),
                      f"slow {case} (fast plan {fast}): derivative {c} of source {j // npar} is {grad[j]:.8g}, differences of the likelihood give {w:.8g}")
            ctx.step()
    ctx.check(np.allclose(both[0], both[1], rtol=1e-8, atol=1e-8 * np.abs(both[0]).max()), f"slow {case}: the two work plans disagree")
    ctx.outcome((case, np.round(both[0], 2)))


def typical(grad, c, npar):
    return float(np.abs(grad[c::npar]).max())


def slow_cases(tier):
    big = tier == "thorough"
    for kind in ("galaxy", "star", "simple"):
        for nsrc in (1, 2):
            for expb in [(1,), (2,), (1, 1)] if not big else [(1,), (2,), (1, 1), (2, 1), (1, 1, 1)]:
                for ng in (1, 2):
                    for w in range(2 if not big else 6):
                        for k in (0, 1) if not big else range(4):
                            yield kind, nsrc, expb, ng, w, k


def suites(tier):
    for n in (1, 2, 3, 4):
        K.splinefile(n)
    ms = list(range(64))
    return [
        Suite("configurations", c11.config_cases(tier), run_config, note="every derivative on every configuration of sources, bands, exposures, mixtures, radii; two proposals each"),
        Suite("astrometry", c11.astrometry_cases(tier), run_astrometry, note="rotation x handedness x scale x stretch x distortion x position; declinations"),
        Suite("profile", c11.profile_cases(tier), run_profile, note="q x pa x sersic x rhalf x flux grid"),
        Suite("fluxcal", c11.fluxcal_cases(tier), run_fluxcal, note="all assignments of 3 calibrations to exposures"),
        Suite("wings", [(q, pa, n, rh, ng) for q in (0.35, 0.7, 1.0) for pa in (0.0, 0.6, -0.9) for n, rh in ((1.0, 0.05), (4.5, 0.29)) for ng in (1, 2)], run_wings,
              note="patches of a single pixel in the wings of a bright source, out to the exponent's cut-off"),
        Suite("dark", dark_cases(tier), run_dark, note="all sets of exposures without weight"),
        Suite("weights", [ms[i::16] for i in range(16)], run_weights, note="all 2^6 zero-weight patterns"),
        Suite("total", [(s, e, w) for s in (1, 2, 3) for e in [(1,), (2,), (1, 1), (2, 1), (1, 2), (1, 1, 1)] for w in range(3)], run_total,
              note="the posterior's gradient vector"),
        Suite("slow", slow_cases(tier), run_slow, note="source types x sources x exposures x both work plans, every entry"),
    ]
