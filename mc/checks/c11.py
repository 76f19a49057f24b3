"""C11: the image model of the kernel, on every small configuration of sources, bands,
exposures, point-spread mixtures, astrometry, shapes, weights and fluxes from finite
alphabets, against an independent float64 evaluation of the Gaussian-mixture model and
against the slow implementation."""
import itertools

import numpy as np

from ..core import Suite
from .. import env
env.load_kernel()
from .. import kern as K

PROPERTY = "C11"
ASSUMPTIONS = ["g++ -O3 as in the package's build; the GPU kernel cannot run here and is not covered",
               "one point-spread mixture per exposure (the packing looks up the first tabulated one)",
               "residuals compared to 2e-5 of the model's peak, chi-square to 6e-5 of the sum of its absolute terms"]


def run_config(case, ctx):
    nsrc, expb, psfs, nrad, wshift, order, k = case
    exps, bands, mix, cat, pf = K.config(nsrc, tuple(expb), tuple(map(tuple, psfs)), nrad, wshift, cat_kw=dict(k=k))
    p = K.make_patch(exps, bands, pf, nrad, order=order)
    chi, der, res, scene, prop = K.evaluate(p, cat)
    K.compare(ctx, exps, bands, p, (chi, der, res), K.reference(cat, exps, mix, nrad), f"{case}")
    ctx.step(len(exps) * nsrc)
    # a proposal away from the packed positions
    ref = p.patch_reference_coordinates
    q = scene.get_all_source_params().copy()
    n = len(bands) + 6
    for i in range(nsrc):
        q[i * n:i * n + len(bands)] *= -0.7 if i % 2 else 1.6
        q[i * n + len(bands)] += 1.2e-5 * (i + 1)
        q[i * n + len(bands) + 1] -= 0.9e-5 * (i + 1)
        q[i * n + len(bands) + 2] += 0.07
        q[i * n + len(bands) + 3] -= 0.5
        q[i * n + len(bands) + 4] += 0.31
        q[i * n + len(bands) + 5] += 0.013
    out = K.propose(p, prop, scene, q)
    moved = K.theta_to_cat(q, cat, bands, ref)
    K.compare(ctx, exps, bands, p, out, K.reference(moved, exps, mix, nrad, ref=cat), f"{case} moved")
    ctx.outcome(np.round(chi, 6))


def config_cases(tier):
    big = tier == "thorough"
    for nsrc in range(1, 5 if big else 4):
        for nb in range(1, 4):
            for expb in itertools.product((1, 2, 3) if big else (1, 2), repeat=nb):
                for psfs in [[(1, 0)], [(2, 0)], [(1, 1), (2, 0)], [(2, 1), (1, 0), (3, 0)]]:
                    for nrad in (1, 3) if not big else (1, 2, 3, 4):
                        yield nsrc, expb, psfs, nrad, (nsrc + nb) % 6, None, len(psfs)
    # the order in which exposures are supplied
    for expb in [(2, 1), (1, 2), (1, 1, 1), (2, 2)] if not big else [(2, 1), (1, 2), (1, 1, 1), (2, 2), (1, 2, 1), (2, 2, 1)]:
        for order in itertools.permutations(range(sum(expb))):
            yield 2, expb, [(1, 1), (2, 0)], 3, 1, list(order), 1


def run_astrometry(case, ctx):
    rot, flip, scale, stretch, shear, sip, pos, dec0 = case
    h = K.header("B0", nx=8, ny=7, rot=rot, flip=flip, scale=scale, stretch=stretch, shear=shear,
                 sip=K.SIP if sip else None, crval=(K.RA0, dec0))
    e = K.make_exp("e", h)
    mix = {"B0": K.psf(0, 2)}
    pf = K.psffile("astro", {"B0": [mix["B0"]]})
    cat = K.catalog(2, ["B0"], cy=dec0)
    ra, dec = e.wcs.pixel_to_world_values(*pos)
    cat["ra"][0], cat["dec"][0] = ra, dec
    cat["ra"][1], cat["dec"][1] = e.wcs.pixel_to_world_values(pos[1], pos[0])
    p = K.make_patch([e], ["B0"], pf)
    chi, der, res, scene, prop = K.evaluate(p, cat)
    K.compare(ctx, [e], ["B0"], p, (chi, der, res), K.reference(cat, [e], mix), f"{case}", tol=3e-3 if sip else 3e-5)
    ctx.outcome(np.round(chi, 6))


def astrometry_cases(tier):
    big = tier == "thorough"
    rots = np.round(np.arange(-3.0, 3.2, 0.5 if not big else 0.2), 3).tolist()
    for rot in rots:
        for flip in (False, True):
            for scale in (0.03, 0.06, 0.12):
                for stretch, shear in ((1.0, 0.0), (1.3, 0.2)):
                    for sip in (False, True):
                        for pos in [(3.5, 3.1), (0.2, 5.9), (9.5, -1.7)]:
                            yield rot, flip, scale, stretch, shear, sip, pos, K.DEC0
    for dec0 in (-75., -40., 0.0, 35., 62., 80.):
        for rot in rots[::2]:
            for flip in (False, True):
                yield rot, flip, 0.06, 1.1, 0.1, False, (3.2, 4.4), dec0


def run_profile(case, ctx):
    q, pas, ns, rhs, flux = case
    exps, bands, mix, cat, pf = K.config(1, (1,), ((2, 0),), 3, 1)
    p = K.make_patch(exps, bands, pf)
    for pa in pas:
        for n in ns:
            for rh in rhs:
                c = cat.copy()
                c["q"], c["pa"], c["sersic"], c["rhalf"], c["B0"] = q, pa, n, rh, flux
                chi, der, res, scene, prop = K.evaluate(p, c)
                K.compare(ctx, exps, bands, p, (chi, der, res), K.reference(c, exps, mix), f"q={q} pa={pa} n={n} rh={rh} flux={flux}")
                ctx.step()
                ctx.outcome(np.round(chi, 6))


def profile_cases(tier):
    big = tier == "thorough"
    pas = [-1.8, -1.5708, -0.7, 0.0, 0.3, 0.7854, 1.2, 1.5708] if not big else np.round(np.arange(-2, 2.01, 0.2), 2).tolist()
    ns = [1.0, 1.9, 3.3, 5.0] if not big else [1.0, 1.5, 2.0, 2.7, 3.3, 4.0, 5.0]
    rhs = [0.03, 0.1, 0.29] if not big else [0.01, 0.03, 0.06, 0.1, 0.2, 0.29, 0.5]
    for q in (0.2, 0.4, 0.63, 0.85, 1.0, 1.3):
        for flux in (-3.0, 0.0, 1e-3, 7.5, 1e3):
            yield q, pas, ns, rhs, flux


def run_wings(case, ctx):
    """every pixel out to the cut-off of the exponent, relative to the model at that pixel"""
    q, pa, n, rh, ng, pos = case
    h = K.header("B0", nx=34, ny=29, rot=0.5, scale=0.06, shear=0.1, crpix=(15.0, 14.0))
    e = K.make_exp("e", h)
    e.data[:] = 0.0
    mix = {"B0": K.psf(0, ng)}
    pf = K.psffile(f"wings{ng}", {"B0": [mix["B0"]]})
    cat = K.catalog(1, ["B0"])
    cat["ra"], cat["dec"] = e.wcs.pixel_to_world_values(*pos)
    cat["q"], cat["pa"], cat["sersic"], cat["rhalf"], cat["B0"] = q, pa, n, rh, 1e5
    p = K.make_patch([e], ["B0"], pf)
    chi, der, res, scene, prop = K.evaluate(p, cat)
    got = -np.asarray(res["e"], dtype=float)
    m0, w, D = K.local(e.wcs, float(cat["ra"][0]), float(cat["dec"][0]))
    c, s = np.cos(pa), np.sin(pa)
    T = D @ np.array([[c, -s], [s, c]]) @ np.diag([1 / q, q])
    lo, hi = np.zeros(len(got)), np.zeros(len(got))
    for g in mix["B0"]:
        k = int(g["sersic_bin"])
        cov = K.RADII[k] ** 2 * T @ T.T + np.array([[g["Cxx"], g["Cxy"]], [g["Cxy"], g["Cyy"]]], dtype=float)
        F = np.linalg.inv(cov)
        d = np.array([e.xpix - m0[0] - float(g["xcen"]), e.ypix - m0[1] - float(g["ycen"])])
        v = F @ d
        a = (d * v).sum(axis=0)
        im = np.exp(-0.5 * a) * (1 + ((v ** 2).sum(axis=0) - F[0, 0] - F[1, 1]) / 24.) * np.sqrt(np.linalg.det(F)) / (2 * np.pi)
        im = im * 1e5 * K.amp(k, n, rh) * float(g["amp"])
        # a later cut-off, or none, is as good
        lo += np.where(a > 35.5, np.minimum(im, 0), im)
        hi += np.where(a > 35.5, np.maximum(im, 0), im)
    tol = 2e-3 * np.maximum(np.abs(lo), np.abs(hi)) + 1e-12
    bad = ~((got >= lo - tol) & (got <= hi + tol))
    if bad.any():
        i = int(np.argmax(bad))
        ctx.fail(f"{case}: the source contributes {got[i]:.6g} at pixel ({e.xpix[i]:g}, {e.ypix[i]:g}), its mixture is {hi[i]:.6g} there")
    ctx.step(len(got))
    ctx.outcome(np.round(chi, 3))


def wing_cases(tier):
    pas = (0.0, 0.6, 1.3, -0.9) if tier != "thorough" else tuple(np.round(np.arange(-1.5, 1.6, 0.25), 2))
    for q in (0.3, 0.6, 1.0):
        for pa in pas:
            for n, rh in ((1.0, 0.05), (2.5, 0.15), (4.5, 0.29)):
                for ng in (1, 2):
                    for pos in ((14.3, 13.6), (2.2, 25.4), (-3.0, 10.0)):
                        yield q, pa, n, rh, ng, pos


def run_weights(case, ctx):
    """a fixed little image, every pattern of zero-weight pixels"""
    masks = case
    h = K.header("B0", nx=3, ny=2, rot=0.7, scale=0.06, shear=0.1)
    h2 = K.header("B1", nx=2, ny=2, rot=-0.7, scale=0.07, shear=0.1)
    mix = {b: K.psf(i, 2) for i, b in enumerate(("B0", "B1"))}
    pf = K.psffile("weights", {b: [m] for b, m in mix.items()})
    cat = K.catalog(2, ["B0", "B1"])
    for m in masks:
        on = [(m >> i) & 1 for i in range(6)]
        e = K.make_exp("e", h, weight=on)
        e2 = K.make_exp("e2", h2, k=3)
        p = K.make_patch([e, e2], ["B0", "B1"], pf)
        chi, der, res, scene, prop = K.evaluate(p, cat)
        K.compare(ctx, [e, e2], ["B0", "B1"], p, (chi, der, res), K.reference(cat, [e, e2], mix), f"weights {on}")
        # data of zero-weight pixels do not matter
        f = K.make_exp("e", h, weight=on)
        f.data[np.array(on) == 0] += 50.0
        p2 = K.make_patch([f, e2], ["B0", "B1"], pf)
        chi2, der2, res2, _, _ = K.evaluate(p2, cat)
        ctx.check(np.array_equal(chi, chi2) and np.array_equal(der, der2),
                  f"the values of zero-weight pixels change the result (weights {on}): chi-square {chi} and {chi2}")
        # nor does their presence
        keep = np.array(on) == 1
        if keep.any():
            g = K.Exp("e", h, e.xpix[keep], e.ypix[keep], e.data[keep], e.ierr[keep])
            chi3, der3, res3, _, _ = K.evaluate(K.make_patch([g, e2], ["B0", "B1"], pf), cat)
            ctx.check(np.allclose(chi, chi3, rtol=1e-6, atol=1e-9) and np.allclose(der, der3, rtol=1e-4, atol=1e-4),
                      f"removing zero-weight pixels changes the result (weights {on}): {chi} and {chi3}")
        ctx.step(3)
        ctx.outcome(np.round(chi, 6))


def run_independence(case, ctx):
    expb, perm, wshift = case
    exps, bands, mix, cat, pf = K.config(3, tuple(expb), ((2, 0), (1, 1)), 3, wshift)
    p = K.make_patch(exps, bands, pf)
    chi, der, res, scene, prop = K.evaluate(p, cat)
    scale = {n: np.abs(r).max() for n, r in res.items()}
    # permuted sources
    c2, d2, r2, _, _ = K.evaluate(p, cat[list(perm)])
    ctx.check(np.allclose(chi, c2, rtol=1e-5, atol=1e-6), f"reordering the sources {perm} changes chi-square {chi} to {c2}")
    ctx.check(np.allclose(der[:, list(perm)], d2, rtol=2e-3, atol=1e-3 * np.abs(der).max(axis=(0, 1))),
              f"reordering the sources {perm} does not reorder the derivatives")
    for n in res:
        ctx.check(np.allclose(res[n], r2[n], atol=1e-5 * scale[n]), f"reordering the sources {perm} changes the residual of {n}")
    # each source proportional to its flux, and only in its own band
    for s in range(3):
        for ib, b in enumerate(bands):
            img = {}
            for f in (0.0, 1.0, -2.0, 37.5):
                c = cat.copy()
                c[b][s] = f
                chif, derf, resf, _, _ = K.evaluate(p, c)
                img[f] = resf
                ctx.step()
                for jb, bb in enumerate(bands):
                    if bb != b:
                        ctx.check(chif[jb] == chi[jb] and np.array_equal(derf[jb], der[jb]),
                                  f"changing the flux of source {s} in {b} changes the result in {bb}")
                for e in exps:
                    if e.band != b:
                        ctx.check(np.array_equal(resf[e.name], res[e.name]),
                                  f"changing the flux of source {s} in {b} changes the residual of {e.name}")
            for e in exps:
                if e.band == b:
                    unit = img[0.0][e.name] - img[1.0][e.name]
                    ctx.check(np.abs(unit).max() > 1e-4, f"source {s} has no image in {e.name}")
                    for f in (-2.0, 37.5):
                        d = img[0.0][e.name] - img[f][e.name]
                        ctx.check(np.allclose(d, f * unit, atol=1e-4 * abs(f) * np.abs(unit).max() + 1e-6),
                                  f"the image of source {s} in {e.name} is not proportional to its flux")
    # data of one exposure only matter there
    for i, e in enumerate(exps):
        other = [x if x is not e else K.Exp(e.name, e.hdr, e.xpix, e.ypix, e.data + 1.0, e.ierr * 0.5) for x in exps]
        chi3, der3, res3, _, _ = K.evaluate(K.make_patch(other, bands, pf), cat)
        ctx.step()
        for jb, bb in enumerate(bands):
            if bb != e.band:
                ctx.check(chi3[jb] == chi[jb] and np.array_equal(der3[jb], der[jb]), f"data of {e.name} change the result of band {bb}")
        for x in exps:
            if x is not e:
                ctx.check(np.array_equal(res3[x.name], res[x.name]), f"data of {e.name} change the residual of {x.name}")
        ctx.check(np.allclose(res3[e.name], res[e.name] + 1.0, atol=1e-5), f"residual of {e.name} does not follow its data")
    ctx.outcome(np.round(chi, 6))


def independence_cases(tier):
    for expb in [(1,), (2,), (1, 1), (2, 1), (1, 2), (1, 1, 1)]:
        for perm in itertools.permutations(range(3)):
            for w in range(2 if tier == "quick" else 6):
                yield expb, perm, w


def run_fluxcal(case, ctx):
    expb, gains = case
    exps, bands, mix, cat, pf = K.config(2, tuple(expb), ((2, 0), (1, 1)), 3, 2)
    G = {e.name: g for e, g in zip(exps, gains)}
    p = K.make_patch(exps, bands, pf)
    chi, der, res, _, _ = K.evaluate(p, cat, G=G)
    K.compare(ctx, exps, bands, p, (chi, der, res), K.reference(cat, exps, mix, G=G), f"flux calibration {gains}")
    # the calibration read from the headers
    for e, g in zip(exps, gains):
        e.hdr["TWEAK"] = g
    p = K.make_patch(exps, bands, pf)
    scene = p.set_scene(cat)
    p.pack_meta(scene)
    p._pack_fluxcal(p.hdrs, tweakphot="TWEAK")
    p.send_to_device()
    out = K.propose(p, p.get_proposer(), scene)
    K.compare(ctx, exps, bands, p, out, K.reference(cat, exps, mix, G=G), f"flux calibration from headers {gains}")
    p.pack_meta(scene)
    ctx.check(np.all(p.G == 1), "flux calibration is not one without a tweak")
    ctx.outcome(np.round(chi, 6))


def fluxcal_cases(tier):
    for expb in [(1,), (2,), (1, 1), (2, 1)]:
        for g in itertools.product((0.5, 1.0, 2.3), repeat=sum(expb)):
            yield expb, g


# ---- slow implementation --------------------------------------------------

def slow_lnlike(cat, exps, bands, mix, ng, scene_theta=None, fast=False, nrad=3, kind="galaxy"):
    from forcepho.slow.stamp import PostageStamp
    from forcepho.slow.psf import PointSpreadFunction
    from forcepho.slow.likelihood import WorkPlan, FastWorkPlan, lnlike_multi, make_image
    from forcepho.sources import Scene, Galaxy
    scene = Scene(catalog=cat, filternames=list(bands), source_type=Galaxy, splinedata=K.splinefile(nrad))
    plans, ims = [], {}
    ref = cat[0]
    for e in exps:
        nx, ny = e.hdr["NAXIS1"], e.hdr["NAXIS2"]
        st = PostageStamp(nx=nx, ny=ny, filtername=e.band)
        pos, CW, D = K.local(e.wcs, float(ref["ra"]), float(ref["dec"]))
        st.scale, st.dpix_dsky, st.crpix, st.crval = D, CW, pos, np.array([float(ref["ra"]), float(ref["dec"])])
        st.psf = PointSpreadFunction(mix[e.band][:ng])
        st.pixel_values = e.data.reshape(nx, ny).copy()
        st.ierr = e.ierr.copy()
        plans.append((FastWorkPlan if fast else WorkPlan)(st))
        if not fast:
            ims[e.name] = make_image(scene, st)[0].ravel()
    th = scene.get_all_source_params() if scene_theta is None else scene_theta
    ll, grad = lnlike_multi(th, scene, plans)
    return ll, grad, ims, (scene, plans)


def run_slow(case, ctx):
    nsrc, expb, ng, wshift, k = case
    exps, bands, mix, cat, pf = K.config(nsrc, tuple(expb), ((ng, 0),), 3, wshift, cat_kw=dict(k=k), same_bins=True)
    p = K.make_patch(exps, bands, pf)
    chi, der, res, scene, prop = K.evaluate(p, cat)
    want = K.reference(cat, exps, mix)
    K.compare(ctx, exps, bands, p, (chi, der, res), want, f"{case}")
    data = sum(float(np.sum((e.data * e.ierr) ** 2)) for e in exps)
    sc = sum(want[3].values())
    for fast in (False, True):
        ll, grad, ims, _ = slow_lnlike(cat, exps, bands, mix, ng, fast=fast)
        ctx.check(abs(-2 * ll - data - chi.sum()) <= 1e-4 * (sc + data),
                  f"slow likelihood gives chi-square {-2 * ll - data:.8g}, the kernel {chi.sum():.8g} (fast plan: {fast})")
        for n, im in ims.items():
            ctx.check(np.allclose(im, want[0][n], atol=1e-4 * want[1][n].max()), f"slow image of {n} differs from the model")
        ctx.step()
    ctx.outcome(np.round(chi, 6))


def slow_cases(tier):
    for nsrc in (1, 2, 3):
        for expb in [(1,), (2,), (1, 1), (1, 2), (1, 1, 1)]:
            for ng in (1, 2):
                for w in range(3 if tier == "quick" else 6):
                    for k in (0, 1) if tier == "quick" else range(5):
                        yield nsrc, expb, ng, w, k


def suites(tier):
    K.splinefile(1), K.splinefile(2), K.splinefile(3), K.splinefile(4)
    ms = list(range(64))
    return [
        Suite("configurations", config_cases(tier), run_config,
              note="sources 1-3 (4), bands 1-3, exposures per band 1-2 (3), mixtures per band, radii 1,3 (1-4); exposure supply orders; two proposals each"),
        Suite("astrometry", astrometry_cases(tier), run_astrometry, note="rotation x handedness x scale x stretch x distortion x position; declinations"),
        Suite("profile", profile_cases(tier), run_profile, note="q x pa x sersic x rhalf x flux grid"),
        Suite("wings", wing_cases(tier), run_wings, note="the wings of a bright source, relative to the model at each of 986 pixels"),
        Suite("weights", [ms[i::16] for i in range(16)], run_weights, note="all 2^6 zero-weight patterns"),
        Suite("independence", independence_cases(tier), run_independence, note="all source orders; per source and band fluxes; per exposure data"),
        Suite("fluxcal", fluxcal_cases(tier), run_fluxcal, note="all assignments of 3 calibrations to exposures"),
        Suite("slow", slow_cases(tier), run_slow, note="agreement with the slow implementation, both work plans"),
    ]
