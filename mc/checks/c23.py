"""C23: local astrometry.  Every combination of declination, rotation, parity, pixel scale,
skew, distortion, reference offset and image size from finite alphabets, against central
differences of the image's own sky-to-pixel mapping; every short sequence of packing and
restoring scenes; every small set of positions converted from a residual file."""
import itertools
import os

import h5py
import numpy as np
from astropy.wcs import WCS

from ..core import Suite
from .. import env
env.load_kernel()
from .. import kern as K
from forcepho.postprocess import Residuals
from forcepho.utils import scale_at_sky, sky_to_pix, write_residuals
from forcepho.utils import wcs as fwcs

PROPERTY = "C23"
ASSUMPTIONS = ["positions away from the poles and from the 0/360 degree wrap of right ascension",
               "local means: to first order in the distance from the source, the error allowed is second order in that distance "
               "(distortion) and first order in the distance of the source from the image's reference point (projection)",
               "generalised world-coordinate objects are stood in for by an object with the two mapping methods only"]


class Bare:
    """what a generalised world-coordinate object offers"""

    def __init__(self, w):
        self._w = w

    def world_to_pixel_values(self, *a):
        return self._w.world_to_pixel_values(*a)

    def pixel_to_world_values(self, *a):
        return self._w.pixel_to_world_values(*a)


def allowed(sip, off, dec):
    """relative error of the local matrices: distortion over a pixel, projection over the offset [arcsec]"""
    return (3e-3 if sip else 0.0) + 3 * off / 206265. * (1 + abs(np.tan(np.deg2rad(dec)))) + 2e-5


def offset_sky(crval, off, ang):
    c = np.cos(np.deg2rad(crval[1]))
    return crval[0] + off * np.cos(ang) / 3600. / c, crval[1] + off * np.sin(ang) / 3600.


def same_matrix(ctx, got, want, rel, what):
    got = np.array(got, dtype=float)
    ctx.check(got.shape == (2, 2), f"{what} has shape {got.shape}")
    # column by column: the two sky directions may differ in scale (cosine of declination)
    for j in range(2):
        n = np.hypot(*want[:, j])
        ctx.check(np.abs(got[:, j] - want[:, j]).max() <= rel * n, f"{what} is {got.tolist()}, the mapping's derivative is {want.tolist()}")


def run_scale(case, ctx):
    dec0, rot, flip, scale, stretch, shear, sip, nx = case
    hdr = K.header("B0", nx=nx, ny=nx + 1, rot=rot, flip=flip, scale=scale, stretch=stretch, shear=shear, sip=K.SIP if sip else None,
                   crval=(K.RA0, dec0))
    w = WCS(hdr)
    kinds = {"astropy": w, "wrapped": fwcs.FWCS(w) if hasattr(fwcs, "FWCS") else w, "bare": Bare(w)}
    if hasattr(fwcs, "FWCS"):
        kinds["wrapped bare"] = fwcs.FWCS(Bare(w))
    for off, ang in ((0.0, 0.0), (2 * scale, 0.7), (0.5 * nx * scale, 2.1), (0.45 * nx * scale, -1.9)):
        if sip and off > 40 * scale:
            continue
        ra, dec = offset_sky((K.RA0, dec0), off, ang)
        pos, CW, D = K.local(w, ra, dec, h=0.2 * scale)
        rel = allowed(sip, off, dec)
        for kind, obj in kinds.items():
            for kw in ({}, dict(dpix=0.5), dict(make_approx=True), dict(make_approx=True, dpix=0.25)):
                cw, d = scale_at_sky((ra, dec), obj, **kw)
                what = f"{case} offset {off:g}\" {kind} {kw}"
                same_matrix(ctx, cw, CW, rel, f"CW at {what}")
                same_matrix(ctx, d, D, rel, f"D at {what}")
                want = np.array(d) * 3600. @ np.diag([np.cos(np.deg2rad(dec)), 1.0])
                ctx.check(np.allclose(cw, want, rtol=1e-9, atol=1e-9 * np.abs(want).max()), f"{what}: the two matrices do not differ by the cosine "
                          f"of declination and the arcseconds in a degree")
                if kind.startswith("wrapped") and hasattr(obj, "scale_at_sky"):
                    c2, d2 = obj.scale_at_sky((ra, dec), **kw)
                    ctx.check(np.array_equal(c2, cw) and np.array_equal(d2, d), f"{what}: the wrapper's own method differs")
                ctx.step()
        ctx.outcome(np.round(CW, 3))


def scale_cases(tier):
    big = tier == "thorough"
    decs = [-78., -27.8, 0.0, 52., 80.] if not big else [-84., -78., -60., -45., -27.8, -5., 0.0, 5., 30., 52., 66., 80., 85.]
    rots = [-2.9, -1.5707963, -0.8, 0.0, 0.4, 1.2, 2.2, 3.1415927] if not big else np.round(np.arange(-3.1, 3.15, 0.35), 3).tolist() + [0.0, 1.5707963]
    for dec0, rot, flip, scale in itertools.product(decs, rots, (False, True), (0.015, 0.06, 0.3)):
        for stretch, shear in ((1.0, 0.0), (1.3, 0.25)) if not big else ((1.0, 0.0), (1.3, 0.25), (0.7, -0.4)):
            for sip in (False, True):
                for nx in (8, 400):
                    yield [dec0, rot, flip, scale, stretch, shear, sip, nx]


# ---- what is packed -------------------------------------------------------

def images(dec0, which, sip):
    out = []
    for k in which:
        kw = dict(K.WCSES[k % len(K.WCSES)])
        big = k % 3 == 1
        crpix = (1207.3, 2350.8) if big else None
        b = f"B{k % 2}"
        out.append((b, dict(kw, crpix=crpix, crval=(K.RA0 + 2e-5 * k, dec0 - 3e-5 * k), sip=K.SIP if sip and k % 2 == 0 and not big else None)))
    out.sort(key=lambda t: t[0])
    return [K.make_exp(f"{b}_{i}", K.header(b, nx=5, ny=4, **kw), k=i) for i, (b, kw) in enumerate(out)]


def packed(ctx, p, exps, cat, where, sip):
    """the arrays for every exposure and source against the images' mapping"""
    byname = {e.name: e for e in exps}
    ref = np.array(p.patch_reference_coordinates, dtype=float)
    for a, shape in (("D", (2, 2)), ("CW", (2, 2)), ("crpix", (2,)), ("crval", (2,))):
        ctx.check(getattr(p, a).shape == (len(exps), len(cat)) + shape, f"{where}: {a} has shape {getattr(p, a).shape}")
    for j, name in enumerate(p.epaths):
        e = byname[name]
        for i, row in enumerate(cat):
            ra, dec = float(row["ra"]), float(row["dec"])
            off = 3600 * np.hypot((ra - e.hdr["CRVAL1"]) * np.cos(np.deg2rad(dec)), dec - e.hdr["CRVAL2"])
            pos, CW, D = K.local(e.wcs, ra, dec, h=0.01)
            has = "A_ORDER" in e.hdr
            rel = allowed(has, off, dec)
            what = f"{where}: exposure {name} source {i}"
            same_matrix(ctx, p.CW[j, i], CW, rel, what + " CW")
            same_matrix(ctx, p.D[j, i], D, rel, what + " D")
            want = np.array(p.D[j, i], dtype=float) * 3600. @ np.diag([np.cos(np.deg2rad(dec)), 1.0])
            ctx.check(np.abs(p.CW[j, i] - want).max() <= 1e-6 * np.abs(want).max(), f"{what}: CW and D differ by more than the "
                      "cosine of declination and the arcseconds in a degree")
            # the position of the reference coordinate, and of places a few pixels around the source
            pix = 1.0 / np.sqrt(abs(np.linalg.det(D)))           # arcsec per pixel
            eps = 4e-7 * max(1.0, np.abs(pos).max()) + 1e-6
            for r, ang in ((0.0, 0.0), (0.5, 0.3), (1.5, 1.9), (3.0, 4.0)):
                sra, sdec = offset_sky((ra, dec), r * pix, ang)
                d = np.array([sra, sdec]) - (np.array(p.crval[j, i], dtype=float) + ref)
                got = np.array(p.crpix[j, i], dtype=float) + np.array(p.CW[j, i], dtype=float) @ d
                true = np.array(e.wcs.world_to_pixel_values(sra, sdec))
                # crval is a small single-precision offset from the reference
                q = 1.2e-7 * np.abs(p.crval[j, i]).max() * np.abs(CW).max()
                lim = eps + q + rel * 1.5 * r + (6e-3 if has else 1e-5) * r * r
                ctx.check(np.abs(got - true).max() <= lim, f"{what}: a position {r:g} pixels away is predicted at {got.tolist()}, "
                          f"the image's mapping puts it at {true.tolist()}")
                ctx.step()


def run_pack(case, ctx):
    dec0, which, nsrc, spread, sip = case
    exps = images(dec0, which, sip)
    bands = sorted({e.band for e in exps})
    cat = K.catalog(nsrc, bands, cy=dec0, spread=spread)
    mix = {b: K.psf(i, 1) for i, b in enumerate(["B0", "B1"])}
    pf = K.psffile("pack", {b: [m] for b, m in mix.items()})
    p = K.make_patch(exps, bands, pf)
    scene = p.set_scene(cat)
    p.pack_meta(scene)
    packed(ctx, p, exps, cat, f"{case}", sip)
    ref = np.array(p.patch_reference_coordinates)
    for s, row in zip(scene.sources, cat):
        ctx.check(abs(s.ra + ref[0] - row["ra"]) < 1e-11 and abs(s.dec + ref[1] - row["dec"]) < 1e-11, f"{case}: offsets and "
                  f"reference do not add up to the source position")
        ctx.check(abs(s.ra) < 0.2 and abs(s.dec) < 0.2, f"{case}: source offsets ({s.ra}, {s.dec}) are not small")
    p.unzerocoords(scene)
    for s, row in zip(scene.sources, cat):
        ctx.check(abs(s.ra - row["ra"]) < 1e-11 and abs(s.dec - row["dec"]) < 1e-11, f"{case}: position not restored")
    ctx.outcome(np.round(np.array(p.CW, dtype=float), 0))


def pack_cases(tier):
    big = tier == "thorough"
    decs = [-75., -27.8, 3.0, 80.] if not big else [-84., -75., -50., -27.8, 0.0, 3.0, 40., 66., 80.]
    for dec0 in decs:
        for n in (1, 2, 3) if not big else (1, 2, 3, 4):
            for which in itertools.combinations(range(6), n):
                for nsrc in (1, 2, 3) if not big else (1, 2, 3, 5, 8):
                    for spread in (0.1, 40.0):
                        for sip in (False, True):
                            if sip and spread > 1:
                                continue
                            yield [dec0, list(which), nsrc, spread, sip]
        # crowded scenes, wide enough for the distortion to differ from source to source
        for which in ([0], [2, 4], [0, 1, 2, 3], [4, 5, 0]):
            for nsrc in (2, 6, 17, 20) if not big else (2, 4, 6, 9, 16, 17, 20, 30):
                for spread in (3.0, 1.0):
                    yield [dec0, which, nsrc, spread, True]


# ---- removing and restoring the zero-point --------------------------------

def run_zero(case, ctx):
    """sequences over three scenes: pack (or zero at a given coordinate) and restore"""
    dec0, seq = case
    exps = images(dec0, (0, 1), False)
    mix = {b: K.psf(i, 1) for i, b in enumerate(["B0", "B1"])}
    pf = K.psffile("pack", {b: [m] for b, m in mix.items()})
    p = K.make_patch(exps, ["B0", "B1"], pf)
    cats = [K.catalog(n, ["B0", "B1"], cy=dec0 + 1e-4 * n, spread=0.5 + n, k=n) for n in (1, 2, 3)]
    scenes = [p.set_scene(c) for c in cats]
    for k, how in seq:
        if how == "pack":
            p.pack_meta(scenes[k])
            packed(ctx, p, exps, cats[k], f"{case}", False)
        else:
            zero = (K.RA0 - 0.013, dec0 + 0.021) if how == "given" else None
            z = np.array(p.zerocoords(scenes[k], sky_zero=zero) if zero else p.zerocoords(scenes[k]))
            ctx.check(np.array_equal(z, p.patch_reference_coordinates), f"{case}: zerocoords returned {z}, kept {p.patch_reference_coordinates}")
            if zero:
                ctx.check(np.array_equal(z, zero), f"{case}: asked for zero-point {zero}, used {z}")
            else:
                lo = [cats[k][c].min() for c in ("ra", "dec")]
                hi = [cats[k][c].max() for c in ("ra", "dec")]
                ctx.check(np.all(z >= lo) and np.all(z <= hi), f"{case}: zero-point {z} outside the scene")
        z = p.patch_reference_coordinates
        for s, row in zip(scenes[k].sources, cats[k]):
            ctx.check(abs(s.ra + z[0] - row["ra"]) < 1e-10 and abs(s.dec + z[1] - row["dec"]) < 1e-10, f"{case}: after {how} offset plus zero-point "
                      "is not the position")
        out = p.unzerocoords(scenes[k])
        ctx.check(out is None or out is scenes[k], f"{case}: restoring returned another scene")
        for sc, c in zip(scenes, cats):
            for s, row in zip(sc.sources, c):
                ctx.check(abs(s.ra - row["ra"]) < 1e-10 and abs(s.dec - row["dec"]) < 1e-10, f"{case}: after {how} and restoring scene {k} a "
                          f"source is at ({s.ra}, {s.dec}), it was at ({row['ra']}, {row['dec']})")
        ctx.step()
    ctx.state([case])


def zero_cases(tier):
    ops = [(k, h) for k in range(3) for h in ("pack", "given", "median")]
    for dec0 in (-27.8, 66.) if tier == "quick" else (-75., -27.8, 0., 66.):
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for seq in itertools.product(ops, repeat=n):
                yield [dec0, list(seq)]


# ---- positions from a residual file ---------------------------------------

def run_file(case, ctx):
    """every number of sources and of positions asked for"""
    dec0, which, nsrc, npos, form, sip = case
    exps = images(dec0, which, sip)
    bands = sorted({e.band for e in exps})
    cat = K.catalog(nsrc, bands, cy=dec0, spread=1.5 if sip else 0.3)
    mix = {b: K.psf(i, 1) for i, b in enumerate(["B0", "B1"])}
    pf = K.psffile("pack", {b: [m] for b, m in mix.items()})
    p = K.make_patch(exps, bands, pf)
    chi, der, res, scene, prop = K.evaluate(p, cat)
    fn = os.path.join(K.scratch(), f"res{os.getpid()}.h5")
    if os.path.exists(fn):
        os.remove(fn)
    write_residuals(p, fn, residuals=[res[n] for n in p.epaths])
    # positions: near each source, one more
    at = [i % nsrc for i in range(npos)] if npos == nsrc else [0] * npos
    ra = np.array([cat["ra"][i] + 1e-6 * (k + 1) for k, i in enumerate(at)])
    dec = np.array([cat["dec"][i] - 1.5e-6 * (k + 1) for k, i in enumerate(at)])
    byname = {e.name: e for e in exps}
    r = Residuals(fn)
    try:
        names = list(r.exposures)
        ctx.check(sorted(names) == sorted(byname), f"{case}: exposures {names}")
        for j, n in enumerate(names):
            if form == "index":
                pix = r.sky_to_pix(ra, dec, e=j)
            elif form == "name":
                pix = r.sky_to_pix(ra, dec, exp=n)
            else:
                pix = sky_to_pix(ra, dec, exp=r.handle[n], ref_coords=r.reference_coordinates)
            pix = np.array(pix, dtype=float)
            want = np.array(byname[n].wcs.world_to_pixel_values(ra, dec)).T
            ctx.check(pix.shape == want.shape, f"{case}: {n}: shape {pix.shape}")
            lim = 6e-7 * np.abs(want).max() + 2e-3
            ctx.check(np.abs(pix - want).max() <= lim, f"{case}: exposure {n}: positions {pix.tolist()}, the image's mapping gives {want.tolist()}")
            ctx.step()
    finally:
        r.handle.close()
        os.remove(fn)
    ctx.outcome(case)


def file_cases(tier):
    for dec0 in (-27.8, 66.):
        for which in [(0,), (1, 2), (0, 1, 3), (2, 3, 4, 5)] if tier == "quick" else \
                [c for n in (1, 2, 3, 4) for c in itertools.combinations(range(6), n)]:
            for nsrc in (1, 2, 3):
                for npos in (1, 2, 3, 4):
                    for form in ("index", "name", "plain"):
                        for sip in (False, True):
                            yield [dec0, list(which), nsrc, npos, form, sip]


def suites(tier):
    return [Suite("scale", scale_cases(tier), run_scale, note="declination x rotation x parity x scale x skew x distortion x size, four offsets each"),
            Suite("pack", pack_cases(tier), run_pack, note="declination x all sets of 1-3 of six images x sources x spread x distortion"),
            Suite("zero", zero_cases(tier), run_zero, note="all sequences of up to 3 pack/zero/restore steps over three scenes"),
            Suite("file", file_cases(tier), run_file, note="images x sources x positions x call form")]
