"""C15: packing of pixels, for every small set of exposures, region, band request and
build history, on the three kinds of patch; the oracle decides membership from the
sky positions of the pixel corners and looks values up in the images it wrote."""
import hashlib
import itertools
import json
import os
import contextlib
import warnings

import numpy as np
from astropy.io import fits
from astropy.wcs import WCS

from ..core import Suite
from .. import env
env.load_kernel()
from .. import kern as K
from forcepho.patches import FITSPatch, StorePatch, CPUPatchMixin
from forcepho.patches.storage import PixelStore, MetaStore, ImageSet
from forcepho.region import CircularRegion, RectangularRegion

PROPERTY = "C15"
ASSUMPTIONS = ["square pixels for circular regions (the code measures the radius along declination), regions away from the poles and the wrap of right ascension",
               "pixels whose membership depends on less than 1e-4 pixel are not judged",
               "patches given their pixels directly pack all of them, there is no region"]
warnings.filterwarnings("ignore")


class FPatch(FITSPatch, CPUPatchMixin):
    pass


class SPatch(StorePatch, CPUPatchMixin):
    pass


def quiet(f, *a, **k):
    with open(os.devnull, "w") as o, contextlib.redirect_stdout(o):
        return f(*a, **k)


BN = ["F110", "F110W", "F110W2"]      # names that contain one another
SC = 0.1        # arcsec per pixel
RA0, DEC0 = K.RA0, K.DEC0

# position of the exposure centre relative to the field, in pixels, and orientation
LAYOUTS = {"c": dict(off=(0, 0), rot=0.0), "r": dict(off=(0.5, -0.3), rot=0.6), "f": dict(off=(-1, 0.5), rot=-0.4, flip=True),
           "e": dict(off=(7, 1), rot=0.2), "s": dict(off=(-2, -9), rot=1.9), "m": dict(off=(60, 0), rot=0.0), "n": dict(off=(0, 45), rot=2.5, flip=True)}


def sky(dx, dy):
    return RA0 + dx * SC / 3600. / np.cos(np.deg2rad(DEC0)), DEC0 + dy * SC / 3600.


def mkhdr(band, kind, nx, ny, **extra):
    L = LAYOUTS[kind]
    return K.header(band, nx=nx, ny=ny, scale=SC, rot=L["rot"], flip=L.get("flip", False), crpix=(0.5 * nx + 0.5, 0.5 * ny + 0.5), crval=sky(*L["off"]), extra=extra)


def region(r):
    kind, dx, dy, size = r
    ra, dec = sky(dx, dy)
    if kind == "C":
        return CircularRegion(ra, dec, size * SC / 3600.)
    c = np.cos(np.deg2rad(DEC0))
    return RectangularRegion(ra - size * SC / 3600. / c, ra + size * SC / 3600. / c, dec - 0.7 * size * SC / 3600., dec + 0.7 * size * SC / 3600.)


def margin(r, ra, dec):
    """signed distance (pixels) inside the region, from the definition on the sky"""
    kind, dx, dy, size = r
    ra0, dec0 = sky(dx, dy)
    if kind == "C":
        a, d, b, e = [np.deg2rad(v) for v in (ra, dec, ra0, dec0)]
        s = 2 * np.arcsin(np.sqrt(np.sin((d - e) / 2) ** 2 + np.cos(d) * np.cos(e) * np.sin((a - b) / 2) ** 2))
        return size - np.rad2deg(s) * 3600. / SC
    c = np.cos(np.deg2rad(DEC0))
    return np.minimum(size - np.abs(ra - ra0) * c * 3600. / SC, 0.7 * size - np.abs(dec - dec0) * 3600. / SC)


def member(r, hdr, nx, ny, s=None):
    """per pixel: 1 in, 0 out, -1 undecidable; s is the super-pixel size"""
    w = WCS(hdr)
    if s is None:
        x, y = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
        cs = [(x + i, y + j) for i in (0, 1) for j in (0, 1)]
    else:
        x, y = np.meshgrid(np.arange(nx) // s * s, np.arange(ny) // s * s, indexing="ij")
        cs = [(x + i * (s - 1), y + j * (s - 1)) for i in (0, 1) for j in (0, 1)]
    m = np.max([margin(r, *w.pixel_to_world_values(a, b)) for a, b in cs], axis=0)
    return np.where(m > 1e-4, 1, np.where(m < -1e-4, 0, -1))


def image(k, nx, ny):
    x, y = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
    sign = np.where((x + 2 * y) % 5 == 3, -1.0, 1.0)
    return (sign * (100.0 * (k + 1) + x + 0.01 * y)).astype(np.float32), (0.5 + 0.01 * k + 0.001 * x + 0.002 * y).astype(np.float32)


def unpack(ctx, p, where):
    """the index arrays partition the pixel array; returns [(epath, band, data, ierr, x, y)]"""
    n = len(p.data)
    ctx.check(len(p.ierr) == n and len(p.xpix) == n and len(p.ypix) == n, f"{where}: pixel arrays of different lengths")
    ctx.check(p.n_exp == len(p.epaths) == len(p.bands) == len(p.hdrs) == len(p.wcses) == len(p.exposure_N) == len(p.exposure_start), f"{where}: numbers of exposures disagree")
    ctx.check(p.n_bands == len(p.bandlist) == len(p.band_N) == len(p.band_start) == len(p.band_N_pix), f"{where}: numbers of bands disagree")
    i, out = 0, []
    for e in range(p.n_exp):
        s, N = int(p.exposure_start[e]), int(p.exposure_N[e])
        ctx.check(s == i and N > 0, f"{where}: exposure {e} starts at {s} with {N} pixels, expected {i}")
        sl = slice(s, s + N)
        out.append((p.epaths[e], p.bands[e], p.data[sl], p.ierr[sl], p.xpix[sl], p.ypix[sl]))
        i += N
    ctx.check(i == n, f"{where}: {n} pixels, exposures hold {i}")
    e = 0
    for b in range(p.n_bands):
        ctx.check(int(p.band_start[b]) == e and int(p.band_N[b]) > 0, f"{where}: band {b} starts at exposure {p.band_start[b]}, expected {e}")
        k = slice(e, e + int(p.band_N[b]))
        ctx.check(all(x == p.bandlist[b] for x in p.bands[k]), f"{where}: exposures of band {p.bandlist[b]} are {p.bands[k]}")
        ctx.check(int(p.band_N_pix[b]) == int(sum(p.exposure_N[k])), f"{where}: band {b} has {p.band_N_pix[b]} pixels, its exposures {sum(p.exposure_N[k])}")
        e += int(p.band_N[b])
    ctx.check(e == p.n_exp, f"{where}: bands hold {e} of {p.n_exp} exposures")
    for attr in ("data", "ierr"):
        sp, sb = p.split_pix(attr), p.split_band(attr)
        ctx.check(np.array_equal(np.concatenate(sp), getattr(p, attr)) and [len(a) for a in sp] == [int(v) for v in p.exposure_N] and
                  np.array_equal(np.concatenate(sb), getattr(p, attr)) and [len(a) for a in sb] == [int(v) for v in p.band_N_pix], f"{where}: splitting {attr}")
    return out


def check_exposure(ctx, got, mem, val, ierr, bad, where, pad=None, offset=0.0, snr=None):
    """pixels of one exposure against the image they come from"""
    _, _, d, e, x, y = got
    real = (x >= 0) & (y >= 0)
    if pad is None:
        ctx.check(real.all(), f"{where}: pixels with negative coordinates")
    else:
        ctx.check(np.all(e[~real] == 0), f"{where}: padding pixels have weight")
        ctx.check(len(d) % pad == 0 and (~real).sum() < pad, f"{where}: {len(d)} pixels with {(~real).sum()} of padding to multiples of {pad}")
        ctx.check(np.all(x[~real] < 0) and np.all(y[~real] < 0), f"{where}: padding coordinates")
    ctx.check(np.all(np.isfinite(d)) and np.all(np.isfinite(e)), f"{where}: values that are not finite")
    seen = np.zeros(mem.shape, int)
    xi, yi = x[real].astype(int), y[real].astype(int)
    ctx.check(np.array_equal(xi, x[real]) and np.array_equal(yi, y[real]), f"{where}: fractional coordinates")
    ctx.check(xi.max(initial=0) < mem.shape[0] and yi.max(initial=0) < mem.shape[1], f"{where}: coordinates outside of the image")
    np.add.at(seen, (xi, yi), 1)
    if (seen > 1).any():
        ctx.fail(f"{where}: pixel {np.argwhere(seen > 1)[0].tolist()} is packed {seen.max()} times")
    wrong = ((mem == 1) & (seen == 0)) | ((mem == 0) & (seen > 0))
    if wrong.any():
        ij = np.argwhere(wrong)[0].tolist()
        ctx.fail(f"{where}: pixel {ij} is {'missing' if mem[tuple(ij)] else 'packed'} but {'has a' if mem[tuple(ij)] else 'has no'} corner in the region")
    for k in range(len(xi)):
        i, j = xi[k], yi[k]
        gd, ge = d[real][k], e[real][k]
        if bad[i, j]:
            ctx.check(ge == 0, f"{where}: unusable pixel ({i}, {j}) has weight {ge}")
            continue
        wd = np.float32(val[i, j] - offset)
        we = float(ierr[i, j])
        if snr and we > 0 and wd * we > snr:
            we = snr / float(wd)
        ctx.check(abs(gd - wd) <= 1e-5 * abs(wd) + 1e-6, f"{where}: pixel ({i}, {j}) has value {gd}, the image {wd}")
        ctx.check(abs(ge - we) <= 2e-6 * abs(we), f"{where}: pixel ({i}, {j}) has inverse uncertainty {ge}, expected {we}")


# ---- FITS -----------------------------------------------------------------

def badmask(k, nx, ny):
    """which pixels of image k are spoilt, and how"""
    kinds = {}
    for q, t in enumerate(["nan", "inf", "zero", "neg", "nanerr", "inferr"]):
        kinds[((q * 2 + k) % nx, (q * 3 + 1 + k) % ny)] = t
    return kinds


def fits_set(name, spec, spoil):
    """spec: list of (band, layout, nx, ny); returns file names and (hdr, val, ierr, bad)"""
    d = os.path.join(K.scratch(), "fits_" + (name if len(name) < 100 else hashlib.md5(name.encode()).hexdigest()))
    os.makedirs(d, exist_ok=True)
    out = []
    for k, (band, lay, nx, ny) in enumerate(spec):
        fn = os.path.join(d, f"im{k}.fits")
        h = mkhdr(band, lay, nx, ny, BKG=0.25 * k) if k % 2 else mkhdr(band, lay, nx, ny)
        val, ie = image(k, nx, ny)
        err = (1.0 / ie).astype(np.float32)
        bad = np.zeros((nx, ny), bool)
        v2 = val.copy()
        if spoil:
            for ij, t in badmask(k, nx, ny).items():
                bad[ij] = True
                if t == "nan":
                    v2[ij] = np.nan
                elif t == "inf":
                    v2[ij] = np.inf
                else:
                    err[ij] = dict(zero=0, neg=-1, nanerr=np.nan, inferr=np.inf)[t]
        if not os.path.exists(fn):
            hd = h.copy()
            for kk in ("SIMPLE", "NAXIS", "NAXIS1", "NAXIS2", "BITPIX"):
                hd.remove(kk)
            tmp = fn + f".{os.getpid()}"
            fits.HDUList([fits.PrimaryHDU(), fits.ImageHDU(v2.T.copy(), header=hd, name="SCI"), fits.ImageHDU(err.T.copy(), header=hd, name="ERR")]).writeto(tmp)
            os.replace(tmp, fn)
        out.append((fn, h, val, (1.0 / err.astype(float)), bad))
    return out


def run_fits(case, ctx):
    spec, r, ask, opt = case
    spec = [tuple(s) for s in spec]
    spoil = opt.get("spoil", False)
    ims = fits_set("".join(f"{b}{l}{nx}x{ny}_" for b, l, nx, ny in spec) + str(int(spoil)), spec, spoil)
    p = FPatch(fitsfiles=[i[0] for i in ims], psfstore="", splinedata="")
    warp = opt.get("warp", 64)
    if "warp" in opt:
        p.warp_size = warp
    if opt.get("snr"):
        p.max_snr = opt["snr"]
    if opt.get("fixsnr"):
        p.snr = opt["fixsnr"]
    if opt.get("fixunc"):
        p.unc = opt["fixunc"]
    builds = opt.get("builds", [[r, ask, opt.get("tweak", False)]])
    for rr, aa, tweak in builds:
        where = f"FITS {spec}, region {rr}, bands {aa}, {opt}"
        reg = None if rr is None else region(rr)
        exp = []
        maybe = False
        for b in aa:
            for (fn, h, val, ie, bad), (band, lay, nx, ny) in zip(ims, spec):
                if band != b:
                    continue
                mem = np.ones((nx, ny), int) if rr is None else member(rr, h, nx, ny)
                if not (mem == 1).any():
                    maybe |= (mem == -1).any()
                    continue
                exp.append((fn, b, h, val, ie, bad, mem))
        if maybe:
            continue
        try:
            quiet(p.build_patch, reg, allbands=list(aa), **({"tweak_background": tweak} if tweak else {}))
            built = True
        except Exception as err:
            built = False
            ctx.check(not exp, f"{where}: building fails ({err!r}) although {len(exp)} exposures overlap the region")
        if not exp:
            ctx.check(not built, f"{where}: a region without pixels is not an error")
            continue
        got = unpack(ctx, p, where)
        ctx.check([g[0] for g in got] == [e[0] for e in exp] and [g[1] for g in got] == [e[1] for e in exp],
                  f"{where}: exposures {[os.path.basename(g[0]) for g in got]}, expected {[os.path.basename(e[0]) for e in exp]}")
        ctx.check(list(p.bandlist) == [b for b in aa if any(e[1] == b for e in exp)], f"{where}: bands {p.bandlist}")
        for g, (fn, b, h, val, ie, bad, mem) in zip(got, exp):
            off = h.get(tweak, 0.0) if tweak else 0.0
            if opt.get("fixsnr"):
                ie = opt["fixsnr"] / val.astype(float)
                bad = spoiled_data(fn, val) | (val <= 0)
            if opt.get("fixunc"):
                ie = np.full(val.shape, 1.0 / opt["fixunc"])
                bad = spoiled_data(fn, val)
            check_exposure(ctx, g, mem, val, ie, bad, f"{where}, exposure {os.path.basename(fn)}", pad=warp, offset=off, snr=opt.get("snr"))
            ctx.step()
    ctx.trace()
    ctx.outcome((case,))


def spoiled_data(fn, val):
    d = fits.getdata(fn, "SCI").T
    return ~np.isfinite(d)


SPEC1 = [("F110", "c", 9, 7)]
SPEC2 = [("F110", "c", 9, 7), ("F110W", "r", 6, 8), ("F110", "f", 8, 8), ("F110W", "m", 9, 7), ("F110W2", "e", 7, 7), ("F110", "s", 10, 6)]
REGS = [(t, dx, dy, s) for t in "CR" for dx, dy in [(0, 0), (0.37, -0.81), (3.1, 2.2), (-4.6, 0.3), (5.2, 6.1), (-6.3, -8.4)] for s in (0.4, 1.3, 2.6, 5.5, 30.0)] + \
       [("C", 40.0, 0.0, 3.0), ("R", 0.0, 44.0, 3.0), ("C", 60.0, 1.0, 2.0), ("R", 25.0, -25.0, 1.0), ("C", 200.0, 0.0, 5.0)]


# many exposures and bands
MB = ["F110", "F110W", "F110W2", "G1", "W", "F11"]
MANY = [(MB[(k * 5) % 6 if k % 3 else 0], "crfes"[k % 5], 8, 8) for k in range(38)]
MASK = [MB, MB[::-1], ["F110"], ["W", "F110W", "G1", "F110"], ["F11", "F110W2", "F110"]]


def fits_cases(tier):
    big = tier == "thorough"
    asks = [["F110"], ["F110", "F110W", "F110W2"], ["F110W2", "F110W", "F110"], ["F110W", "B9", "F110"]]
    if big:
        asks = [list(a) for m in (1, 2, 3) for a in itertools.permutations(["F110", "F110W", "F110W2"], m)]
    for r in REGS + [None]:
        for a in asks:
            yield SPEC2, r, a, {"spoil": True}
    for lay in LAYOUTS:
        for nx, ny in [(9, 7), (7, 9), (1, 5), (8, 8)]:
            for r in REGS[::3 if not big else 1]:
                yield [("F110", lay, nx, ny)], r, ["F110"], {}
    for r in [REGS[1], REGS[3], REGS[4], None]:
        for warp in (1, 2, 7, 32, 64):
            yield SPEC2, r, ["F110", "F110W"], dict(warp=warp, spoil=True)
        for snr in (5.0, 60.0, 200.0):
            yield SPEC2, r, ["F110", "F110W"], dict(snr=snr, spoil=True)
            yield SPEC2, r, ["F110", "F110W"], dict(snr=snr, tweak="BKG")
        yield SPEC2, r, ["F110W", "F110"], dict(tweak="BKG", spoil=True)
        yield SPEC2, r, ["F110W", "F110"], dict(tweak="NOKEY")
        yield SPEC2, r, ["F110W", "F110"], dict(fixunc=0.25, spoil=True)
        yield SPEC2, r, ["F110W", "F110"], dict(fixsnr=20.0, spoil=True)
    for r in [REGS[3], REGS[4], REGS[8], REGS[18], None]:
        for a in MASK:
            yield MANY, r, a, {"spoil": True, "warp": 16}
    for r in [("C", 2040.3, 0.2, 4.4), ("R", 2045.1, 0.0, 3.0), ("C", -2046.0, 0.1, 3.3), ("C", 1024.2, 0.0, 2.2)]:
        yield [("F110", "c", 4100, 2)], r, ["F110"], {}
    # one patcher, several builds
    bl = [[REGS[3], ["F110", "F110W"], False], [REGS[8], ["F110W"], "BKG"], [None, ["F110W2", "F110"], False], [("C", 200.0, 0.0, 5.0), ["F110"], False], [REGS[4], ["F110"], "BKG"]]
    for seq in itertools.product(range(len(bl)), repeat=3 if big else 2):
        yield SPEC2, None, [], dict(builds=[bl[i] for i in seq], warp=8)


# ---- stores ---------------------------------------------------------------

def store_set(name, spec, nside, s):
    d = os.path.join(K.scratch(), "store_" + (name if len(name) < 100 else hashlib.md5(name.encode()).hexdigest()))
    os.makedirs(d, exist_ok=True)
    h5, js = os.path.join(d, "pix.h5"), os.path.join(d, "meta.json")
    out = []
    nx, ny = nside
    fresh = not os.path.exists(js)
    if fresh:
        ps, ms = quiet(PixelStore, h5, nside_full=np.array(nside), super_pixel_size=s), MetaStore()
    for k, (band, lay) in enumerate(spec):
        h = mkhdr(band, lay, nx, ny, BKG=0.5 * k)
        val, ie = image(k, nx, ny)
        bad = np.zeros((nx, ny), bool)
        v2, e2 = val.copy(), ie.copy()
        bad[k % nx, (2 * k) % ny] = True
        v2[k % nx, (2 * k) % ny] = np.nan
        bad[(k + 3) % nx, (k + 1) % ny] = True
        e2[(k + 3) % nx, (k + 1) % ny] = -1
        expid = f"exp{(7 * k) % 41}"
        if fresh:
            im = ImageSet(im=v2, ierr=e2, mask=None, bkg=None, hdr=h, band=band, expID=expid, names=None)
            quiet(ps.add_exposure, im)
            quiet(ms.add_exposure, im)
        out.append((f"{band}/{expid}", band, h, val, ie, bad))
    if fresh:
        quiet(ms.write_to_file, js)
    return h5, js, out


def run_store(case, ctx):
    spec, nside, s, builds, opt = case
    spec = [tuple(x) for x in spec]
    nside = tuple(nside)
    h5, js, ims = store_set("".join(b + l for b, l in spec) + "%dx%d_%d" % (nside + (s,)), spec, nside, s)
    p = quiet(SPatch, pixelstore=h5, metastore=js, psfstore="", splinedata="")
    if opt.get("snr"):
        p.max_snr = opt["snr"]
    # band order of the store, exposures in the order they were added
    for r, ask, tweak in builds:
        where = f"store {spec} {nside} super {s}, region {r}, bands {ask}, {opt}"
        exp, maybe = [], False
        for b in ask:
            for path, band, h, val, ie, bad in ims:
                if band != b:
                    continue
                mem = member(r, h, nside[0], nside[1], s)
                if not (mem == 1).any():
                    maybe |= (mem == -1).any()
                    continue
                exp.append((path, b, h, val, ie, bad, mem))
        if maybe:
            continue
        try:
            quiet(p.build_patch, region(r), allbands=list(ask), **({"tweak_background": tweak} if tweak else {}))
            built = True
        except Exception as err:
            built = False
            ctx.check(not exp, f"{where}: building fails ({err!r}) although {len(exp)} exposures overlap the region")
        if not exp:
            ctx.check(not built, f"{where}: a region without pixels is not an error")
            continue
        got = unpack(ctx, p, where)
        ctx.check([g[0] for g in got] == [e[0] for e in exp], f"{where}: exposures {[g[0] for g in got]}, expected {[e[0] for e in exp]}")
        ctx.check(list(p.bandlist) == [b for b in ask if any(e[1] == b for e in exp)], f"{where}: bands {p.bandlist}")
        for g, (path, b, h, val, ie, bad, mem) in zip(got, exp):
            check_exposure(ctx, g, mem, val, ie, bad, f"{where}, exposure {path}", offset=h["BKG"] if tweak else 0.0, snr=opt.get("snr"))
            ctx.check(len(g[2]) % (s * s) == 0, f"{where}: {len(g[2])} pixels are not whole super-pixels")
            ctx.step()
    if hasattr(p.pixelstore, "close"):
        p.pixelstore.close()
    ctx.trace()
    ctx.outcome((case,))


SSPEC = [("F110", "c"), ("F110W", "r"), ("F110", "f"), ("F110W", "m"), ("F110W2", "e"), ("F110", "s")]


def store_cases(tier):
    big = tier == "thorough"
    asks = [["F110"], ["F110", "F110W", "F110W2"], ["F110W2", "F110W", "F110"], ["B9", "F110W", "F110"]]
    if big:
        asks = [list(a) for m in (1, 2, 3) for a in itertools.permutations(["F110", "F110W", "F110W2"], m)]
    for nside, s in [((8, 8), 2), ((12, 8), 4), ((8, 12), 2), ((6, 6), 1), ((9, 6), 3)]:
        for r in REGS:
            for a in asks:
                yield SSPEC, nside, s, [[r, a, False]], {}
    for r in (REGS[3], REGS[4], REGS[13]):
        for snr in (5.0, 60.0, 200.0):
            yield SSPEC, (8, 8), 2, [[r, ["F110", "F110W"], False]], dict(snr=snr)
            yield SSPEC, (8, 8), 2, [[r, ["F110", "F110W"], "BKG"]], dict(snr=snr)
    for r in (REGS[3], REGS[4], REGS[8], REGS[18]):
        for a in MASK:
            yield [m[:2] for m in MANY], (8, 8), 2, [[r, a, False]], {}
    for r in [("C", 2040.3, 0.2, 4.4), ("R", 2045.1, 0.0, 3.0), ("C", -2046.0, 0.1, 3.3)]:
        yield [("F110", "c")], (4100, 2), 2, [[r, ["F110"], False]], {}
    bl = [[REGS[3], ["F110", "F110W"], False], [REGS[8], ["F110W"], "BKG"], [REGS[4], ["F110W2", "F110"], False], [("C", 200.0, 0.0, 5.0), ["F110"], False], [REGS[4], ["F110"], "BKG"]]
    for seq in itertools.product(range(len(bl)), repeat=3 if big else 2):
        yield SSPEC, (8, 8), 2, [bl[i] for i in seq], {}


# ---- direct ---------------------------------------------------------------

def run_direct(case, ctx):
    perm, ask, sizes, opt = case
    exps = []
    for k, (b, n) in enumerate(zip("0101", sizes)):
        h = mkhdr(BN[int(b)], "c", 5, 4, BKG=0.5 * k)
        x, y = K.pixels(5, 4)
        v, e = image(k, 5, 4)
        exps.append(K.Exp(f"ex{k}", h, x[:n], y[:n], v.ravel()[:n], np.where(np.arange(n) % 5 == 2, 0, e.ravel()[:n])))
    p = K.make_patch([exps[i] for i in perm], ask, "", build=False)
    if opt.get("snr"):
        p.max_snr = opt["snr"]
    tweak = opt.get("tweak")
    where = f"direct {case}"
    exp = [exps[i] for b in ask for i in perm if exps[i].band == b]
    keep = {e.name: (e.data.copy(), e.ierr.copy()) for e in exps}
    for rep in range(2):
        try:
            p.build_patch(region=None, allbands=list(ask), **({"tweak_background": tweak} if tweak else {}))
            built = True
        except Exception as err:
            built = False
            ctx.check(not exp, f"{where}: building fails ({err!r})")
        if not exp:
            ctx.check(not built, f"{where}: nothing to pack is not an error")
            continue
        got = unpack(ctx, p, where)
        ctx.check([g[0] for g in got] == [e.name for e in exp], f"{where}: exposures {[g[0] for g in got]}, expected {[e.name for e in exp]}")
        for g, e in zip(got, exp):
            val, ie, mem = np.zeros((5, 4)), np.zeros((5, 4)), np.zeros((5, 4), int)
            val[e.xpix, e.ypix], ie[e.xpix, e.ypix], mem[e.xpix, e.ypix] = e.data, e.ierr, 1
            check_exposure(ctx, g, mem, val, ie, np.zeros((5, 4), bool), where, offset=e.hdr["BKG"] if tweak else 0.0, snr=opt.get("snr"))
            ctx.check(np.array_equal(e.data, keep[e.name][0]) and np.array_equal(e.ierr, keep[e.name][1]), f"{where}: the caller's pixels changed")
            ctx.step()
    ctx.outcome(case)


def direct_cases(tier):
    for perm in itertools.permutations(range(4)):
        for ask in [["F110"], ["F110W"], ["F110", "F110W"], ["F110W", "F110"], ["F110W2"], ["F110W2", "F110W"]]:
            for opt in ({}, dict(snr=60.0), dict(tweak="BKG"), dict(tweak="BKG", snr=100.0)):
                yield perm, ask, (20, 7, 1, 13), opt


def suites(tier):
    for spec in (SPEC2, ):
        for sp in (True, False):
            fits_set("".join(f"{b}{l}{nx}x{ny}_" for b, l, nx, ny in spec) + str(int(sp)), spec, sp)
    for nside, s in [((8, 8), 2), ((12, 8), 4), ((8, 12), 2), ((6, 6), 1), ((9, 6), 3)]:
        store_set("".join(b + l for b, l in SSPEC) + "%dx%d_%d" % (nside + (s,)), SSPEC, nside, s)
    for spec, nside in (([m[:2] for m in MANY], (8, 8)), ([("F110", "c")], (4100, 2))):
        store_set("".join(b + l for b, l in spec) + "%dx%d_%d" % (nside + (2,)), spec, nside, 2)
    return [
        Suite("fits", fits_cases(tier), run_fits, note="regions x band requests x layouts x image shapes; padding, caps, backgrounds; build histories"),
        Suite("store", store_cases(tier), run_store, note="regions x band requests x image and super-pixel sizes; caps, backgrounds; build histories"),
        Suite("direct", direct_cases(tier), run_direct, note="all supply orders x band requests"),
    ]
