"""C16: the three stores, for every history of additions from a finite alphabet and
every position of a grid, against dictionaries of what was put in."""
import itertools
import os
import contextlib
import shutil
import tempfile
import warnings

import h5py
import numpy as np

from ..core import Suite
from .. import env
env.prepare()
env.load_kernel()
from .. import kern as K
from forcepho.patches.storage import PixelStore, MetaStore, PSFStore, ImageSet, PSF_DTYPE, header_to_id

PROPERTY = "C16"
ASSUMPTIONS = ["positions within 0.6 pixel of an image edge are not judged (pixel centre convention)",
               "the value of a zero-weight pixel is not judged"]
warnings.filterwarnings("ignore")


def quiet(f, *a, **k):
    with open(os.devnull, "w") as o, contextlib.redirect_stdout(o):
        return f(*a, **k)


@contextlib.contextmanager
def folder():
    d = tempfile.mkdtemp(dir=K.scratch())
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


# ---- pixels ---------------------------------------------------------------

NSIDES = [((4, 4), 2), ((6, 4), 2), ((4, 6), 1), ((6, 9), 3)]


def content(nx, ny, k, bkg, mask, spoil, zp):
    """an image set with the given ingredients, and what reading it must give"""
    x, y = np.meshgrid(np.arange(nx), np.arange(ny), indexing="ij")
    im = 10.0 * (k + 1) + x + 0.1 * y
    ie = 0.3 + 0.05 * x + 0.01 * y + 0.1 * k
    b = None
    if bkg == "flat":
        b = np.full(im.shape, 0.75)
    elif bkg == "slope":
        b = 0.2 * x - 0.1 * y
    elif bkg == "nan":
        b = 0.2 * x - 0.1 * y
        b[1, 2] = np.nan
    val = im - (b if b is not None else 0)
    bad = ~np.isfinite(val)
    if spoil:
        im[0, 1], im[1, 0], ie[0, 2], ie[2, 1], ie[2, 2] = np.nan, np.inf, np.nan, -0.5, np.inf
        for ij in ((0, 1), (1, 0), (0, 2), (2, 1), (2, 2)):
            bad[ij] = True
    m, bit = None, None
    if mask == "bool":
        m = np.mod(x + 2 * y, 5) == 1
        bad = bad | m
    elif mask == "int":
        m = (np.mod(x + 2 * y, 5) == 1).astype(np.int32)
        bad = bad | (m > 0)
    elif mask == "flags":
        m = (np.array([0, 2, 0, 7, 0, 64, 0])[np.mod(x + 2 * y, 7)]).astype(np.int32)
        bad = bad | (m != 0)
    elif isinstance(mask, (tuple, list)):
        bit = mask[1]
        m = np.mod(x + 3 * y, 8).astype(np.uint32)
        bad = bad | ((m & bit) != 0)
    h = K.header("B0", nx=nx, ny=ny)
    conv = 1.0
    if zp is not None:
        h["ABMAG"] = zp
        conv = 1e9 * 10 ** (0.4 * (8.9 - zp))
    return im, ie, m, b, h, bit, (val * conv, ie / conv, bad)


def readback(ps, path):
    with h5py.File(ps.h5file, "r") as f:
        d = f[path + "/data"][:]
    s2 = int(ps.super_pixel_size) ** 2
    shape = tuple(int(v) for v in np.zeros(2) + ps.nside_full)
    v, e, n = np.full(shape, np.nan), np.full(shape, np.nan), np.zeros(shape, int)
    xp, yp = ps.xpix, ps.ypix
    np.add.at(n, (xp.ravel(), yp.ravel()), 1)
    v[xp.ravel(), yp.ravel()] = d[:, :, :s2].ravel()
    e[xp.ravel(), yp.ravel()] = d[:, :, s2:].ravel()
    return v, e, n


def compare(ctx, ps, path, want, where):
    v, e, n = readback(ps, path)
    val, ie, bad = want
    ctx.check(np.all(n == 1), f"{where}: pixel coordinates do not cover the image once")
    ctx.check(np.all(np.isfinite(v)) and np.all(np.isfinite(e)), f"{where}: {path} holds values that are not finite")
    w = np.where(bad, 0, ie)
    k = ~(np.abs(e - w) <= 1e-6 * np.abs(w))
    if k.any():
        ij = tuple(np.argwhere(k)[0])
        ctx.fail(f"{where}: {path} pixel {tuple(int(i) for i in ij)} has inverse uncertainty {e[ij]}, expected {w[ij]}")
    k = ~bad & ~(np.abs(v - val) <= 1e-6 * (np.abs(val) + 1))
    if k.any():
        ij = tuple(np.argwhere(k)[0])
        ctx.fail(f"{where}: {path} pixel {tuple(int(i) for i in ij)} has value {v[ij]}, expected {val[ij]}")


def same(a, b):
    return (a is None and b is None) or (a.dtype == b.dtype and a.tobytes() == b.tobytes())


def run_pixels(case, ctx):
    (nx, ny), s, bkg, mask, spoil, zp, cal = case
    with folder() as d:
        ps = quiet(PixelStore, os.path.join(d, "p.h5"), nside_full=np.array([nx, ny]), super_pixel_size=s)
        im, ie, m, b, h, bit, want = content(nx, ny, 1, bkg, mask, spoil, zp)
        if not cal:
            conv = 1.0 if zp is None else 1e9 * 10 ** (0.4 * (8.9 - zp))
            want = (want[0] / conv, want[1] * conv, want[2])
        keep = [None if a is None else a.copy() for a in (im, ie, m, b)]
        iset = ImageSet(im=im, ierr=ie, mask=m, bkg=b, hdr=h, band="B0", expID="e1", names="e1.fits")
        quiet(ps.add_exposure, iset, bitmask=bit, do_fluxcal=cal)
        where = f"{case}"
        compare(ctx, ps, "B0/e1", want, where)
        ctx.check(all(same(a, c) for a, c in zip((im, ie, m, b), keep)), f"{where}: the caller's arrays changed")
        # a second reader
        ps2 = quiet(PixelStore, os.path.join(d, "p.h5"))
        ctx.check(np.array_equal(np.zeros(2) + ps2.nside_full, [nx, ny]) and int(ps2.super_pixel_size) == s, f"{where}: size attributes of the reopened store")
        compare(ctx, ps2, "B0/e1", want, where + " reopened")
        ctx.check(np.array_equal(ps2.data["B0/e1/data"][:], h5py.File(ps.h5file, "r")["B0/e1/data"][:]), f"{where}: data")
        ps2.close()
        # corners of the super-pixels are those of their pixels
        c = ps.superpixel_corners()
        xs, ys = ps.xpix, ps.ypix
        for i in range(xs.shape[0]):
            for j in range(xs.shape[1]):
                w = {(int(a), int(bb)) for a in (xs[i, j].min(), xs[i, j].max()) for bb in (ys[i, j].min(), ys[i, j].max())}
                ctx.check({(int(a), int(bb)) for a, bb in c[i, j]} == w, f"{where}: corners of super-pixel {(i, j)} are {c[i, j].tolist()}, its pixels span {w}")
        ctx.step(3)
    ctx.outcome(case)


def pixel_cases(tier):
    for ns, s in NSIDES:
        for bkg in (None, "flat", "slope", "nan"):
            for mask in (None, "bool", "int", ("bits", 1), ("bits", 6)):
                for spoil in (False, True):
                    for zp, cal in ((None, False), (None, True), (28.0, True), (31.4, True), (28.0, False)):
                        yield ns, s, bkg, mask, spoil, zp, cal
    # flag values, zero points of all sizes, long images
    for ns, s in NSIDES[:3] + [((144, 4), 2), ((4, 300), 2), ((260, 6), 1)]:
        for bkg in (None, "slope"):
            for mask in ("flags", "bool", ("bits", 4)):
                for spoil in (False, True):
                    for zp, cal in ((None, True), (28.86, True), (40.0, True), (-2.0, True), (0.0, True), (8.9, True), (22.5, False)):
                        yield ns, s, bkg, mask, spoil, zp, cal


ADDS = [("B0", "e1", 0), ("B0", "e1", 1), ("B0", "e2", 2), ("B1", "e1", 3), ("B1", "dir/e3", 4), ("B0", "e2", 5)]


def run_history(case, ctx):
    """all sequences of additions, replacing some; then refused ones"""
    first, depth = case
    ns, s = (4, 6), 2
    for rest in itertools.product(range(len(ADDS) + 2), repeat=depth - 1):
        seq = (first,) + rest
        with folder() as d:
            ps = quiet(PixelStore, os.path.join(d, "p.h5"), nside_full=np.array(ns), super_pixel_size=s)
            model = {}
            for o in seq:
                if o == len(ADDS):          # an image of another size is refused
                    for shape in ((ns[0] * 2, ns[1]), (ns[1], ns[0]), (ns[0], ns[1] - s)):
                        im = np.zeros(shape)
                        try:
                            quiet(ps.add_exposure, ImageSet(im=im, ierr=im + 1, mask=None, bkg=None, hdr={}, band="B0", expID="e1", names=None))
                        except (ValueError, AssertionError):
                            continue
                        ctx.fail(f"history {seq}: an image of size {shape} is accepted in a store of {ns}")
                elif o == len(ADDS) + 1:    # reopen
                    ps.close()
                    ps = quiet(PixelStore, os.path.join(d, "p.h5"))
                else:
                    band, e, k = ADDS[o]
                    im, ie, m, b, h, bit, want = content(*ns, k, ["flat", None, "slope"][k % 3], [None, "bool", ("bits", 2)][k % 3], k % 2, None)
                    quiet(ps.add_exposure, ImageSet(im=im, ierr=ie, mask=m, bkg=b, hdr=h, band=band, expID=e, names=None), bitmask=bit)
                    model[f"{band}/{e}"] = want
                for path, want in model.items():
                    compare(ctx, ps, path, want, f"history {seq}")
                ctx.step()
            found = set()
            with h5py.File(ps.h5file, "r") as f:
                f.visit(lambda n: found.add(n[:-5]) if n.endswith("/data") else None)
            ctx.check(found == set(model), f"history {seq}: the store holds {found}, added {set(model)}")
            ctx.state(seq)
        ctx.trace()
    ctx.outcome(case)


# ---- metadata -------------------------------------------------------------

def hdrs():
    """header variants: positions, shapes, orientation, footprint keyword, extra axis"""
    out = []
    for k, (nx, ny, rot, flip, off, sreg, ax) in enumerate([
            (8, 8, 0.0, False, (0, 0), False, 2), (12, 6, 0.5, True, (2, -1), True, 2), (6, 14, -2.0, False, (-3, 4), True, 2),
            (8, 8, 1.0, False, (30, 0), True, 2), (10, 10, 0.2, True, (5, 5), False, 3)]):
        crval = (K.RA0 + off[0] * 0.1 / 3600. / np.cos(np.deg2rad(K.DEC0)), K.DEC0 + off[1] * 0.1 / 3600.)
        h = K.header("B", nx=nx, ny=ny, scale=0.1, rot=rot, flip=flip, crpix=(0.5 * nx + 0.5, 0.5 * ny + 0.5), crval=crval, extra={"EXPKEY": f"value {k}", "NUM": 1.5 * k})
        if sreg:
            from astropy.wcs import WCS
            x, y = WCS(h).pixel_to_world_values([-0.5, nx - 0.5, nx - 0.5, -0.5], [-0.5, -0.5, ny - 0.5, ny - 0.5])
            h["S_REGION"] = "POLYGON ICRS " + " ".join(f"{a:.9f} {b:.9f}" for a, b in zip(x, y))
        if ax == 3:
            h["WCSAXES"] = 3
            h["CTYPE3"], h["CRVAL3"], h["CRPIX3"], h["CD3_3"], h["CUNIT3"] = "WAVE", 1e-6, 1.0, 1e-8, "m"
        out.append((h, nx, ny))
    return out


HD = hdrs()
GRID = [(dx, dy) for dx in np.arange(-12, 37, 3.3) for dy in np.arange(-11, 13, 2.9)]
_M = {}


def inside(k, pos):
    """1, 0 or -1 (too close to call)"""
    if (k, pos) not in _M:
        from astropy.wcs import WCS
        h, nx, ny = HD[k]
        w = WCS(h)
        if w.naxis == 3:
            w = w.dropaxis(2)
        ra, dec = K.RA0 + pos[0] * 0.1 / 3600. / np.cos(np.deg2rad(K.DEC0)), K.DEC0 + pos[1] * 0.1 / 3600.
        x, y = w.world_to_pixel_values(ra, dec)
        m = min(x + 0.6, nx - x + 0.1, y + 0.6, ny - y + 0.1)     # outermost edge of either convention
        i = min(x - 0.1, nx - 0.6 - x, y - 0.1, ny - 0.6 - y)     # innermost
        _M[k, pos] = (1 if i > 0 else 0 if m < 0 else -1), (ra, dec)
    return _M[k, pos]


MADDS = [("B0", "d1/a", 0), ("B0", "d1/a", 3), ("B0", "d2/a", 1), ("B1", "a", 2), ("B1", "c", 4)]


def same_header(a, b):
    """the same keywords and values (floats to the digits of a FITS card)"""
    a, b = ({c: h[c] for c in h if c not in ("COMMENT", "HISTORY", "")} for h in (a, b))
    return set(a) == set(b) and all(a[c] == b[c] or (isinstance(b[c], float) and isinstance(a[c], (float, int)) and abs(a[c] - b[c]) < 1e-12 * max(abs(b[c]), 1e-300)) for c in a)


def check_meta(ctx, ms, model, where, grid=GRID):
    ctx.check({b: set(e) for b, e in ms.headers.items() if e} == {b: {e for bb, e in model if bb == b} for b in {m[0] for m in model}}, f"{where}: exposures of the store")
    for (b, e), k in model.items():
        ctx.check(same_header(ms.headers[b][e], HD[k][0]), f"{where}: header of {b}/{e} is not the one added")
    ctx.check(ms.nexp == len(model), f"{where}: {ms.nexp} exposures, added {len(model)}")
    for pos in grid:
        for ask in (["B0"], ["B1", "B0"], ["B2", "B0"]):
            ra, dec = inside(0, pos)[1]
            try:
                ep, bd = ms.find_exposures((ra, dec), ask)
            except Exception as err:
                ctx.fail(f"{where}: looking for exposures at {pos} fails: {err!r}")
            got = list(zip(bd, ep))
            ctx.check(len(set(got)) == len(got) and all(b in ask for b in bd), f"{where}: exposures {got} for bands {ask}")
            ctx.check([b for b in bd] == sorted(bd, key=ask.index), f"{where}: bands out of order: {bd}")
            for (b, e), k in model.items():
                if b not in ask:
                    continue
                i = inside(k, pos)[0]
                if i >= 0:
                    ctx.check(((b, e) in got) == bool(i), f"{where}: position {pos} is {'inside' if i else 'outside'} of {b}/{e} (image {k}) but {'not ' if i else ''}found")
    ctx.step(len(grid) * 3)


def run_meta(case, ctx):
    seq = case
    with folder() as d:
        ms, model = MetaStore(), {}
        for n, o in enumerate(seq):
            if o == "W":
                fn = os.path.join(d, f"m{n}.json")
                ms.write_to_file(fn)
                ms = MetaStore(fn)
            elif o == "L":
                fn = os.path.join(d, f"m{n}.json")
                ms.write_to_file(fn)
                ms = MetaStore(fn, load_all=True)
                for (b, e), k in model.items():
                    x, y = ms.wcs[b][e].world_to_pixel_values(K.RA0, K.DEC0)
                    from astropy.wcs import WCS
                    w = WCS(HD[k][0])
                    w = w.dropaxis(2) if w.naxis == 3 else w
                    ctx.check(np.allclose([x, y], w.world_to_pixel_values(K.RA0, K.DEC0), atol=1e-6), f"{seq}: coordinate system of {b}/{e}")
            elif o == "F":
                check_meta(ctx, ms, model, f"history {seq[:n + 1]}", GRID[::5])
            else:
                b, e, k = MADDS[o]
                h = HD[k][0].copy()
                ms.add_exposure(ImageSet(im=None, ierr=None, mask=None, bkg=None, hdr=h, band=b, expID=e, names=None))
                ctx.check(same_header(h, HD[k][0]), f"{seq}: adding changed the header")
                model[b, e] = k
            ctx.step()
        check_meta(ctx, ms, model, f"history {seq}", GRID if len(seq) < 4 else GRID[::3])
        ctx.trace()
    ctx.outcome(seq)


def meta_cases(tier):
    ops = list(range(len(MADDS))) + ["W", "L", "F"]
    for n in range(1, 4 if tier == "quick" else 5):
        yield from itertools.product(ops, repeat=n)


# ---- point spread functions -----------------------------------------------

def run_psf(case, ctx):
    locs, nb, npsf = case
    with folder() as d:
        fn = os.path.join(d, "psf.h5")
        tab = {}
        with h5py.File(fn, "w") as f:
            for b in range(nb):
                sel = np.array(locs[b:] + locs[:b], dtype=float).T
                par = np.zeros((len(locs), npsf), dtype=PSF_DTYPE)
                for i in range(len(locs)):
                    for c, name in enumerate(PSF_DTYPE.names):
                        par[name][i] = 100 * b + 10 * i + c + 0.1 * np.arange(npsf)
                g = f.create_group(f"B{b}")
                g["parameters"], g["detector_locations"] = par, sel
                g.attrs["n_psf_per_source"] = npsf
                tab[f"B{b}"] = (sel, par)
        ps = PSFStore(fn)
        for b, (sel, par) in tab.items():
            for x in np.arange(-3.0, 13.0, 1.7):
                for y in np.arange(-3.0, 13.0, 1.9):
                    dd = np.hypot(x - sel[0], y - sel[1])
                    o = np.sort(dd)
                    if len(o) > 1 and o[1] - o[0] < 1e-9:
                        continue
                    got = ps.lookup(b, xy=(x, y))
                    ctx.check(np.array_equal(got, par[dd.argmin()]), f"{case}: lookup in {b} at {(x, y)} returns {got[0]}, the nearest tabulated is {par[dd.argmin()][0]}")
                    ctx.step()
            ctx.check(np.array_equal(ps.lookup(b), par[0]), f"{case}: lookup without a position")
            # through a source and an image
            from astropy.wcs import WCS
            w = WCS(K.header("B0", nx=10, ny=10, rot=0.3))
            for px in [(1.2, 2.1), (8.9, 0.3), (4.4, 7.7)]:
                ra, dec = w.pixel_to_world_values(*px)
                src = type("S", (), dict(ra=float(ra), dec=float(dec)))()
                dd = np.hypot(px[0] - sel[0], px[1] - sel[1])
                o = np.sort(dd)
                if len(o) > 1 and o[1] - o[0] < 1e-5:
                    continue
                got = ps.get_local_psf(band=b, source=src, wcs=w)
                ctx.check(np.array_equal(got, par[dd.argmin()]), f"{case}: local mixture in {b} at pixel {px}")
                ctx.step()
    ctx.outcome(case)


def psf_cases(tier):
    pts = [(0.0, 0.0), (10.0, 0.0), (0.0, 10.0), (10.0, 10.0), (5.0, 4.0)]
    for n in range(1, 6):
        for l in itertools.permutations(pts, n) if n < 4 or tier == "thorough" else itertools.combinations(pts, n):
            for nb in (1, 2):
                for m in (1, 3):
                    yield [list(p) for p in l], nb, m


# ---- names and the table of exposures --------------------------------------

FRAMES = ["", "v1", "v1/n2", "n2", "v1.2", "v1.2/f_x"]
FILES = ["jw01_nrca1_cal", "jw01_nrcb4_cal", "jw01.v2_cal", "e"]


def run_names(case, ctx):
    """all images in all folders: band and exposure identifier, and no two the same"""
    root, slash, split = case
    seen = {}
    for filt in ("F090W", "F200W", "f115w"):
        for det in ("NRCA1", "NRCB4", "NRCALONG", "NRCBLONG"):
            band = (filt + (det[3] if filt in split else "")).upper()
            for sub in FRAMES:
                for f in FILES:
                    name = "/".join([root] + [q for q in (sub, f) if q]) + ".fits"
                    hdr = dict(FILTER=filt, DETECTOR=det)
                    want = (band, "/".join(q for q in (sub, f) if q))
                    got = tuple(header_to_id(hdr, name, framedir=root + slash, split_by_detector=list(split)))
                    ctx.check(got == want, f"{case}: {filt} {det} {name} is filed as {got}, expected {want}")
                    got = tuple(header_to_id(hdr, name, split_by_detector=list(split)))
                    ctx.check(got == (band, f), f"{case}: {filt} {det} {name} without a folder is filed as {got}")
                    ctx.step()
    ctx.outcome(case)


def run_table(case, ctx):
    """the table of a store has a row for every exposure, with its own values"""
    from astropy.io import fits
    with folder() as d:
        ms, model = MetaStore(), {}
        for o in case:
            b, e, k = MADDS[o]
            h = HD[k][0].copy()
            h["FILTER"], h["DETECTOR"], h["EXPCOUNT"], h["EFFEXPTM"], h["FILENAME"] = b, "NRCA%d" % k, 3 * k + 1, 10.5 + k, f"{b}_{e}_{k}.fits"
            ms.add_exposure(ImageSet(im=None, ierr=None, mask=None, bkg=None, hdr=h, band=b, expID=e, names=None))
            model[b, e] = (h["FILENAME"], b, h["DETECTOR"], h["EXPCOUNT"], h["EFFEXPTM"], h["CRVAL1"], h["CRVAL2"])
        fn = os.path.join(d, "t.fits")
        ms.to_table(fn)
        t = fits.getdata(fn)
        got = sorted((str(r["filename"]), str(r["filter"]), str(r["detector"]), int(r["expcount"]), float(r["effexptm"]), float(r["ra"]), float(r["dec"])) for r in t)
        want = sorted((str(a), str(b), str(c), int(n), float(x), float(y), float(z)) for a, b, c, n, x, y, z in model.values())
        ctx.check(got == want, f"exposures {case}: the table holds {got}, expected {want}")
        ctx.step()
    ctx.outcome(case)


def suites(tier):
    d = 3 if tier == "quick" else 4
    ops = len(ADDS) + 2
    return [
        Suite("pixels", pixel_cases(tier), run_pixels, note="sizes x backgrounds x masks x non-finite pixels x calibration"),
        Suite("histories", [(i, d) for i in range(ops)], run_history, note="all sequences of 8 additions, replacements, refusals and reopenings to depth 3 (4)"),
        Suite("metadata", meta_cases(tier), run_meta, note="all sequences of 8 additions, searches and round trips to depth 3 (4), searches on a position grid"),
        Suite("names", itertools.product(("/data/frames", "frames", "/d"), ("",), ((), ("F200W",), ("F090W", "f115w"))), run_names, note="filters x detectors x folders x file names"),
        Suite("table", [q for n in range(1, 5) for q in itertools.product(range(len(MADDS)), repeat=n)], run_table, note="all sequences of additions to length 4"),
        Suite("psf", psf_cases(tier), run_psf, note="all orders of tabulated locations x bands, on a grid of positions"),
    ]
