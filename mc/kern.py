"""Test bed for everything that ends in the kernel: small patches with generic
astrometry, point-spread mixtures and profile tables, and an independent float64
reference for the image model.

The profile amplitudes are tabulated from low-order polynomials in (sersic, rhalf)
so that any sensible interpolation of the table reproduces them exactly; the point
spread mixtures are anisotropic and off-centre, and the images are rotated and
stretched, so that no term of the convolution drops out."""
import atexit
import os
import shutil
import tempfile

import h5py
import numpy as np
from astropy.io import fits
from astropy.wcs import WCS

from forcepho.patches import CPUPatchMixin, DirectPatch
from forcepho.superscene import sourcecat_dtype

SHAPES = ["ra", "dec", "q", "pa", "sersic", "rhalf"]
PSF_DT = np.dtype([(c, np.float32) for c in ["amp", "xcen", "ycen", "Cxx", "Cyy", "Cxy"]] + [("sersic_bin", np.int32)])
_SCRATCH = None


def scratch():
    """a directory that is removed when the check ends"""
    global _SCRATCH
    if _SCRATCH is None:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        _SCRATCH = tempfile.mkdtemp(prefix="fpmc", dir=base)
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(_SCRATCH, ignore_errors=True))
    return _SCRATCH


class Patch(DirectPatch, CPUPatchMixin):
    pass


# ---- profile tables -------------------------------------------------------

RADII = [0.02, 0.07, 0.18, 0.33]
COEF = [(0.20, 0.05, 0.30, -0.06, 0.2), (0.35, -0.04, 0.20, 0.10, -0.3), (0.15, 0.03, -0.25, 0.08, 0.4),
        (0.10, 0.02, 0.15, -0.05, 0.1)]


def amp(k, n, r):
    a, b, c, d, e = COEF[k]
    return a + b * n + c * r + d * n * r + e * r * r


def damp_dn(k, n, r):
    a, b, c, d, e = COEF[k]
    return b + d * r


def damp_dr(k, n, r):
    a, b, c, d, e = COEF[k]
    return c + d * n + 2 * e * r


def splinefile(nrad=3):
    fn = os.path.join(scratch(), f"spline{nrad}.h5")
    if not os.path.exists(fn):
        n, r = np.linspace(0.8, 5.2, 9), np.linspace(0.005, 0.6, 11)
        N, R = np.meshgrid(n, r, indexing="ij")
        A = np.array([amp(k, N.ravel(), R.ravel()) for k in range(nrad)]).T
        tmp = fn + f".{os.getpid()}"
        with h5py.File(tmp, "w") as f:
            f["nsersic"], f["rh"], f["amplitudes"], f["radii"] = N.ravel(), R.ravel(), A, np.array(RADII[:nrad])
        os.replace(tmp, fn)
    return fn


# ---- point spread functions ----------------------------------------------

def psf(band_index, ng, nrad=3, extra=0):
    """mixture of ng gaussians for every radius bin (plus `extra` in the last)"""
    rows = []
    for s in range(nrad):
        for g in range(ng + (extra if s == nrad - 1 else 0)):
            k = 1 + g + 0.3 * band_index
            rows.append(((0.6 ** g) * 0.62 + 0.03 * s, 0.11 * k - 0.05 * s, -0.07 * k + 0.04 * s,
                         0.9 + 0.7 * g + 0.15 * band_index + 0.05 * s, 1.2 + 0.5 * g - 0.1 * band_index,
                         0.21 - 0.3 * g + 0.02 * s, s))
    return np.array(rows, dtype=PSF_DT)


def psffile(name, mixtures):
    """mixtures: band -> list of mixtures, one per location"""
    fn = os.path.join(scratch(), f"psf_{name}.h5")
    if not os.path.exists(fn):
        tmp = fn + f".{os.getpid()}"
        with h5py.File(tmp, "w") as f:
            for b, m in mixtures.items():
                m = np.atleast_2d(np.array(m))
                g = f.create_group(b)
                g.create_dataset("parameters", data=m)
                g.create_dataset("detector_locations", data=np.zeros((2, len(m))))
                g.attrs["n_psf_per_source"] = m.shape[1]
        os.replace(tmp, fn)
    return fn


# ---- images ---------------------------------------------------------------

RA0, DEC0 = 53.1, -27.8


def header(band, nx=7, ny=6, scale=0.06, rot=0.4, flip=False, stretch=1.0, shear=0.0, crpix=None, crval=None, sip=None,
           gain=None, extra={}):
    h = fits.Header()
    h["SIMPLE"], h["BITPIX"], h["NAXIS"], h["NAXIS1"], h["NAXIS2"] = True, -64, 2, nx, ny
    h["FILTER"] = band
    t = "-SIP" if sip else ""
    h["CTYPE1"], h["CTYPE2"], h["CUNIT1"], h["CUNIT2"] = "RA---TAN" + t, "DEC--TAN" + t, "deg", "deg"
    crval = crval or (RA0, DEC0)
    crpix = crpix or (0.5 * nx + 0.31, 0.5 * ny + 0.62)
    h["CRVAL1"], h["CRVAL2"], h["CRPIX1"], h["CRPIX2"] = crval[0], crval[1], crpix[0], crpix[1]
    c, s = np.cos(rot), np.sin(rot)
    M = np.array([[c, -s], [s, c]]) @ np.array([[stretch, shear], [0, 1.0]]) * scale / 3600.
    if not flip:
        M[:, 0] *= -1
    for i in range(2):
        for j in range(2):
            h[f"CD{i + 1}_{j + 1}"] = M[i, j]
    for k, v in (sip or {}).items():
        h[k] = v
    for k, v in extra.items():
        h[k] = v
    return h


class Exp:
    def __init__(self, name, hdr, xpix, ypix, data, ierr):
        self.name, self.hdr, self.band = name, hdr, hdr["FILTER"]
        self.xpix, self.ypix = np.array(xpix), np.array(ypix)
        self.data, self.ierr = np.array(data, dtype=float), np.array(ierr, dtype=float)
        self.wcs = WCS(hdr)


def pixels(nx, ny):
    y, x = np.meshgrid(np.arange(ny), np.arange(nx))
    return x.ravel(), y.ravel()


def make_exp(name, hdr, k=0, weight=None, step=1):
    """an exposure with generic pixel values; k varies them"""
    x, y = pixels(hdr["NAXIS1"], hdr["NAXIS2"])
    x, y = x[::step], y[::step]
    d = 0.4 * np.sin(1.7 * x + 0.9 * y + k) + 0.3 * np.cos(2.3 * y - x + 2 * k)
    w = 1.0 + 0.5 * np.sin(0.7 * x - 1.1 * y + 0.5 * k)
    if weight is not None:
        w = w * np.resize(np.array(weight, dtype=float), len(x))
    return Exp(name, hdr, x, y, d, w)


def catalog(n, bands, spread=0.06, cx=RA0, cy=DEC0, k=0):
    cat = np.zeros(n, dtype=sourcecat_dtype(bands=list(bands)))
    i = np.arange(n)
    cat["ra"] = cx + spread * np.array([np.cos(2.4 * j + 0.3) * (0.4 + 0.5 * j / max(1, n)) for j in i]) / 3600. / \
        np.cos(np.deg2rad(cy))
    cat["dec"] = cy + spread * np.array([np.sin(2.4 * j + 0.3 + k) * (0.4 + 0.5 * j / max(1, n)) for j in i]) / 3600.
    cat["q"] = 0.55 + 0.09 * np.mod(i + k, 5)
    cat["pa"] = 0.35 + 0.4 * i - 0.3 * k
    cat["sersic"] = 1.3 + 0.45 * np.mod(i, 4)
    cat["rhalf"] = 0.06 + 0.05 * np.mod(i, 4)
    cat["id"], cat["source_index"] = 100 + i, i
    cat["is_valid"] = True
    for j, b in enumerate(bands):
        cat[b] = 4.0 + 1.5 * j + 0.8 * i + 0.2 * k
    return cat


def make_patch(exps, bands, psfstore, nrad=3, cls=Patch, build=True, order=None):
    """order: order in which exposures appear in the dictionaries"""
    seq = list(exps) if order is None else [exps[i] for i in order]
    pix = {e.name: dict(flux=e.data, ierr=e.ierr, xpix=e.xpix, ypix=e.ypix) for e in seq}
    hdr = {e.name: e.hdr for e in seq}
    p = cls(pixel_dict=pix, header_dict=hdr, psfstore=psfstore, splinedata=splinefile(nrad), return_residual=True)
    if build:
        p.build_patch(region=None, allbands=list(bands))
    return p


# ---- reference ------------------------------------------------------------

def local(wcs, ra, dec, h=0.02):
    """pixel position, dpix/d(ra,dec) [deg] and dpix/d(arcsec east, north) by central differences"""
    c = np.cos(np.deg2rad(dec))
    st = h / 3600.
    ras = np.array([ra, ra + st / c, ra - st / c, ra, ra])
    decs = np.array([dec, dec, dec, dec + st, dec - st])
    x, y = wcs.world_to_pixel_values(ras, decs)
    D = np.array([[x[1] - x[2], x[3] - x[4]], [y[1] - y[2], y[3] - y[4]]]) / (2 * h)
    CW = D * 3600. @ np.diag([c, 1.0])
    return np.array([x[0], y[0]]), CW, D


def gaussian(x, y, cx, cy, cov):
    """pixel-integrated gaussian to second order"""
    F = np.linalg.inv(cov)
    dx, dy = x - cx, y - cy
    vx, vy = F[0, 0] * dx + F[0, 1] * dy, F[0, 1] * dx + F[1, 1] * dy
    a = dx * vx + dy * vy
    H = 1 + (vx ** 2 + vy ** 2 - F[0, 0] - F[1, 1]) / 24.
    g = np.exp(-0.5 * a) * H * np.sqrt(np.linalg.det(F)) / (2 * np.pi)
    return np.where(a > 36.0, 0.0, g), a


def source_image(row, exp, mix, nrad=3, G=1.0, ref=None):
    """unit flux image of one source; `ref` is the row whose astrometry was packed
    (the local linear approximation is taken there)"""
    ref = row if ref is None else ref
    pos, CW, D = local(exp.wcs, float(ref["ra"]), float(ref["dec"]))
    pos = pos + CW @ np.array([float(row["ra"]) - float(ref["ra"]), float(row["dec"]) - float(ref["dec"])])
    q, pa = float(row["q"]), float(row["pa"])
    R = np.array([[np.cos(pa), -np.sin(pa)], [np.sin(pa), np.cos(pa)]])
    T = D @ R @ np.diag([1 / q, q])
    im = np.zeros(len(exp.xpix))
    for p in mix:
        s = int(p["sersic_bin"])
        cov = RADII[s] ** 2 * T @ T.T + np.array([[p["Cxx"], p["Cxy"]], [p["Cxy"], p["Cyy"]]], dtype=float)
        g, _ = gaussian(exp.xpix.astype(float), exp.ypix.astype(float), pos[0] + float(p["xcen"]), pos[1] + float(p["ycen"]), cov)
        im = im + G * amp(s, float(row["sersic"]), float(row["rhalf"])) * float(p["amp"]) * g
    return im


def model_image(cat, exp, mix, nrad=3, ref=None, G=1.0):
    """sum over sources and the summed absolute contributions"""
    im, mag = np.zeros(len(exp.xpix)), np.zeros(len(exp.xpix))
    for i, row in enumerate(cat):
        m = float(row[exp.band]) * source_image(row, exp, mix, nrad, G, None if ref is None else ref[i])
        im += m
        mag += np.abs(m)
    return im, mag


def chi2(data, ierr, model):
    """what the kernel reports: chi-square without the parameter-independent data term"""
    r = (data - model) * ierr
    d = data * ierr
    return float(np.sum((r - d) * (r + d)))


# ---- configurations -------------------------------------------------------

WCSES = [dict(rot=0.4), dict(rot=-1.1, flip=True, scale=0.08, shear=0.2), dict(rot=2.0, stretch=1.25),
         dict(rot=3.0, scale=0.05, shear=-0.15, flip=True), dict(rot=-2.2, stretch=0.8), dict(rot=0.0)]
SHAPE_NXY = [(7, 6), (5, 8), (6, 6), (4, 7), (8, 5), (6, 4)]
SIP = {"A_ORDER": 2, "B_ORDER": 2, "A_2_0": 4e-4, "A_1_1": -3e-4, "B_0_2": 5e-4, "B_2_0": 2e-4}


def config(nsrc=2, expb=(1, 1), psfs=((2, 0),), nrad=3, wshift=0, order=None, cat_kw={}, weight=None, same_bins=False):
    """exposures, bands, mixtures, catalog, psf file"""
    bands = [f"B{i}" for i in range(len(expb))]
    mix = {}
    for i, b in enumerate(bands):
        ng, extra = psfs[i % len(psfs)]
        m = psf(i, ng, nrad, extra)
        if same_bins:
            one = psf(i, ng, 1, 0)
            m = np.concatenate([one] * nrad)
            m["sersic_bin"] = np.repeat(np.arange(nrad), ng)
        mix[b] = m
    name = "c%s_%s_%d_%d" % ("".join(map(str, [len(expb)])), "".join("%d%d" % tuple(x) for x in psfs), nrad, int(same_bins))
    pf = psffile(name, {b: [m] for b, m in mix.items()})
    exps = []
    k = wshift
    for b, n in zip(bands, expb):
        for j in range(n):
            nx, ny = SHAPE_NXY[k % len(SHAPE_NXY)]
            exps.append(make_exp(f"{b}_{j}", header(b, nx=nx, ny=ny, **WCSES[k % len(WCSES)]), k=k, weight=weight))
            k += 1
    cat = catalog(nsrc, bands, **cat_kw)
    return exps, bands, mix, cat, pf


def evaluate(p, cat, G=None, theta=None):
    """pack the catalog, send and evaluate (at theta if given): chi2, derivs, residual dict, scene"""
    prop = p.get_proposer()
    scene = p.set_scene(cat)
    p.return_residual = True
    p.pack_meta(scene)
    if G is not None:
        p.G[:] = [G[n] for n in p.epaths]
    p.send_to_device()
    return propose(p, prop, scene, theta) + (scene, prop)


def propose(p, prop, scene, theta=None):
    if theta is not None:
        scene.set_all_source_params(theta)
    chi, der, res = prop.evaluate_proposal(scene.get_proposal(), patch=p)
    return np.array(chi), np.array(der), {n: np.array(r) for n, r in zip(p.epaths, res)}


def theta_to_cat(theta, cat, bands, ref):
    """flat vector (positions relative to ref) to an absolute catalog"""
    out = cat.copy()
    n = len(bands) + len(SHAPES)
    for i in range(len(cat)):
        v = theta[i * n:(i + 1) * n]
        for j, b in enumerate(bands):
            out[b][i] = v[j]
        for j, s in enumerate(SHAPES):
            out[s][i] = v[len(bands) + j]
    out["ra"] += ref[0]
    out["dec"] += ref[1]
    return out


def reference(cat, exps, mix, nrad=3, ref=None, G=None):
    """per exposure model and magnitude; per band chi2 and its scale"""
    im, mag, chi, sc = {}, {}, {}, {}
    for e in exps:
        g = 1.0 if G is None else G[e.name]
        m, a = model_image(cat, e, mix[e.band], nrad, ref, g)
        im[e.name], mag[e.name] = m, a
        chi[e.band] = chi.get(e.band, 0.0) + chi2(e.data, e.ierr, m)
        sc[e.band] = sc.get(e.band, 0.0) + float(np.sum((a * e.ierr) ** 2 + 2 * np.abs(a * e.data) * e.ierr ** 2))
    return im, mag, chi, sc


def compare(ctx, exps, bands, p, out, want, where, tol=2e-5):
    chi, der, res = out
    im, mag, c2, sc = want
    for e in exps:
        w = e.data - im[e.name]
        lim = tol * (mag[e.name].max() + 1e-30) + 1e-6 * np.abs(e.data)
        ctx.check(res[e.name].shape == w.shape, f"{where}: residual of {e.name} has shape {res[e.name].shape}")
        bad = ~(np.abs(res[e.name] - w) <= lim)
        if bad.any():
            k = int(np.argmax(bad))
            ctx.fail(f"{where}: residual of exposure {e.name} at pixel ({e.xpix[k]}, {e.ypix[k]}) is {res[e.name][k]:.7g}, "
                     f"data minus model is {w[k]:.7g}")
    for i, b in enumerate(bands):
        d2 = sum(float(np.sum((e.data * e.ierr) ** 2)) for e in exps if e.band == b)
        ctx.check(abs(chi[i] - c2[b]) <= 3 * tol * sc[b] + 1e-6 * d2 + 1e-12, f"{where}: chi-square of band {b} is {chi[i]:.9g}, "
                  f"the weighted sum over its pixels is {c2[b]:.9g}")
