"""C18: results on disk: every small result, every set of pixels and every short history
of a run is written with the code's own writers, read back, and compared with what the
model of the run says; sequences of patches are exhaustive over active sets and order."""
import contextlib
import itertools
import json
import os
import tempfile
import types

import numpy as np
import h5py
from astropy.io import fits

from ..core import Suite
from .. import env
env.load_kernel()
from .. import kern as K
from .. import scenes as S
from forcepho.fitting import Result
from forcepho.region import CircularRegion
from forcepho.superscene import SuperScene, sourcecat_dtype, flux_bounds
from forcepho.utils import write_to_disk, write_residuals, populate_image, sky_to_pix
from forcepho.postprocess import (Residuals, Samples, run_metadata, postsample_catalog, flux_unc_linear, find_multipatch, check_multipatch,
                                  write_images, write_patchreg, postop_catalog)
from forcepho.patches.storage import MetaStore, ImageSet

PROPERTY = "C18"
ASSUMPTIONS = ["all patches of a run have the same bands and numbers of samples (the combined catalog has one shape)",
               "circular regions; patch ids count from zero; exposure names are unique across bands",
               "catalogs are stored with the digits of their own data types"]
SHAPES = K.SHAPES


@contextlib.contextmanager
def folder():
    import shutil
    d = tempfile.mkdtemp(dir=K.scratch())
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def quiet(f, *a, **k):
    with open(os.devnull, "w") as o, contextlib.redirect_stdout(o):
        return f(*a, **k)


def catalog(idx, bands, k=0):
    c = np.zeros(len(idx), dtype=sourcecat_dtype(bands=list(bands)))
    i = np.array(idx)
    for j, n in enumerate(list(bands) + SHAPES):
        c[n] = 1.0 + j + 0.1 * i + 0.01 * k
    c["ra"], c["dec"] = K.RA0 + 1e-4 * i, K.DEC0 - 2e-4 * i
    c["source_index"], c["id"] = i, 1000 + 7 * i
    c["n_iter"], c["n_patch"], c["is_valid"] = 3 * i + k, i, (i + k) % 2 == 0
    return c


def chain_of(nsrc, nband, niter, k):
    """every entry different"""
    n = nsrc * (nband + 6)
    return (np.arange(niter * n).reshape(niter, n) + 1) * 1e-4 + 0.31 * (k + 1)


def expected(chain, active, bands, ref):
    """parameters of every source and iteration"""
    n = len(bands) + 6
    out = {}
    for s in range(len(active)):
        for j, c in enumerate(list(bands) + SHAPES):
            v = chain[:, s * n + j].copy()
            if c == "ra":
                v = v + ref[0]
            if c == "dec":
                v = v + ref[1]
            out[s, c] = v
    return out


STATS = [("tune", bool), ("model_logp", np.float64), ("depth", np.int64), ("step_size", np.float64)]


def fake_step(ndim, full):
    pot = types.SimpleNamespace()
    if full:
        pot._cov = np.arange(ndim * ndim, dtype=float).reshape(ndim, ndim) + 0.5
    else:
        pot._var = np.arange(ndim, dtype=float) + 0.25
    return types.SimpleNamespace(potential=pot, stats_dtypes=[dict(STATS)])


def stats_of(niter, ntune, k):
    return [dict(tune=i < ntune, model_logp=-10.0 - (i * 7 + k) % 5 - 0.01 * i, depth=3 + i, step_size=0.1 * (i + 1)) for i in range(niter)]


def names(bands):
    """exposure names as long as those of real observations"""
    return [f"{b}/jw01180007001_02101_00001_nrcalong_deep_mosaic_of_the_field_{'x' * 40 * j}_cal_{j}" for b in bands for j in range(2)]


def fake_model(bands, epaths, ref):
    patch = types.SimpleNamespace(bandlist=list(bands), patch_reference_coordinates=np.array(ref), npix=77, epaths=list(epaths))
    return types.SimpleNamespace(patch=patch, scene=types.SimpleNamespace(sources=[types.SimpleNamespace(SHAPE_COLS=SHAPES)]), ncall=12)


def fill(idx, bands, catbands, niter, ntune, k, nfix=0, nbig=None, bounds=True, cov="diag", extra={}):
    ref = (K.RA0 - 0.003 * (k + 1), K.DEC0 + 0.002 * k)
    active = catalog(idx, catbands, k)
    fixed = None if nfix is None else catalog([50 + i for i in range(nfix)], catbands, k)
    big = None if nbig is None else catalog([80 + i for i in range(nbig)], catbands, k)
    chain = chain_of(len(idx), len(bands), niter, k)
    res = Result()
    res.chain, res.wall_time = chain.copy(), 1.5 + k
    for a, v in extra.items():
        setattr(res, a, v)
    bnd = None
    if bounds:
        bnd = np.zeros(len(idx), dtype=[("source_index", np.int32)] + [(c, np.float64, (2,)) for c in list(catbands) + SHAPES])
        for c in bnd.dtype.names[1:]:
            bnd[c] = active[c][:, None] + np.array([-0.5, 0.7])
    step = stats = None
    if cov:
        step, stats = fake_step(chain.shape[1], cov == "full"), stats_of(niter, ntune, k)
    reg = CircularRegion(K.RA0 + 1e-3 * k, K.DEC0 - 2e-3 * k, (2.0 + k) / 3600)
    q, blocks = res.fill(reg, active, fixed, fake_model(bands, names(bands), ref), big=big, bounds=bnd, patchID=k, step=step, stats=stats)
    truth = dict(active=active, fixed=fixed, big=big, chain=chain, bounds=bnd, step=step, stats=stats, reg=reg, ref=ref, bands=list(bands), q=q, blocks=blocks)
    return res, truth


def same_struct(a, b):
    return a is not None and a.dtype.names == b.dtype.names and a.shape == b.shape and all(np.array_equal(a[c], b[c]) for c in a.dtype.names)


def check_cat(ctx, cat, truth, it, where):
    want = expected(truth["chain"], truth["active"], truth["bands"], truth["ref"])
    ctx.check(len(cat) == len(truth["active"]), f"{where}: {len(cat)} rows")
    for s in range(len(cat)):
        for c in truth["active"].dtype.names:
            w = want[s, c][it] if (s, c) in want else truth["active"][c][s]
            w = truth["active"].dtype[c].type(w)
            ctx.check(cat[c][s] == w, f"{where}: {c} of source {s} at iteration {it} is {cat[c][s]!r}, the chain has {w!r}")
    ctx.step()


def check_result(ctx, r, truth, where, stored=True):
    ctx.check(np.array_equal(r.chain, truth["chain"]), f"{where}: the chain differs")
    for k in ("active", "fixed", "big", "bounds"):
        if truth[k] is not None:
            ctx.check(same_struct(getattr(r, k, None), truth[k]), f"{where}: {k} sources differ" if k != "bounds" else f"{where}: bounds differ")
    niter = len(truth["chain"])
    want = expected(truth["chain"], truth["active"], truth["bands"], truth["ref"])
    for (s, c), v in want.items():
        ctx.check(np.array_equal(r.chaincat[c][s], v), f"{where}: samples of {c} of source {s} differ from the chain")
    ctx.check(np.array_equal(r.chaincat["source_index"], truth["active"]["source_index"]), f"{where}: source indices of the samples")
    for it in list(range(niter)) + [-1]:
        check_cat(ctx, r.get_sample_cat(it), truth, it, where)
    check_cat(ctx, r.final, truth, -1, where + " (final)")
    if truth["stats"]:
        n, t = len(truth["stats"]), sum(s["tune"] for s in truth["stats"])
        ctx.check(int(r.n_sample) == n - t and int(r.n_tune) == t, f"{where}: {r.n_tune}+{r.n_sample} of {t}+{n - t} samples")
        for c, _ in STATS:
            ctx.check(np.array_equal(r.stats[c], [s[c] for s in truth["stats"]]), f"{where}: statistics {c}")
        lp = [s["model_logp"] for s in truth["stats"]]
        if len(lp) == niter:
            b = int(np.argmax(lp))
            ctx.check(np.array_equal(r.get_map(), truth["chain"][b:b + 1]), f"{where}: most probable sample")
            check_cat(ctx, r.get_map(structured=True), truth, b, where + " (most probable)")
    if truth["step"] is not None:
        p = truth["step"].potential
        cov = p._cov if hasattr(p, "_cov") else np.diag(p._var)
        ctx.check(np.array_equal(r.cov, cov), f"{where}: covariance differs")
    ctx.check(np.allclose(r.reference_coordinates, truth["ref"], rtol=0, atol=0), f"{where}: reference coordinates")
    ctx.check([b.decode() if isinstance(b, bytes) else b for b in np.array(r.bandlist).tolist()] == truth["bands"], f"{where}: bands {r.bandlist}")
    ctx.check([b.decode() if isinstance(b, bytes) else b for b in np.array(r.exposures).tolist()] == names(truth["bands"]), f"{where}: exposures {r.exposures}")
    ctx.check((r.ra, r.dec, r.radius) == (truth["reg"].ra, truth["reg"].dec, truth["reg"].radius), f"{where}: region")
    if stored:
        ctx.check(list(r.bands) == truth["bands"] and list(r.shape_cols) == SHAPES, f"{where}: bands {r.bands}, shape parameters {r.shape_cols}")
        ctx.check((r.region.ra, r.region.dec, r.region.radius) == (truth["reg"].ra, truth["reg"].dec, truth["reg"].radius), f"{where}: region object")


def run_result(case, ctx):
    idx, nb, ncat, niter, ntune, nfix, nbig, bounds, cov = case
    catbands = [f"B{i}" for i in range(ncat)]
    bands = catbands[ncat - nb:]
    with folder() as d:
        fn = os.path.join(d, "sub", "patch0_samples.h5")
        for k in range(2):       # the second overwrites the first
            res, truth = fill(idx, bands, catbands, niter + (1 - k), ntune, k, nfix if k else 1, nbig if k else 1, bounds if k else True, cov if k else "full")
            check_result(ctx, res, truth, f"{case} before writing", stored=False)
            check_cat(ctx, truth["q"], truth, -1, f"{case}: returned catalog")
            if truth["step"] is not None:
                n = nb + 6
                p = truth["step"].potential
                c = p._cov if hasattr(p, "_cov") else np.diag(p._var)
                for s in range(len(idx)):
                    ctx.check(np.array_equal(truth["blocks"][s], c[s * n:(s + 1) * n, s * n:(s + 1) * n]), f"{case}: covariance block of source {s}")
            keep = {k2: (v.copy() if isinstance(v, np.ndarray) else v) for k2, v in vars(res).items()}
            res.dump_to_h5(fn)
            for a, v in keep.items():
                ctx.check(np.array_equal(getattr(res, a), v) if isinstance(v, np.ndarray) else getattr(res, a) is v or getattr(res, a) == v, f"{case}: writing changed {a}")
            for cls in (Result, Samples):
                r = cls(fn)
                check_result(ctx, r, truth, f"{case} read back ({cls.__name__}, write {k + 1})")
                for a in ("fixed", "big", "bounds", "cov", "stats"):
                    if k == 1 and truth.get(a, "x") is None:
                        ctx.check(getattr(r, a, None) is None, f"{case}: {a} of the earlier file is still there")
                ctx.check(float(r.wall_time) == 1.5 + k and int(r.patchID) == k and int(r.npix) == 77 and int(r.nexp) == 2 * nb, f"{case}: run information")
                ctx.trace()
            # without the derived catalog of samples it is rebuilt from the chain
            with h5py.File(fn, "a") as f:
                del f["chaincat"]
            check_result(ctx, Samples(fn), truth, f"{case} rebuilt from the chain")
    ctx.outcome(case)


def result_cases(tier):
    sets = [[0], [3], [4, 1], [2, 0, 5]] if tier == "quick" else [[0], [3], [4, 1], [1, 4], [2, 0, 5], [5, 2, 0, 1]]
    for idx in sets:
        for nb, ncat in ((1, 1), (1, 2), (2, 2), (2, 3), (3, 3)):
            for niter, ntune in ((1, 0), (2, 1), (4, 0), (4, 2)):
                for nfix in (None, 0, 2):
                    for nbig in (None, 2):
                        for bounds in (False, True):
                            for cov in (None, "diag", "full"):
                                yield idx, nb, ncat, niter, ntune, nfix, nbig, bounds, cov


# ---------------------------------------------------------------- residual files

class FakePatch:
    """what write_residuals needs of a patch"""

    def __init__(self, exps, ref=(53.0, -27.0)):
        self.exps = exps
        self.epaths = [e["name"] for e in exps]
        self.bands = [e["name"].split("/")[0] for e in exps]
        self.bandlist = list(dict.fromkeys(self.bands))
        self.patch_reference_coordinates = np.array(ref)
        n = len(exps)
        self.D = np.arange(n * 4, dtype=float).reshape(n, 1, 2, 2) + 1
        self.CW = np.arange(n * 4, dtype=float).reshape(n, 1, 2, 2) * 10 + 3
        self.crpix = np.arange(n * 2, dtype=float).reshape(n, 1, 2)
        self.crval = np.arange(n * 2, dtype=float).reshape(n, 1, 2) - 5

    def split_pix(self, attr):
        return [np.array(e[attr]) for e in self.exps]


def pixset(name, mask, nx, k, npad):
    """pixels of an nx-wide image selected by the bits of mask"""
    xy = [(i % nx, i // nx) for i in range(64) if mask >> i & 1]
    if k % 2:
        xy = xy[::-1]
    x = [float(a) for a, b in xy] + [-1.0] * npad
    y = [float(b) for a, b in xy] + [-1.0] * npad
    v = np.array([100.0 * (k + 1) + 10 * a + b for a, b in xy] + [np.float64(-999.0)] * npad)
    return dict(name=name, xpix=np.array(x, dtype=np.float32), ypix=np.array(y, dtype=np.float32), data=v.astype(np.float32),
                ierr=(v * 0 + 1 + 0.1 * k).astype(np.float32), residual=(v + 0.5).astype(np.float32))


def paint(model, p, what):
    for e in p.exps:
        for x, y, v in zip(e["xpix"], e["ypix"], e[what]):
            if x >= 0 and y >= 0:
                model.setdefault(e["name"], {})[int(x), int(y)] = float(v)


def check_image(ctx, im, shape, pix, where):
    want = np.full(shape, np.nan)
    for (x, y), v in pix.items():
        want[x, y] = v
    ctx.check(im.shape == tuple(shape), f"{where}: image of shape {im.shape} for {shape}")
    if not np.array_equal(np.asarray(im, dtype=float), want, equal_nan=True):
        bad = np.argwhere(~((im == want) | (np.isnan(im) & np.isnan(want))))[0]
        ctx.fail(f"{where}: pixel {tuple(int(b) for b in bad)} is {im[tuple(bad)]}, it should be {want[tuple(bad)]}")


def header(nx, ny):
    return K.header("B0", nx=nx, ny=ny)


def metastore(d, shapes):
    ms = MetaStore()
    for n, (nx, ny) in shapes.items():
        b, e = n.split("/", 1)
        ms.add_exposure(ImageSet(im=None, ierr=None, mask=None, bkg=None, hdr=header(nx, ny), band=b, expID=e, names=None))
    fn = os.path.join(d, "meta.json")
    ms.write_to_file(fn)
    return fn


def run_pixels(case, ctx):
    """placing: one exposure, every set of pixels"""
    lo, hi, nx, ny, npad = case
    with folder() as d:
        shape = (nx + 1, ny + 2)
        ms = MetaStore(metastore(d, {"B0/v1/a": shape, "B1/b": (3, 3)}))
        for mask in range(lo, hi):
            if mask == 0:
                continue
            p = FakePatch([pixset("B0/v1/a", mask, nx, mask % 5, npad), pixset("B1/b", 0b1010, 3, 2, 0)])
            fn = os.path.join(d, "r.h5")
            write_residuals(p, fn, residuals=p.split_pix("residual"))
            r = Residuals(fn)
            ctx.check(list(r.exposures) == p.epaths and list(r.ebands) == p.bands, f"{case}: exposures {r.exposures} bands {r.ebands}")
            ctx.check(np.array_equal(r.reference_coordinates, p.patch_reference_coordinates), "reference coordinates")
            for i, e in enumerate(p.exps):
                for a in ("xpix", "ypix", "data", "ierr", "residual"):
                    ctx.check(np.array_equal(r.handle[e["name"]][a][:], e[a]), f"mask {mask}: {a} of {e['name']}")
                for a in ("D", "CW", "crpix", "crval"):
                    ctx.check(np.array_equal(r.handle[e["name"]][a][:], getattr(p, a)[i]), f"mask {mask}: {a} of {e['name']}")
            for what in ("data", "residual", "ierr"):
                model = {}
                paint(model, p, what)
                ims, hd = r.fill_images(fill_type=what, metastore=ms)
                ctx.check(set(ims) == set(p.epaths), f"images {set(ims)}")
                for n, sh in (("B0/v1/a", shape), ("B1/b", (3, 3))):
                    check_image(ctx, ims[n], sh, model[n], f"pixels {mask:b} of {nx} wide, {what}")
                    ctx.check(hd[n]["NAXIS1"] == sh[0] and hd[n]["NAXIS2"] == sh[1], f"header of {n}")
                # into existing images: other pixels keep their values
                pre = {"B0/v1/a": np.arange(shape[0] * shape[1], dtype=float).reshape(shape)}
                keep = pre["B0/v1/a"].copy()
                ims, hd = r.fill_images(images=pre, fill_type=what, metastore=ms)
                both = {xy: keep[xy] for xy in itertools.product(range(shape[0]), range(shape[1]))}
                both.update(model["B0/v1/a"])
                check_image(ctx, ims["B0/v1/a"], shape, both, f"pixels {mask:b} into an image, {what}")
                ctx.check(ims["B0/v1/a"] is pre["B0/v1/a"], "the given image is not the one filled")
                # cut out
                for n in p.epaths:
                    im, l, h = r.make_exp(exp=n, value=what)
                    mx = min(x for x, y in model[n]), min(y for x, y in model[n])
                    Mx = max(x for x, y in model[n]), max(y for x, y in model[n])
                    check_image(ctx, im, (Mx[0] - mx[0] + 1, Mx[1] - mx[1] + 1), {(x - mx[0], y - mx[1]): v for (x, y), v in model[n].items()}, f"cutout of pixels {mask:b}, {what}")
                    ctx.check(np.allclose(l, np.array(mx) - 0.5) and np.allclose(h, np.array(Mx) + 0.5), f"limits of the cutout: {l} {h}")
                i = 1
                im2, _, _ = r.make_exp(e=i, value=what)
                im, _, _ = r.make_exp(exp=p.epaths[i], value=what)
                ctx.check(np.array_equal(im, im2, equal_nan=True), "cutout by number and by name differ")
                ctx.step(4)
            r.handle.close()
            ctx.trace()
        ctx.extra_states += hi - lo - 1
    ctx.outcome(case)


def run_written(case, ctx):
    """a real patch: the file holds the patch's pixels and its residual at the last sample"""
    expb, nsrc, nact, given = case
    exps, bands, mix, cat, pf = K.config(nsrc=nsrc, expb=expb)
    for e in exps:
        e.name = e.name.replace("_", "/e")
    p = K.make_patch(exps, bands, pf)
    active, fixed = cat[:nact].copy(), cat[nact:].copy()
    model, q = quiet(p.prepare_model, active=active, fixed=fixed if len(fixed) else None, shapes=SHAPES)
    sub = {n: np.array(x) for n, x in zip(p.epaths, p.split_pix("data"))}
    chain = np.array([q * (1 + 0.01 * j) if j == 0 else q for j in range(3)])
    last = chain[-1].copy()
    for j in range(len(bands)):
        last[j::len(bands) + 6] *= 1.3
    chain[-1] = last
    res = Result()
    res.chain = chain.copy()
    reg = CircularRegion(K.RA0, K.DEC0, 1e-3)
    res.fill(reg, active, fixed, model, patchID=4)
    want = model.residuals(last)
    want = [np.array(w) for w in want]
    model.lnprob(q)      # something else in between
    cfg = types.SimpleNamespace(write_residuals=True, name="run", bandlist=bands, n=3)
    with folder() as d:
        root = os.path.join(d, "patch4")
        r0 = [w + 1 for w in want] if given else None
        quiet(write_to_disk, res, root, model, cfg, residual=r0)
        s = Samples(root + "_samples.h5")
        ctx.check(json.loads(s.config) == dict(write_residuals=True, name="run", bandlist=bands, n=3), f"{case}: stored configuration {s.config}")
        ctx.check(np.array_equal(s.chain, chain), f"{case}: chain")
        r = Residuals(root + "_residuals.h5")
        ctx.check(r.exposures == list(p.epaths), f"{case}: exposures")
        ctx.check(r.ebands == [e.split("/")[0] for e in p.epaths], f"{case}: bands of the exposures: {r.ebands}")
        for i, n in enumerate(r.exposures):
            e = next(x for x in exps if x.name == n)
            h = r.handle[n]
            nn = len(e.xpix)
            ctx.check(np.array_equal(h["xpix"][:][:nn], e.xpix) and np.array_equal(h["ypix"][:][:nn], e.ypix), f"{case}: pixels of {n}")
            ctx.check(np.array_equal(h["data"][:], sub[n]), f"{case}: data of {n}")
            ctx.check(np.allclose(h["ierr"][:][:nn], e.ierr, rtol=1e-6), f"{case}: weights of {n}")
            ctx.check(np.allclose(h["residual"][:], want[i] + (1 if given else 0), rtol=1e-6, atol=1e-6), f"{case}: residual of {n} is not that of the last sample")
            # sources are found at their pixels
            x, y = e.wcs.world_to_pixel_values(active["ra"], active["dec"])
            pix = np.atleast_2d(r.sky_to_pix(active["ra"], active["dec"], exp=n))
            ctx.check(np.allclose(pix, np.array([x, y]).T, atol=2e-3), f"{case}: sources of {n} are placed at {pix.tolist()}, they are at {np.array([x, y]).T.tolist()}")
            pix2 = np.atleast_2d(r.sky_to_pix(active["ra"], active["dec"], e=i))
            ctx.check(np.array_equal(pix, pix2), f"{case}: placement by number and by name differ")
            ctx.step()
        r.handle.close()
        # only when asked for
        for k, c in enumerate((types.SimpleNamespace(write_residuals=0, n=3), types.SimpleNamespace(write_residuals=False), types.SimpleNamespace(name="run"))):
            root = os.path.join(d, f"patch{k}")
            quiet(write_to_disk, res, root, model, c, residual=r0)
            ctx.check(sorted(os.path.basename(f) for f in os.listdir(d) if f.startswith(f"patch{k}_")) == [f"patch{k}_samples.h5"], f"{case}: files written with {c} are {sorted(os.listdir(d))}")
            ctx.check(np.array_equal(Samples(root + "_samples.h5").chain, chain), f"{case}: chain written with {c}")
    ctx.trace()
    ctx.outcome(case)


# ---------------------------------------------------------------- runs

SUBSETS = [[0], [1], [2], [1, 0], [2, 0], [1, 2], [2, 0, 1]]
NS, RB = 3, ["B0", "B1"]


def run_run(case, ctx):
    """a run: patches with active sets, checked in in some order; then everything that combines them"""
    sets, order, prec, ntune, scenefile, images = case
    niter = 3 + ntune if ntune else 2
    with folder() as d:
        root = os.path.join(d, "run")
        os.makedirs(os.path.join(root, "patches"))
        cat = catalog(list(range(NS + 1)), RB)          # the last source is never fitted
        cat["rhalf"], cat["q"], cat["sersic"], cat["pa"] = 0.1, 0.6, 2.0, 0.1
        scene = SuperScene(sourcecat=cat, bands=list(RB), statefile=os.path.join(root, scenefile), target_niter=100, bounds_kwargs=dict(rhalf_range=(0.01, 1.0)))
        truths, patches, maxlp = {}, {}, {}
        for pid, idx in enumerate(sets):
            res, t = fill(idx, RB, RB, niter, ntune, pid, bounds=False, extra={})
            if prec == "all" or (prec == "some" and pid % 2 == 0):
                P = np.zeros((len(RB), len(idx), len(idx)))
                for b in range(len(RB)):
                    for i in range(len(idx)):
                        for j in range(len(idx)):
                            P[b, i, j] = (4.0 + b + i + pid) if i == j else 0.3 * (b + 1)
                P[0] *= 1e6 if pid == 1 else 1.0        # better than the largest signal-to-noise
                res.precisions = P
                t["prec"] = P
            res.dump_to_h5(os.path.join(root, "patches", f"patch{pid}_samples.h5"))
            truths[pid] = t
            if images:
                p = FakePatch([pixset("B0/a", (0b1011 << pid) | 1 << (pid % 3), 3, pid, pid % 2), pixset("B1/b", 0b11 << (2 * pid), 3, pid, 1)][: 2 if pid != 1 else 1])
                write_residuals(p, os.path.join(root, "patches", f"patch{pid}_residuals.h5"), residuals=p.split_pix("residual"))
                patches[pid] = p
        for pid in order:
            t = truths[pid]
            scene.checkin_region(t["q"], None, niter, taskID=pid, flush=True)
        json.dump(dict(bandlist=RB, scene_catalog=scenefile, raw_catalog=os.path.join(d, "raw.fits")), open(os.path.join(root, "config.json"), "w"))
        config, plog, slog, final = run_metadata(root)
        ctx.check([int(p) for p in plog] == list(order), f"{case}: order of the patches {plog}")
        for c in cat.dtype.names:
            ctx.check(np.array_equal(np.asarray(final[c]), scene.sourcecat[c]), f"{case}: final catalog, {c}")
        last = {}
        for pid in order:
            for s in sets[pid]:
                last[s] = pid
        used = {s: [pid for pid in order if s in sets[pid]] for s in range(NS + 1)}

        # -- samples
        ns = niter - ntune

        def check_post(pc, last, rows, where):
            ctx.check(len(pc) == rows, f"{where}: {len(pc)} rows for {rows} sources")
            for s in range(rows):
                if s not in last:
                    ctx.check(pc["id"][s] == -1, f"{where}: source {s} was never fitted but has id {pc['id'][s]}")
                    continue
                t = truths[last[s]]
                i = sets[last[s]].index(s)
                want = expected(t["chain"], t["active"], t["bands"], t["ref"])
                ctx.check(pc["id"][s] == t["active"]["id"][i] and pc["source_index"][s] == s, f"{where}: identifiers of source {s}")
                ctx.check(int(pc["patch_id"][s]) == last[s], f"{where}: source {s} is from patch {pc['patch_id'][s]}, it was last fitted in {last[s]}")
                ctx.check(np.allclose(pc["wall"][s], 1.5 + last[s]), f"{where}: wall time of source {s}")
                ctx.check(np.array_equal(np.atleast_1d(pc["lnp"][s]), [x["model_logp"] for x in t["stats"]][-ns:]), f"{where}: probability of the samples of source {s}")
                for c in RB + SHAPES:
                    ctx.check(np.array_equal(np.atleast_1d(pc[c][s]), want[i, c][-ns:]), f"{where}: samples of {c} of source {s} are {pc[c][s]}, patch {last[s]} has {want[i, c][-ns:]}")
                ctx.step()

        out = os.path.join(d, "post.fits")
        pc = postsample_catalog(root, catname=out)
        check_post(pc, last, NS + 1, f"{case}: catalog of samples")
        with fits.open(out) as hd:
            check_post(hd[1].data, last, NS + 1, f"{case}: catalog of samples on disk")
            ctx.check(hd[0].header["FILTERS"] == ",".join(RB), "filters of the catalog")
        for n in range(1, len(order) + 1):
            for some in itertools.permutations(range(len(sets)), n) if len(sets) < 3 else [tuple(order[:n]), tuple(order[::-1][:n])]:
                l2 = {}
                for pid in some:
                    for s in sets[pid]:
                        l2[s] = pid
                check_post(postsample_catalog(root, patches=list(some)), l2, 1 + max(l2), f"{case}: catalog of patches {some}")

        # -- sources in several patches
        sources, pats, chains = find_multipatch(root)
        multi = {s: p for s, p in used.items() if len(p) > 1}
        ctx.check(sorted(int(s) for s in sources) == sorted(multi), f"{case}: sources of several patches {sources}, they are {multi}")
        for s, p, c in zip(sources, pats, chains):
            s = int(s)
            ctx.check([int(x) for x in p] == multi[s] and len(c) == len(p), f"{case}: source {s} in patches {p}, it was in {multi[s]}")
            for row, pid in zip(c, multi[s]):
                t = truths[pid]
                want = expected(t["chain"], t["active"], t["bands"], t["ref"])
                i = sets[pid].index(s)
                ctx.check(row["source_index"] == s, f"{case}: chains of source {s} are those of {row['source_index']}")
                for col in RB + SHAPES:
                    ctx.check(np.array_equal(row[col], want[i, col]), f"{case}: chain of {col} of source {s} in patch {pid}")
            ctx.step()
        for nlast in (1, 2, 256):
            got = check_multipatch(root, n_sample=nlast)
            ctx.check(sorted(int(s) for s in got) == sorted(multi), f"{case}: statistics of {list(got)}, sources of several patches are {sorted(multi)}")
            for s, st in got.items():
                for col in RB + SHAPES:
                    v = [expected(truths[p]["chain"], truths[p]["active"], truths[p]["bands"], truths[p]["ref"])[sets[p].index(int(s)), col][-nlast:] for p in multi[int(s)]]
                    want = [np.mean(x) for x in v], [np.sqrt(np.mean((x - np.mean(x)) ** 2)) for x in v]
                    ctx.check(col in st and all(np.allclose(g, w, rtol=1e-9, atol=1e-9) and np.shape(g) == (len(v),) for g, w in zip(st[col], want)),
                              f"{case}: mean and spread of {col} of source {s} over the last {nlast} samples of patches {multi[int(s)]}: {st.get(col)}, expected {want}")
            ctx.step()

        # -- flux uncertainties
        for snr in (1000, 2.0):
            unc = quiet(flux_unc_linear, root, snr_max=snr)
            ctx.check(len(unc) == NS + 1 and np.array_equal(unc["source_index"], np.arange(NS + 1)) and np.array_equal(unc["id"], cat["id"]), f"{case}: rows of the uncertainties")
            for s in range(NS + 1):
                pids = [p for p in used[s] if "prec" in truths[p]]
                for b, band in enumerate(RB):
                    if pids:
                        t, i = truths[pids[-1]], sets[pids[-1]].index(s)
                        w = max(np.sqrt(np.linalg.inv(t["prec"][b])[i, i]), float(t["q"][band][i]) / snr)
                    else:
                        lo, hi = flux_bounds(np.array([scene.sourcecat[band][s]]), 1)
                        w = max(abs(lo[0] - scene.sourcecat[band][s]), abs(hi[0] - scene.sourcecat[band][s]))
                    ctx.check(abs(unc[band][s] - w) <= 1e-5 * abs(w), f"{case}: uncertainty of {band} of source {s} is {unc[band][s]}, it should be {w}")
            ctx.step()
        quiet(postop_catalog, root, catname=os.path.join(d, "op.fits"))
        with fits.open(os.path.join(d, "op.fits")) as hd:
            for c in RB + SHAPES + ["id", "source_index"]:
                ctx.check(np.array_equal(hd[1].data[c], scene.sourcecat[c]), f"{case}: optimised catalog, {c}")
            ctx.check((hd[1].data["n_iter"] == 0).all() and (hd[1].data["n_patch"] == 0).all(), f"{case}: iterations of the optimised catalog")
            unc = quiet(flux_unc_linear, root)
            for b in RB:
                ctx.check(np.allclose(hd[2].data[b], unc[b]), f"{case}: uncertainties of the optimised catalog")

        # -- regions
        files = [os.path.join(root, "patches", f"patch{p}_samples.h5") for p in range(len(sets))]
        reg = os.path.join(d, "p.reg")
        write_patchreg(list(files), plist=reg)
        txt = [l for l in open(reg).read().splitlines() if "circle" in l]
        got = sorted(tuple(float(x.rstrip("d")) for x in l.split("(")[1].split(")")[0].split(",")) for l in txt)
        want = sorted((t["reg"].ra, t["reg"].dec, t["reg"].radius) for t in truths.values())
        ctx.check(len(got) == len(want) and np.allclose(got, want, rtol=1e-9), f"{case}: regions {got} of the patches {want}")
        ctx.check(len(txt) == len(sets), f"{case}: {len(txt)} regions")

        # -- images
        if images:
            mf = metastore(d, {"B0/a": (3, 4), "B1/b": (3, 3)})
            quiet(write_images, root, metafile=mf, show_model=True, show_chi=True)
            m = {w: {} for w in ("data", "residual", "ierr")}
            for pid in order:
                for w in m:
                    paint(m[w], patches[pid], w)
            for n, sh in (("B0/a", (3, 4)), ("B1/b", (3, 3))):
                if n not in m["data"]:
                    continue
                dat, de, ie = (m[w][n] for w in ("data", "residual", "ierr"))
                for kind, pix in (("data", dat), ("delta", de), ("model", {k: dat[k] - de[k] for k in dat}), ("chi", {k: de[k] * ie[k] for k in dat})):
                    with fits.open(os.path.join(root, "image", f"{n.split('/')[1]}_{kind}.fits")) as hd:
                        check_image(ctx, hd[0].data.T, sh, pix, f"{case}: {kind} image of {n}")
                        ctx.check(abs(hd[0].header["CRVAL1"] - K.RA0) < 1e-9, "coordinate system of the image")
                ctx.step()
    ctx.trace()
    ctx.outcome(case)


def run_cases(tier):
    q = tier == "quick"
    for n in (1, 2, 3):
        pool = SUBSETS if n < 3 or not q else [[1], [1, 0], [2, 0, 1]]
        for sets in itertools.product(pool, repeat=n):
            for order in itertools.permutations(range(n)):
                if q and n == 3 and order not in ((0, 1, 2), (2, 0, 1), (1, 2, 0)):
                    continue
                h = sum(sum(s) + len(s) for s in sets) + sum((i + 1) * o for i, o in enumerate(order))
                for prec in ("none", "some", "all") if n < 3 else ("some",):
                    yield list(sets), list(order), prec, h % 3 if n > 1 else n - 1, ("superscene.fits", "out.v1.fits")[h % 2], True
    # more than ten patches: names do not sort as numbers
    many = [[i % 3] for i in range(12)]
    for order in (list(range(12)), list(range(11, -1, -1)), [9, 10, 11, 0, 1, 2, 3, 4, 5, 6, 7, 8]):
        yield many, order, "all", 0, "superscene.fits", False


def suites(tier):
    q = tier == "quick"
    nx, ny = (3, 3) if q else (4, 3)
    n = 2 ** (nx * ny)
    step = 32 if q else 128
    return [
        Suite("results", result_cases(tier), run_result, note="sources x bands in patch x bands in catalog x samples x tuning x fixed x big x bounds x covariance; written, overwritten, read"),
        Suite("pixels", [(a, min(a + step, n), nx, ny, pad) for a in range(0, n, step) for pad in (0, 2)], run_pixels, note=f"all {n - 1} sets of pixels of a {nx}x{ny} image, with and without padding"),
        Suite("written", [(eb, ns, na, g) for eb in ((1,), (2,), (1, 1), (2, 1), (1, 2)) for ns, na in ((1, 1), (2, 1), (3, 2)) for g in (False, True)], run_written, note="exposures per band x sources x active, real patches"),
        Suite("runs", run_cases(tier), run_run, note="all sequences of up to 3 patches over the active sets of 3 sources x check-in orders x precision matrices, and 12 patches in 3 orders"),
    ]
