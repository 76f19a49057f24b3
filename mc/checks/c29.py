"""C29: patches on a GPU.  forcepho's own GPU patch classes and proposer run on a stand-in for
pycuda whose memory is checked on every use (freed memory is never handed out again) and whose
kernel launches run the real CUDA source (see C28).  Every sequence, to a depth, of building,
preparing, evaluating, solving and freeing, against a patch on the CPU that was made afresh for
the current contents."""
import contextlib
import itertools
import os

import numpy as np

from ..core import Suite
from .. import env, gpu
gpu.install()
env.load_kernel()
from .. import kern as K
from . import c15 as P
from forcepho import kernel_limits
from forcepho.patches import CPUPatchMixin, DirectPatch, FITSPatch, GPUPatchMixin, JadesPatch, SimplePatch, StorePatch
from forcepho.patches.patch import PatchBase

PROPERTY = "C29"
ASSUMPTIONS = ["pycuda is replaced by a stand-in with the same calls: allocation, copies, launch; copies and launches are synchronous",
               "the kernel runs as in C28, in one order of its threads",
               "exposures are padded to whole warps (super-pixels of the pixel store hold whole warps); the gaussians fit into the default shared memory",
               "a patch is evaluated only between preparing it and freeing or rebuilding it"]
MS = kernel_limits.MAXSOURCES


class GPatch(DirectPatch, GPUPatchMixin):
    pass


def quiet(f, *a, **k):
    with open(os.devnull, "w") as o, contextlib.redirect_stdout(o):
        return f(*a, **k)


def struct(p):
    raw = gpu._at(p.device_patch, p.patch_struct_dtype.itemsize)
    return np.frombuffer(raw.tobytes(), dtype=p.patch_struct_dtype)[0]


def may_write(p):
    return lambda: [int(struct(p)["residual"])]


def launch(ctx, where, f, *a, **k):
    try:
        return quiet(f, *a, **k)
    except gpu.KernelError as err:
        ctx.fail(f"{where}: on the device: {err}")
    except gpu.LogicError as err:
        ctx.fail(f"{where}: device memory: {err}")


def same(ctx, got, want, scale, tol, what):
    got, want = np.array(got, dtype=float), np.array(want, dtype=float)
    ctx.check(got.shape == want.shape, f"{what}: shape {got.shape}, on the CPU {want.shape}")
    bad = ~(np.abs(got - want) <= tol * scale)
    if bad.any():
        k = tuple(int(i[0]) for i in np.nonzero(bad)) if got.ndim else ()
        ctx.fail(f"{what}: entry {k} is {got[k]:.8g}, on the CPU {want[k]:.8g}")


def compare(ctx, g, c, where, offsets=(0.0,), resid=True, gtol=1e-4):
    """two prepared models, (model, q, patch)"""
    (gm, gq, gp), (cm, cq, cp) = g, c
    ctx.check(np.array_equal(gq, cq), f"{where}: initial positions differ from those on the CPU")
    for s in offsets:        # (a model does not evaluate the same position twice in a row)
        z = np.array(cq) * (1 + s)
        l1, l2 = launch(ctx, where, gm.lnprob, z), cm.lnprob(z)
        g1, g2 = launch(ctx, where, gm.lnprob_grad, z), cm.lnprob_grad(z)
        ctx.check(abs(l1 - l2) <= 1e-6 * (abs(l2) + 1), f"{where}: ln-probability {l1:.9g}, on the CPU {l2:.9g}")
        n = gp.n_sources
        same(ctx, np.reshape(g1, (n, -1)), np.reshape(g2, (n, -1)), np.abs(np.reshape(g2, (n, -1))).max(axis=0) + 1e-9, gtol, f"{where}: gradient")
        ctx.step()
    if resid:
        d1, d2 = launch(ctx, where, gp.retrieve_array, "data"), cp.retrieve_array("data")
        same(ctx, d1, d2, np.abs(d2).max() + 1e-9, 3e-6, f"{where}: data on the device")
        out = []
        for m, p in ((gm, gp), (cm, cp)):
            p.return_residual = True
            m.scene.set_all_source_params(np.array(cq))
            r = launch(ctx, where, p.get_proposer().evaluate_proposal, m.scene.get_proposal(), patch=p)
            p.return_residual = False
            ctx.check(len(r) == 3, f"{where}: {len(r)} values where residuals are asked for")
            out.append(r)
        ctx.check(len(out[0][2]) == len(out[1][2]), f"{where}: {len(out[0][2])} residual images")
        for e, (a, b) in enumerate(zip(out[0][2], out[1][2])):
            same(ctx, a, b, np.abs(d2).max() + 1e-9, 3e-6, f"{where}: residual of exposure {e}")
        same(ctx, out[0][0], out[1][0], np.abs(out[1][0]) + 1, 1e-6, f"{where}: chi-square")
        ctx.step()


def live_struct(ctx, p, where):
    """every array the structure on the device points to is there, whole, and holds what was packed"""
    st = struct(p)
    for n in p.patch_struct_dtype.names:
        if p.patch_struct_dtype[n] != p.ptr_dtype:
            ctx.check(st[n] == getattr(p, n), f"{where}: {n} is {st[n]} on the device, {getattr(p, n)} in the patch")
            continue
        if n == "residual":
            continue
        a = np.asarray(getattr(p, n))
        try:
            m = gpu._at(int(st[n]), a.nbytes)
        except gpu.LogicError:
            ctx.fail(f"{where}: the device's {n} points to memory that is not there")
        if n != "data":
            ctx.check(m.tobytes() == a.tobytes(), f"{where}: {n} on the device is not what was packed")


def freed(ctx, where):
    """nothing stays on the device, but for the structure itself perhaps"""
    left = sum(m.nbytes for m in gpu.Memory.live.values())
    ctx.check(left <= PatchBase.patch_struct_dtype.itemsize, f"{where}: {left} bytes stay on the device after freeing")


# ---- histories -----------------------------------------------------------------------------

SH = [(8, 8), (8, 4), (12, 8)]
OPS = ["build", "sub", "plain", "fix", "both", "eval", "design", "free", "send"]


def bed(expb):
    keep, K.SHAPE_NXY = K.SHAPE_NXY, SH
    try:
        exps, bands, mix, _, pf = K.config(1, tuple(expb), ((1, 0), (2, 0)), 3, 1)
    finally:
        K.SHAPE_NXY = keep
    cat = K.catalog(6, bands, spread=0.12)
    prep = {"plain": dict(active=cat[:2]), "fix": dict(active=cat[2:3], fixed=cat[3:5]),
            "both": dict(active=cat[:3], fixed=cat[4:6], big=cat[3:4], maxactive=1)}
    return exps, bands, pf, prep


def reference(exps, bands, pf, kw):
    p = K.make_patch(exps, bands, pf)
    m, q = quiet(p.prepare_model, **kw)
    return m, q, p


def run_history(case, ctx):
    prefix, depth, expb = case
    exps, bands, pf, prep = bed(expb)
    for rest in itertools.product(OPS, repeat=depth - len(prefix)):
        seq = list(prefix) + list(rest)
        gpu.Memory.held.clear()
        p = K.make_patch(exps, bands, pf, cls=GPatch)
        gpu.Device.only = may_write(p)
        cur, dirty, model = bands, False, None
        for i, o in enumerate(seq):
            where = f"history {seq[:i + 1]} on the GPU"
            if o in ("build", "sub"):
                cur = bands if o == "build" else bands[-1:]
                p.build_patch(region=None, allbands=list(cur))
                dirty, model = False, None
            elif o in prep:
                kw = prep[o]
                n = sum(len(kw.get(k, ())) for k in ("fixed", "big"))
                try:
                    m, q = launch(ctx, where, p.prepare_model, **kw)
                except AssertionError as err:
                    ctx.check(dirty, f"{where}: refused ({err!r}) although the pixel data are as built")
                    break
                ctx.check(not dirty, f"{where}: fixed sources were subtracted from data from which some had already been subtracted")
                dirty = n > 0
                model = (o, m, q, reference([e for e in exps if e.band in cur], cur, pf, kw))
                live_struct(ctx, p, where)
                compare(ctx, (m, q, p), model[3], where, offsets=(i * 1e-9,), resid=i == len(seq) - 1)
            elif o in ("eval", "design", "send") and model is None:
                break
            elif o == "eval":
                _, m, q, ref = model
                compare(ctx, (m, q, p), ref, where, offsets=(1e-7 + i * 1e-9, i * 1e-9))
            elif o == "design":
                name, m, q, ref = model
                act = prep[name]["active"]
                X, y = launch(ctx, where, p.design_matrix, active=act)
                Xr, yr = quiet(ref[2].design_matrix, active=act)
                for b in range(len(cur)):
                    same(ctx, y[b], yr[b], np.abs(yr[b]).max() + 1e-9, 3e-6, f"{where}: target data of band {b}")
                    same(ctx, X[b], Xr[b], np.abs(Xr[b]).max() + 1e-9, 1e-5, f"{where}: design matrix of band {b}")
                live_struct(ctx, p, where)
                compare(ctx, (m, q, p), ref, where, offsets=(i * 1e-9,))
            elif o == "send":
                # the packed scene and the data as built, again
                p.return_residual = True
                launch(ctx, where, p.send_to_device)
                p.return_residual = False
                name, m, q, ref = model
                dirty = False
                kw = dict(prep[name])
                kw.pop("fixed", None)
                kw.pop("big", None)
                model = (name, m, q, reference([e for e in exps if e.band in cur], cur, pf, kw))
                live_struct(ctx, p, where)
                compare(ctx, (m, q, p), model[3], where, offsets=(i * 1e-9,), resid=False)
            elif o == "free":
                launch(ctx, where, p.free)
                freed(ctx, where)
                model = None
            ctx.step()
        del p, model
        gpu.Memory.live.clear()
        ctx.trace()
        ctx.state(tuple(seq))
    ctx.outcome(case)


def hist_cases(tier):
    depth = 4 if tier == "quick" else 5
    for a in OPS:
        for b in OPS:
            yield [a, b], depth, (1, 1)
    for a in OPS:
        yield [a], 3, (2, 1)


# ---- the classes that read images ------------------------------------------------------------

class FCPU(FITSPatch, CPUPatchMixin):
    pass


class SCPU(StorePatch, CPUPatchMixin):
    pass


SPEC = [("F110", "c"), ("F110W", "r"), ("F110", "f"), ("F110W", "m"), ("F110W2", "e")]


def psfs():
    mix = {b: K.psf(i, 1 + i % 2, 3) for i, b in enumerate(P.BN)}
    return K.psffile("c29", {b: [m] for b, m in mix.items()})


def run_images(case, ctx):
    kind, r, ask, nact, nfix, mx = case
    gpu.Memory.held.clear()
    kw = dict(psfstore=psfs(), splinedata=K.splinefile(3), return_residual=True)
    if kind == "store":
        h5, js, ims = P.store_set("c29", SPEC, (16, 16), 8)
        mk = lambda cls: quiet(cls, pixelstore=h5, metastore=js, **kw)
        g, c = mk(JadesPatch), mk(SCPU)
    else:
        ims = P.fits_set("c29", [(b, l, 14 + k, 13) for k, (b, l) in enumerate(SPEC)], True)
        mk = lambda cls: quiet(cls, fitsfiles=[i[0] for i in ims], **kw)
        g, c = mk(SimplePatch), mk(FCPU)
    gpu.Device.only = may_write(g)
    ok = []
    for p in (g, c):
        try:
            quiet(p.build_patch, P.region(r), allbands=list(ask))
            ok.append(True)
        except ValueError:
            ok.append(False)
    ctx.check(ok[0] == ok[1], f"{kind}, region {r}, bands {ask}: a patch can be built {'on the GPU only' if ok[0] else 'on the CPU only'}")
    if not ok[0]:
        return
    where = f"{kind}, region {r}, bands {ask}, {nact} active and {nfix} fixed sources in blocks of {mx}"
    for n in ("data", "ierr", "xpix", "ypix", "exposure_start", "exposure_N", "band_start", "band_N"):
        ctx.check(np.array_equal(getattr(g, n), getattr(c, n)), f"{where}: {n} is packed differently for the GPU")
    cat = K.catalog(nact + nfix, list(ask), spread=0.4)
    for b in ask:
        cat[b] *= 20
    kw = dict(active=cat[:nact], fixed=cat[nact:] if nfix else None, maxactive=mx)
    m, q = launch(ctx, where, g.prepare_model, **kw)
    mc, qc = quiet(c.prepare_model, **kw)
    live_struct(ctx, g, where)
    compare(ctx, (m, q, g), (mc, qc, c), where, offsets=(0.0, 1e-9), gtol=3e-3)
    for p in (g, c):
        s = getattr(p, "pixelstore", None)
        if hasattr(s, "close"):
            s.close()
    launch(ctx, where, g.free)
    freed(ctx, where)
    del g, m
    gpu.Memory.live.clear()
    ctx.step()
    ctx.outcome(case)


def image_cases(tier):
    regions = [("C", 0, 0, 5.0), ("C", 2, -1, 3.2), ("R", 0, 0, 4.0), ("C", 5, 1, 2.5), ("R", -2, 3, 3.0), ("C", 0, 0, 30.0)]
    asks = [["F110"], ["F110W"], ["F110", "F110W"], ["F110W2", "F110"], ["F110W", "F110W2", "F110"]]
    for kind in ("store", "fits"):
        for r in regions:
            for ask in asks:
                for nact, nfix, mx in ((1, 0, 15), (2, 1, 15), (2, 3, 1), (1, 4, 2)):
                    yield kind, r, ask, nact, nfix, mx


# ---- limits ----------------------------------------------------------------------------------

def run_limits(case, ctx):
    nsrc, resid = case
    gpu.Memory.held.clear()
    exps, bands, pf, prep = bed((1,))
    cat = K.catalog(nsrc, bands, spread=0.12)
    p = K.make_patch(exps, bands, pf, cls=GPatch)
    gpu.Device.only = may_write(p)
    scene = p.set_scene(cat)
    p.return_residual = bool(resid)
    p.pack_meta(scene)
    launch(ctx, f"{nsrc} sources", p.send_to_device)
    prop = p.get_proposer()
    try:
        out = launch(ctx, f"{nsrc} sources", prop.evaluate_proposal, scene.get_proposal(), patch=p)
    except (ValueError, AssertionError) as err:
        ctx.check(nsrc > MS, f"{nsrc} sources, within the limit of {MS}, are refused on the GPU: {err!r}")
    else:
        ctx.check(nsrc <= MS, f"{nsrc} sources are evaluated on the GPU, the kernel has room for {MS}")
        ref = K.evaluate(K.make_patch(exps, bands, pf), cat)
        same(ctx, out[0], ref[0], np.abs(ref[0]) + 1, 1e-6, f"{nsrc} sources: chi-square")
        same(ctx, out[1], ref[1], np.abs(ref[1]).max(axis=(0, 1)), 1e-4, f"{nsrc} sources: derivatives")
    ctx.step()
    ctx.outcome(case)


def suites(tier):
    K.splinefile(3)
    psfs()
    gpu.build(open(env.REPO + "/forcepho/src/compute_gaussians_kernel.cu").read(), [env.REPO + "/forcepho/src"])
    for e in [(1,), (1, 1), (2, 1)]:
        bed(e)
    P.store_set("c29", SPEC, (16, 16), 8)
    P.fits_set("c29", [(b, l, 14 + k, 13) for k, (b, l) in enumerate(SPEC)], True)
    return [Suite("histories", hist_cases(tier), run_history, note="all sequences of 9 operations to depth 4 (5)"),
            Suite("images", image_cases(tier), run_images, note="pixel store and FITS patches: regions x band requests x sources x blocks"),
            Suite("limits", [(n, r) for n in range(1, MS + 4) for r in (0, 1)], run_limits, note="numbers of sources up to and beyond the compiled limit")]
