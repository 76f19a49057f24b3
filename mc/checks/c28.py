"""C28: the CUDA kernel.  forcepho/src/compute_gaussians_kernel.cu is compiled as it stands and
run thread by thread under a controlled scheduler (mc/gpu): every order of the atomic additions
of a block (or every order within a number of delays), with every pair of accesses that no
barrier orders reported, for every small patch and launch geometry; each schedule has to give
the chi-square, derivatives and residuals of the image model."""
import numpy as np

from ..core import Suite
from .. import env, gpu
gpu.install()
env.load_kernel()
from .. import kern as K
from forcepho import kernel_limits
from forcepho.patches import DirectPatch, GPUPatchMixin
from forcepho.proposal import GPUProposer

PROPERTY = "C28"
ASSUMPTIONS = ["the kernel is compiled by g++ with the CUDA built-ins replaced by those of the scheduler: what nvcc or the hardware do differently "
               "(fast mathematics, fused multiplication) is outside",
               "exposures are padded to whole warps, as the patch classes that read images do; block sizes are whole warps",
               "the gaussians of one exposure fit into the shared memory that is asked for",
               "atomic additions are the only scheduling points: everything else is shown to be free of races in each schedule"]
MS = kernel_limits.MAXSOURCES
NP = kernel_limits.NPARAMS


class GPatch(DirectPatch, GPUPatchMixin):
    pass


def words(case):
    return "%d sources, exposures %s, %d threads" % (case["nsrc"], case["shapes"], case["block"])


def setup(case):
    """exposures of given sizes (numbers of pixels are whole warps)"""
    expb, shapes = case["expb"], [tuple(s) for s in case["shapes"]]
    keep = K.SHAPE_NXY
    K.SHAPE_NXY = shapes
    try:
        exps, bands, mix, cat, pf = K.config(case["nsrc"], tuple(expb), tuple(tuple(x) for x in case.get("psfs", [[2, 0]])), case.get("nrad", 3), 0,
                                             weight=case.get("weight"), cat_kw=dict(k=case.get("k", 0), spread=case.get("spread", 0.06)))
    finally:
        K.SHAPE_NXY = keep
    return exps, bands, mix, cat, pf


def run(case, ctx):
    nrad = case.get("nrad", 3)
    exps, bands, mix, cat, pf = setup(case)
    resid = case.get("resid", True)
    # what it should be: the image model, and the CPU kernel for the derivatives
    cpu = K.evaluate(K.make_patch(exps, bands, pf, nrad), cat)
    want = K.reference(cat, exps, mix, nrad)
    K.compare(ctx, exps, bands, None, cpu[:3], want, f"CPU kernel, {words(case)}")
    p = K.make_patch(exps, bands, pf, nrad, cls=GPatch)
    prop = GPUProposer(thread_block=case["block"], **({"shared_size": case["shared"]} if "shared" in case else {}))
    scene = p.set_scene(cat)
    p.return_residual = resid
    p.pack_meta(scene)
    p.send_to_device()
    n = len(cat)
    res = np.concatenate([cpu[2][k] for k in p.epaths])
    mag = max(want[1][e.name].max() for e in exps)
    dsc = np.abs(cpu[1]).max(axis=(0, 1))

    def struct():
        raw = gpu._at(p.device_patch, p.patch_struct_dtype.itemsize)
        return np.frombuffer(raw.tobytes(), dtype=p.patch_struct_dtype)[0]

    rptr = int(struct()["residual"])
    ctx.check((rptr != 0) == resid, f"{words(case)}: the residual array on the device is {'there' if rptr else 'missing'}")
    if resid:
        gpu.Memory.live[rptr][:] = 0xFF

    def expect(outs):
        chi, der = outs[0].mem.view(np.float64), outs[1].mem.view(np.float32)
        o = [(chi, cpu[0], 1e-9 * (np.abs(cpu[0]) + np.array([want[3][b] for b in bands])))]
        ref, tol = np.zeros((len(bands), MS, NP)), np.full((len(bands), MS, NP), np.inf)
        ref[:, :n], tol[:, :n] = cpu[1], 3e-5 * dsc + 1e-12
        tol[:, n:] = np.inf
        outs[1].mem[:] = 0                # entries of sources that are not there are not judged
        o.append((der, ref.ravel(), tol.ravel()))
        if resid:
            o.append((gpu.Memory.live[rptr].view(np.float32), res, 1e-6 * mag + 1e-6 * np.abs(res)))
        return o

    D = gpu.Device
    D.only, D.expect = (lambda: [rptr] if rptr else []), expect
    D.delays, D.order = case["delays"], case.get("order", 0)
    runs = 0
    for focus in ([-1] if D.delays == 0 else range(len(bands))):
        D.focus = focus
        try:
            out = prop.evaluate_proposal(scene.get_proposal(), patch=p)
        except gpu.KernelError as err:
            ctx.fail(f"GPU kernel, {words(case)}, residuals {'on' if resid else 'off'}, schedule {D.stats.runs} of block {focus}: {err}")
        st = D.stats
        ctx.check(not st.cut, f"{words(case)}: exploration was cut off")
        ctx.extra_states += st.choices
        ctx.step(st.atomics + st.barriers + st.warps)
        ctx.trace(st.runs)
        runs += st.runs
        ctx.check(len(out) == 2 + resid, f"{words(case)}: {len(out)} values are returned")
        ctx.check(out[1].shape == (len(bands), n, NP), f"{words(case)}: derivatives have shape {out[1].shape}")
        ctx.check(np.all(np.abs(np.array(out[0]) - cpu[0]) <= 1e-9 * (np.abs(cpu[0]) + np.array([want[3][b] for b in bands]))), f"{words(case)}: chi-square {out[0]}, the model's is {cpu[0]}")
        ctx.check(np.all(np.abs(out[1] - cpu[1]) <= 3e-5 * dsc + 1e-12), f"{words(case)}: derivatives are not those of the model")
        if resid:
            K.compare(ctx, exps, bands, p, (np.array(out[0]), None, {k: np.array(r) for k, r in zip(p.epaths, out[2])}), want, f"GPU kernel, {words(case)}")
    p.free()
    gpu.Memory.held.clear()
    ctx.outcome((case["nsrc"], case["block"], tuple(np.round(cpu[0], 3))))


SH = {32: (8, 4), 64: (8, 8), 96: (12, 8), 128: (16, 8), 160: (16, 10), 192: (16, 12), 1024: (32, 32), 1056: (33, 32), 2080: (65, 32)}


def order_cases(tier):
    big = tier == "thorough"
    # every order: two warps, one round of pixels
    for nrad in (3,):
        for npix in (32, 64):
            for resid in (True, False):
                yield dict(nsrc=1, expb=(1,), shapes=[SH[npix]], block=64, delays=-1, resid=resid)
    yield dict(nsrc=1, expb=(1, 1), shapes=[SH[64], SH[64]], block=64, delays=-1)
    yield dict(nsrc=1, expb=(1, 1), shapes=[SH[32], SH[64]], block=64, delays=-1, order=1)
    yield dict(nsrc=1, expb=(2,), shapes=[SH[32], SH[64]], block=64, delays=-1)
    if big:
        yield dict(nsrc=2, expb=(1,), shapes=[SH[64]], block=64, delays=-1)
        yield dict(nsrc=1, expb=(2,), shapes=[SH[64], SH[64]], block=64, delays=-1)
    # a bounded number of delays for more warps, rounds, sources and exposures
    d = 3 if big else 2
    for block in (64, 96, 128):
        for npix in (32, 64, 96, 128, 160, 192):
            for nsrc in (1, 2):
                yield dict(nsrc=nsrc, expb=(1,), shapes=[SH[npix]], block=block, delays=d if nsrc == 1 else d - 1)
    for expb in [(2,), (1, 1), (2, 1)]:
        for a in (32, 64, 96):
            for b in (32, 64):
                yield dict(nsrc=1, expb=expb, shapes=[SH[a], SH[b], SH[64]], block=64, delays=d, resid=a != b)


def launch_cases(tier):
    big = tier == "thorough"
    blocks = (32, 64, 96, 128, 256, 512, 1024)
    for block in blocks:
        for nsrc in (1, 2, 3, MS) if not big else range(1, MS + 1):
            for expb in [(1,), (2,), (1, 1), (2, 1), (1, 2)]:
                for i, sh in enumerate([(64, 32, 96), (32, 192, 64), (96, 64, 160)]):
                    for resid in (True, False):
                        if not big and nsrc == MS and (i or not resid):
                            continue
                        yield dict(nsrc=nsrc, expb=expb, shapes=[SH[k] for k in sh], block=block, delays=0, resid=resid, order=i % 2,
                                   psfs=[[1 + i % 2, 0], [2, 1]], k=i, **({"shared": 48000} if i else {}))
    # more pixels than threads at the default launch
    for npix in (1024, 1056, 2080):
        for nsrc in (1, 2):
            yield dict(nsrc=nsrc, expb=(1,), shapes=[SH[npix]], block=1024, delays=0, spread=0.4)
    yield dict(nsrc=1, expb=(2, 1), shapes=[SH[1056], SH[64], SH[1024]], block=1024, delays=0, spread=0.4)
    # one delay at the default launch
    for npix in (64, 192):
        yield dict(nsrc=1, expb=(1, 1), shapes=[SH[npix], SH[64]], block=1024, delays=1)
    for w in ([1, 1, 0], [0, 1], [0, 0, 0, 0, 1]):
        for block in (64, 1024):
            for resid in (True, False):
                yield dict(nsrc=2, expb=(1, 1), shapes=[SH[64], SH[96]], block=block, delays=0, weight=w, resid=resid)


def suites(tier):
    K.splinefile(3)
    gpu.build(open(env.REPO + "/forcepho/src/compute_gaussians_kernel.cu").read(), [env.REPO + "/forcepho/src"])
    for c in list(order_cases(tier)) + list(launch_cases(tier)):
        setup(c)
    return [Suite("orders", order_cases(tier), run, note="every order of the atomic additions of one block of two warps (one per class of equivalent orders); "
                  "every order within 2 (3) delays for up to 4 warps, 6 rounds of pixels, 2 sources and 3 exposures"),
            Suite("launches", launch_cases(tier), run, note="block sizes from one warp to the default 1024 x sources x bands x exposures x numbers of pixels, with and without residuals")]
