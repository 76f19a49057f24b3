"""C22: the compiled limits.  Every combination of source, band and radius counts at,
below and beyond the limits, and every field of every structure shared with the kernel;
the same combinations again on a kernel compiled with the address sanitizer."""
import itertools
import json
import os
import re
import subprocess
import sys

import numpy as np

from ..core import Suite
from .. import env
if __name__ == "__main__":
    env.prepare()
env.load_kernel(sanitize=bool(os.environ.get("C22_ASAN")))
from .. import kern as K
from forcepho import kernel_limits, proposal
from forcepho.patches.patch import PatchBase

PROPERTY = "C22"
ASSUMPTIONS = ["default single-precision pixel and metadata types; 64-bit pointers",
               "the CPU kernel and the shared host structures; for the GPU see C28 and C29",
               "out-of-bounds accesses are those the address sanitizer sees in the kernel and in its arrays"]
MS, MB, MR = kernel_limits.MAXSOURCES, kernel_limits.MAXBANDS, kernel_limits.MAXRADII
LIM = dict(sources=MS, bands=MB, radii=MR)

# more radii than the shared test bed has
for _k in range(len(K.RADII), MR + 3):
    K.RADII.append(0.33 + 0.02 * _k)
    K.COEF.append((0.05 + 0.01 * _k, 0.01, 0.04 - 0.005 * (_k % 12), 0.02, 0.05))


# ---- structures -----------------------------------------------------------

PROBE = """
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include "kernel_limits.h"
#include "proposal.cu"
#include "patch.cc"
#define F(C, M) printf("%s %s %zu %zu\\n", #C, #M, offsetof(C, M), sizeof(((C*)0)->M));
int main() {
  printf("sizeof Source %zu\\n", sizeof(Source));
  printf("sizeof Patch %zu\\n", sizeof(Patch));
  printf("sizeof PSFSourceGaussian %zu\\n", sizeof(PSFSourceGaussian));
"""
STRUCTS = {"Source": ["ra", "dec", "q", "pa", "nsersic", "rh", "fluxes", "mixture_amplitudes", "damplitude_drh",
                      "damplitude_dnsersic"],
           "Patch": list(PatchBase.patch_struct_dtype.names),
           "PSFSourceGaussian": ["amp", "xcen", "ycen", "Cxx", "Cyy", "Cxy", "sersic_radius_bin"]}


def probe_layout(macros):
    """compile the structures of the kernel; None when they cannot be compiled on their own"""
    src = PROBE
    for c, fields in STRUCTS.items():
        for m in fields:
            src += f"  F({c}, {m})\n"
    for m in macros:
        src += f'  printf("macro {m} %.17g 0\\n", (double)({m}));\n'
    src += "}\n"
    d = K.scratch()
    fn, exe = os.path.join(d, "probe.cc"), os.path.join(d, "probe")
    open(fn, "w").write(src)
    inc = os.path.join(env.REPO, "forcepho", "src")
    r = subprocess.run(["g++", "-std=c++11", "-w", "-I" + inc, fn, "-o", exe], capture_output=True, text=True)
    if r.returncode != 0:
        return None
    out = {}
    for line in subprocess.run([exe], capture_output=True, text=True).stdout.splitlines():
        a, b, c, *d = line.split()
        out[a, b] = (c, d[0] if d else None)
    return out


def header_macros():
    txt = open(os.path.join(env.REPO, "forcepho", "src", "kernel_limits.h")).read()
    return re.findall(r"^\s*#define[ \t]+(\w+)[ \t]+\S", txt, re.M)


def run_layout(case, ctx):
    macros = [m for m in ("MAXBANDS", "MAXSOURCES", "MAXRADII", "NPARAMS", "MAX_EXP_ARG") if hasattr(kernel_limits, m)]
    if case == "python":
        for m in ("MAXBANDS", "MAXSOURCES", "MAXRADII", "NPARAMS"):
            ctx.check(hasattr(kernel_limits, m), f"kernel_limits does not know {m}")
            ctx.check(isinstance(getattr(kernel_limits, m), int), f"{m} is not an integer")
        for m in header_macros():
            ctx.check(hasattr(kernel_limits, m), f"kernel_limits does not know {m}")
            ctx.step()
        ctx.check(proposal.response_struct_dtype.itemsize == 4 * kernel_limits.NPARAMS * kernel_limits.MAXSOURCES,
                  f"response has {proposal.response_struct_dtype.itemsize} bytes")
        return
    lay = probe_layout(macros)
    if lay is None:
        ctx.state("not compiled")
        return
    if case == "macros":
        for m in macros:
            want = float(lay["macro", m][0])
            ctx.check(float(getattr(kernel_limits, m)) == want, f"python uses {m}={getattr(kernel_limits, m)}, "
                      f"the kernel is compiled with {want:g}")
            ctx.step()
        return
    if case == "PSFSourceGaussian":
        exps, bands, mix, cat, pf = K.config(2, (1, 2), ((2, 1), (1, 0)))
        p = K.make_patch(exps, bands, pf)
        K.evaluate(p, cat)
        dt = p.psfgauss.dtype
        names = dict(zip(STRUCTS[case], ["amp", "xcen", "ycen", "Cxx", "Cyy", "Cxy", "sersic_bin"]))
    else:
        dt = {"Source": proposal.source_struct_dtype, "Patch": PatchBase.patch_struct_dtype}[case]
        names = {n: n for n in STRUCTS[case]}
    ctx.check(dt.itemsize == int(lay["sizeof", case][0]), f"{case} has {dt.itemsize} bytes on the host and "
              f"{lay['sizeof', case][0]} in the kernel")
    for m, n in names.items():
        off, size = map(int, lay[case, m])
        f = dt.fields[n]
        ctx.check(f[1] == off and f[0].itemsize == size, f"{case}.{m} is at {f[1]} ({f[0].itemsize} bytes) on the host, "
                  f"at {off} ({size} bytes) in the kernel")
        ctx.step()
        ctx.state((case, m, off, size))


# ---- limits ---------------------------------------------------------------

def build(ns, nb, nr, multi, big=6):
    """a patch of ns sources, nb bands (two exposures in some) and nr radii"""
    bands = [f"B{i:02d}" for i in range(nb)]
    mix = {b: K.psf(0.1 * i, 1 + (i % 2 if multi else 0), nr, (i % 3 if multi else 0)) for i, b in enumerate(bands)}
    pf = K.psffile(f"lim{nb}_{nr}_{int(multi)}", {b: [m] for b, m in mix.items()})
    exps = []
    for i, b in enumerate(bands):
        for j in range(2 if (multi and i in (0, nb - 1)) else 1):
            k = i + 3 * j
            nx, ny = (3, 2 + k % 3) if big < 6 else K.SHAPE_NXY[k % 6]
            exps.append(K.make_exp(f"{b}_{j}", K.header(b, nx=nx, ny=ny, **K.WCSES[k % len(K.WCSES)]), k=k))
    cat = K.catalog(ns, bands)
    return exps, bands, mix, cat, pf


META = ["xpix", "ypix", "data", "ierr", "band_start", "band_N", "exposure_start", "exposure_N", "rad2", "D", "CW", "crpix",
        "crval", "G", "n_psf_per_source", "psfgauss", "psfgauss_start"]


def arrays(p):
    return {n: np.array(getattr(p, n)) for n in META if getattr(p, n, None) is not None}


def same(a, b):
    return all(a[n].tobytes() == b[n].tobytes() for n in a)


def run_limits(case, ctx):
    ns, nb, nr, multi = case
    ok = ns <= LIM["sources"] and nb <= LIM["bands"] and nr <= LIM["radii"]
    calls = []
    exps, bands, mix, cat, pf = build(ns, nb, nr, multi, 4 if ns * nb * nr > 300 else 6)
    p = K.make_patch(exps, bands, pf, nr)
    prop = p.get_proposer()
    real = prop.evaluate_proposal_kernel
    prop.evaluate_proposal_kernel = lambda i, *a: (calls.append(i), real(i, *a) if ok else ctx.fail(
        f"{ns} sources, {nb} bands and {nr} radii reached the kernel"))[1]
    if not ok:
        before = None
        try:
            scene = p.set_scene(cat)
            p.return_residual = True
            p.pack_meta(scene)
            p.send_to_device()
            q = scene.get_proposal()
            before = arrays(p)
            prop.evaluate_proposal(q, patch=p)
        except Exception as e:
            if type(e).__name__ == "Violation":
                raise
            ctx.check(not calls, f"{case}: the kernel ran before {type(e).__name__}")
            ctx.check(before is None or same(before, arrays(p)), f"{case}: refused, but the patch was changed")
            ctx.outcome(type(e).__name__)
            return
        ctx.fail(f"{ns} sources, {nb} bands and {nr} radii were accepted")
    scene = p.set_scene(cat)
    p.return_residual = True
    p.pack_meta(scene)
    p.send_to_device()
    q = scene.get_proposal()
    before, q0 = arrays(p), q.copy()
    chi, der, res = prop.evaluate_proposal(q, patch=p)
    ctx.check(sorted(calls) == list(range(nb)), f"{case}: kernel ran for bands {calls}")
    ctx.check(same(before, arrays(p)) and q.tobytes() == q0.tobytes(), f"{case}: the evaluation changed its inputs")
    ctx.check(np.shape(chi) == (nb,) and np.shape(der) == (nb, ns, 7), f"{case}: result shapes {np.shape(chi)} {np.shape(der)}")
    res = {n: np.array(r) for n, r in zip(p.epaths, res)}
    K.compare(ctx, exps, bands, p, (np.array(chi), der, res), K.reference(cat, exps, mix, nr), f"{case}", tol=4e-5)
    # the flux derivative of every source in every band, from the image of that source
    im, dsum, scale = {}, np.zeros((nb, ns)), np.zeros((nb, ns))
    for e in exps:
        b = bands.index(e.band)
        full, _ = K.model_image(cat, e, mix[e.band], nr)
        for i, row in enumerate(cat):
            u = K.source_image(row, e, mix[e.band], nr)
            t = -2 * e.ierr ** 2 * (e.data - full) * u
            dsum[b, i] += t.sum()
            scale[b, i] += np.abs(t).sum() + (np.abs(u) * e.ierr ** 2 * np.abs(full)).sum()
    bad = np.abs(np.array(der)[:, :, 0] - dsum) > 1e-4 * scale + 1e-9
    if bad.any():
        b, i = np.argwhere(bad)[0]
        ctx.fail(f"{case}: flux derivative of source {i} in band {b} is {der[b, i, 0]:.7g}, the residual times the source "
                 f"image gives {dsum[b, i]:.7g}")
    ctx.step(nb * ns)
    ctx.outcome((ns, nb, nr))


def limits_cases(tier):
    S = [1, 2, MS - 1, MS, MS + 1, MS + 15] if tier == "quick" else [1, 2, 3, 7, 15, 16, MS - 2, MS - 1, MS, MS + 1, MS + 2, MS + 15, 2 * MS + 1]
    B = [1, 2, MB - 1, MB, MB + 1, MB + 3] if tier == "quick" else [1, 2, 3, 15, 16, MB - 2, MB - 1, MB, MB + 1, MB + 2, MB + 15]
    R = [1, 2, MR - 1, MR, MR + 1] if tier == "quick" else [1, 2, 3, 5, MR - 2, MR - 1, MR, MR + 1, MR + 2]
    for ns, nb, nr in itertools.product(S, B, R):
        n = ns * nb * nr
        if tier == "quick" and n > 1800 and not (ns in (MS, MS + 1) and nb in (MB, MB + 1) and nr in (MR, MR + 1)):
            continue
        for multi in (False, True):
            if n > 900 and not multi and tier == "quick":
                continue
            yield [ns, nb, nr, multi]


# ---- the same refusals through the model ----------------------------------

def run_model(case, ctx):
    """prepare_model with na active and nf fixed sources"""
    na, nf, maxactive = case
    exps, bands, mix, cat, pf = build(na + nf, 2, 2, True, 4)
    p = K.make_patch(exps, bands, pf, 2)
    calls = []
    try:
        orig = p.get_proposer

        def get():
            pr = orig()
            real = pr.evaluate_proposal_kernel
            pr.evaluate_proposal_kernel = lambda i, *a: (calls.append(int(p.n_sources)), real(i, *a) if p.n_sources <= MS else
                                                         ctx.fail(f"{p.n_sources} sources reached the kernel"))[1]
            return pr
        p.get_proposer = get
        active, fixed = cat[:na], cat[na:] if nf else None
        model, q = p.prepare_model(active=active, fixed=fixed, maxactive=maxactive)
        lnp = model.lnprob(q)
        g = model.lnprob_grad(q)
    except Exception as e:
        if type(e).__name__ == "Violation":
            raise
        ctx.check(na > MS or min(maxactive, nf) > MS, f"{case} refused: {type(e).__name__}: {e}")
        ctx.outcome("refused")
        return
    ctx.check(na <= MS and min(maxactive, nf) <= MS, f"{case}: accepted beyond the limit")
    want = 0.0
    for e in exps:
        full, _ = K.model_image(cat, e, mix[e.band], 2)
        fix, _ = K.model_image(cat[na:], e, mix[e.band], 2) if nf else (0.0, 0)
        want += K.chi2(e.data - fix, e.ierr, full - fix)
    ctx.check(abs(lnp + 0.5 * want) <= 1e-4 * abs(want) + 1e-3 * np.sqrt(abs(want)), f"{case}: ln-likelihood {lnp:.8g}, "
              f"reference {-0.5 * want:.8g}")
    ctx.check(np.shape(g) == (na * 8,), f"{case}: gradient has shape {np.shape(g)}")
    ctx.step(len(calls))
    ctx.outcome(case)


def model_cases(tier):
    A = [1, 2, 15, MS - 1, MS, MS + 1, MS + 10] if tier == "quick" else [1, 2, 3, 8, 15, 16, MS - 2, MS - 1, MS, MS + 1, MS + 2, MS + 10, 2 * MS]
    for na in A:
        for nf in (0, 1, 15, 16, MS, MS + 1, MS + 17) if tier == "quick" else (0, 1, 2, 14, 15, 16, MS, MS + 1, 45, 46, 60, 75):
            for mx in (15, MS) if tier == "quick" else (1, 7, 15, MS - 1, MS, MS + 1):
                yield [na, nf, mx]


# ---- one band at a time ---------------------------------------------------

def run_band(case, ctx):
    """a direct kernel call for one band touches the residual pixels of that band alone"""
    ns, expb, psfs, band, resid = case
    exps, bands, mix, cat, pf = K.config(ns, tuple(expb), tuple(map(tuple, psfs)))
    p = K.make_patch(exps, bands, pf)
    prop = p.get_proposer()
    scene = p.set_scene(cat)
    p.return_residual = True
    p.pack_meta(scene)
    p.send_to_device()
    q = scene.get_proposal()
    full, fder, _ = prop.evaluate_proposal(q, patch=p)
    good = np.array(p.retrieve_array("residual"))
    if not resid:
        p.return_residual = False
        p.send_to_device()
        out = prop.evaluate_proposal(q, patch=p)
        ctx.check(np.array_equal(out[0], full) and np.array_equal(out[1], fder), f"{case}: without residuals the result differs")
        ctx.step()
        return
    p.residual[:] = -777.25
    q = q.copy()
    ret = prop.evaluate_proposal_kernel(band, p.device_patch, prop.send_to_device(q))
    ctx.check(ret.chi2 == full[band], f"{case}: chi2 of the band alone is {ret.chi2}, with the others {full[band]}")
    d = np.array(ret.dchi2_dp).ravel()
    ctx.check(np.array_equal(d[:7 * ns].reshape(ns, 7), fder[band]), f"{case}: derivatives of the band alone differ")
    ctx.check(not d[7 * ns:].any(), f"{case}: derivatives beyond source {ns} are not zero")
    after = np.array(p.retrieve_array("residual"))
    owner = np.concatenate([np.full(len(e.xpix), bands.index(e.band)) for n in p.epaths for e in exps if e.name == n])
    mine = owner == band
    ctx.check(np.array_equal(after[mine], good[mine]), f"{case}: residuals of band {band} differ")
    ctx.check((after[~mine] == -777.25).all(), f"{case}: evaluating band {band} wrote pixels of another band")
    ctx.step()


def band_cases(tier):
    for ns in (1, 2, 3) if tier == "quick" else (1, 2, 3, 7, MS):
        for nb in (1, 2, 3):
            for expb in itertools.product((1, 2, 3), repeat=nb):
                for psfs in [[(1, 0)], [(1, 1), (2, 0)], [(2, 1), (1, 0), (3, 0)]]:
                    for resid in (True, False):
                        for b in range(nb) if resid else [0]:
                            yield [ns, list(expb), psfs, b, resid]


# ---- address sanitizer ----------------------------------------------------

def asan_env():
    lib = subprocess.run(["g++", "-print-file-name=libasan.so"], capture_output=True, text=True).stdout.strip()
    e = dict(os.environ)
    e.update(LD_PRELOAD=lib, C22_ASAN="1", PYTHONMALLOC="malloc",
             ASAN_OPTIONS="detect_leaks=0:halt_on_error=1:exitcode=66:allocator_may_return_null=1",
             OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1")
    return e


def run_memory(case, ctx):
    """run the configurations of one chunk on the sanitized kernel"""
    so = env.build_kernel(sanitize=True)
    e = asan_env()
    trial = subprocess.run([sys.executable, "-c", "import numpy"], env=e, capture_output=True, text=True)
    if trial.returncode != 0:
        ctx.state("no sanitizer here")
        return
    r = subprocess.run([sys.executable, "-m", "mc.checks.c22", json.dumps(case)], env=e, capture_output=True, text=True,
                       cwd=env.ROOT)
    done = [l for l in r.stdout.splitlines() if l.startswith("done ")]
    if r.returncode != 0:
        bad = [l for l in r.stderr.splitlines() if "ERROR: AddressSanitizer" in l or l.strip().startswith("#")][:8]
        at = case[len(done)] if len(done) < len(case) else None
        ctx.fail(f"configuration {at} of {{sources, bands, radii, exposures}}: " + (" | ".join(bad) or r.stderr[-600:]))
    ctx.check(len(done) == len(case), f"sanitized run stopped after {len(done)} of {len(case)}")
    ctx.step(len(case))
    ctx.trace(len(case))
    for l in done:
        ctx.state(l)
    assert os.path.exists(so)


def memory_configs(tier):
    S = [1, 2, 15, MS - 1, MS] if tier == "quick" else [1, 2, 3, 7, 14, 15, 16, MS - 2, MS - 1, MS]
    B = [1, 2, MB] if tier == "quick" else [1, 2, 3, 15, MB - 1, MB]
    R = [1, MR - 1, MR] if tier == "quick" else [1, 2, 3, 5, MR - 1, MR]
    for ns, nb, nr in itertools.product(S, B, R):
        for multi in (False, True):
            yield [ns, nb, nr, multi]


def memory_cases(tier):
    c = list(memory_configs(tier))
    n = 8 if tier == "quick" else 32
    return [c[i::n] for i in range(n)]


def memory_child(configs):
    for ns, nb, nr, multi in configs:
        exps, bands, mix, cat, pf = build(ns, nb, nr, multi, 4)
        p = K.make_patch(exps, bands, pf, nr)
        K.evaluate(p, cat)
        # blocks of sources of different sizes through the same patch, and no residual array
        p2 = K.make_patch(exps, bands, pf, nr)
        model, q = p2.prepare_model(active=cat[: max(1, ns // 2)], fixed=cat[max(1, ns // 2):] if ns > 1 else None, maxactive=MS)
        model.lnprob_grad(q)
        model.lnprob_grad(q + 1e-7)
        print("done", ns, nb, nr, multi, flush=True)


def suites(tier):
    return [Suite("layout", ["python", "macros", "Source", "Patch", "PSFSourceGaussian"], run_layout,
                  note="every field and size of the structures shared with the kernel, compiled and compared"),
            Suite("limits", limits_cases(tier), run_limits, note="source x band x radius counts around the limits"),
            Suite("model", model_cases(tier), run_model, note="active x fixed x block sizes through prepare_model"),
            Suite("band", band_cases(tier), run_band, note="one kernel call per band, sentinel in every other pixel"),
            Suite("memory", memory_cases(tier), run_memory, note="source x band x radius counts up to the limits, sanitized kernel")]


if __name__ == "__main__":
    memory_child(json.loads(sys.argv[1]))
