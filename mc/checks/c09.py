"""C09: every call history of the posterior gives what a fresh model gives.

The call alphabet (probability functions x positions, in-place overwrites of a
shared position array, residual requests, prior and volume-correction switches)
is enumerated completely up to a depth, on the real posterior, scene and kernel."""
import itertools

import numpy as np

from mc import env

env.prepare()
env.load_kernel()

from mc import kern as K
from mc.core import Suite
from forcepho.model import FastPosterior, SlowPosterior, BoundedTransform, Transform
from forcepho.priors import ExpBeta
from forcepho.sources import Scene, Galaxy

PROPERTY = "C09"
FNS = ("lnprob", "lnprob_grad", "nll", "nll_nograd", "lnprob_and_grad")


class Bench:
    """one prepared patch, from which fresh posteriors are built"""

    def __init__(self, kind, nsrc=1, expb=(1,), bounded=True):
        exps, bands, mix, cat, pf = K.config(nsrc, tuple(expb), ((1, 0),), 3, 0)
        for e in exps:
            for a in ("xpix", "ypix", "data", "ierr"):
                setattr(e, a, getattr(e, a)[10:19])
        self.kind, self.bands, self.cat, self.bounded = kind, bands, cat, bounded
        self.exps, self.mix = exps, mix
        if kind == "fast":
            p = K.make_patch(exps, bands, pf)
            self.prop = p.get_proposer()
            self.scene = p.set_scene(cat)
            p.pack_meta(self.scene)
            p.send_to_device()
            self.patch = p
            self.q0 = np.array(self.scene.get_all_source_params(), dtype=float)
        else:
            self.scene = Scene(catalog=cat, filternames=list(bands), source_type=Galaxy, splinedata=K.splinefile(3))
            self.q0 = np.array(self.scene.get_all_source_params(), dtype=float)
        n = len(self.q0)
        w = np.abs(self.q0) * 0.3 + 0.02
        npar = len(bands) + len(K.SHAPES)
        for i in range(nsrc):
            w[i * npar + len(bands):i * npar + len(bands) + 2] = 2e-5
        self.lo, self.hi = self.q0 - w, self.q0 + w
        self.prior = dict(A=ExpBeta(self.q0 - 1.5 * w, self.q0 + 1.6 * w, alpha=-0.5), N=None)
        self.transform = BoundedTransform(self.lo, self.hi) if bounded else Transform(n)
        base = np.zeros(n) if bounded else self.q0.copy()
        sc = np.ones(n) if bounded else w
        a = 0.21 * np.sin(1.0 + np.arange(n))
        z0 = base + sc * a
        z1 = z0.copy()
        z1[-1] += 1e-6 * sc[-1]            # only the last entry, by very little
        z2 = base + sc * (0.5 * a + 0.17)
        z3 = z0.copy()
        z3[0] += 0.1 * sc[0]
        self.z = [z0, z1, z2, z3]
        # positions that differ from z0 in exactly one coordinate, and a pair with the same sum (and sum of squares)
        self.npos = len(self.z)
        for i in range(n):
            z = z0.copy()
            z[i] += 0.05 * sc[i]
            self.z.append(z)
        if bounded:
            for i in range(n - 1):
                z = z0.copy()
                z[i], z[i + 1] = z0[i + 1], z0[i]
                self.z.append(z)
        z = base + sc * (-a)
        self.z.append(z)
        self.q = [self.transform.transform(z) for z in self.z]

    def stamps(self):
        from forcepho.slow.stamp import PostageStamp
        from forcepho.slow.psf import PointSpreadFunction
        out = []
        ref = self.cat[0]
        for e in self.exps:
            st = PostageStamp(nx=3, ny=3, filtername=e.band)
            pos, CW, D = K.local(e.wcs, float(ref["ra"]), float(ref["dec"]))
            st.scale, st.dpix_dsky, st.crpix, st.crval = D, CW, np.array([1.1, 0.9]), np.array([float(ref["ra"]), float(ref["dec"])])
            st.psf = PointSpreadFunction(self.mix[e.band][:1])
            st.pixel_values = e.data.reshape(3, 3).copy()
            st.ierr = e.ierr.copy()
            out.append(st)
        return out

    def fresh(self, sampling=True, prior="N", logging=False):
        if self.kind == "fast":
            return FastPosterior(self.prop, self.patch, scene=self.scene, transform=self.transform, sampling=sampling,
                                 lnprior=self.prior[prior], logging=logging)
        return SlowPosterior(scene=self.scene, stamps=self.stamps(), transform=self.transform, lnprior=self.prior[prior])


_B = {}


def bench(kind, nsrc, expb, bounded):
    k = (kind, nsrc, tuple(expb), bounded)
    if k not in _B:
        b = Bench(*k)
        b.memo = {}
        _B[k] = b
    return _B[k]


def close(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-11, atol=1e-11 * (np.abs(b).max() if b.size else 1), equal_nan=False)


def want(b, sampling, prior, zi):
    """(lnp, grad) of a fresh model at position zi"""
    key = (sampling, prior, zi)
    if key not in b.memo:
        m = b.fresh(sampling, prior)
        lnp = float(m.lnprob(b.z[zi].copy()))
        m = b.fresh(sampling, prior)
        g = np.array(m.lnprob_grad(b.z[zi].copy()), dtype=float)
        b.memo[key] = (lnp, g)
    return b.memo[key]


def want_res(b, zi, slow=False):
    key = ("res", zi)
    if key not in b.memo:
        m = b.fresh()
        b.memo[key] = [np.array(r) for r in m.residuals(b.q[zi].copy())]
    return b.memo[key]


def alphabet(npos, switches=True, models=1):
    ops = []
    for m in range(models):
        for f in FNS:
            for z in list(range(npos)) + ["buf"]:
                ops.append((m, f, z))
        for z in range(min(npos, 2)):
            ops.append((m, "residuals", z))
        if switches:
            ops += [(m, "sampling", True), (m, "sampling", False), (m, "prior", "A"), (m, "prior", "N")]
    ops += [(0, "write", z) for z in range(npos)]
    return ops


def expected(f, lnp, g):
    return dict(lnprob=(lnp,), lnprob_grad=(g,), nll=(-lnp, -g), nll_nograd=(-lnp,), lnprob_and_grad=(lnp, g))[f]


def history(ctx, b, conf, ops, where):
    sampling, prior, retres, logging, models = conf
    if b.kind == "fast":
        b.patch.return_residual = retres
    ms = []
    for i in range(models):
        ms.append([b.fresh(sampling, prior, logging), sampling, prior])
    buf = np.array(b.z[0])
    ibuf = 0
    held = []
    for k, (m, f, a) in enumerate(ops):
        st = ms[m]
        model = st[0]
        if f == "write":
            buf[:] = b.z[a]
            ibuf = a
        elif f == "sampling":
            model.sampling = a
            st[1] = a
        elif f == "prior":
            model._lnpriorfn = b.prior[a]
            st[2] = a
        elif f == "residuals":
            q = np.array(b.q[a])
            r = model.residuals(q)
            w = want_res(b, a)
            if not (len(r) == len(w) and all(np.array_equal(x, y) for x, y in zip(r, w))):
                ctx.fail(f"{where}: residuals at position {a} differ from those of a fresh model", history=[list(o) for o in ops[:k + 1]])
            if b.kind == "fast" and b.patch.return_residual != retres:
                ctx.fail(f"{where}: residuals() left the patch's residual switch at {b.patch.return_residual}", history=[list(o) for o in ops[:k + 1]])
            if not np.array_equal(q, b.q[a]):
                ctx.fail(f"{where}: residuals() changed the caller's parameters", history=[list(o) for o in ops[:k + 1]])
        else:
            zi = ibuf if a == "buf" else a
            z = buf if a == "buf" else np.array(b.z[a])
            out = getattr(model, f)(z)
            if not isinstance(out, tuple):
                out = (out,)
            w = expected(f, *want(b, st[1], st[2], zi))
            if not (len(out) == len(w) and all(close(x, y) for x, y in zip(out, w))):
                ctx.fail(f"{where}: {f} at position {a} (={zi}) returns {[np.asarray(x).tolist() for x in out]}, a fresh model "
                         f"{[np.asarray(x).tolist() for x in w]}; history {ops[:k + 1]}", history=[list(o) for o in ops[:k + 1]])
            if not np.array_equal(z, b.z[zi]):
                ctx.fail(f"{where}: {f} changed the caller's position", history=[list(o) for o in ops[:k + 1]])
            for x in out:
                if isinstance(x, np.ndarray) and x.ndim:
                    held.append((k, f, x, x.copy()))
        ctx.step()
    for k, f, x, y in held:
        if not np.array_equal(x, y):
            ctx.fail(f"{where}: the array returned by call {k} ({f}) was changed by a later call", history=[list(o) for o in ops])
    ctx.trace()


def run(case, ctx):
    (kind, nsrc, expb, bounded), conf, npos, depth, first, models = case
    b = bench(kind, nsrc, tuple(expb), bounded)
    ops = alphabet(npos, kind == "fast", models)
    op0 = ops[first]
    where = f"{kind} {nsrc} source(s), exposures {expb}, bounded {bounded}, start {conf[:4]}"
    n = 0
    for rest in itertools.product(ops, repeat=depth - 1):
        # a history whose last call returns nothing is covered by its prefix
        if rest and rest[-1][1] in ("write", "sampling", "prior"):
            continue
        history(ctx, b, tuple(conf) + (models,), (op0,) + rest, where)
        n += 1
    ctx.extra_states += n
    ctx.outcome((case, n))


def cases(tier):
    deep = tier == "thorough"
    confs = [(s, p, r, l) for s in (True, False) for p in "NA" for r, l in ((False, False), (True, True))]
    fast = ("fast", 1, (1,), True)
    for c in confs:
        for f in range(len(alphabet(2))):
            yield fast, c, 2, 3, f, 1
    for f in range(len(alphabet(4))):
        yield fast, (True, "N", False, False), 4, 3 if deep else 2, f, 1
    # a history that needs four calls
    for f in range(len(alphabet(2))):
        yield fast, (True, "A", False, False), 2, 4 if deep else 2, f, 1
    # other scenes and transforms
    for bd in [("fast", 2, (1, 1), True), ("fast", 1, (2,), False)]:
        for f in range(len(alphabet(3))):
            yield bd, (True, "A", False, False), 3, 3 if deep else 2, f, 1
    # two models on one patch
    for f in range(len(alphabet(2, True, 2))):
        yield fast, (True, "N", False, False), 2, 3 if deep else 2, f, 2


def slow_cases(tier):
    deep = tier == "thorough"
    for bd in [("slow", 1, (1,), True), ("slow", 1, (1, 1), True), ("slow", 1, (1,), False)]:
        for p in "NA":
            for f in range(len(alphabet(2, False))):
                yield bd, (True, p, False, False), 2, 3 if deep else 2, f, 1


def run_wide(case, ctx):
    """depth 5 over the calls that move or reuse the cache"""
    bd, conf, o1, o2 = case
    b = bench(bd[0], bd[1], tuple(bd[2]), bd[3])
    ops = [(0, f, z) for f in ("lnprob", "lnprob_grad", "nll") for z in (0, "buf")] + \
          [(0, "residuals", 1), (0, "sampling", True), (0, "sampling", False), (0, "prior", "A"), (0, "prior", "N"), (0, "write", 0), (0, "write", 1)]
    n = 0
    depth = 6 if ctx.tier == "thorough" else (5 if conf[0] else 4)
    for rest in itertools.product(ops, repeat=depth - 2):
        if rest[-1][1] in ("write", "sampling", "prior"):
            continue
        history(ctx, b, tuple(conf) + (1,), (ops[o1], ops[o2]) + rest, f"{bd} start {conf}")
        n += 1
    ctx.extra_states += n
    ctx.outcome((case, n))


def run_near(case, ctx):
    """every pair of calls at z0 and at a position that differs from it in one coordinate (or is a permutation of it)"""
    bd, conf, iz = case
    b = bench(bd[0], bd[1], tuple(bd[2]), bd[3])
    n = 0
    deep = ctx.tier == "thorough"
    for f, g in itertools.product(FNS + ("residuals",), repeat=2):
        for a, c in ((0, iz), (iz, 0)):
            hs = [[(0, f, a), (0, g, c)]]
            if f != "residuals" and g != "residuals":
                hs.append([(0, "write", a), (0, f, "buf"), (0, "write", c), (0, g, "buf")])
            if deep:
                hs += [h + [(0, x, a)] for h in list(hs) for x in FNS]
            for h in hs:
                history(ctx, b, tuple(conf) + (1,), h, f"{bd} start {conf}")
                n += 1
    ctx.extra_states += n
    ctx.outcome((case, n))


def near_cases(tier):
    for bd in [("fast", 2, (1, 1), True), ("fast", 1, (1, 1), True), ("fast", 1, (2,), False), ("slow", 1, (1, 1), True), ("slow", 1, (1,), False)]:
        b = bench(bd[0], bd[1], tuple(bd[2]), bd[3])
        for iz in range(1, len(b.z)):
            yield bd, (True, "A", False, False), iz


def suites(tier):
    K.splinefile(3)
    for bd in [("fast", 1, (1,), True), ("fast", 2, (1, 1), True), ("fast", 1, (2,), False), ("fast", 1, (1, 1), True)]:
        K.config(bd[1], bd[2], ((1, 0),), 3, 0)
    fast = ("fast", 1, (1,), True)
    return [
        Suite("histories", cases(tier), run, note="all histories of depth 3 (4) over probability calls x positions, in-place writes, "
              "residuals, prior and volume switches; 1 or 2 models per patch"),
        Suite("slow", slow_cases(tier), run, note="the slow posterior, depth 2 (3)"),
        Suite("near", list(near_cases(tier)), run_near, note="every pair of calls at two positions that differ in exactly one coordinate, or are permutations of one another"),
        Suite("deep", [(fast, c, i, j) for c in ((True, "N", False, False), (False, "A", False, False)) for i in range(13) for j in range(13)], run_wide,
              note="all histories of depth 5 (6) over a 13-letter alphabet"),
    ]
