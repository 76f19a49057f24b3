"""C10: transforms and priors form a consistent density.

Bounds, positions and dimensions are drawn completely from finite alphabets;
the oracle is 60-digit arithmetic for the transform and its derivatives, and
the posterior is compared with likelihood, prior and Jacobian taken separately."""
import itertools
import math

import numpy as np
from decimal import Decimal, getcontext

from mc import env

env.prepare()
env.load_kernel()

from mc import kern as K
from mc.core import Suite
from forcepho.model import FastPosterior, SlowPosterior, BoundedTransform, Transform
from forcepho.priors import LogPrior, ExpBeta

PROPERTY = "C10"
getcontext().prec = 60

# lower, upper pairs: magnitudes, signs, zeros, narrow and wide
BOUNDS = [(0.0, 1.0), (-1.0, 0.0), (-2.5, 3.5), (1e-3, 12.0), (-1e6, 1e6), (5.0, 5.0 + 1e-6), (-1e-4, 1e-4), (0.2, 5.0), (-1e-30, 0.0), (-7.0, -6.5)]
ZS = [0.0, 1e-8, -1e-8, 0.3, -0.3, 1.0, -1.0, 3.0, -3.0, 10.0, -10.0, 29.0, -29.0, 40.0, -40.0, 200.0, -200.0, 709.0, -709.0, 750.0, -750.0, 1e4, -1e4]


def ref(z, lo, hi):
    """exact y, jacobian, log-det and its gradient for one entry"""
    z, lo, hi = Decimal(z), Decimal(lo), Decimal(hi)
    a = abs(z)
    e = (-a).exp() if a < 20000 else Decimal(0)
    small = e / (1 + e)          # sigmoid(-|z|)
    y = small if z < 0 else 1 - small
    r = hi - lo
    jac = r * e / (1 + e) ** 2
    ld = r.ln() - a - 2 * (1 + e).ln()
    g = (1 - 2 * small) * (1 if z < 0 else -1) if z != 0 else Decimal(0)
    return lo + y * r, jac, ld, g


def run_scalar(case, ctx):
    """each pair of bounds at each position, alone and embedded in a longer vector"""
    ib, ndim = case
    lo, hi = BOUNDS[ib]
    others = [BOUNDS[(ib + 1 + k) % len(BOUNDS)] for k in range(ndim - 1)]
    LO = np.array([lo] + [o[0] for o in others])
    HI = np.array([hi] + [o[1] for o in others])
    t = BoundedTransform(LO.copy(), HI.copy())
    prev = None
    for z in sorted(ZS):
        Z = np.array([z] + [0.1 * k - 0.2 for k in range(ndim - 1)])
        keep = Z.copy()
        R = [ref(a, b, c) for a, b, c in zip(Z, LO, HI)]
        q = np.asarray(t.transform(Z))
        jac = np.asarray(t.jacobian(Z))
        ld = t.lndetjac(Z)
        g = np.asarray(t.lndetjac_grad(Z))
        where = f"bounds {(lo, hi)} at z={z}, {ndim} parameters"
        ctx.check(np.all(np.isfinite(q)) and np.all(np.isfinite(jac)) and np.isfinite(ld) and np.all(np.isfinite(g)),
                  f"{where}: not finite: q {q}, jacobian {jac}, lndetjac {ld}, gradient {g}")
        ctx.check(np.ndim(ld) == 0 and q.shape == jac.shape == g.shape == Z.shape, f"{where}: shapes")
        eps = 4 * np.spacing(np.maximum(np.abs(LO), np.abs(HI)))
        ctx.check(np.all(q >= LO - eps) and np.all(q <= HI + eps), f"{where}: parameters {q} outside of the bounds")
        ctx.check(np.all(np.abs(q - [float(r[0]) for r in R]) <= 1e-12 * (HI - LO) + eps), f"{where}: transform gives {q}, expected {[float(r[0]) for r in R]}")
        wj = np.array([float(r[1]) for r in R])
        ctx.check(np.all(np.abs(jac - wj) <= 1e-10 * wj + 1e-300), f"{where}: jacobian {jac}, derivative of the transform is {wj}")
        wl = float(sum(r[2] for r in R))
        ctx.check(abs(ld - wl) <= 1e-12 * sum(abs(float(r[2])) for r in R) + 1e-10, f"{where}: lndetjac {ld}, expected {wl}")
        wg = np.array([float(r[3]) for r in R])
        ctx.check(np.all(np.abs(g - wg) <= 1e-12), f"{where}: gradient of lndetjac {g}, expected {wg}")
        ctx.check(prev is None or q[0] >= prev - eps[0], f"{where}: decreases with z")
        if prev is not None and abs(z) <= 10 and (HI[0] - LO[0]) > 1e-7:
            ctx.check(q[0] > prev or z - zprev < 1e-6, f"{where}: does not increase with z")
        prev, zprev = q[0], z
        # the sum over parameters of ln jacobian, where it is representable
        if np.all(wj > 1e-290):
            ctx.check(abs(ld - np.sum(np.log(jac))) <= 1e-9 * max(1, abs(ld)), f"{where}: lndetjac {ld} is not the sum of ln jacobian {np.sum(np.log(jac))}")
        if abs(z) <= 29 and np.all(q > LO) and np.all(q < HI):
            zb = np.asarray(t.inverse_transform(q))
            # conditioning: dz = dq / jac
            tol = 1e-9 + 8 * eps / np.maximum(wj, 1e-300)
            ctx.check(np.all(np.abs(zb - Z) <= tol), f"{where}: inverse transform gives {zb}")
        ctx.check(np.array_equal(Z, keep), f"{where}: the position was changed")
        ctx.state((ib, ndim, z))
        ctx.step(5)
    ctx.check(np.array_equal(t.lower, LO) and np.array_equal(t.upper, HI), "the bounds were changed")
    ctx.outcome(case)


def run_product(case, ctx):
    """all position vectors over a small alphabet: entries do not influence each other"""
    bs, n = case
    LO, HI = np.array([BOUNDS[i][0] for i in bs]), np.array([BOUNDS[i][1] for i in bs])
    for form in ("array", "list"):
        t = BoundedTransform(LO if form == "array" else list(LO), HI if form == "array" else list(HI))
        for Z in itertools.product([-40.0, -1.3, 0.0, 0.4, 800.0], repeat=n):
            Z = np.array(Z)
            R = [ref(a, b, c) for a, b, c in zip(Z, LO, HI)]
            eps = 4 * np.spacing(np.maximum(np.abs(LO), np.abs(HI)))
            q, jac, ld, g = t.transform(Z), t.jacobian(Z), t.lndetjac(Z), t.lndetjac_grad(Z)
            ctx.check(np.all(np.abs(q - [float(r[0]) for r in R]) <= 1e-12 * (HI - LO) + eps), f"{case} z={Z}: transform {q}")
            wj = np.array([float(r[1]) for r in R])
            ctx.check(np.all(np.abs(jac - wj) <= 1e-10 * wj + 1e-300), f"{case} z={Z}: jacobian {jac}, expected {wj}")
            wl = float(sum(r[2] for r in R))
            ctx.check(np.isfinite(ld) and abs(ld - wl) <= 1e-10 * max(1, abs(wl)), f"{case} z={Z}: lndetjac {ld}, expected {wl}")
            ctx.check(np.all(np.abs(g - [float(r[3]) for r in R]) <= 1e-12), f"{case} z={Z}: gradient {g}")
            ctx.step(4)
            ctx.state((bs, tuple(Z)))
    ctx.outcome(case)


def run_many(case, ctx):
    n, zval, width = case
    lo, hi = np.zeros(n), np.full(n, width)
    t = BoundedTransform(lo, hi)
    z = np.full(n, zval)
    w = n * float(ref(zval, 0.0, width)[2])
    ld = t.lndetjac(z)
    ctx.check(np.isfinite(ld) and abs(ld - w) <= 1e-9 * max(1, abs(w)), f"{n} parameters of range {width} at {zval}: lndetjac {ld}, expected {w}")
    tt = Transform(n)
    zz = z + np.arange(n)
    ctx.check(np.array_equal(tt.transform(zz), zz) and np.array_equal(tt.inverse_transform(zz), zz) and np.array_equal(tt.jacobian(zz), np.ones(n))
              and tt.lndetjac(zz) == 0 and np.array_equal(np.zeros(n) + tt.lndetjac_grad(zz), np.zeros(n)), f"identity transform of {n} parameters")
    out = tt.transform(zz)
    out[0] += 1
    ctx.check(zz[0] == zval, "the identity transform hands out the caller's array")
    ctx.step(6)
    ctx.outcome(case)


# ---- priors ---------------------------------------------------------------

def run_prior(case, ctx):
    kind, bs, alpha = case
    LO, HI = np.array([BOUNDS[i][0] for i in bs]), np.array([BOUNDS[i][1] for i in bs])
    scalar = len(bs) == 1
    lo, hi = (float(LO[0]), float(HI[0])) if scalar else (LO, HI)
    P = LogPrior(lo, hi) if kind == "flat" else ExpBeta(lo, hi, alpha=alpha)
    U = [0.02, 0.11, 0.27, 0.5, 0.61, 0.9, 0.985]
    for x in itertools.product(U, repeat=len(bs)):
        x = np.array(x)
        q = LO + x * (HI - LO)
        qq = float(q[0]) if scalar else q.copy()
        lnp, g = P(qq)
        ctx.check(np.ndim(lnp) == 0 and np.all(np.isfinite(lnp)) and np.all(np.isfinite(g)), f"{case} at {q}: {lnp}, {g}")
        # derivative along each direction, in units of the range
        for j in range(len(bs)):
            h = 1e-4 * (HI[j] - LO[j])
            f = []
            for s in (-2, -1, 1, 2):
                a = q.copy()
                a[j] += s * h
                f.append((a[j], P(float(a[0]) if scalar else a)[0]))
            # use the steps as they were rounded
            d1 = (f[2][1] - f[1][1]) / (f[2][0] - f[1][0])
            d2 = (f[3][1] - f[0][1]) / (f[3][0] - f[0][0])
            d = (4 * d1 - d2) / 3
            got = np.broadcast_to(g, (len(bs),))[j]
            sc = (1 + abs(lnp)) / (HI[j] - LO[j])
            ctx.check(abs(got - d) <= 1e-4 * abs(d) + 1e-5 * sc, f"{case} at {q}: gradient {g} in direction {j}, derivative of the log-probability is {d}")
            ctx.step()
        if kind == "flat":
            ctx.check(lnp == 0 and np.all(np.asarray(g) == 0), f"flat prior returns {lnp}, {g}")
        else:
            # lower towards the edges, symmetric, independent of the range
            w = float(np.sum(-(x * (1 - x)) ** alpha))
            if alpha < 0:
                mid = P(float(LO[0] + 0.5 * (HI[0] - LO[0])) if scalar else LO + 0.5 * (HI - LO))[0]
                ctx.check(lnp <= mid + 1e-9 * abs(mid), f"{case}: prior at {x} ({lnp}) exceeds that at the middle ({mid})")
            if np.all((HI - LO) > 1e-5 * np.maximum(np.abs(LO), np.abs(HI))):
                ctx.check(abs(lnp - w) <= 1e-8 * abs(w), f"{case}: log-probability {lnp} at scaled position {x}, expected {w}")
        ctx.state((case, tuple(x)))
    ctx.outcome(case)


# ---- posterior ------------------------------------------------------------

_P = {}


def prepared(nsrc, expb):
    if (nsrc, expb) not in _P:
        exps, bands, mix, cat, pf = K.config(nsrc, expb, ((1, 0),), 3, 0)
        p = K.make_patch(exps, bands, pf)
        prop = p.get_proposer()
        scene = p.set_scene(cat)
        p.pack_meta(scene)
        p.return_residual = False
        p.send_to_device()
        _P[nsrc, expb] = p, prop, scene, np.array(scene.get_all_source_params(), dtype=float), bands
    return _P[nsrc, expb]


def run_posterior(case, ctx):
    nsrc, expb, bounded, sampling, prior, iz = case
    p, prop, scene, q0, bands = prepared(nsrc, tuple(expb))
    n = len(q0)
    w = np.abs(q0) * 0.3 + 0.02
    npar = len(bands) + len(K.SHAPES)
    for i in range(nsrc):
        w[i * npar + len(bands):i * npar + len(bands) + 2] = 2e-5
    T = BoundedTransform(q0 - w, q0 + w) if bounded else Transform(n)
    P = None if prior is None else ExpBeta(q0 - 1.5 * w, q0 + 1.6 * w, alpha=prior)
    a = 0.21 * (1 + iz) * np.sin(1.0 + iz + np.arange(n))
    z = a if bounded else q0 + a * w
    m = FastPosterior(prop, p, scene=scene, transform=T, lnprior=P, sampling=sampling)
    lnp, g = m.lnprob(z), np.array(m.lnprob_grad(z))
    q = T.transform(z)
    scene.set_all_source_params(q)
    chi, der = prop.evaluate_proposal(scene.get_proposal(), patch=p)[:2]
    like = -0.5 * float(np.sum(chi, dtype=float))
    gl = np.zeros(n)
    for s in range(nsrc):
        for b in range(len(bands)):
            gl[s * npar + b] += -0.5 * der[b, s, 0]
            gl[s * npar + len(bands):(s + 1) * npar] += -0.5 * der[b, s, 1:]
    lpr, gpr = (0.0, np.zeros(n)) if P is None else P(q)
    R = [ref(x, l, u) for x, l, u in zip(z, T.lower, T.upper)] if bounded else [(None, 1.0, 0.0, 0.0)] * n
    jac = np.array([float(r[1]) for r in R])
    wl = like + lpr + (float(sum(r[2] for r in R)) if sampling else 0.0)
    wg = (gl + gpr) * jac + (np.array([float(r[3]) for r in R]) if sampling else 0.0)
    ctx.check(abs(lnp - wl) <= 1e-9 * (abs(like) + abs(lpr) + abs(wl) + 1), f"{case}: ln-probability {lnp}; likelihood {like}, prior {lpr}, total expected {wl}")
    sc = (np.abs(gl) + np.abs(gpr)) * jac + 1
    bad = ~(np.abs(g - wg) <= 1e-9 * sc)
    ctx.check(not bad.any(), f"{case}: gradient entry {int(np.argmax(bad))} is {g[bad][:1]}, expected {wg[bad][:1]}")
    nl, ng = m.nll(z)
    ctx.check(nl == -lnp and np.array_equal(ng, -g), f"{case}: nll is not the negative")
    ctx.step(3)
    ctx.trace()
    ctx.outcome((case, round(float(lnp), 4)))


def run_slow(case, ctx):
    """the slow posterior is composed the same way; its volume correction is always on"""
    from forcepho.slow.likelihood import lnlike_multi, WorkPlan
    from mc.checks import c09
    expb, bounded, prior, iz = case
    b = c09.bench("slow", 1, tuple(expb), bounded)
    n, T = len(b.q0), b.transform
    m = b.fresh(True, prior)
    z = b.z[iz]
    lnp, g = m.lnprob(z), np.array(m.lnprob_grad(z))
    q = T.transform(z)
    like, gl = lnlike_multi(np.array(q), scene=b.scene, plans=[WorkPlan(s) for s in b.stamps()])
    P = b.prior[prior]
    lpr, gpr = (0.0, np.zeros(n)) if P is None else P(q)
    R = [ref(x, l, u) for x, l, u in zip(z, T.lower, T.upper)] if bounded else [(None, 1.0, 0.0, 0.0)] * n
    jac = np.array([float(r[1]) for r in R])
    wl = like + lpr + float(sum(r[2] for r in R))
    wg = (gl + gpr) * jac + np.array([float(r[3]) for r in R])
    ctx.check(abs(lnp - wl) <= 1e-9 * (abs(like) + abs(lpr) + abs(wl) + 1), f"slow {case}: ln-probability {lnp}; likelihood {like}, prior {lpr}, total expected {wl}")
    sc = (np.abs(gl) + np.abs(gpr)) * jac + 1
    bad = ~(np.abs(g - wg) <= 1e-9 * sc)
    ctx.check(not bad.any(), f"slow {case}: gradient entry {int(np.argmax(bad))} is {g[bad][:1]}, expected {wg[bad][:1]}")
    # given its stamps or ready plans
    m2 = SlowPosterior(scene=b.scene, plans=[WorkPlan(s) for s in b.stamps()], transform=T, lnprior=P)
    l2 = m2.lnprob(z)
    ctx.check(abs(l2 - wl) <= 1e-9 * (abs(like) + abs(lpr) + abs(wl) + 1), f"slow {case}: ln-probability with given plans is {l2}, expected {wl}")
    # its residuals are those whose chi-square is the likelihood
    res = m.residuals(np.array(q))
    c2 = sum(float(np.sum((np.asarray(r).reshape(-1) * s.ierr.reshape(-1)) ** 2)) for r, s in zip(res, b.stamps()))
    ctx.check(len(res) == len(expb) and abs(-0.5 * c2 - like) <= 1e-9 * (abs(like) + 1), f"slow {case}: residuals with chi-square {c2}, likelihood {like}")
    ctx.step(2)
    ctx.trace()
    ctx.outcome((case, round(float(lnp), 4)))


def run_construct(case, ctx):
    """either bounds or a transform, never both or neither"""
    lo, up, tr = case
    p, prop, scene, q0, bands = prepared(1, (1,))
    kw = {}
    lower, upper = q0 - 1.0, q0 + 1.0
    if lo == "zero":
        lower, upper = np.zeros_like(q0), q0 + 100.0
    if lo:
        kw["lower"] = lower
    if up:
        kw["upper"] = upper
    if tr:
        kw["transform"] = Transform(len(q0))
    ok = bool(tr) != bool(lo and up)
    try:
        m = FastPosterior(prop, p, scene=scene, **kw)
        made = True
    except ValueError:
        made = False
    # one stray bound next to a transform is only an unknown argument
    ctx.check(made == ok or (tr and (bool(lo) != bool(up))), f"lower={lo} upper={up} transform={tr}: constructed {made}")
    if made and not tr:
        ctx.check(np.array_equal(m.transform.lower, lower) and np.array_equal(m.transform.upper, upper), "bounds were not passed on")
    ctx.step()
    ctx.outcome(case)


def suites(tier):
    big = tier == "thorough"
    K.splinefile(3)
    for e in [(1,), (1, 1)]:
        K.config(1, e, ((1, 0),), 3, 0)
    nb = len(BOUNDS)
    return [
        Suite("positions", [(i, n) for i in range(nb) for n in (1, 2, 5)], run_scalar, note="10 bounds x 23 positions x 1,2,5 parameters"),
        Suite("vectors", [(bs, 2) for bs in itertools.product(range(nb), repeat=2)] + [(bs, 3) for bs in itertools.product(range(0, nb, 1 if big else 3), repeat=3)]
              + ([(bs, 4) for bs in itertools.product(range(0, nb, 2), repeat=4)] if big else []),
              run_product, note="all bounds pairs (triples) x all position vectors over 5 values"),
        Suite("many", [(n, z, w) for n in (1, 15, 100, 1000, 5000) for z in (0.0, 5.0, -30.0, 800.0) for w in (1.0, 1e-8, 1e6)], run_many),
        Suite("priors", [(k, bs, a) for k, al in (("flat", [0]), ("beta", [-0.9, -0.5, -0.1, 0.5, 1.0])) for a in al for n in (1, 2, 3)
                         for bs in itertools.product([0, 1, 2, 3, 4, 6, 7, 9] if n == 1 or (big and n == 2) else [1, 2, 3, 7], repeat=n)], run_prior,
              note="priors x exponents x bounds x scaled positions"),
        Suite("posterior", [(s, e, b, sa, pr, z) for s in (1, 2, 3) for e in [(1,), (1, 1)] for b in (True, False) for sa in (True, False)
                            for pr in (None, -0.9, -0.5, 0.5) for z in range(3 if not big else 8)], run_posterior, note="posterior = likelihood + prior (+ log-det)"),
        Suite("slow", [(e, bd, pr, z) for e in [(1,), (1, 1)] for bd in (True, False) for pr in "NA" for z in range(4)], run_slow,
              note="the slow posterior: likelihood + prior + volume correction"),
        Suite("construct", [(lo, up, tr) for lo in (0, 1, "zero") for up in (0, 1) for tr in (0, 1)], run_construct),
    ]
