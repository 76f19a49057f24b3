"""C19: prior bounds, for every combination of catalog values (zero, negative, faint,
bright), declination, width options and histories of adjustments, against the documented
widths; the bounds test for every placement of every parameter of every source."""
import itertools
import types

import numpy as np

from ..core import Suite
from .. import env
env.load_kernel()
from .. import kern as K
from forcepho.superscene import make_bounds, flux_bounds, adjust_bounds, check_bounds, sourcecat_dtype, SuperScene, LinkedSuperScene

PROPERTY = "C19"
ASSUMPTIONS = ["positive number of sigmas and positional widths, declinations away from the poles",
               "given uncertainties are positive where the flux is zero (otherwise there is no width to ask for)",
               "adjusted fluxes are moved to the margin inside the bounds, also when closer to them than the margin"]
SH = K.SHAPES
FLUX = [-1e4, -30.0, -1.5, -1e-3, 0.0, 1e-3, 0.0625, 0.25, 1.0, 6.25, 6.26, 30.0, 1e6]
SIG = [0.5, 1.0, 2.0, 5.0, 12.0]
DECS = [-75.0, -27.8, 0.0, 45.0, 80.0]


def catalog(n, bands, fluxes, dec=-27.8):
    c = np.zeros(n, dtype=sourcecat_dtype(bands=bands))
    i = np.arange(n)
    c["ra"], c["dec"] = 53.1 + 0.01 * i, dec - 0.002 * i
    c["q"], c["pa"], c["sersic"], c["rhalf"] = 0.7, 0.3, 2.0, 0.1
    c["id"], c["source_index"] = 10 + i, i
    for j, b in enumerate(bands):
        c[b] = [fluxes[(k + 3 * j) % len(fluxes)] for k in i]
    return c


def crude(f, n):
    """documented guess: sigma is the square root of the flux; faint sources get at least the width of the flux where that is one"""
    fm = (n / 2.) ** 2
    s = n * np.sqrt(abs(f))
    lo, hi = f - s, f + s
    if f <= fm:
        lo = min(lo, -fm)
    return lo, max(hi, fm)


def close(a, b):
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-6)


def check_common(ctx, b, cat, bands, where, ranges):
    for c in list(bands) + SH:
        ctx.check((b[c][:, 0] < b[c][:, 1]).all(), f"{where}: lower bound of {c} is not below the upper: {b[c].tolist()}")
    for c in list(bands) + ["ra", "dec"]:
        bad = ~((b[c][:, 0] < cat[c]) & (cat[c] < b[c][:, 1]))
        if bad.any():
            k = int(np.argmax(bad))
            ctx.fail(f"{where}: {c} of source {k} is {cat[c][k]!r}, its bounds are {b[c][k].tolist()}")
    for c in ("q", "pa", "sersic", "rhalf"):
        ctx.check(np.array_equal(b[c], np.tile(ranges[c], (len(cat), 1))), f"{where}: range of {c} is {b[c].tolist()}, asked for {ranges[c]}")


DEFAULT = dict(q=(0.4, 1.0), pa=(-0.6 * np.pi, 0.6 * np.pi), sersic=(1., 5.), rhalf=(0.03, 0.3))


def run_make(case, ctx):
    n, nb, fl, sig, dec, pos, unc, rng = case
    bands = [f"B{i}" for i in range(nb)]
    cat = catalog(n, bands, FLUX[fl:] + FLUX[:fl], dec)
    kw, ranges = {}, dict(DEFAULT)
    if sig is not None:
        kw["n_sig_flux"] = sig
    ns = 5.0 if sig is None else sig
    w = np.full((2, n), 2 * 0.03)
    if pos == "pix":
        kw.update(n_pix=3.5, pixscale=0.1)
        w[:] = 0.35
    elif pos == "pair":
        kw["dpos"] = [0.2, 0.5]
        kw["dpos"] = np.array(kw["dpos"])
        w[0], w[1] = 0.2, 0.5
    elif pos == "list":
        kw["dpos"] = [0.3, 0.1]
        w[0], w[1] = 0.3, 0.1
    elif pos == "each":
        w = np.array([0.1 * (1 + np.arange(n)), 0.7 - 0.1 * np.arange(n)])
        kw["dpos"] = w.copy()
    if rng:
        for i, (k, a) in enumerate((("sqrtq_range", "q"), ("pa_range", "pa"), ("sersic_range", "sersic"), ("rhalf_range", "rhalf"))):
            if rng >> i & 1:
                kw[k] = (0.11 * (i + 1), 3.3 + i)
                ranges[a] = kw[k]
    u = None
    if unc is not None:
        u = np.zeros(n, dtype=cat.dtype)
        for j, b in enumerate(bands):
            u[b] = [(0.01, 3.0, 200.0)[(k + j + unc) % 3] for k in range(n)]
        kw["unccat"] = u
    keep, keepu = cat.copy(), None if u is None else u.copy()
    b = make_bounds(cat, list(bands), shapenames=list(SH), **kw)
    where = f"{case}"
    ctx.check(len(b) == n and set(b.dtype.names) >= set(bands + SH), f"{where}: columns {b.dtype.names}")
    ctx.check(cat.tobytes() == keep.tobytes() and (u is None or u.tobytes() == keepu.tobytes()), f"{where}: the catalog was changed")
    check_common(ctx, b, cat, bands, where, ranges)
    for k in range(n):
        cd = np.cos(np.deg2rad(cat["dec"][k]))
        for c, h in (("ra", w[0, k] / 3600. / cd), ("dec", w[1, k] / 3600.)):
            for e, s in ((0, -1), (1, 1)):
                got = b[c][k, e] - cat[c][k]
                ctx.check(abs(got - s * h) < 1e-6 * h + 1e-13, f"{where}: {c} of source {k} may move by {got * 3600:.6f} arcsec, asked for {s * h * 3600:.6f}")
        for j, bb in enumerate(bands):
            f = float(cat[bb][k])
            if u is None:
                lo, hi = crude(f, ns)
            else:
                s = max(float(u[bb][k]), abs(0.05 * f))
                lo, hi = f - ns * s, f + ns * s
            ctx.check(close(b[bb][k, 0], lo) and close(b[bb][k, 1], hi), f"{where}: bounds of {bb} of source {k} with flux {f} are {b[bb][k].tolist()}, they should be {[lo, hi]}")
        ctx.step()
    # every source is bounded by its own values: one at a time gives the same
    for k in range(n):
        kk = dict(kw)
        if u is not None:
            kk["unccat"] = u[k:k + 1]
        if pos == "each":
            kk["dpos"] = kw["dpos"][:, k:k + 1]
        one = make_bounds(cat[k:k + 1].copy(), list(bands), shapenames=list(SH), **kk)
        for c in bands + SH:
            ctx.check(np.allclose(one[c][0], b[c][k], rtol=1e-12, atol=0), f"{where}: bounds of {c} of source {k} depend on the other sources")
    # the bounds test agrees
    inside = all(ranges[a][0] < cat[a][k] < ranges[a][1] for a in ("q", "pa", "sersic", "rhalf") for k in range(n))
    try:
        check_bounds(cat, b)
        ok = True
    except AssertionError:
        ok = False
    ctx.check(ok == inside, f"{where}: the bounds test {'accepts' if ok else 'refuses'} the catalog")
    # the scene's own bounds
    if n > 1:
        for cls in (SuperScene, LinkedSuperScene):
            s = cls(sourcecat=cat.copy(), bands=list(bands), bounds_kwargs=dict(kw))
            for c in bands + SH:
                ctx.check(np.array_equal(s.bounds_catalog[c], b[c]), f"{where}: bounds of {c} in the scene")
            try:
                s.check_bounds()
                ok2 = True
            except AssertionError:
                ok2 = False
            ctx.check(ok2 == inside, f"{where}: the scene's bounds test")
    ctx.trace()
    ctx.outcome(case)


def make_cases(tier):
    ns = (1, 2, 4) if tier == "quick" else (1, 2, 3, 4, 7)
    for n in ns:
        for nb in (1, 2):
            for fl in range(len(FLUX)):
                for sig in [None] + SIG:
                    for unc in (None, 0, 1):
                        yield n, nb, fl, sig, DECS[(fl + n) % 5], ("def", "pix", "pair", "list", "each")[(fl + nb) % 5], unc, (fl * 3 + n) % 16
    for n in (1, 2, 3):
        for dec in DECS:
            for pos in ("def", "pix", "pair", "list", "each"):
                for rng in range(16):
                    yield n, 1, 4, None, dec, pos, None, rng


def run_flux(case, ctx):
    """flux_bounds with and without a precision matrix"""
    fl, sig, n, mode = case
    f = np.array([FLUX[(fl + 5 * k) % len(FLUX)] for k in range(n)])
    for snr in (10, 100):
        P = None
        if mode:
            P = np.zeros((n, n))
            for i in range(n):
                for j in range(n):
                    P[i, j] = (mode * (1 + i)) if i == j else 0.1 * mode
        keep = f.copy()
        lo, hi = flux_bounds(f, sig, snr_max=snr, precisions=P)
        ctx.check(np.array_equal(f, keep), f"{case}: the fluxes were changed")
        ctx.check(len(lo) == n and len(hi) == n, f"{case}: lengths")
        for k in range(n):
            if P is None:
                l, h = crude(f[k], sig)
            else:
                s = max(np.sqrt(np.linalg.inv(P)[k, k]), f[k] / snr)
                l, h = f[k] - sig * s, max(f[k] + sig * s, sig * s)
            ctx.check(lo[k] < f[k] < hi[k], f"{case}: flux {f[k]} has bounds {lo[k]}, {hi[k]}")
            ctx.check(hi[k] > 0, f"{case}: the flux {f[k]} cannot become positive: {hi[k]}")
            ctx.check(abs(lo[k] - l) <= 1e-6 * max(abs(l), 1e-6) and abs(hi[k] - h) <= 1e-6 * max(abs(h), 1e-6), f"{case}: flux {f[k]} has bounds {lo[k], hi[k]}, they should be {l, h}")
        ctx.step(n)
    ctx.outcome(case)


# ---------------------------------------------------------------- bounds test

PLACES = ["below", "lower", "in", "upper", "above", "nan"]


def place(cat, b, c, k, where):
    lo, hi = b[c][k]
    cat[c][k] = dict(below=lo - 0.5 * (hi - lo), lower=lo, upper=hi, above=hi + 0.5 * (hi - lo), nan=np.nan).get(where, 0.5 * (lo + hi))


def run_test(case, ctx):
    n, nb = case
    bands = [f"B{i}" for i in range(nb)]
    base = catalog(n, bands, [3.0, 5.0, 8.0])
    b = make_bounds(base, list(bands), shapenames=list(SH))
    slots = [(c, k) for c in bands + SH for k in range(n)]
    combos = [()] + [((s, p),) for s in slots for p in PLACES]
    combos += [((s, p), (t, r)) for s, t in itertools.combinations(slots, 2) for p in ("in", "below", "upper") for r in ("in", "above", "lower")]
    scene = SuperScene(sourcecat=base.copy(), bands=list(bands), bounds_kwargs={}) if n > 1 else None
    for combo in combos:
        cat = base.copy()
        for (c, k), p in combo:
            place(cat, b, c, k, p)
        bad = any(p != "in" for _, p in combo)
        keep = cat.copy(), b.copy()
        calls = [("check_bounds", lambda: check_bounds(cat, b))]
        if scene is not None:
            scene.sourcecat[:] = cat
            calls.append(("scene", scene.check_bounds))
        for name, f in calls:
            try:
                f()
                raised = False
            except AssertionError:
                raised = True
            ctx.check(raised == bad, f"{n} sources, {combo}: {name} {'raises' if raised else 'accepts'}")
        ctx.check(cat.tobytes() == keep[0].tobytes() and b.tobytes() == keep[1].tobytes(), "testing the bounds changed something")
        ctx.step()
    ctx.extra_states += len(combos) - 1
    ctx.outcome(case)


# ---------------------------------------------------------------- adjustments

ADJ = [dict(minflux=None, maxfluxfactor=0), dict(minflux=-2.0, maxfluxfactor=0), dict(minflux=50.0, maxfluxfactor=0), dict(minflux=None, maxfluxfactor=4.0), dict(minflux=-30.0, maxfluxfactor=1.5), dict(minflux=0.0, maxfluxfactor=100.0)]


def run_adjust(case, ctx):
    """sequences of adjustments of a bounds catalog, or of a scene's"""
    kind, fl, steps = case
    bands = ["B0", "B1", "B2"]
    n, eps = 3, 0.001
    cat = catalog(n, bands, FLUX[fl:] + FLUX[:fl])
    bcat = make_bounds(cat, bands, shapenames=list(SH), n_sig_flux=2.0)
    scene = None
    if kind != "array":
        scene = (SuperScene if kind == "scene" else LinkedSuperScene)(sourcecat=cat, bands=list(bands), bounds_kwargs=dict(n_sig_flux=2.0))
        bcat, cat = scene.bounds_catalog, scene.sourcecat
    for i, (a, move) in enumerate(steps):
        kw = ADJ[a]
        use = bands[: 2 if a % 2 else 3]          # some bands are not adjusted
        if kind == "array":
            # fluxes from elsewhere (an optimisation), some outside of the bounds
            act = cat.copy()
            for j, b in enumerate(bands):
                for k in range(n):
                    m = (move + j + k) % 6
                    lo, hi = bcat[b][k]
                    act[b][k] = [0.5 * (lo + hi), lo - 1.0, hi + 2.0, lo, hi, lo + 0.7 * (hi - lo)][m] if move else act[b][k]
        else:
            act = None
        b0, c0, a0 = bcat.copy(), cat.copy(), None if act is None else act.copy()
        cfg = types.SimpleNamespace(minflux=kw["minflux"], maxfluxfactor=kw["maxfluxfactor"])
        where = f"{case}, step {i}"
        tgt = bcat if kind == "array" else scene
        if i % 2:
            out = adjust_bounds(tgt, use, config=cfg, active=act)
        else:
            out = adjust_bounds(tgt, use, config=types.SimpleNamespace(minflux=None, maxfluxfactor=0), active=act, **{k: v for k, v in kw.items() if v is not None})
        nb = out if kind == "array" else out.bounds_catalog
        src = a0 if kind == "array" else c0
        for c in bcat.dtype.names:
            if c not in use:
                ctx.check(np.array_equal(nb[c], b0[c]), f"{where}: {c} was not to be adjusted")
                continue
            for k in range(n):
                lo, hi = b0[c][k]
                wl = lo if kw["minflux"] is None else min(lo, kw["minflux"])
                wh = max(hi, float(src[c][k]) * kw["maxfluxfactor"]) if kw["maxfluxfactor"] > 0 else hi
                ctx.check(nb[c][k, 0] <= lo and nb[c][k, 1] >= hi, f"{where}: bounds of {c} of source {k} narrowed from {[lo, hi]} to {nb[c][k].tolist()}")
                ctx.check(close(nb[c][k, 0], wl) and close(nb[c][k, 1], wh), f"{where}: bounds of {c} of source {k} are {nb[c][k].tolist()}, they should be {[wl, wh]}")
                if act is not None:
                    f0, f1 = float(a0[c][k]), float(act[c][k])
                    l, h = nb[c][k]
                    if l + eps <= f0 <= h - eps:
                        ctx.check(f0 == f1, f"{where}: {c} of source {k} moved from {f0} to {f1} inside its bounds {[l, h]}")
                    else:
                        w = l + eps if f0 < l + eps else h - eps
                        ctx.check(abs(f1 - w) < 1e-9 * max(1, abs(w)), f"{where}: {c} of source {k} at {f0} went to {f1}, its bounds are {[l, h]}")
                    ctx.check(l < f1 < h, f"{where}: {c} of source {k} is still outside")
        if act is not None:
            for c in act.dtype.names:
                if c not in use:
                    ctx.check(np.array_equal(act[c], a0[c]), f"{where}: {c} of the sources changed")
        ctx.check(cat.tobytes() == c0.tobytes(), f"{where}: the catalog changed")
        ctx.check(np.may_share_memory(nb, bcat), f"{where}: the adjusted bounds are not the scene's")
        if kind == "array":
            check_ok = all(nb[c][k, 0] < act[c][k] < nb[c][k, 1] for c in use for k in range(n))
            ctx.check(check_ok, f"{where}: not inside")
        ctx.step()
        bcat = nb
    ctx.trace()
    ctx.outcome(case)


def adjust_cases(tier):
    d = 2 if tier == "quick" else 3
    for kind in ("array", "scene", "linked"):
        moves = (0, 1, 2, 4) if kind == "array" else (0,)
        fls = range(0, len(FLUX), 3 if tier == "quick" or kind != "array" else 2)
        for fl in fls:
            for n in range(1, d + 1):
                for steps in itertools.product(itertools.product(range(len(ADJ)), moves), repeat=n):
                    if n == 3 and len({s[1] for s in steps}) > 2:
                        continue
                    yield kind, fl, list(steps)


def suites(tier):
    return [
        Suite("bounds", make_cases(tier), run_make, note="sources x bands x flux values x widths x uncertainties; declinations x positional options x all subsets of shape ranges"),
        Suite("fluxes", [(fl, s, n, m) for fl in range(len(FLUX)) for s in SIG for n in (1, 2, 3, 5) for m in (0, 1e-4, 0.5, 1e4)], run_flux, note="flux values x sigmas x number of sources x precision matrices"),
        Suite("test", [(n, nb) for n in (1, 2, 3) for nb in ((1, 2) if tier == "quick" else (1, 2, 3))], run_test, note="every parameter of every source at 6 places, and all pairs"),
        Suite("adjust", adjust_cases(tier), run_adjust, note="all sequences of up to 2 (3) of 6 adjustments x displaced fluxes"),
    ]
