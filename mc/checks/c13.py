"""C13: subtraction of big and fixed sources, for every split into blocks and every
history of building and preparing a patch, against the float64 image model."""
import itertools
import os

import numpy as np

from ..core import Suite
from .. import env
env.load_kernel()
from .. import kern as K
from forcepho.kernel_limits import MAXSOURCES as M

PROPERTY = "C13"
ASSUMPTIONS = ["CPU patches; single precision pixel data, differences compared to 2e-5 of the model's peak per subtracted block"]


def quiet(f, *a, **k):
    """the code under test prints warnings"""
    import contextlib
    with open(os.devnull, "w") as o, contextlib.redirect_stdout(o):
        return f(*a, **k)


def pixels_of(p):
    return {n: np.array(d) for n, d in zip(p.epaths, p.split_pix("data"))}


def frozen(p):
    return {k: np.array(getattr(p, k)) for k in ("ierr", "xpix", "ypix", "exposure_start", "exposure_N", "band_start", "band_N")}


def same_frozen(a, b):
    return all(np.array_equal(a[k], b[k]) for k in a)


def model_total(cats, exps, mix, nrad=3):
    out, mag = {e.name: np.zeros(len(e.xpix)) for e in exps}, {e.name: np.zeros(len(e.xpix)) for e in exps}
    for c in cats:
        if c is None or len(c) == 0:
            continue
        for e in exps:
            m, a = K.model_image(c, e, mix[e.band], nrad)
            out[e.name] += m
            mag[e.name] += a
    return out, mag


def groups(nact, nfix, nbig, bands, nfmt):
    n = nact + nfix + nbig
    cat = K.catalog(n, bands, spread=0.12)
    cat["pa"] = 0.35 + 0.4 * (np.arange(n) % 5)
    active, fixed, big = cat[:nact].copy(), cat[nact:nact + nfix].copy(), cat[nact + nfix:].copy()
    f = fixed if nfix else (None if nfmt else fixed)
    b = big if nbig else (None if nfmt else big)
    return active, f, b


def check_model(ctx, model, q, p, active, exps, bands, mix, sub, mag, where, nblocks, bounds=None):
    """the prepared model is that of the active sources on the subtracted data"""
    data = pixels_of(p)
    tol = 2e-5 * (1 + nblocks)
    left = []
    for e in exps:
        w = e.data - sub[e.name]
        peak = mag[e.name].max() if len(w) else 0.0
        lim = tol * (peak + np.abs(e.data).max() + 1e-30)
        bad = ~(np.abs(data[e.name] - w) <= lim)
        if bad.any():
            k = int(np.argmax(bad))
            ctx.fail(f"{where}: pixel {k} of {e.name} holds {data[e.name][k]:.7g} after preparing, data minus fixed and big sources is {w[k]:.7g} "
                     f"(data {e.data[k]:.7g})")
        left.append(K.Exp(e.name, e.hdr, e.xpix, e.ypix, w, e.ierr))
    # the model on these data
    z = model.transform.inverse_transform(q)
    lnp = float(model.lnprob(z))
    if model.sampling:
        lnp -= float(model.transform.lndetjac(z))
    im, mg, c2, sc = K.reference(active, left, mix)
    want = -0.5 * sum(c2.values())
    # the subtracted data carry the rounding of each pass
    lim = 1e-4 * sum(sc.values()) + sum(2 * np.sum(np.abs(mg[e.name]) * e.ierr ** 2) * tol * (mag[e.name].max() + np.abs(e.data).max()) for e in left) + 1e-9
    ctx.check(abs(lnp - want) <= lim, f"{where}: ln-likelihood of the prepared model is {lnp:.8g}, that of the active sources on the subtracted data {want:.8g}")
    ctx.check(p.n_sources == len(active), f"{where}: the patch holds {p.n_sources} sources for {len(active)} active ones")
    return lnp


def run_blocks(case, ctx):
    nact, nfix, nbig, maxactive, expb, nfmt = case
    exps, bands, mix, _, pf = K.config(1, tuple(expb), ((1, 0), (2, 0)), 3, 1)
    active, fixed, big = groups(nact, nfix, nbig, bands, nfmt)
    keep = [None if c is None else c.copy() for c in (active, fixed, big)]
    p = K.make_patch(exps, bands, pf)
    fz = frozen(p)
    model, q = quiet(p.prepare_model, active=active, fixed=fixed, big=big, maxactive=maxactive)
    where = f"{nact} active, {nfix} fixed, {nbig} big, blocks of {maxactive}, exposures {expb}"
    sub, mag = model_total([fixed, big], exps, mix)
    nblocks = -(-nfix // maxactive) + -(-nbig // maxactive)
    check_model(ctx, model, q, p, active, exps, bands, mix, sub, mag, where, nblocks)
    ctx.check(same_frozen(fz, frozen(p)), f"{where}: weights, positions or indices of the pixels changed")
    for a, b in zip((active, fixed, big), keep):
        ctx.check((a is None and b is None) or np.array_equal(a, b), f"{where}: a caller's catalog changed")
    ref = p.patch_reference_coordinates
    npar = len(bands) + 6
    got = np.array(q).reshape(nact, npar)
    ctx.check(np.allclose(got[:, len(bands)] + ref[0], active["ra"], atol=1e-9, rtol=0) and np.allclose(got[:, len(bands) + 1] + ref[1], active["dec"], atol=1e-9, rtol=0),
              f"{where}: initial positions are not those of the active sources")
    # same as data from which they had been subtracted beforehand
    pre = [K.Exp(e.name, e.hdr, e.xpix, e.ypix, e.data - sub[e.name], e.ierr) for e in exps]
    p2 = K.make_patch(pre, bands, pf)
    m2, q2 = quiet(p2.prepare_model, active=active)
    ctx.check(np.allclose(q, q2, rtol=0, atol=1e-9), f"{where}: the initial position depends on the fixed sources")
    for s in (0.0, 1e-7):
        g1, g2 = np.array(model.lnprob_grad(q + s)), np.array(m2.lnprob_grad(q2 + s))
        sc = np.abs(g2).reshape(nact, npar).max(axis=0)
        ctx.check(np.allclose(g1.reshape(nact, npar), g2.reshape(nact, npar), rtol=0, atol=3e-3 * (sc.max() + 1)) if nblocks else np.array_equal(g1, g2),
                  f"{where}: gradients differ from those for data with the fixed sources subtracted beforehand")
        l1, l2 = float(model.lnprob(q + s)), float(m2.lnprob(q2 + s))
        ctx.check(abs(l1 - l2) <= 2e-4 * (abs(l2) + 1), f"{where}: ln-probability {l1:.8g}, with the sources subtracted beforehand {l2:.8g}")
    ctx.step(nblocks + 2)
    ctx.outcome((case, round(l1, 2)))


def block_cases(tier):
    big = tier == "thorough"
    for nact in (1, 2):
        for nfix in range(0, 6):
            for nbig in range(0, 4):
                for mx in (1, 2, 3, 5, 15):
                    for expb in [(1,), (1, 1)] if not big else [(1,), (2,), (1, 1), (2, 1), (1, 1, 1)]:
                        yield nact, nfix, nbig, mx, expb, (nfix + nbig) % 2
    # at and around the compiled number of sources
    for nfix in sorted({14, 15, 16, 17, M - 1, M, M + 1, M + 2, 2 * M, 2 * M + 1}):
        for mx in sorted({14, 15, M - 1, M}):
            yield 2, nfix, 0, mx, (1,), 1
            yield 2, 1, nfix, mx, (1,), 1


# ---- histories ------------------------------------------------------------

def run_history(case, ctx):
    """all sequences of build and prepare calls: refused or right"""
    prefix, depth, expb = case
    exps, bands, mix, _, pf = K.config(1, tuple(expb), ((1, 0), (2, 0)), 3, 1)
    cat = K.catalog(6, bands, spread=0.12)
    A, B = cat[:2], cat[2:3]
    F1, F2, G = cat[3:5], cat[5:6], cat[2:4]
    ops = {"build": None, "buildsub": None,
           "plain": dict(active=A), "fix1": dict(active=A, fixed=F1), "fix2": dict(active=B, fixed=F2, maxactive=1),
           "big": dict(active=A, big=G), "empty": dict(active=B, fixed=F1[:0]), "both": dict(active=A, fixed=F1, big=G, maxactive=1)}
    names = list(ops)
    tot = {k: model_total([v.get("fixed"), v.get("big")], exps, mix) for k, v in ops.items() if v}
    for rest in itertools.product(names, repeat=depth - len(prefix)):
        seq = list(prefix) + list(rest)
        p = K.make_patch(exps, bands, pf)
        fz = frozen(p)
        dirty, cur = False, (bands, exps)
        for i, o in enumerate(seq):
            where = f"history {seq[:i + 1]}"
            if o == "build":
                p.build_patch(region=None, allbands=list(bands))
                dirty, cur = False, (bands, exps)
            elif o == "buildsub":
                b = bands[-1:]
                p.build_patch(region=None, allbands=list(b))
                dirty, cur = False, (b, [e for e in exps if e.band in b])
            else:
                v = ops[o]
                n = sum(len(v.get(k, ())) for k in ("fixed", "big"))
                try:
                    model, q = quiet(p.prepare_model, **v)
                    ok = True
                except Exception as err:
                    ok = False
                    ctx.check(dirty, f"{where}: refused ({err!r}) although the pixel data are as built")
                if ok:
                    ctx.check(not dirty, f"{where}: fixed sources were subtracted from data from which some had already been subtracted")
                    bb, ee = cur
                    sub, mag = tot[o]
                    check_model(ctx, model, q, p, v["active"], ee, bb, mix, sub, mag, where, n)
                    dirty = n > 0
            ctx.step()
        if cur[0] == bands:
            ctx.check(same_frozen(fz, frozen(p)), f"{seq}: weights or positions changed")
        ctx.trace()
        ctx.state(tuple(seq))
    ctx.outcome(case)


def run_local(case, ctx):
    """subtract_fixed by itself, with the fixed sources left on the patch"""
    nfix, mx, expb = case
    exps, bands, mix, _, pf = K.config(1, tuple(expb), ((1, 0), (2, 0)), 3, 2)
    cat = K.catalog(nfix, bands, spread=0.1)
    p = K.make_patch(exps, bands, pf)
    act = K.catalog(1, bands, k=1)
    prop, scene = quiet(p.subtract_fixed, cat, active=act, maxactive=mx)
    sub, mag = model_total([cat], exps, mix)
    d = pixels_of(p)
    for e in exps:
        w = e.data - sub[e.name]
        ctx.check(np.all(np.abs(d[e.name] - w) <= 2e-5 * (2 + nfix) * (mag[e.name].max() + np.abs(e.data).max())), f"{case}: {e.name} is not data minus the fixed sources")
    # residuals of the next proposal start from there
    p.return_residual = True
    chi, der, res = prop.evaluate_proposal(scene.get_proposal(), patch=p)
    im, _ = model_total([act], exps, mix)
    for e, r in zip([{x.name: x for x in exps}[n] for n in p.epaths], res):
        w = e.data - sub[e.name] - im[e.name]
        ctx.check(np.all(np.abs(r - w) <= 3e-5 * (2 + nfix) * (mag[e.name].max() + np.abs(e.data).max() + np.abs(im[e.name]).max())), f"{case}: residual of {e.name}")
        ctx.step()
    d2 = pixels_of(p)
    ctx.check(all(np.array_equal(d[n], d2[n]) for n in d), f"{case}: evaluating changed the pixel data")
    ctx.outcome(case)


ALT = {0: (1.0, 1.0), 1: (1.6, 0.9), 2: (0.5, 1.2)}     # radii and amplitudes relative to the standard profiles


def altspline(k):
    if k == 0:
        return K.splinefile(3)
    import h5py
    fn = os.path.join(K.scratch(), f"alt{k}.h5")
    if not os.path.exists(fn):
        tmp = fn + f".{os.getpid()}"
        with h5py.File(K.splinefile(3), "r") as i, h5py.File(tmp, "w") as o:
            for n, f in (("nsersic", 1.0), ("rh", 1.0), ("radii", ALT[k][0]), ("amplitudes", ALT[k][1])):
                o[n] = i[n][:] * f
        os.replace(tmp, fn)
    return fn


def alt_total(cat, exps, mix, k):
    keep = list(K.RADII)
    K.RADII[:] = [r * ALT[k][0] for r in keep]
    try:
        im, mag = model_total([cat], exps, mix)
    finally:
        K.RADII[:] = keep
    return {n: v * ALT[k][1] for n, v in im.items()}, {n: v * ALT[k][1] for n, v in mag.items()}


def run_bigprofile(case, ctx):
    """big sources may have profiles of their own"""
    nact, nfix, nbig, k, maxactive, expb = case
    exps, bands, mix, _, pf = K.config(1, tuple(expb), ((1, 0), (2, 0)), 3, 1)
    active, fixed, big = groups(nact, nfix, nbig, bands, 0)
    p = K.make_patch(exps, bands, pf)
    model, q = quiet(p.prepare_model, active=active, fixed=fixed, big=big, maxactive=maxactive,
                     big_scene_kwargs=dict(splinedata=altspline(k)))
    sub, mag = model_total([fixed], exps, mix)
    sb, mb = alt_total(big, exps, mix, k)
    sub, mag = {n: sub[n] + sb[n] for n in sub}, {n: mag[n] + mb[n] for n in sub}
    nblocks = -(-nfix // maxactive) + -(-nbig // maxactive)
    lnp = check_model(ctx, model, q, p, active, exps, bands, mix, sub, mag, f"{nact} active, {nfix} fixed, {nbig} big with profiles {ALT[k]}, blocks of {maxactive}", nblocks)
    ctx.step(nblocks + 1)
    ctx.outcome((case, round(lnp, 2)))


def hist_cases(tier):
    names = ["build", "buildsub", "plain", "fix1", "fix2", "big", "empty", "both"]
    depth = 4 if tier == "quick" else 5
    for a in names:
        for b in names:
            yield [a, b], depth, (1, 1)
    if tier != "quick":
        for a in names:
            for b in names:
                yield [a, b], 4, (2, 1)


def suites(tier):
    K.splinefile(3)
    for k in ALT:
        altspline(k)
    for e in [(1,), (2,), (1, 1), (2, 1), (1, 1, 1)]:
        K.config(1, e, ((1, 0), (2, 0)), 3, 1)
    return [
        Suite("blocks", block_cases(tier), run_blocks, note="active x fixed x big counts x block sizes x exposures, including the compiled limit"),
        Suite("histories", hist_cases(tier), run_history, note="all sequences of 8 build and prepare calls to depth 4 (5)"),
        Suite("bigprofile", [(a, f, b, r, m, e) for a in (1, 2) for f in (0, 1, 2) for b in (1, 2, 3) for r in ALT for m in (1, 2, 15) for e in [(1,), (1, 1)]],
              run_bigprofile, note="big sources with mixture radii and amplitudes of their own"),
        Suite("residuals", [(n, m, e) for n in range(1, 6) for m in (1, 2, 15) for e in [(1,), (1, 1), (2, 1)]], run_local),
    ]
