"""C27: source objects and work plans of the reference implementation render what their
parameters describe; every small combination of source type, stamp, point-spread units,
treatment of each source, and history of calls is compared with a float64 image model."""
import itertools
import os

import numpy as np

from ..core import Suite
from .. import env
env.load_kernel()
from .. import kern as K

PROPERTY = "C27"
ASSUMPTIONS = ["float64 reference image model written independently of the package; derivatives by differences of it",
               "sources with nonzero flux and amplitudes (the reference implementation divides by them); sheared sources that are not round",
               "one point-spread mixture per stamp"]

SHAPE = {"star": ["ra", "dec"], "simple": ["ra", "dec", "q", "pa"], "multi": ["ra", "dec", "q", "pa"],
         "galaxy": ["ra", "dec", "q", "pa", "sersic", "rhalf"], "fixedprofile": ["ra", "dec", "q", "pa"],
         "shear": ["ra", "dec", "ep", "ec", "sersic", "rhalf"]}
KINDS = list(SHAPE)
MULTI = np.array([0.05, 0.13])


def params(kind, i=0, k=0):
    """generic parameters of source i (dictionary), position in degrees"""
    c = np.cos(np.deg2rad(K.DEC0))
    d = dict(ra=K.RA0 + 0.04 * np.cos(2.1 * i + 0.4 + k) / 3600 / c, dec=K.DEC0 + 0.05 * np.sin(1.7 * i + 0.3 - k) / 3600)
    q, pa = 0.6 + 0.1 * ((i + k) % 4), 0.4 + 0.9 * i - 0.7 * k
    if kind == "shear":
        eta = -2 * np.log(q)
        d.update(ep=eta * np.cos(2 * pa), ec=eta * np.sin(2 * pa))
    elif kind != "star":
        d.update(q=q, pa=pa)
    if kind in ("galaxy", "shear", "fixedprofile"):
        d.update(sersic=1.4 + 0.5 * ((i + k) % 4), rhalf=0.08 + 0.04 * i)
    return d


def build(kind, bands, i=0, k=0, nrad=3):
    from forcepho import sources
    f = list(bands)
    if kind == "star":
        s = sources.Star(filters=f)
    elif kind == "simple":
        s = sources.SimpleGalaxy(filters=f)
    elif kind == "multi":
        s = sources.SimpleGalaxy(filters=f, radii=MULTI.copy())
    elif kind == "galaxy":
        s = sources.Galaxy(filters=f, splinedata=K.splinefile(nrad))
    elif kind == "fixedprofile":
        s = sources.Galaxy(filters=f, splinedata=K.splinefile(nrad), free_sersic=False)
    else:
        s = sources.ConformalShearGalaxy(filters=f, splinedata=K.splinefile(nrad))
    p = params(kind, i, k)
    if kind == "fixedprofile":
        s.sersic, s.rhalf = p["sersic"], p["rhalf"]
    s.set_params(np.concatenate([flux(bands, i), [p[c] for c in SHAPE[kind]]]))
    return s, p


def flux(bands, i=0):
    return np.array([3.0 + 1.7 * j + 0.6 * i for j in range(len(bands))])


def profile(kind, p, nrad=3):
    """radii and amplitudes of the mixture"""
    if kind == "star":
        return [0.0], [1.0]
    if kind == "simple":
        return [1.0], [1.0]
    if kind == "multi":
        return list(MULTI), [0.5, 0.5]
    return K.RADII[:nrad], [K.amp(b, p["sersic"], p["rhalf"]) for b in range(nrad)]


def shape(kind, p):
    if kind == "star":
        return 1.0, 0.0
    if kind == "shear":
        return np.exp(-np.hypot(p["ep"], p["ec"]) / 2), 0.5 * np.arctan2(p["ec"], p["ep"])
    return p["q"], p["pa"]


class Stamp:
    """astrometry, point spread and calibration of one stamp, and the package's object"""

    def __init__(self, wk, units, ng, band, gain, nx=5, ny=4, k=0, narrow=1.0):
        from forcepho.slow.stamp import PostageStamp
        from forcepho.slow.psf import PointSpreadFunction
        h = K.header(band, nx=nx, ny=ny, **{**K.WCSES[wk], "scale": 0.06})
        e = K.make_exp("e", h, k=k)
        self.pos, self.CW, self.D = K.local(e.wcs, K.RA0, K.DEC0)
        self.crval = np.array([K.RA0, K.DEC0])
        self.gain, self.units, self.band = gain, units, band
        self.mix = K.psf(k, ng, 1).copy()
        for c in ("Cxx", "Cyy", "Cxy"):
            self.mix[c] *= narrow
        if units == "arcsec":
            for c, s in (("xcen", 0.06), ("ycen", 0.06), ("Cxx", 0.06 ** 2), ("Cyy", 0.06 ** 2), ("Cxy", 0.06 ** 2)):
                self.mix[c] *= s
        self.x, self.y = K.pixels(nx, ny)
        self.data, self.ierr = e.data.copy(), e.ierr.copy()
        st = PostageStamp(nx=nx, ny=ny, filtername=band)
        st.scale, st.dpix_dsky, st.crpix, st.crval = self.D.copy(), self.CW.copy(), self.pos.copy(), self.crval.copy()
        st.psf = PointSpreadFunction(self.mix.copy(), units=units)
        st.photocounts = gain
        st.pixel_values = self.data.reshape(nx, ny).copy()
        st.ierr = self.ierr.copy()
        self.stamp = st
        cov = [np.array([[p["Cxx"], p["Cxy"]], [p["Cxy"], p["Cyy"]]], dtype=float) for p in self.mix]
        mean = [np.array([p["xcen"], p["ycen"]], dtype=float) for p in self.mix]
        if units == "arcsec":
            cov = [self.D @ c @ self.D.T for c in cov]
            mean = [self.D @ m for m in mean]
        self.psf = list(zip(self.mix["amp"].astype(float), mean, cov))

    def image(self, kind, p, f, second=True, nrad=3):
        q, pa = shape(kind, p)
        c, s = np.cos(pa), np.sin(pa)
        T = self.D @ np.array([[c, -s], [s, c]]) @ np.diag([1 / q, q])
        pos = self.pos + self.CW @ (np.array([p["ra"], p["dec"]]) - self.crval)
        im = np.zeros(len(self.x))
        for r, a in zip(*profile(kind, p, nrad)):
            for w, m, C in self.psf:
                F = np.linalg.inv(r * r * T @ T.T + C)
                dx, dy = self.x - pos[0] - m[0], self.y - pos[1] - m[1]
                vx, vy = F[0, 0] * dx + F[0, 1] * dy, F[0, 1] * dx + F[1, 1] * dy
                g = np.exp(-0.5 * (dx * vx + dy * vy)) * np.sqrt(np.linalg.det(F)) / (2 * np.pi)
                if second:
                    g = g * (1 + (vx ** 2 + vy ** 2 - F[0, 0] - F[1, 1]) / 24.)
                im = im + f * self.gain * a * w * g
        return im

    def gradient(self, kind, p, f, second=True, nrad=3):
        out = [self.image(kind, p, 1.0, second, nrad)]
        for c in SHAPE[kind]:
            h = 2e-9 if c in ("ra", "dec") else 2e-4
            d = []
            for s in (2, 1, -1, -2):
                # the step actually taken
                v = dict(p)
                v[c] = p[c] + s * h
                d.append((self.image(kind, v, f, second, nrad), v[c]))
            w1 = (d[1][0] - d[2][0]) / (d[1][1] - d[2][1])
            w2 = (d[0][0] - d[3][0]) / (d[0][1] - d[3][1])
            out.append((4 * w1 - w2) / 3)
        return np.array(out)


def same_image(ctx, got, want, where):
    got = np.asarray(got)
    ctx.check(got.shape == want.shape, f"{where}: image of shape {got.shape}, expected {want.shape}")
    bad = ~(np.abs(got - want) <= 1e-9 * np.abs(want).max())
    if bad.any():
        i = int(np.argmax(bad.ravel()))
        ctx.fail(f"{where}: pixel {i} is {got.ravel()[i]:.9g}, the parameters describe {want.ravel()[i]:.9g}")
    ctx.step(want.size)


def same_gradient(ctx, got, want, names, where):
    got = np.asarray(got)
    ctx.check(got.shape == want.shape, f"{where}: gradient of shape {got.shape}, expected {want.shape}")
    for j, n in enumerate(names):
        # differences of positions of tens of degrees carry few digits
        tol = 1e-4 if n in ("ra", "dec") else 2e-6
        lim = tol * np.abs(want[j]).max() + (1e-9 * np.abs(want[0]).max() if n not in ("ra", "dec") else 0)
        bad = ~(np.abs(got[j] - want[j]) <= lim)
        if bad.any():
            i = int(np.argmax(bad))
            ctx.fail(f"{where}: derivative of pixel {i} with respect to {n} is {got[j][i]:.8g}, expected {want[j][i]:.8g}")
        ctx.step(got[j].size)


# ---- one source on one stamp ----------------------------------------------

def attach(s, st, bands, n=3, at=1):
    """describe the stamp by the source's own per-stamp metadata, at position `at` of n"""
    o = st.stamp

    class Bad:
        units, n_gauss = "pixels", 1
        covariances, means, amplitudes = np.eye(2)[None] * 7.0, np.ones((1, 2)), np.ones(1)

    def row(v, junk):
        return [v if j == at else junk for j in range(n)]
    s.stamp_scales = row(o.scale, np.eye(2) * 3)
    s.stamp_psfs = row([o.psf], [Bad()])
    s.stamp_cds = row(o.dpix_dsky, np.eye(2) * 5)
    s.stamp_crpixs = row(o.crpix, np.ones(2))
    s.stamp_crvals = row(o.crval, np.ones(2))
    s.stamp_zps = row(o.photocounts, 9.0)
    s.stamp_filterindex = row(bands.index(o.filtername), 0)
    return at


def run_render(case, ctx):
    from forcepho.slow.gaussmodel import convert_to_gaussians, compute_gig
    kind, nb, units, ng, wk, k, nrad = case
    bands = [f"B{j}" for j in range(nb)]
    for b in bands:
        # the last variants have point-spread components much smaller than a pixel
        st = Stamp(wk, units, ng, b, 1.0 if b == "B0" else 2.3, k=k, narrow=0.07 if k % 3 == 2 else 1.0)
        s, p = build(kind, bands, i=k % 3, k=k, nrad=nrad)
        f = flux(bands, k % 3)[bands.index(b)]
        names = ["flux"] + SHAPE[kind]
        for second in (True, False):
            kw = {} if second else dict(second_order=False)
            where = f"{case} band {b}" + ("" if second else " without the second order term")
            want = st.image(kind, p, f, second, nrad)
            im, grad = s.render(st.stamp, **kw)
            same_image(ctx, im, want, where)
            wg = st.gradient(kind, p, f, second, nrad)
            same_gradient(ctx, grad, wg, names, where)
            im2, none = s.render(st.stamp, compute_deriv=False, **kw)
            ctx.check(none is None, f"{where}: gradients were returned although they were not asked for")
            same_image(ctx, im2, want, where + " (no derivatives)")
            im3, grad3 = st.stamp.render(s, **kw)
            same_image(ctx, im3, want, where + " (from the stamp)")
            same_gradient(ctx, grad3, wg, names, where + " (from the stamp)")
        # the same stamp described by the metadata of the source
        at = attach(s, st, bands, at=k % 3)
        gig = convert_to_gaussians(s, at, compute_deriv=True)
        im, grad = compute_gig(gig, st.x.astype(float), st.y.astype(float))
        same_image(ctx, im, st.image(kind, p, f, True, nrad), f"{case} band {b}, metadata of the source")
        if kind != "shear":
            same_gradient(ctx, np.asarray(grad)[:len(names)], st.gradient(kind, p, f, True, nrad), names, f"{case} band {b}, metadata of the source")
        # rendering is no assignment
        v = s.get_param_vector()
        ctx.check(np.array_equal(v, np.concatenate([flux(bands, k % 3), [p[c] for c in SHAPE[kind]]])), f"{case}: rendering changed the parameters")
        ctx.outcome((case, b))


def render_cases(tier):
    big = tier == "thorough"
    for kind in KINDS:
        for nb in (1, 2) if not big else (1, 2, 3):
            for units in ("pixels", "arcsec"):
                for ng in (1, 2) if not big else (1, 2, 3):
                    for wk in range(6):
                        for k in (0, 1, 2) if not big else range(6):
                            for nrad in (3,) if not big or kind not in ("galaxy", "shear", "fixedprofile") else (1, 2, 3, 4):
                                yield kind, nb, units, ng, wk, k, nrad


# ---- parameters ------------------------------------------------------------

def run_params(case, ctx):
    """set and get, for every band or one of them"""
    kind, nb, names = case
    bands = list(names)[:nb]
    s, p = build(kind, bands)
    n = len(SHAPE[kind])
    ctx.check(s.n_params == nb + n and len(s.parameter_names) == nb + n and s.n_bands == nb,
              f"{kind}: {s.n_params} parameters, {len(s.parameter_names)} names, {s.n_bands} bands for {nb} + {n}")
    ref = np.array(s.get_param_vector(), dtype=float)
    ctx.check(np.array_equal(ref, np.concatenate([flux(bands), [p[c] for c in SHAPE[kind]]])), f"{kind}: parameter vector {ref}")
    # every sequence of two assignments by band or of all
    ops = [None] + bands
    for seq in itertools.product(ops, repeat=2 if nb > 2 else 3):
        s, p = build(kind, bands)
        cur = ref.copy()
        for t, b in enumerate(seq):
            new = np.arange(n + (nb if b is None else 1)) * 0.01 + 0.3 + 0.05 * t
            before = new.copy()
            s.set_params(new, filtername=b)
            ctx.check(np.array_equal(new, before), f"{kind}: the vector passed in was changed")
            if b is None:
                cur = new.copy()
            else:
                cur[bands.index(b)] = new[0]
                cur[nb:] = new[1:]
            ctx.check(np.array_equal(s.get_param_vector(), cur), f"{kind}: after {seq[:t + 1]} the parameters are {s.get_param_vector()}, expected {cur}")
            for c in bands:
                w = np.concatenate([[cur[bands.index(c)]], cur[nb:]])
                g = s.get_param_vector(filtername=c)
                ctx.check(np.array_equal(g, w), f"{kind}: the parameters for band {c} are {g}, expected {w}")
                ctx.check(s.filter_index(c) == bands.index(c), f"{kind}: band {c} has index {s.filter_index(c)}")
            for j, c in enumerate(SHAPE[kind]):
                ctx.check(getattr(s, c) == cur[nb + j], f"{kind}: attribute {c} is {getattr(s, c)}, expected {cur[nb + j]}")
            ctx.step()
            ctx.state((kind, seq[:t + 1], cur))
    # vectors of any other length are refused
    for m in range(0, nb + n + 3):
        for b in ops:
            if m == n + (nb if b is None else 1):
                continue
            s, p = build(kind, bands)
            try:
                s.set_params(np.ones(m), filtername=b)
            except Exception:
                ctx.check(np.array_equal(s.get_param_vector(), ref), f"{kind}: a refused vector changed the parameters")
                continue
            ctx.fail(f"{kind}: a vector of {m} values was accepted for {nb} bands (band {b})")
    ctx.outcome(case)


# ---- work plans ------------------------------------------------------------

OPS = ["slow", "fast", "image", "fastimage", "render", "neg"]


def make_plans(case):
    from forcepho import sources
    from forcepho.slow.likelihood import WorkPlan, FastWorkPlan
    kinds, cover, flags, expb, units, wk = case
    bands = [f"B{j}" for j in range(len(expb))]
    stamps = []
    j = 0
    for b, n in zip(bands, expb):
        for _ in range(n):
            st = Stamp((wk + j) % 6, units, 1 + j % 2, b, 1.0 + 0.5 * j, nx=4 + j, ny=3, k=j)
            row = cover[j % len(cover)]
            st.stamp.coverage = lambda s, row=row: row[s.mcid]
            stamps.append((st, row))
            j += 1
    srcs, ps = [], []
    for i, kind in enumerate(kinds):
        s, p = build(kind, bands, i=i)
        s.mcid = i
        s.fixed = bool(flags[i])
        srcs.append(s)
        ps.append((kind, p, flux(bands, i)))
    scene = sources.Scene(sources=srcs)
    plans = {n: [c(st.stamp) for st, _ in stamps] for n, c in (("slow", WorkPlan), ("fast", FastWorkPlan))}
    return bands, stamps, scene, ps, plans


def expect(case, bands, stamps, ps, moved=None):
    """ln-likelihood, gradient with respect to the free parameters, images and their gradients"""
    kinds, cover, flags, expb, units, wk = case
    nb = len(bands)
    start, off = {}, 0
    for i, kind in enumerate(kinds):
        if not flags[i]:
            start[i] = off
            off += nb + len(SHAPE[kind])
    ll, grad, scale, ims, gims = 0.0, np.zeros(off), np.zeros(off), [], []
    for st, row in stamps:
        ib = bands.index(st.band)
        im = np.zeros(len(st.x))
        gs, idx = [], []
        for i, (kind, p, f) in enumerate(ps):
            if row[i] <= 0:
                continue
            im = im + st.image(kind, p, f[ib])
            if row[i] > 1 and not flags[i]:
                g = st.gradient(kind, p, f[ib])
                gs.append(g)
                idx += [start[i] + ib] + list(range(start[i] + nb, start[i] + nb + len(SHAPE[kind])))
        chi = (st.data - im) * st.ierr
        ll += -0.5 * float(chi @ chi)
        if gs:
            g = np.concatenate(gs)
            np.add.at(grad, idx, g @ (chi * st.ierr))
            np.add.at(scale, idx, np.abs(g) @ np.abs(chi * st.ierr))
        ims.append(im)
        gims.append(np.concatenate(gs) if gs else np.zeros((0, len(st.x))))
    return ll, grad, scale, ims, gims, off


def run_plans(case, ctx):
    from forcepho.slow.likelihood import lnlike_multi, negative_lnlike_multi, make_image
    conf, depth = case
    bands, stamps, scene, ps, plans = make_plans(conf)
    ll, grad, scale, ims, gims, n = expect(conf, bands, stamps, ps)
    if n == 0:
        theta = np.zeros(0)
    else:
        theta = np.array(scene.get_all_source_params(), dtype=float)
    pos = np.zeros(n, dtype=bool)
    off = 0
    for kind, fl in zip(conf[0], conf[2]):
        if not fl:
            pos[off + len(bands):off + len(bands) + 2] = True
            off += len(bands) + len(SHAPE[kind])
    where = f"{conf}"
    nst = len(stamps)

    def like(got, g, what):
        ctx.check(abs(got - ll) <= 1e-9 * (abs(ll) + 1), f"{where} {what}: ln-likelihood {got:.10g}, the images give {ll:.10g}")
        if g is not None:
            g = np.asarray(g)
            ctx.check(g.shape == grad.shape, f"{where} {what}: gradient of shape {g.shape} for {n} parameters")
            bad = ~(np.abs(g - grad) <= np.where(pos, 2e-4, 4e-6) * scale + 1e-9)
            if bad.any():
                j = int(np.argmax(bad))
                ctx.fail(f"{where} {what}: gradient entry {j} is {g[j]:.8g}, expected {grad[j]:.8g}")

    def do(op, pl):
        if op in ("slow", "fast"):
            a = lnlike_multi(theta.copy(), scene, pl[op])
            like(a[0], a[1], op)
            a = lnlike_multi(theta.copy(), scene, pl[op], grad=False)
            like(a, None, op)
        elif op == "neg":
            a = negative_lnlike_multi(theta.copy(), scene=scene, plans=pl["slow"])
            like(-a[0], -np.asarray(a[1]), op)
            a = negative_lnlike_multi(theta.copy(), scene=scene, plans=pl["fast"], grad=False)
            like(-a, None, op)
        elif op == "image":
            for j, (st, _) in enumerate(stamps):
                im, g = make_image(scene, st.stamp, Theta=theta.copy() if j % 2 else None)
                same_image(ctx, im, ims[j].reshape(st.stamp.nx, st.stamp.ny), f"{where} image of stamp {j}")
                g = np.asarray(g)
                ctx.check(g.shape == gims[j].shape, f"{where} stamp {j}: image gradients of shape {g.shape}, expected {gims[j].shape}")
                bad = ~(np.abs(g - gims[j]) <= 1e-4 * (np.abs(gims[j]).max(axis=1, keepdims=True) if g.size else 0) + 1e-9)
                ctx.check(not bad.any(), f"{where} stamp {j}: image gradients differ from the image's")
        elif op == "fastimage":
            # residual of a plan, without derivatives
            for j, p in enumerate(pl["fast"]):
                from forcepho.slow.likelihood import plan_sources
                p, ti, gi = plan_sources(p, scene)
                a, g = p.lnlike()
                ctx.check(len(ti) == len(gi), f"{where} stamp {j}: {len(ti)} parameters for {len(gi)} derivatives")
                st = stamps[j][0]
                same_image(ctx, p.residual, st.data - ims[j], f"{where} residual of stamp {j}")
        elif op == "render":
            for j, (st, row) in enumerate(stamps):
                im = sum((s.render(st.stamp, compute_deriv=bool(i % 2))[0] for i, s in enumerate(scene.sources) if row[i] > 0), np.zeros(len(st.x)))
                same_image(ctx, im, ims[j], f"{where} sum of the rendered sources on stamp {j}")
        for j, (st, _) in enumerate(stamps):
            ctx.check(np.array_equal(st.stamp.pixel_values.ravel(), st.data) and np.array_equal(np.ravel(st.stamp.ierr), st.ierr),
                      f"{where}: {op} changed the data of stamp {j}")
        ctx.step(nst)

    for seq in itertools.product(OPS, repeat=depth):
        ctx.trail = seq
        # plans live through the sequence, and another set is built afterwards
        for op in seq:
            do(op, plans)
        bands2, stamps2, scene2, ps2, fresh = make_plans(conf)
        keep = scene
        scene = scene2
        do(seq[-1], fresh)
        scene = keep
        ctx.state((conf, seq))
    # a step and back: nothing of the other position stays
    if n:
        other = theta + np.where(pos, 3e-6, 0.05)
        for op in ("slow", "fast"):
            a = lnlike_multi(other.copy(), scene, plans[op])[0]
            ctx.check(abs(a - ll) > 1e-9 * abs(ll) or not ims or not np.any(scale), f"{where}: another position has the same likelihood")
            do(op, plans)
        do("render", plans)
    ctx.outcome((conf, round(ll, 6)))


def plan_cases(tier):
    big = tier == "thorough"
    depth = 2 if not big else 3
    sets = [("galaxy",), ("galaxy", "star"), ("simple", "galaxy"), ("star", "multi"), ("fixedprofile", "galaxy"), ("shear", "star")]
    if big:
        sets += [("galaxy", "star", "simple"), ("star", "galaxy", "galaxy"), ("galaxy", "galaxy", "galaxy")]
    for kinds in sets:
        n = len(kinds)
        for c in itertools.product((0, 1, 2), repeat=n):
            for flags in itertools.product((0, 1), repeat=n):
                if n > 1 and any(f and x != 2 for f, x in zip(flags, c)) and not big:
                    continue
                for expb, cover in [((1,), (c,)), ((1, 1), (c, c[::-1])), ((2,), (c, (2,) * n))]:
                    for units in ("pixels",) if expb != (1,) else ("pixels", "arcsec"):
                        yield (kinds, cover, flags, expb, units, sum(c) % 6), 1 if n > 1 and not big else depth
    for c in itertools.product((0, 1, 2), repeat=3) if not big else ():
        yield (("galaxy", "star", "simple"), (c,), (0, 0, 0), (1,), "pixels", sum(c) % 6), 1
        yield (("star", "galaxy", "multi"), (c,), tuple(int(x == 2 and c.count(2) > 1 and c.index(2) == i) for i, x in enumerate(c)), (1,), "pixels", sum(c) % 6), 1
    # histories over several plans at greater depth
    for cover in [((1, 1),), ((2, 1),), ((1, 2),), ((2, 2),)]:
        yield (("galaxy", "star"), cover, (0, 0), (1,), "pixels", 1), depth + 1


# ---- metadata of the sources in a likelihood -------------------------------

def run_meta(case, ctx):
    from forcepho.slow.likelihood import lnlike_multi
    kinds, expb, wk, units = case
    conf = (kinds, ((2,) * len(kinds),), (0,) * len(kinds), expb, units, wk)
    bands, stamps, scene, ps, plans = make_plans(conf)
    ll, grad, scale, ims, gims, n = expect(conf, bands, stamps, ps)
    for s in scene.sources:
        s.stamp_scales = [st.stamp.scale for st, _ in stamps]
        s.stamp_psfs = [[st.stamp.psf] for st, _ in stamps]
        s.stamp_cds = [st.stamp.dpix_dsky for st, _ in stamps]
        s.stamp_crpixs = [st.stamp.crpix for st, _ in stamps]
        s.stamp_crvals = [st.stamp.crval for st, _ in stamps]
        s.stamp_zps = [st.stamp.photocounts for st, _ in stamps]
        s.stamp_filterindex = [bands.index(st.band) for st, _ in stamps]
    # the metadata of the stamps themselves is not needed then
    for st, _ in stamps:
        st.stamp.scale, st.stamp.dpix_dsky, st.stamp.crpix = np.eye(2) * 2, np.eye(2) * 3, np.zeros(2)
    theta = np.array(scene.get_all_source_params(), dtype=float)
    for name in ("slow", "fast", "slow"):
        a, g = lnlike_multi(theta.copy(), scene, plans[name], source_meta=True)
        ctx.check(abs(a - ll) <= 1e-9 * (abs(ll) + 1), f"{case} {name}: ln-likelihood {a:.10g} with the sources' metadata, expected {ll:.10g}")
        bad = ~(np.abs(np.asarray(g) - grad) <= 2e-4 * scale + 1e-9)
        ctx.check(not bad.any(), f"{case} {name}: gradient with the sources' metadata differs at {np.nonzero(bad)[0]}")
        ctx.step()
    ctx.outcome((case, round(ll, 6)))


# ---- circular profile and shear --------------------------------------------

def run_profile(case, ctx):
    nrad, n, rhs = case
    from forcepho import sources
    g = sources.Galaxy(filters=["B0", "B1"], splinedata=K.splinefile(nrad))
    g.flux = np.array([2.0, 7.0])
    r = np.array([0.0, 0.003, 0.02, 0.11, 0.4, 1.7])
    for rh in rhs:
        g.sersic, g.rhalf = n, rh
        for eps in (2.5e-3, 0.05, 0.0):
            for band, f in ((None, 1.0), ("B0", 2.0), ("B1", 7.0)):
                s = np.hypot(np.array(K.RADII[:nrad]), eps)
                a = np.array([K.amp(b, n, rh) for b in range(nrad)])
                w = f * np.sum(a / (2 * np.pi * s ** 2) * np.exp(-0.5 * (r[:, None] / s) ** 2), axis=1)
                kw = {} if eps == 2.5e-3 else dict(epsilon=eps)
                got = np.asarray(g.profile(r, band=band, **kw))
                ctx.check(got.shape == w.shape and np.allclose(got, w, rtol=1e-9, atol=1e-300), f"profile n={n} rh={rh} eps={eps} band={band}: {got}, expected {w}")
                ctx.step(len(r))
        ctx.state((nrad, n, rh))


def run_shear(case, ctx):
    q, pas, bands = case
    s, p = build("shear", ["B0", "B1"])
    for pa in pas:
        ep, ec = s.etas_from_qphi(q, pa)
        ctx.check(np.isclose(np.hypot(ep, ec), -2 * np.log(q), rtol=1e-12, atol=1e-14), f"q={q} pa={pa}: shear ({ep}, {ec})")
        s.ep, s.ec = ep, ec
        ctx.check(np.isclose(s.q, q, rtol=1e-12), f"q={q} pa={pa}: the axis ratio comes back as {s.q}")
        d = (s.pa - pa) / np.pi
        ctx.check(q == 1 or abs(d - round(d)) < 1e-9, f"q={q} pa={pa}: the angle comes back as {s.pa}")
        if q < 1:
            J = np.asarray(s.ds_deta)
            for i, (a, b) in enumerate(((1e-5, 0), (0, 1e-5))):
                def at(m):
                    e = np.array([ep + m * a, ec + m * b])
                    return np.exp(-np.hypot(*e) / 2), 0.5 * np.arctan2(e[1], e[0])
                dq = (at(1)[0] - at(-1)[0]) / 2e-5
                dp = (at(1)[1] - at(-1)[1]) / 2e-5
                dp = dp - round(dp * 2e-5 / np.pi) * np.pi / 2e-5
                ctx.check(np.allclose(J[i], [dq, dp], rtol=1e-5, atol=1e-6 * max(1, abs(1 / np.log(q)) ** 2)), f"q={q} pa={pa}: jacobian row {i} is {J[i]}, differences give {[dq, dp]}")
        # the same galaxy in either parameterisation
        st = Stamp(int(10 * q) % 6, "pixels", 2, "B1", 1.4)
        g, pg = build("galaxy", ["B0", "B1"])
        g.q, g.pa = q, pa
        same_image(ctx, s.render(st.stamp, compute_deriv=False)[0], np.asarray(g.render(st.stamp, compute_deriv=False)[0]), f"q={q} pa={pa}: sheared and rotated galaxy")
        ctx.state((q, pa))


# ---- stamps -----------------------------------------------------------------

def run_stamp(case, ctx):
    from astropy.io import fits
    from astropy.wcs import WCS
    wk, nx, ny, zero, write = case
    st = Stamp(wk, "pixels", 1, "B0", 1.0, nx=nx, ny=ny, k=wk)
    o = st.stamp
    ctx.check(o.npix == nx * ny and list(o.shape) == [nx, ny], f"{case}: {o.npix} pixels, shape {o.shape}")
    ctx.check(np.array_equal(o.xpix.ravel(), st.x) and np.array_equal(o.ypix.ravel(), st.y) and o.xpix.shape == (nx, ny), f"{case}: pixel coordinates")
    for x in np.linspace(-1.5, nx + 0.5, 5):
        for y in np.linspace(-1.5, ny + 0.5, 5):
            sky = np.asarray(o.pix_to_sky(np.array([x, y])))
            w = st.crval + np.linalg.solve(st.CW, np.array([x, y]) - st.pos)
            ctx.check(np.allclose(sky, w, rtol=0, atol=1e-12), f"{case}: pixel ({x}, {y}) is at {sky}, expected {w}")
            back = np.asarray(o.sky_to_pix(w))
            ctx.check(np.allclose(back, (x, y), atol=2e-6), f"{case}: {w} is at pixel {back}, expected {(x, y)}")
            ctx.step()
    if zero:
        st.ierr[(np.arange(nx * ny) % 3 == 1) | (zero == 2)] = 0.0
        o.ierr = st.ierr.copy()
    fn = os.path.join(K.scratch(), f"stamp_{os.getpid()}.fits") if write else ""
    if write:
        hdul, wcs = o.to_fits(fn, overwrite=True)
    else:
        hdul, wcs = o.to_fits()
    lists = [hdul]
    if write:
        lists.append(fits.open(fn))
    for hl in lists:
        ctx.check(len(hl) == (1 if zero == 2 else 2), f"{case}: {len(hl)} images")
        ctx.check(np.array_equal(hl[0].data, st.data.reshape(nx, ny).T), f"{case}: the image differs from the pixel values")
        if zero != 2:
            with np.errstate(divide="ignore"):
                ctx.check(np.allclose(hl[1].data, 1 / st.ierr.reshape(nx, ny).T, rtol=1e-12), f"{case}: the uncertainty image")
        for h in hl:
            x, y = WCS(h.header).world_to_pixel_values(*st.crval)
            ctx.check(np.allclose((x, y), st.pos, atol=1e-6), f"{case}: the reference position is at pixel {(x, y)} of the written image, expected {st.pos}")
            a, CW, D = K.local(WCS(h.header), *st.crval)
            ctx.check(np.allclose(D, st.D, atol=1e-4 * np.abs(st.D).max()), f"{case}: pixels per arcsecond {D} of the written image, expected {st.D}")
    # writing the stamp leaves it as it was
    ctx.check(np.allclose(o.dpix_dsky, st.CW, atol=1e-4 * np.abs(st.CW).max()) and np.array_equal(o.crpix, st.pos) and np.array_equal(o.crval, st.crval) and
              np.array_equal(o.scale, st.D) and np.array_equal(o.pixel_values.ravel(), st.data), f"{case}: writing the stamp changed it")
    if write:
        lists[1].close()
        os.remove(fn)
    ctx.state(case)


def suites(tier):
    for n in (1, 2, 3, 4):
        K.splinefile(n)
    big = tier == "thorough"
    names = [("B0", "B1", "B2"), ("f", "flux", "ra"), ("F1", "F10", "F100")]
    pas = [round(x, 3) for x in np.linspace(-3.3, 3.3, 23 if not big else 67)]
    qs = [0.21, 0.4, 0.55, 0.7, 0.85, 0.97, 1.0]
    return [
        Suite("render", render_cases(tier), run_render, note="source type x bands x point-spread units x components x astrometry; image, every derivative, three ways to render"),
        Suite("parameters", [(k, nb, nm) for k in KINDS for nb in (1, 2, 3) for nm in names], run_params, note="all sequences of assignments of all or one band; every other vector length"),
        Suite("plans", plan_cases(tier), run_plans, note="every treatment of every source on every stamp x all sequences of calls on shared plans"),
        Suite("metadata", [(k, e, w, u) for k in [("galaxy",), ("galaxy", "star"), ("simple", "multi")] for e in [(1,), (2,), (1, 1)] for w in range(6) for u in ("pixels", "arcsec")], run_meta,
              note="stamps described by the sources' metadata"),
        Suite("profile", [(nr, n, tuple(np.linspace(0.01, 0.59, 8 if not big else 30))) for nr in (1, 2, 3, 4) for n in np.linspace(0.8, 5.2, 6 if not big else 23)], run_profile,
              note="circular profile on a grid"),
        Suite("shear", [(q, pas, 1) for q in qs], run_shear, note="conformal shear on a grid of shapes"),
        Suite("stamps", [(w, nx, ny, z, wr) for w in range(6) for nx, ny in [(4, 4), (3, 5), (6, 2)] for z in (0, 1, 2) for wr in (0, 1)], run_stamp, note="coordinates and files"),
    ]
