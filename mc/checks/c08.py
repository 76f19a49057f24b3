"""C08: every correspondence between parameter vectors, sources, proposals, catalogs,
bounds, chains, covariances and gradients, over every small scene of every mixture of
source types, band count, fixed-source pattern and column order, with all entries
distinct so that any swap, shift, loss or sharing shows."""
import itertools

import numpy as np

from ..core import Suite
from .. import env
env.load_kernel()
from .. import kern as K

from forcepho.sources import Scene, Galaxy, Star, SimpleGalaxy, ConformalShearGalaxy
from forcepho.superscene import bounds_vectors, make_bounds
from forcepho.utils import make_chaincat, get_sample_cat, extract_block_diag
from forcepho.fitting import Result
from forcepho.model import FastPosterior, Transform
from forcepho.region import CircularRegion

PROPERTY = "C08"
ASSUMPTIONS = ["exported catalogs are single precision (compared to 3e-7); proposals are single precision",
               "entries are distinct generic numbers: the correspondences are data independent"]

KINDS = {
    "G": (lambda b: Galaxy(filters=list(b), splinedata=K.splinefile(3)), ["ra", "dec", "q", "pa", "sersic", "rhalf"]),
    "g": (lambda b: Galaxy(filters=list(b), splinedata=K.splinefile(3), free_sersic=False), ["ra", "dec", "q", "pa"]),
    "s": (lambda b: Star(list(b)), ["ra", "dec"]),
    "S": (lambda b: SimpleGalaxy(list(b)), ["ra", "dec", "q", "pa"]),
    "c": (lambda b: ConformalShearGalaxy(filters=list(b), splinedata=K.splinefile(3)), ["ra", "dec", "ep", "ec", "sersic", "rhalf"]),
}
ATTR = ["ra", "dec", "q", "pa", "ep", "ec", "sersic", "rhalf"]


def bandnames(n):
    return [f"B{i}" for i in range(n)]


def content(src, cols):
    return [float(x) for x in np.atleast_1d(src.flux)] + [float(getattr(src, c)) for c in cols]


def run_vector(case, ctx):
    kinds, nb = case
    bands = bandnames(nb)
    for fixed in itertools.product((False, True), repeat=len(kinds)):
        if all(fixed):
            continue
        src = [KINDS[k][0](bands) for k in kinds]
        cols = [KINDS[k][1] for k in kinds]
        for s, f in zip(src, fixed):
            s.fixed = f
        scene = Scene(src)
        act = [i for i in range(len(kinds)) if not fixed[i]]
        size = [nb + len(cols[i]) for i in range(len(kinds))]
        off = np.concatenate([[0], np.cumsum([size[i] for i in act])]).astype(int)
        N = int(off[-1])
        base = 1.0 + 0.37 * np.arange(N)
        idle = {i: content(src[i], cols[i]) for i in range(len(kinds)) if fixed[i]}
        where = f"sources {kinds}, fixed {fixed}, {nb} bands"
        ctx.check(scene.n_active == len(act) and scene.n_fixed == len(kinds) - len(act), f"{where}: wrong counts of sources")

        def verify(theta, what):
            got = np.array(scene.get_all_source_params())
            ctx.check(got.shape == (N,) and np.array_equal(got, theta), f"{where}, {what}: wrote {theta}, read {got}")
            for j, i in enumerate(act):
                c = content(src[i], cols[i])
                ctx.check(c == list(theta[off[j]:off[j + 1]]), f"{where}, {what}: source {i} holds {c}, its part of the vector is "
                          f"{theta[off[j]:off[j + 1]]}")
            for i, c in idle.items():
                ctx.check(content(src[i], cols[i]) == c, f"{where}, {what}: fixed source {i} changed")
            ctx.step()

        scene.set_all_source_params(base.copy())
        verify(base, "all entries")
        for k in range(N):
            t = base.copy()
            t[k] = -5.5
            scene.set_all_source_params(t)
            verify(t, f"entry {k} changed")
            t2 = t.copy()
            t[:] = 99.0                 # the caller's array is not kept
            verify(t2, f"entry {k} changed, caller's array reused")
        scene.set_all_source_params(list(base))
        verify(base, "list")
        v = scene.get_all_source_params()
        v[:] = -1.0                     # the returned array is not the storage
        verify(base, "returned vector edited")
        full = np.array(scene.get_all_source_params(active=False))
        want = np.concatenate([np.array(content(src[i], cols[i])) for i in range(len(kinds))])
        ctx.check(np.array_equal(full, want), f"{where}: the vector of all sources is {full}, expected {want}")
        names = [str(x) for x in scene.parameter_names]
        exp = [f"{b}_{i}" for i in range(len(kinds)) for b in bands + cols[i]]
        ctx.check(len(names) == len(full) and len(set(names)) == len(names), f"{where}: parameter names {names}")
        for x, y in zip(names, exp):
            if x != y and not (x.split("_")[0] in "nr" and "c" in kinds):
                ctx.fail(f"{where}: parameter names {names}, expected {exp}")
        # one band at a time
        for j, i in enumerate(act):
            s = src[i]
            for ib, b in enumerate(bands):
                p = np.concatenate([[base[off[j] + ib]], base[off[j] + nb:off[j + 1]]])
                ctx.check(np.array_equal(s.get_param_vector(filtername=b), p), f"{where}: parameters of source {i} in {b}")
                s.set_params(p + 1.0, filtername=b)
                t = base.copy()
                t[off[j] + ib] += 1
                t[off[j] + nb:off[j + 1]] += 1
                verify(t, f"source {i} set in {b} only")
                s.set_params(base[off[j]:off[j + 1]])
                verify(base, f"source {i} set back")
            for bad in (p[:-1], np.append(base[off[j]:off[j + 1]], 1.0)):
                try:
                    s.set_params(bad)
                except Exception:
                    pass
                else:
                    ctx.fail(f"{where}: a vector of {len(bad)} entries is accepted for a source of {size[i]}")
            s.set_params(base[off[j]:off[j + 1]])
        ctx.state((kinds, fixed, nb))
        ctx.trace()
    ctx.outcome((kinds, nb))


def vector_cases(tier):
    for n in (1, 2, 3):
        for kinds in itertools.product("GgsSc", repeat=n):
            for nb in (1, 2, 3) if n < 3 else ((1, 3) if tier == "quick" else (1, 2, 3)):
                yield "".join(kinds), nb
    if tier == "thorough":
        for kinds in itertools.product("GgsSc", repeat=4):
            yield "".join(kinds), 2


def f32(x):
    return np.asarray(x, dtype=np.float32)


def check_proposal(ctx, prop, vals, nb, nrad, where):
    """vals: per source vectors"""
    ctx.check(prop.shape == (len(vals),), f"{where}: proposal of {prop.shape} for {len(vals)} sources")
    for i, v in enumerate(vals):
        p = prop[i]
        ctx.check(np.array_equal(p["fluxes"][:nb], f32(v[:nb])), f"{where}: proposal fluxes of source {i} are {p['fluxes'][:nb]}, "
                  f"expected {v[:nb]}")
        for name, k in (("ra", 0), ("dec", 1), ("q", 2), ("pa", 3), ("nsersic", 4), ("rh", 5)):
            ctx.check(p[name] == f32(v[nb + k]), f"{where}: proposal {name} of source {i} is {p[name]}, expected {v[nb + k]}")
        n, r = v[nb + 4], v[nb + 5]
        for s in range(nrad):
            for name, fn in (("mixture_amplitudes", K.amp), ("damplitude_dnsersic", K.damp_dn), ("damplitude_drh", K.damp_dr)):
                w = fn(s, n, r)
                ctx.check(abs(p[name][s] - w) < 1e-5 * (1 + abs(w)), f"{where}: {name}[{s}] of source {i} is {p[name][s]}, the "
                          f"table has {w}")


def shape_vec(i, k=0):
    return [0.001 * (i + 1), -0.002 * (i + 2), 0.5 + 0.05 * i + 0.01 * k, -0.3 + 0.21 * i + 0.1 * k, 1.2 + 0.4 * i + 0.03 * k,
            0.05 + 0.04 * i + 0.01 * k]


def run_proposal(case, ctx):
    n, nb, nrad = case
    bands = bandnames(nb)
    for fixed in itertools.product((False, True), repeat=n):
        src = [Galaxy(filters=list(bands), splinedata=K.splinefile(nrad)) for _ in range(n)]
        vals = []
        for i, s in enumerate(src):
            v = [7.0 + 10 * i + j for j in range(nb)] + shape_vec(i)
            s.set_params(v)
            s.fixed = fixed[i]
            vals.append(v)
        scene = Scene(src)
        where = f"{n} sources, fixed {fixed}, {nb} bands, {nrad} radii"
        for flag in (True, False):
            sel = [v for v, f in zip(vals, fixed) if f != flag]
            if not sel:
                continue
            p = scene.get_proposal(active=flag)
            check_proposal(ctx, p, sel, nb, nrad, where)
            if not flag:
                continue
            keep = p.copy()
            for k in range(1, 3):
                new = [[x + k for x in v[:nb]] + shape_vec(i, k) for i, v in enumerate(sel)]
                scene.set_all_source_params(np.concatenate(new))
                p2 = scene.get_proposal()
                check_proposal(ctx, p2, new, nb, nrad, where + ", changed")
                ctx.check(keep.tobytes() == p.tobytes(), f"{where}: an earlier proposal changed with a later one")
                ctx.step()
            scene.set_all_source_params(np.concatenate(sel))
            check_proposal(ctx, scene.get_proposal(), sel, nb, nrad, where + ", changed back")
        ctx.state((n, nb, fixed))
        ctx.trace()
    ctx.outcome(case)


def run_catalog(case, ctx):
    n, nb, kind = case
    cols = KINDS[kind][1]
    allb = bandnames(nb)
    for colperm in itertools.permutations(range(nb + 1)):
        # column order of the catalog: bands and the shape block, plus an unrelated band
        names = []
        for c in colperm:
            names += cols[::-1] if c == nb else [allb[c]]
        dt = [("id", np.int32), ("source_index", np.int32), ("ZZ", float)] + [(c, float) for c in names] + [("extra", float)]
        cat = np.zeros(n, dtype=dt)
        for j, c in enumerate(cat.dtype.names):
            cat[c] = 3 + 20 * j + np.arange(n)
        for use in itertools.permutations(allb):
            for m in range(1, nb + 1):
                fb = list(use[:m])
                scene = Scene(catalog=cat, filternames=fb, source_type=type(KINDS[kind][0](fb)), extra_parameters=["extra"],
                              **({"splinedata": K.splinefile(3)} if kind in "Gc" else {})) if kind in "Gc" else None
                if scene is None:
                    scene = Scene([KINDS[kind][0](fb) for _ in range(n)])
                    for s, row in zip(scene.sources, cat):
                        s.from_catalog_row(row, extra_parameters=["extra"])
                before = cat.copy()
                th = scene.get_all_source_params()
                want = np.concatenate([[float(cat[c][i]) for c in fb + cols] for i in range(n)])
                where = f"catalog {names}, bands {fb}"
                ctx.check(np.array_equal(th, want), f"{where}: parameters {th}, expected {want}")
                ctx.check([s.extra for s in scene.sources] == list(cat["extra"]), f"{where}: extra parameter lost")
                out = scene.to_catalog(extra_cols=["extra"])
                ctx.check(len(out) == n, f"{where}: exported {len(out)} rows")
                for c in fb + cols + ["extra"]:
                    ctx.check(np.allclose(out[c], cat[c], rtol=3e-7), f"{where}: exported column {c} is {out[c]}, catalog has {cat[c]}")
                ctx.check(list(np.array(out["id"]).astype(int)) == list(range(n)), f"{where}: exported ids {out['id']}")
                scene.set_all_source_params(th + 1.5)
                ctx.check(np.array_equal(before, cat), f"{where}: setting parameters changed the catalog")
                ctx.check(np.allclose(out[cols[0]], cat[cols[0]], rtol=3e-7), f"{where}: an exported catalog changed later")
                out2 = scene.to_catalog()
                for c in fb + cols:
                    ctx.check(np.allclose(out2[c], cat[c] + 1.5, rtol=3e-7), f"{where}: exported column {c} after a change")
                ctx.step(2)
        ctx.state((names, n))
    ctx.trace()
    ctx.outcome(case)


def run_bounds(case, ctx):
    n, nb, ref = case
    bands = bandnames(nb)
    shapes = K.SHAPES
    for perm in itertools.permutations(bands):
        cat = np.zeros(n, dtype=[("source_index", np.int32)] + [(c, float, (2,)) for c in list(perm) + shapes])
        for j, c in enumerate(bands + shapes):
            for i in range(n):
                cat[c][i] = (100 * i + j, 100 * i + j + 0.5)
        keep = cat.copy()
        for m in range(1, nb + 1):
            for sh in (shapes, shapes[:4], shapes[::-1]):
                for use in itertools.permutations(bands, m):
                    lo, hi = bounds_vectors(cat, list(use), shapenames=sh, reference_coordinates=ref)
                    wl, wh = [], []
                    for i in range(n):
                        for c in list(use) + sh:
                            z = ref[0] if c == "ra" else ref[1] if c == "dec" else 0.0
                            wl.append(cat[c][i][0] - z)
                            wh.append(cat[c][i][1] - z)
                    ctx.check(np.array_equal(lo, wl) and np.array_equal(hi, wh), f"bounds vectors for bands {use}, shapes {sh}: {lo}, {hi}; "
                              f"expected {wl}, {wh}")
                    ctx.check(np.array_equal(keep, cat), "making bounds vectors changed the bounds catalog")
                    ctx.step()
        ctx.state((n, perm))
    ctx.trace()
    ctx.outcome(case)


def active_cat(n, bands, idx, extra=()):
    cat = np.zeros(n, dtype=[("id", np.int64), ("source_index", np.int32), ("n_iter", np.int32)] +
                   [(c, float) for c in K.SHAPES + list(bands) + list(extra)])
    for j, c in enumerate(cat.dtype.names):
        cat[c] = 1000 * (j + 1) + np.arange(n)
    cat["source_index"] = idx
    return cat


def run_chain(case, ctx):
    n, nb, nit, form = case
    bands = bandnames(nb)
    npar = nb + 6
    for idx in itertools.permutations([3, 11, 7][:n]):
        act = active_cat(n, bands, idx, extra=["EXTRA"])
        chain = 0.25 + np.arange(nit * n * npar, dtype=float).reshape(nit, n * npar)
        if form["order"] == "F":
            chain = np.asfortranarray(chain)
        elif form["order"] == "T":
            chain = np.ascontiguousarray(chain.T).T
        bl = np.array(bands, dtype="S") if form["bands"] == "S" else np.array(bands) if form["bands"] == "U" else list(bands)
        sh = np.array(K.SHAPES, dtype="S") if form["shapes"] == "S" else list(K.SHAPES)
        keep, akeep = chain.copy(), act.copy()
        ref = np.array([53.5, -27.25])
        cc = make_chaincat(chain, bl, act, ref, shapes=sh)
        where = f"{n} sources, {nb} bands, {nit} iterations, {form}"
        ctx.check(np.array_equal(chain, keep) and np.array_equal(act, akeep), f"{where}: the inputs were changed")
        ctx.check(len(cc) == n and list(cc["source_index"]) == list(idx), f"{where}: source_index {cc['source_index']}, expected {idx}")
        for i in range(n):
            for j, c in enumerate(bands + K.SHAPES):
                w = keep[:, i * npar + j] + (ref[0] if c == "ra" else ref[1] if c == "dec" else 0)
                ctx.check(np.array_equal(np.atleast_1d(cc[c][i]), w), f"{where}: chain of {c} of source {i} is {cc[c][i]}, expected {w}")
        ck = cc.copy()
        for it in list(range(nit)) + [-1]:
            s = get_sample_cat(cc, it, act)
            ctx.check(s.dtype == act.dtype and len(s) == n, f"{where}: sample has {s.dtype}")
            for j, c in enumerate(bands + K.SHAPES):
                w = np.array([keep[it, i * npar + j] for i in range(n)]) + (ref[0] if c == "ra" else ref[1] if c == "dec" else 0)
                ctx.check(np.array_equal(s[c], w), f"{where}: sample {it} of {c} is {s[c]}, expected {w}")
            for c in ("id", "n_iter", "EXTRA", "source_index"):
                ctx.check(np.array_equal(s[c], akeep[c]), f"{where}: sample {it} has {c} {s[c]}, active catalog {akeep[c]}")
            s["ra"] = 0
            ctx.check(np.array_equal(act, akeep) and np.array_equal(cc, ck), f"{where}: editing a sample changed the chain or catalog")
            ctx.step()
        # the same through a result, including the best sample
        r = Result(chain=chain, chaincat=cc, active=act, stats=np.array([(float(-(k - 1) ** 2),) for k in range(nit)],
                                                                       dtype=[("model_logp", float)]))
        best = min(nit - 1, 1)
        ctx.check(np.array_equal(r.get_sample_cat(-1), get_sample_cat(cc, -1, act)), f"{where}: sample of the result")
        ctx.check(np.array_equal(np.ravel(r.get_map()), keep[best]), f"{where}: highest probability sample {r.get_map()}")
        ctx.check(np.array_equal(r.get_map(structured=True), get_sample_cat(cc, best, act)), f"{where}: highest probability catalog")
        ctx.state((n, nb, nit, idx))
    for bad in (npar * n + 1, npar * (n + 1)):
        try:
            make_chaincat(np.zeros((2, bad)), bands, act, ref)
        except Exception:
            pass
        else:
            ctx.fail(f"a chain of {bad} columns is accepted for {n} sources of {npar} parameters")
    ctx.trace()
    ctx.outcome(case)


def run_blocks(case, ctx):
    nblk, n, k, form = case
    N = nblk * n
    a = 1.0 + np.arange(N * N, dtype=float).reshape(N, N)
    if form == "F":
        a = np.asfortranarray(a)
    elif form == "T":
        a = a.T
    elif form == "slice":
        a = np.repeat(np.repeat(a, 2, axis=0), 2, axis=1)[::2, ::2]
    keep = a.copy()
    b = np.array(extract_block_diag(a, n, k))
    want = np.array([a[max(0, i - k if k < 0 else i) * n:][:n, (i + k if k > 0 else i) * n:][:, :n] for i in range(nblk - abs(k))])
    ctx.check(b.shape == want.shape and np.array_equal(b, want), f"{nblk} blocks of {n}, offset {k}, {form}: {b.tolist()}, expected {want.tolist()}")
    ctx.check(np.array_equal(a, keep), "extracting blocks changed the matrix")
    ctx.outcome(case)


class FakePatch:
    def __init__(self, ns, nb):
        self.n_sources, self.n_bands, self.return_residual = ns, nb, False


class FakeScene:
    sources = [1]

    def set_all_source_params(self, q):
        self.q = np.array(q)

    def get_proposal(self):
        return {"fluxes": self.q, "q": self.q.copy()}


def run_gradient(case, ctx):
    ns, nb = case
    npar = nb + 6
    base = 1.0 + np.arange(nb * ns * 7, dtype=float).reshape(nb, ns, 7)

    class Prop:
        def evaluate_proposal(self, proposal, patch=None, **kw):
            return np.arange(1.0, nb + 1), self.d

    prop = Prop()
    m = FastPosterior(prop, FakePatch(ns, nb), scene=FakeScene(), transform=Transform(ns * npar))
    ds = [base] + [np.where(np.arange(base.size).reshape(base.shape) == i, 1.0, 0.0) for i in range(base.size)]
    for d in ds:
        prop.d = d.copy()
        want = np.zeros((ns, npar))
        for s in range(ns):
            want[s, :nb] = d[:, s, 0]
            want[s, nb:] = d[:, s, 1:].sum(axis=0)
        got = np.array(m.stack_grad(prop.d))
        ctx.check(np.array_equal(got, want.ravel()), f"{ns} sources, {nb} bands: gradient vector {got}, expected {want.ravel()}")
        z = np.arange(float(ns * npar)) + len(ctx.states)
        g = m.lnprob_grad(z)
        ctx.check(np.allclose(g, -0.5 * want.ravel()), f"{ns} sources, {nb} bands: ln-probability gradient {g}, expected {-0.5 * want.ravel()}")
        ctx.check(np.array_equal(prop.d, d), "stacking changed the derivatives")
        ctx.state(z)
        ctx.step()
    ctx.trace()
    ctx.outcome(case)


def run_zero(case, ctx):
    n, kind, zero = case
    p = K.Patch(pixel_dict={}, header_dict={}, psfstore=K.psffile("zero", {"B0": [K.psf(0, 1)]}), splinedata=K.splinefile(3))
    src = [KINDS[kind][0](["B0"]) for _ in range(n)]
    ra = np.array([53.1 + 0.01 * (i * i - i) for i in range(n)])
    dec = np.array([-27.8 + 0.02 * i * (1 if i % 2 else -1) for i in range(n)])
    for s, a, d in zip(src, ra, dec):
        s.ra, s.dec = a, d
    scene = Scene(src)
    other = [content(s, [c for c in KINDS[kind][1] if c not in ("ra", "dec")]) for s in src]
    for rep in range(3):
        ref = p.zerocoords(scene, sky_zero=zero)
        w = np.array([np.median(ra), np.median(dec)]) if zero is None else np.array(zero)
        ctx.check(np.allclose(ref, w, rtol=0, atol=1e-12) and np.array_equal(ref, p.patch_reference_coordinates),
                  f"reference coordinates {ref}, expected {w}")
        ctx.check(np.allclose([s.ra + ref[0] for s in src], ra, rtol=0, atol=1e-12) and
                  np.allclose([s.dec + ref[1] for s in src], dec, rtol=0, atol=1e-12), "offsets plus reference are not the positions")
        p.unzerocoords(scene)
        ctx.check(np.allclose([s.ra for s in src], ra, rtol=0, atol=1e-12) and np.allclose([s.dec for s in src], dec, rtol=0, atol=1e-12),
                  f"restored positions {[s.ra for s in src]}, {[s.dec for s in src]}; originally {ra}, {dec}")
        ctx.check(other == [content(s, [c for c in KINDS[kind][1] if c not in ("ra", "dec")]) for s in src], "other parameters changed")
        ctx.step(2)
    ctx.outcome(case)


class FakeStep:
    class potential:
        pass


def run_endtoend(case, ctx):
    """catalog -> patch -> model -> chain -> final catalog, in absolute coordinates and the right columns"""
    nsrc, expb, allorder, withbounds, linear, nfix = case
    exps, bands, mix, cat, pf = K.config(nsrc, tuple(expb), ((2, 0), (1, 1)), 3, 1)
    cat["source_index"] = 5 + 3 * np.arange(nsrc)[::-1]
    ask = [bands[i] for i in allorder]
    p = K.make_patch(exps, ask, pf)
    present = [b for b in ask]
    ctx.check(list(p.bandlist) == present, f"patch bands {p.bandlist}, requested {ask}")
    bounds = make_bounds(cat, bands, n_pix=1, rhalf_range=(0.01, 0.5), sersic_range=(0.9, 5.1), sqrtq_range=(0.1, 1.1)) if withbounds else None
    fixed = K.catalog(nfix, bands, spread=0.2, k=2) if nfix else None
    keep = cat.copy()
    model, q = p.prepare_model(active=cat, fixed=fixed, bounds=bounds)
    ref = np.array(p.patch_reference_coordinates)
    names = present + K.SHAPES
    npar = len(names)
    where = f"{case}"
    for i in range(nsrc):
        for j, c in enumerate(names):
            z = ref[0] if c == "ra" else ref[1] if c == "dec" else 0.0
            ctx.check(abs(q[i * npar + j] + z - cat[c][i]) < 1e-9, f"{where}: initial {c} of source {i} is {q[i * npar + j]}, catalog has {cat[c][i]}")
            if withbounds:
                lo, hi = model.transform.lower[i * npar + j] + z, model.transform.upper[i * npar + j] + z
                ctx.check(abs(lo - bounds[c][i][0]) < 1e-9 and abs(hi - bounds[c][i][1]) < 1e-9,
                          f"{where}: bounds of {c} of source {i} are {lo}, {hi}; catalog {bounds[c][i]}")
    z0 = model.transform.inverse_transform(q)
    model.lnprob_and_grad(z0)
    lnp = model.lnprob(z0 + 0.01)
    if linear:
        from forcepho.fitting import optimize_fluxes
        optimize_fluxes(p, cat)
        ctx.step()
    chain = np.array([q + 1e-7 * k * (1 + np.arange(len(q))) for k in range(3)])
    out = Result(chain=chain.copy())
    st = FakeStep()
    N = len(q)
    st.potential = type("P", (), {"_cov": 1.0 + np.arange(N * N, dtype=float).reshape(N, N)})()
    region = CircularRegion(K.RA0, K.DEC0, 1e-4)
    final, covs = out.fill(region, cat, fixed, model, bounds=bounds, step=st, patchID=7)
    for i in range(nsrc):
        for j, c in enumerate(names):
            zz = ref[0] if c == "ra" else ref[1] if c == "dec" else 0.0
            w = chain[:, i * npar + j] + zz
            ctx.check(np.allclose(out.chaincat[c][i], w, rtol=0, atol=1e-10), f"{where}: chain of {c} of source {i} is {out.chaincat[c][i]}, expected {w}")
            ctx.check(abs(final[c][i] - w[-1]) < 1e-10, f"{where}: final {c} of source {i} is {final[c][i]}, expected {w[-1]}")
        ctx.check(np.array_equal(covs[i], st.potential._cov[i * npar:(i + 1) * npar, i * npar:(i + 1) * npar]), f"{where}: covariance of source {i}")
    ctx.check(list(final["source_index"]) == list(keep["source_index"]) and list(final["id"]) == list(keep["id"]), f"{where}: sources of the final catalog")
    for b in bands:
        if b not in present:
            ctx.check(np.array_equal(final[b], keep[b]), f"{where}: flux in the absent band {b} changed")
    ctx.check(np.array_equal(cat, keep), f"{where}: the caller's catalog changed")
    ctx.check([x.decode() for x in out.bandlist] == present and [x.decode() for x in out.shapenames] == K.SHAPES, f"{where}: labels of the result")
    # the model is still the one that was prepared
    again = model.lnprob(z0 + 0.02)
    model2, q2 = K.make_patch(exps, ask, pf).prepare_model(active=cat, fixed=fixed, bounds=bounds)
    ctx.check(again == model2.lnprob(z0 + 0.02), f"{where}: the model changed between preparing and reporting")
    ctx.step(3)
    ctx.trace()
    ctx.outcome((case, np.round(lnp, 3)))


def endtoend_cases(tier):
    for nsrc in (1, 2, 3):
        for expb in [(1,), (1, 1), (2, 1), (1, 1, 1)]:
            nb = len(expb)
            for m in range(1, nb + 1):
                for order in itertools.permutations(range(nb), m):
                    for wb in (False, True):
                        for lin in (False, True):
                            for nf in (0, 2):
                                yield nsrc, expb, order, wb, lin, nf


def suites(tier):
    big = tier == "thorough"
    for n in (1, 2, 3, 4):
        K.splinefile(n)
    K.psffile("zero", {"B0": [K.psf(0, 1)]})
    forms = [dict(order=o, bands=b, shapes=s) for o in "CFT" for b in ("S", "U", "L") for s in ("S", "L")]
    return [
        Suite("vector", vector_cases(tier), run_vector, note="all scenes of 1-3 (4) sources of 5 types x bands x all fixed patterns; every single entry changed"),
        Suite("proposal", [(n, nb, r) for n in (1, 2, 3, 4) for nb in (1, 2, 3, 4) for r in (1, 3, 4)], run_proposal,
              note="all fixed patterns, repeated proposals"),
        Suite("catalog", [(n, nb, k) for n in (1, 2, 3) for nb in ((1, 2) if not big else (1, 2, 3)) for k in "GcsSg"], run_catalog,
              note="all column orders x all ordered band subsets"),
        Suite("bounds", [(n, nb, r) for n in (1, 2, 3, 4) for nb in (1, 2, 3) for r in ((0., 0.), (53.5, -27.25), (0.0, 12.5))], run_bounds,
              note="all column orders x ordered band subsets x shape lists x reference coordinates"),
        Suite("chain", [(n, nb, it, f) for n in (1, 2, 3) for nb in (1, 2, 3) for it in (1, 2, 3) for f in forms], run_chain,
              note="sources x bands x iterations x memory order x label types x source orders"),
        Suite("blocks", [(b, n, k, f) for b in (1, 2, 3, 4) for n in (1, 2, 3, 7) for k in range(-2, 3) if abs(k) < b
                         for f in ("C", "F", "T", "slice")], run_blocks),
        Suite("gradient", [(s, b) for s in (1, 2, 3, 4) for b in (1, 2, 3, 4)], run_gradient, note="every unit derivative"),
        Suite("zero", [(n, k, z) for n in range(1, 6) for k in "GsSc" for z in (None, (53.0, -27.0), (0., 0.))], run_zero),
        Suite("endtoend", endtoend_cases(tier), run_endtoend,
              note="sources x exposures x every ordered band subset x bounds x linear optimisation x fixed sources"),
    ]
