"""C26: summaries of posterior samples and profile arithmetic.  Every combination of row
count, sample count, band list, percentile list, group definition and file list from finite
alphabets goes through the real functions and is compared with a per-element reference; the
profile formulas are compared with direct quadrature for every combination of size, index,
aperture and flux."""
import contextlib
import itertools
import os
import shutil
import tempfile

import numpy as np
from astropy.io import fits
from scipy.integrate import quad
from scipy.optimize import brentq

from ..core import Suite
from .. import env
env.load_kernel()
from .. import kern as K

PROPERTY = "C26"
ASSUMPTIONS = ["isophotes fainter than the central surface brightness", "Sersic indices 0.7 to 5", "groups are named by numbers"]
EXT = ["MOMENT", "SAMPLES", "BEST", "PERCENTILES"]


def mod():
    from forcepho.utils import catalog
    return catalog


@contextlib.contextmanager
def folder():
    d = tempfile.mkdtemp(dir=K.scratch())
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def chaincat(n, npoint, bands, base=0, shapes=("ra", "dec", "pa", "q", "sersic", "rhalf"), lnp=True):
    dt = [("id", "U30"), ("source_index", "<i4"), ("wall", "<f4"), ("lnp_best", "<f8")]
    dt += [("lnp", "<f8", (npoint,))] * lnp + [(c, "<f8", (npoint,)) for c in list(bands) + list(shapes)]
    c = np.zeros(n, dtype=dt)
    for i in range(n):
        c["id"][i] = str(101 + 3 * (base + i))
        c["source_index"][i], c["wall"][i], c["lnp_best"][i] = base + i, 2.5 * i + base, -7.0 * i - base
    for j, col in enumerate(list(bands) + list(shapes) + ["lnp"] * lnp):
        for i in range(n):
            k = np.arange(npoint)
            c[col][i] = np.sin(1.7 * k * (j + 1) + i + base) * (j + 2) + 10 * j - 3 * i + (k * 13 % 5)
    return c


def pct(v, q):
    """linear-interpolation percentile of a list"""
    v = sorted(float(x) for x in v)
    h = (len(v) - 1) * q / 100.0
    lo = int(np.floor(h))
    hi = min(lo + 1, len(v) - 1)
    return v[lo] + (h - lo) * (v[hi] - v[lo])


def run_pct(case, ctx):
    C = mod()
    n, npoint, bands, ps, src = case["n"], case["npoint"], case["bands"], case["pcts"], case["source"]
    cat = chaincat(n, npoint, bands)
    keep = cat.copy()
    if src == "file":
        with folder() as d:
            fn = os.path.join(d, "c.fits")
            C.write_table(fn, [cat], FILTERS=",".join(bands))
            ecat, hdr = C.pctile_cat(fn, percentiles=ps)
    else:
        ecat, hdr = C.pctile_cat(cat, percentiles=ps)
    ctx.step()
    ctx.check(np.array_equal(cat, keep), "the samples are left alone")
    ctx.check(len(ecat) == n and ecat.dtype.names == cat.dtype.names, "a row for every source and every column", got=ecat.dtype.names)
    sampled = [c for c in cat.dtype.names if cat.dtype[c].shape]
    for c in cat.dtype.names:
        for i in range(n):
            if c in sampled:
                want = [pct(cat[c][i], q) for q in ps]
                ctx.check(np.allclose(np.ravel(ecat[c][i]), want, rtol=1e-9, atol=1e-9), "percentiles of the samples of each source, in the given order",
                          column=c, row=i, got=ecat[c][i], want=want)
            else:
                g = ecat[c][i]
                g = g.decode() if isinstance(g, bytes) else g
                ctx.check((g.strip() if c == "id" else g) == cat[c][i], "columns without samples are kept", column=c)
    ctx.check([float(x) for x in str(hdr["PCTS"]).split(",")] == [float(p) for p in ps], "the header lists the percentiles", got=hdr["PCTS"])
    ctx.check(sorted(hdr["SMPLCOLS"].split(",")) == sorted(sampled), "the header lists the sampled columns", got=hdr["SMPLCOLS"])
    ctx.state(case)
    ctx.outcome((n, len(ps)))
    ctx.trace()


def run_combine(case, ctx):
    C = mod()
    n, npoint, bands, groups = case["n"], case["npoint"], case["bands"], case["groups"]
    cat = chaincat(n, npoint, bands)
    keep = cat.copy()
    ident = [int(i) for i in cat["id"]]
    gdef = {g: [ident[m] for m in mem] for g, mem in groups}
    out, hdr = C.combine_chains(cat, list(bands), groups=gdef)
    ctx.step()
    ctx.check(np.array_equal(cat, keep), "the samples are left alone")
    ctx.check(len(out) == len(groups), "a row for every group", got=len(out))
    for i, (g, mem) in enumerate(groups):
        ctx.check(float(out["id"][i]) == float(g), "rows carry the identifier of their group", got=out["id"][i], want=g)
        for b in bands:
            want = [sum(cat[b][m][k] for m in mem) for k in range(npoint)]
            ctx.check(np.allclose(out[b][i], want, rtol=1e-12, atol=1e-9), "fluxes are summed over the members sample by sample", band=b, got=out[b][i], want=want)
        for c in ("ra", "dec"):
            want = [sum(cat[c][m][k] for m in mem) / len(mem) for k in range(npoint)]
            ctx.check(np.allclose(out[c][i], want, rtol=1e-12, atol=1e-9), "positions are averaged over the members sample by sample", column=c)
        ctx.check([int(x) for x in hdr[f"G{g}"].split(",")] == gdef[g], "the header lists the members of each group", got=hdr)
    ctx.state(case)
    ctx.outcome(len(groups))
    ctx.trace()


def same(ctx, hdu, cat, msg):
    ctx.check(hdu.data is not None and len(hdu.data) == len(cat), msg + ": number of rows", got=None if hdu.data is None else len(hdu.data), want=len(cat))
    ctx.check(tuple(hdu.data.dtype.names) == cat.dtype.names, msg + ": columns", got=hdu.data.dtype.names)
    for c in cat.dtype.names:
        g = hdu.data[c]
        g = [x.strip() for x in g] if c == "id" else np.array(g).reshape(len(cat), -1)
        w = list(cat[c]) if c == "id" else np.array(cat[c]).reshape(len(cat), -1)
        ctx.check(np.array_equal(g, w), msg + ": values", column=c, got=g, want=w)


def run_table(case, ctx):
    C = mod()
    bands, npoint = case["bands"], case["npoint"]
    parts = []
    with folder() as d:
        base = 0
        names = []
        for f, n in enumerate(case["rows"]):
            tabs = [chaincat(n, k, bands, base=base + 11 * e, lnp=(k > 3)) for e, k in enumerate((2, npoint, 1, 3))]
            base += n
            keep = [t.copy() for t in tabs]
            fn = os.path.join(d, f"{7 - f}.fits")      # the order given is not the order of the names
            if f % 2 == 0:                             # an earlier version of the same file is replaced
                C.write_table(fn, tabs[::-1] + tabs[:1], extnames=["OLD"], NFILE=-1)
            ret = C.write_table(fn, tabs, extnames=EXT if case["named"] else [], FILTERS=",".join(bands), NFILE=f)
            ctx.step()
            ctx.check(all(np.array_equal(a, b) for a, b in zip(tabs, keep)), "writing leaves the tables alone")
            ctx.check(len(ret) == 5, "the written tables are returned")
            with fits.open(fn) as h:
                ctx.check(len(h) == 5, "an extension for every table", got=len(h))
                for e, t in enumerate(tabs):
                    same(ctx, h[e + 1], t, "table as written")
                    ctx.check(h[e + 1].header["FILTERS"] == ",".join(bands) and h[e + 1].header["NFILE"] == f, "header keywords of every table")
                    if case["named"]:
                        same(ctx, h[EXT[e]], t, "table by its name")
            parts.append(tabs)
            names.append(fn)
        out = os.path.join(d, "all.fits")
        if case["named"]:
            C.append_catalogs(names[:1], out)
        C.append_catalogs(names, out)
        ctx.step()
        with fits.open(out) as h:
            for e in range(4):
                same(ctx, h[EXT[e]], np.concatenate([p[e] for p in parts]), "combined table, files in the given order")
                ctx.check(h[EXT[e]].header["FILTERS"] == ",".join(bands), "combined tables keep the list of bands")
    ctx.state(case)
    ctx.outcome((len(case["rows"]), case["named"]))
    ctx.trace()


# ---- profiles ----------------------------------------------------------------
_BN = {}


def flux_within(r, rh, n, b):
    """2 pi int exp(-b (r/rh)^(1/n)) r dr, in t = (r/rh)^(1/n)"""
    top = (r / rh) ** (1 / n) if np.isfinite(r) else 60.0 + 8 * n
    return 2 * np.pi * rh ** 2 * n * quad(lambda t: np.exp(-b * t) * t ** (2 * n - 1), 0, top, limit=400, epsabs=0, epsrel=1e-11,
                                          points=None)[0]


def bn(n):
    if n not in _BN:
        _BN[n] = brentq(lambda b: flux_within(1.0, 1.0, n, b) / flux_within(np.inf, 1.0, n, b) - 0.5, 0.2, 14, xtol=1e-12)
    return _BN[n]


def run_profile(case, ctx):
    from forcepho.utils import profile as P
    n, rh = case["sersic"], case["rhalf"]
    b = bn(n)
    tot = flux_within(np.inf, rh, n, b)
    radii = np.array(case["radii"]) * rh
    got = P.frac_sersic(radii, rhalf=rh, sersic=n)
    want = [flux_within(r, rh, n, b) / tot for r in radii]
    ctx.check(np.allclose(got, want, rtol=1e-6, atol=1e-9), "fraction of the flux within a radius", got=got, want=want)
    ctx.check(abs(P.frac_sersic(rh, rhalf=rh, sersic=n) - 0.5) < 1e-9, "half of the flux is within the half-light radius")
    ctx.step(2)

    def first(r):
        top = (r / rh) ** (1 / n) if np.isfinite(r) else 60.0 + 12 * n
        return 2 * np.pi * rh ** 3 * n * quad(lambda t: np.exp(-b * t) * t ** (3 * n - 1), 0, top, limit=400, epsabs=0, epsrel=1e-10)[0]
    for r in [None] + list(radii[radii > 0]):
        g = P.kron_radius(rh, n, rmax=r)
        w = first(np.inf if r is None else r) / (tot if r is None else flux_within(r, rh, n, b))
        ctx.check(np.isclose(g, w, rtol=1e-6), "the Kron radius is the light-weighted mean radius (inside the limit)", rmax=r, got=g, want=w)
        ctx.step()
    for lum in (1.0, 12.5):
        for fr in (None, 0.7 * rh, 2.5 * rh):
            enc = tot if fr is None else flux_within(fr, rh, n, b)
            want = lum / enc * np.exp(-b)            # brightness at rhalf of the profile with that enclosed flux
            g = P.I_eff(lum, rh, flux_radius=fr, sersic=n)
            ctx.check(np.isclose(g, want, rtol=1e-6), "surface brightness at the half-light radius", got=g, want=want)
            for x in (0.1, 0.6, 1.0, 2.0, 4.0):
                iso = lum / enc * np.exp(-b * x ** (1 / n))
                g = P.isophotal_radius(iso, lum, rh, flux_radius=fr, sersic=n)
                ctx.check(np.isclose(g, x * rh, rtol=1e-6), "the isophotal radius is where the profile has that brightness", got=g, want=x * rh)
                ctx.step(2)
    # arrays of sources
    nn, rr = np.array([n, 1.0, 2.5]), np.array([rh, 0.3, 1.1])
    for fn, args in ((P.kron_radius, ()), (P.I_eff, None)):
        if args is None:
            g, w = P.I_eff(np.array([1.0, 2.0, 3.0]), rr, sersic=nn), [P.I_eff(l, a, sersic=s) for l, a, s in zip([1.0, 2.0, 3.0], rr, nn)]
        else:
            g, w = fn(rr, nn), [fn(a, s) for a, s in zip(rr, nn)]
        ctx.check(np.allclose(g, w, rtol=1e-12), "arrays of sources are treated one by one")
    ctx.state(case)
    ctx.outcome((n, rh))
    ctx.trace()


def suites(tier):
    deep = tier != "quick"
    bandsets = [["F090W"], ["F200W", "F090W"], ["CLEAR"]] + ([["A", "B", "C"]] if deep else [])
    pcts = [[16, 50, 84], [50], [2.5, 97.5], [84, 16], [0, 100, 33.3, 50, 99.9]]
    pc = [dict(n=n, npoint=k, bands=b, pcts=p, source=s) for n in (1, 2, 4) for k in ((2, 4, 5, 8, 17) if not deep else (2, 4, 5, 6, 7, 8, 17, 64))
          for b in bandsets for p in pcts for s in ("array", "file")]
    co = []
    for n in (1, 2, 3, 4):
        subs = [m for r in range(1, n + 1) for m in itertools.permutations(range(n), r)] if n < 4 else \
            [m for r in range(1, 5) for m in itertools.combinations(range(4), r)]
        defs = [[("7", a)] for a in subs] + [[(12, a), (3, c)] for a, c in itertools.permutations(subs, 2)]
        if not deep and n > 2:
            defs = defs[:len(subs)] + defs[len(subs)::3]
        co += [dict(n=n, npoint=k, bands=b, groups=g) for g in defs for k in (1, 5) for b in bandsets[:2]]
    co = [c for c in co if c["npoint"] > 1]
    tb = [dict(rows=list(r), npoint=k, bands=b, named=nm) for m in (1, 2, 3) for r in itertools.product((1, 2, 3) if deep else (1, 3), repeat=m)
          for k in (2, 6) for b in (bandsets if deep else bandsets[1:]) for nm in (True, False)]
    pr = [dict(sersic=n, rhalf=rh, radii=[0.0, 0.2, 1.0, 3.0, 10.0]) for n in ((0.7, 1.0, 1.5, 2.0, 3.3, 4.0, 5.0) if not deep else np.round(np.arange(0.7, 5.05, 0.1), 2).tolist())
          for rh in (0.05, 0.4, 1.0, 2.3)]
    return [Suite("percentiles", pc, run_pct, note="rows x samples x bands x percentile lists x array/file"),
            Suite("groups", co, run_combine, note="group definitions x bands"),
            Suite("tables", tb, run_table, note="row counts of up to three files x bands x samples"),
            Suite("profiles", pr, run_profile, note="index x size x apertures x fluxes")]
