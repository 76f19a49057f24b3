"""C32: figures of chains and residuals, and sizes of combined sources.  Every small result and every
small set of pixels is written with the code's own writers, drawn by the plotting functions on real
(off-screen) axes in every short sequence of calls, and the artists are read back and compared with
what was written; combined sizes are compared with an independent rendering."""
import contextlib
import itertools
import os
import types

os.environ["MPLBACKEND"] = "Agg"
import numpy as np
from matplotlib import colors

from ..core import Suite
from .. import env
env.load_kernel()
from .. import kern as K
from . import c18 as R
from . import c27 as M

PROPERTY = "C32"
ASSUMPTIONS = ["drawn artists are judged through matplotlib's own objects, not pixels",
               "all residual values finite where a common scale is judged",
               "combined sizes are those of the pixel sums on the stamp"]
SHAPES = K.SHAPES


def P():
    from forcepho import postprocess
    return postprocess


@contextlib.contextmanager
def figures(nrow, ncol):
    import matplotlib.pyplot as pl
    fig, axes = pl.subplots(nrow, ncol, figsize=(2, 2), squeeze=False)
    try:
        yield fig, axes
    finally:
        pl.close(fig)


@contextlib.contextmanager
def pages():
    """the figures saved to PDF files, in order"""
    from matplotlib.backends.backend_pdf import PdfPages
    import matplotlib.pyplot as pl
    got = []
    old = PdfPages.savefig

    def savefig(self, figure=None, **kw):
        got.append(figure if figure is not None else pl.gcf())
    PdfPages.savefig = savefig
    try:
        yield got
    finally:
        PdfPages.savefig = old
        pl.close("all")


def curves(ax):
    """(horizontal lines, other lines) as (x, y); no chain is constant"""
    flat, rest = [], []
    for ln in ax.lines:
        x, y = np.asarray(ln.get_xdata(), dtype=float), np.asarray(ln.get_ydata(), dtype=float)
        (flat if len(y) > 1 and np.all(y == y[0]) else rest).append((x, y))
    for co in ax.collections:
        for seg in getattr(co, "get_segments", list)():
            flat.append((np.asarray(seg)[:, 0], np.asarray(seg)[:, 1]))
    return flat, rest


# ---- chains ----------------------------------------------------------------------------------

def result(d, idx, bands, niter, ntune, k, bounds, cov="diag"):
    res, truth = R.fill(idx, bands, bands, niter, ntune, k, 1, None, bounds, cov)
    fn = os.path.join(d, f"patch{k}_samples.h5")
    res.dump_to_h5(fn)
    return fn, truth


def check_panel(ctx, ax, samples, col, lim, truth, where):
    flat, rest = curves(ax)
    ctx.check(len(rest) == 1 and np.array_equal(rest[0][1], samples) and np.array_equal(rest[0][0], np.arange(len(samples))),
              f"{where}: the panel of {col} shows {[r[1].tolist()[:4] for r in rest]}, the samples are {samples.tolist()[:4]}")
    ctx.check(ax.get_ylabel() == col, f"{where}: the panel of {col} is labelled {ax.get_ylabel()!r}")
    if lim is not None:
        ctx.check(np.allclose(ax.get_ylim(), lim, rtol=1e-12, atol=1e-12), f"{where}: the panel of {col} spans {ax.get_ylim()}, not {tuple(lim)}")
    want = [] if truth is None else [truth]
    got = [float(f[1][0]) for f in flat]
    ctx.check(len(got) == len(want) and all(float(np.float64(a)) == float(b) for a, b in zip(got, want)), f"{where}: {col} is marked at {got}, the true value is {want}")
    ctx.step()


def run_chain(case, ctx):
    idx, nb, niter, ntune, bounds, mode, span = case
    bands = [f"B{i}" for i in range(nb)]
    with R.folder() as d:
        fn, t = result(d, idx, bands, niter, ntune, 1, bounds)
        for cls in (P().Samples,):
            s = cls(fn)
            want = R.expected(t["chain"], t["active"], bands, t["ref"])
            keep = s.chaincat.copy()
            for src in range(len(idx)):
                sub = bands if mode in ("all", "truth") else bands[-1:] if mode == "last" else bands[::-1] if mode == "reverse" else bands
                shapes = mode != "bands"
                cols = list(sub) + (SHAPES if shapes else [])
                truth = t["active"][src] if mode in ("truth", "last") else None
                kw = {} if span is None else dict(span=span)
                with figures(3, 4) as (fig, axes):
                    ask = None if mode in ("all", "truth") else list(sub)
                    keepask = None if ask is None else list(ask)
                    s.show_chain(src, bandlist=ask, axes=axes, show_shapes=shapes, truth=truth, **kw)
                    ctx.check(ask == keepask and s.bands == bands and s.shape_cols == SHAPES, f"{case}: drawing changed the list of parameters")
                    where = f"{case}: source {src} of {len(idx)}"
                    for i, col in enumerate(cols):
                        v = want[src, col]
                        if bounds:
                            lim = t["bounds"][col][src]
                        else:
                            p = 0.999999426697 if span is None else span
                            lim = np.percentile(v, [50 - 50 * p, 50 + 50 * p])
                            if lim[0] == lim[1]:
                                lim = None
                        check_panel(ctx, axes.flat[i], v, col, lim, None if truth is None else t["active"][col][src], where)
                    for a in axes.flat[len(cols):]:
                        ctx.check(not a.lines, f"{where}: more panels than parameters")
            ctx.check(R.same_struct(s.chaincat, keep), f"{case}: drawing changed the samples")
            ctx.trace()
    ctx.state(case)
    ctx.outcome((mode, bool(bounds)))


def chain_cases(tier):
    sets = [[0], [5, 2]] if tier == "quick" else [[0], [3], [4, 1], [2, 0, 5]]
    for idx in sets:
        for nb in (1, 2, 3):
            for niter, ntune in ((1, 0), (4, 2)) if tier == "quick" else ((1, 0), (2, 1), (4, 0), (4, 2)):
                for bounds in (False, True):
                    for mode in ("all", "truth", "last", "reverse", "bands"):
                        for span in (None, 0.5):
                            yield idx, nb, niter, ntune, bounds, mode, span


def run_chainpdf(case, ctx):
    idx, nb, niter, ntune, bounds = case
    bands = [f"B{i}" for i in range(nb)]
    with R.folder() as d, pages() as got:
        fn, t = result(d, idx, bands, niter, ntune, 1, bounds)
        want = R.expected(t["chain"], t["active"], bands, t["ref"])
        R.quiet(P().chain_pdf, P().Samples(fn), os.path.join(d, "chain.pdf"))
        ctx.check(len(got) == len(idx), f"{case}: {len(got)} pages for {len(idx)} sources")
        for src, fig in enumerate(got):
            seen = {}
            for ax in fig.axes:
                flat, rest = curves(ax)
                if rest:
                    ctx.check(ax.get_ylabel() not in seen, f"{case}: {ax.get_ylabel()} drawn twice for source {src}")
                    seen[ax.get_ylabel()] = ax
            ctx.check(set(seen) == set(bands + SHAPES), f"{case}: page {src} shows {sorted(seen)}")
            for col, ax in seen.items():
                check_panel(ctx, ax, want[src, col], col, t["bounds"][col][src] if bounds else None, t["active"][col][src], f"{case}: page {src}")
            title = fig._suptitle.get_text() if fig._suptitle is not None else ""
            ctx.check(str(t["active"]["id"][src]) in title, f"{case}: page {src} is titled {title!r}, not source {t['active']['id'][src]}")
    ctx.state(case)
    ctx.outcome((len(idx), nb, ntune > 0))
    ctx.trace()


# ---- residuals -------------------------------------------------------------------------------

def image_of(ax):
    ctx_im = ax.images
    return (np.ma.filled(np.ma.asarray(ctx_im[0].get_array(), dtype=float), np.nan), ctx_im[0].get_extent(), ctx_im[0].get_clim(), ctx_im[0].origin) if len(ctx_im) == 1 else None


def value_at(shown, x, y):
    """value shown at the position of a pixel, NaN outside"""
    arr, (x0, x1, y0, y1), _, origin = shown
    ny, nx = arr.shape
    i, j = int(np.floor((x - x0) / (x1 - x0) * nx)), int(np.floor((y - y0) / (y1 - y0) * ny))
    if origin != "lower":
        j = ny - 1 - j
    return arr[j, i] if 0 <= i < nx and 0 <= j < ny else np.nan


def exposure(name, mask, nx, k, npad, zero):
    e = R.pixset(name, mask, nx, k, npad)
    n = len(e["data"]) - npad
    e["residual"] = (0.25 * e["data"] + np.cos(np.arange(len(e["data"])))).astype(np.float32)
    w = np.ones(n + npad, dtype=np.float32) * (1 + k)
    if zero == "one":
        w[0] = 0
    elif zero == "alternate":
        w[1:n:2] = 0
    w[n:] = 0
    e["ierr"] = w
    return e


def check_shown(ctx, ax, e, what, nx, npad, where):
    got = image_of(ax)
    ctx.check(got is not None, f"{where}: the panel of the {what} holds {len(ax.images)} images")
    data, res, w = (np.asarray(e[c], dtype=np.float64) for c in ("data", "residual", "ierr"))
    val = dict(data=data, model=data - res, residual=np.where(w == 0, np.nan, res))[what]
    n = len(data) - npad
    at = {(int(x), int(y)): v for x, y, v in zip(e["xpix"][:n], e["ypix"][:n], val[:n])}
    for x in range(nx + 1):
        for y in range(nx + 1):
            g, v = value_at(got, x, y), at.get((x, y), np.nan)
            ctx.check((np.isnan(g) and np.isnan(v)) or abs(g - v) <= 1e-4 * abs(v) + 1e-4,
                      f"{where}: the {what} panel shows {g} at pixel ({x}, {y}), the file has {v}")
    ctx.step()
    return got[2]


def run_show(case, ctx):
    lo, hi, nx, npad, zero, scale = case
    with R.folder() as d:
        for mask in range(max(lo, 1), hi):
            exps = [exposure("B0/a", 0b110, 3, 3, 0, None), exposure("B1/v1/b", mask, nx, mask % 3, npad, zero)]
            p = R.FakePatch(exps)
            fn = os.path.join(d, "patch0_residuals.h5")
            R.write_residuals(p, fn, residuals=p.split_pix("residual"))
            r = P().Residuals(fn)
            for by in ("number", "name"):
                where = f"{case}: pixels {mask:b}, exposure by {by}"
                kw = {} if scale is None else dict(vmin=scale[0], vmax=scale[1])
                with figures(1, 3) as (fig, axes):
                    if by == "number":
                        out = r.show(1, axes=axes[0], **kw)
                    else:
                        out = r.show(exp="B1/v1/b", axes=axes[0], **kw)
                    lims = [check_shown(ctx, ax, exps[1], what, nx, npad, where) for ax, what in zip(axes[0], ("data", "residual", "model"))]
                    ctx.check(lims[0] == lims[1] == lims[2], f"{where}: the panels are on different scales {lims}")
                    if scale is not None:
                        ctx.check(lims[0] == tuple(scale), f"{where}: scale {lims[0]}, asked for {scale}")
                    elif zero is None and npad == 0:
                        e = exps[1]
                        v = np.concatenate([e["data"], e["residual"], e["data"] - e["residual"]])
                        ctx.check(np.allclose(lims[0], (v.min(), v.max()), rtol=1e-5, atol=1e-5), f"{where}: scale {lims[0]}, values from {v.min()} to {v.max()}")
                    ctx.check(len(out) == 3 and np.array_equal(out[0], exps[1]["data"]) and np.allclose(out[1], exps[1]["data"] - exps[1]["residual"], rtol=1e-5, atol=1e-4)
                              and np.array_equal(np.isnan(out[2]), exps[1]["ierr"] == 0), f"{where}: returned data, model and residual")
            r.handle.close()
            ctx.trace()
        ctx.extra_states += hi - max(lo, 1)
    ctx.outcome(case[2:])


def show_cases(tier):
    bits = 9
    for npad in (0, 2):
        for zero in (None, "one", "alternate"):
            for scale in (None, (-3.0, 7.0)):
                if tier == "quick":
                    for m in (0b1, 0b110, 0b100010, 0b111001101, 0b111111111, 0b001010000):
                        yield m, m + 1, 3, npad, zero, scale
                else:
                    for a in range(0, 1 << bits, 64):
                        yield a, a + 64, 3, npad, zero, scale


CALLS = {"default": {}, "magenta": dict(color="magenta"), "circle": dict(marker="o"), "given": dict(plot_kwargs=dict(marker="s", linestyle="-", color="blue")),
         "both": dict(plot_kwargs=dict(marker="s", linestyle="-", color="blue"), color="green")}
BASE = dict(marker="x", linestyle="", color="red")


def style(c):
    k = dict(CALLS[c])
    want = dict(k.pop("plot_kwargs", BASE))
    want.update(k)
    return want


def run_marks(case, ctx):
    """every sequence of calls: style and places of the marks do not depend on earlier calls"""
    seq, nsrc, naxes = case
    with R.folder() as d:
        exps = [exposure("B0/a", 0b110, 3, 3, 0, None), exposure("B1/b", 0b1010, 3, 1, 0, None)]
        p = R.FakePatch(exps, ref=(53.0, -27.0))
        p.CW = np.array([[[[2e3, 3e2], [-4e2, 5e3]]], [[[-1e3, 0.0], [0.0, 3e3]]]])
        p.crval = np.array([[[1e-3, 2e-3]], [[-1e-3, 5e-4]]])
        p.crpix = np.array([[[1.0, 2.0]], [[0.5, -0.25]]])
        fn = os.path.join(d, "patch0_residuals.h5")
        R.write_residuals(p, fn, residuals=p.split_pix("residual"))
        r = P().Residuals(fn)
        ra, dec = 53.0 + 1e-3 * np.arange(1, nsrc + 1), -27.0 + 5e-4 * np.arange(nsrc) ** 2
        given = {c: dict(CALLS[c].get("plot_kwargs", {})) for c in seq}
        for step, c in enumerate(seq):
            e = step % 2
            kw = {k: (dict(v) if isinstance(v, dict) else v) for k, v in CALLS[c].items()}
            with figures(1, 3) as (fig, axes):
                ax = axes[0, 0] if naxes == 0 else list(axes[0, :naxes])
                r.mark_sources(ra.copy(), dec.copy(), axes=ax, **(dict(e=e) if step < 2 else dict(exp=p.epaths[e])), **kw)
                sky = np.array([ra, dec]).T - (p.crval[e, 0] + np.array([53.0, -27.0]))
                pix = sky @ p.CW[e, 0].T + p.crpix[e, 0]
                want = style(c)
                for j, a in enumerate(axes[0]):
                    where = f"{case}: call {step} ({c}), panel {j}"
                    if j >= max(naxes, 1):
                        ctx.check(not a.lines, f"{where}: marks in a panel that was not given")
                        continue
                    ctx.check(len(a.lines) == 1, f"{where}: {len(a.lines)} sets of marks")
                    ln = a.lines[0]
                    got = np.array([ln.get_xdata(), ln.get_ydata()]).T
                    ctx.check(got.shape == pix.shape and np.allclose(got, pix, rtol=0, atol=1e-6), f"{where}: marks at {got.tolist()}, the sources are at {pix.tolist()}")
                    ctx.check(ln.get_marker() == want["marker"] and colors.same_color(ln.get_color(), want["color"])
                              and (ln.get_linestyle() in ("None", "", " ", "none")) == (want["linestyle"] == ""),
                              f"{where}: drawn as {ln.get_marker()} {ln.get_color()} {ln.get_linestyle()}, asked for {want}")
            ctx.step()
        r.handle.close()
    ctx.state(case)
    ctx.outcome(seq[-1])
    ctx.trace()


def run_respdf(case, ctx):
    """every patch of a run on some page, n to a page, in order"""
    npatch, n, e, fixed = case
    with R.folder() as d:
        root = os.path.join(d, "run")
        os.makedirs(os.path.join(root, "patches"))
        exps = {}
        for k in range(npatch):
            res, t = R.fill([2 * k], ["B0", "B1"], ["B0", "B1"], 2, 0, k, 2 if fixed else None, None, True, None,
                            extra=dict(message="converged"))
            res.dump_to_h5(os.path.join(root, "patches", f"patch{k}_samples.h5"))
            ex = [exposure("B0/a", 0b110110 + k, 3, k, 0, None), exposure("B1/b", 0b1010 + 3 * k, 3, k + 1, 0, None)]
            p = R.FakePatch(ex, ref=t["ref"])
            R.write_residuals(p, os.path.join(root, "patches", f"patch{k}_residuals.h5"), residuals=p.split_pix("residual"))
            exps[k] = (ex, p, t)
        with pages() as got:
            R.quiet(P().residual_pdf, root=root, n=n, e=e)
            rows = []
            for fig in got:
                axes = np.array(fig.axes).reshape(-1, 3)
                ctx.check(len(axes) <= n, f"{case}: a page of {len(axes)} patches")
                rows += [a for a in axes if any(x.images for x in a)]
            ctx.check(len(rows) == npatch, f"{case}: {len(rows)} patches on {len(got)} pages, the run has {npatch}")
            ctx.check(len(got) == -(-npatch // n), f"{case}: {len(got)} pages for {npatch} patches, {n} to a page")
            for k, axes in enumerate(rows):
                ex, p, t = exps[k]
                for ax, what in zip(axes, ("data", "model", "residual")):
                    check_shown(ctx, ax, ex[e], what, 3, 0, f"{case}: patch {k}")
                if fixed:
                    sky = np.array([t["fixed"]["ra"], t["fixed"]["dec"]]).T - (p.crval[e, 0] + np.array(t["ref"]))
                    pix = sky @ p.CW[e, 0].T + p.crpix[e, 0]
                    got_ = [np.array([ln.get_xdata(), ln.get_ydata()]).T for ln in axes[2].lines]
                    ctx.check(len(got_) == 1 and np.allclose(got_[0], pix, rtol=0, atol=1e-6), f"{case}: fixed sources of patch {k} marked at {got_}, expected {pix.tolist()}")
    ctx.state(case)
    ctx.outcome((npatch, n))
    ctx.trace()


# ---- sizes of combined sources ---------------------------------------------------------------

def combined(st, cat, band):
    st.psf = [(1.0, np.zeros(2), np.eye(2))]
    return sum(st.image("galaxy", {c: float(row[c]) for c in SHAPES}, float(row[band])) for row in cat)


def run_rhalf(case, ctx):
    nsrc, pick, band, niter, ntune, step, wk = case
    bands = ["B0", "B1"]
    with R.folder() as d:
        os.makedirs(os.path.join(d, "data", "stores"))
        os.makedirs(os.path.join(d, "work"))
        import shutil
        shutil.copy(K.splinefile(3), os.path.join(d, "data", "stores", "sersic_splinedata_large.h5"))
        st = M.Stamp(wk, "pixels", 2, band, 1.7, nx=9, ny=7, k=1)
        act = np.zeros(nsrc, dtype=[("source_index", np.int32), ("id", np.int64)] + [(c, np.float64) for c in bands + SHAPES])
        chain = np.zeros((niter, nsrc * 8))
        for it in range(niter):
            for s in range(nsrc):
                p = M.params("galaxy", s, 0)
                v = [3.0 + s + 0.5 * it, 2.0 + 0.7 * s * it + s, p["ra"] - K.RA0 + 2e-6 * it, p["dec"] - K.DEC0 - 3e-6 * it * s,
                     p["q"] - 0.01 * it, p["pa"] + 0.1 * it, p["sersic"] + 0.03 * it, p["rhalf"] + 0.004 * it]
                names = bands + ["ra", "dec", "q", "pa", "sersic", "rhalf"]
                row = dict(zip(names, v))
                chain[it, s * 8:(s + 1) * 8] = [row[c] for c in bands + SHAPES]
        from forcepho.utils import make_chaincat
        res = P().Samples(None)
        res.chain, res.active, res.n_sample = chain, act, niter - ntune
        res.chaincat = make_chaincat(chain, bands, act, (K.RA0, K.DEC0), shapes=SHAPES)
        sel = slice(None) if pick == "all" else pick
        here = os.getcwd()
        os.chdir(os.path.join(d, "work"))
        try:
            got = np.asarray(P().combined_rhalf(res, st.stamp, band, **({} if pick == "all" else dict(sources=sel)), step=step))
            last, scene = P().forcepho_slow_model(res.get_sample_cat(niter - 1)[sel], st.stamp, band)
            from forcepho.slow.psf import PointSpreadFunction
            wide, _ = P().forcepho_slow_model(res.get_sample_cat(0), st.stamp, band, psf=PointSpreadFunction(st.mix.copy()), splinedata=K.splinefile(3))
        finally:
            os.chdir(here)
        want = []
        keeppsf = st.psf
        for it in range(ntune, niter, step):
            im = combined(st, res.get_sample_cat(it)[sel], band)
            x, y = (st.x * im).sum() / im.sum(), (st.y * im).sum() / im.sum()
            r = np.hypot(st.x - x, st.y - y)
            o = np.argsort(r, kind="stable")
            want.append(np.interp(0.5, np.cumsum(im[o]) / im.sum(), r[o]))
        ctx.check(got.shape == (len(want),), f"{case}: {got.shape} sizes, {len(want)} samples asked for")
        ctx.check(np.allclose(got, want, rtol=1e-6, atol=0), f"{case}: half-light radii {got.tolist()}, the rendered scenes have {want}")
        M.same_image(ctx, np.asarray(last).reshape(-1), combined(st, res.get_sample_cat(niter - 1)[sel], band), f"{case}: scene of the last sample")
        st.psf = keeppsf
        both = sum(st.image("galaxy", {c: float(row[c]) for c in SHAPES}, float(row[band])) for row in res.get_sample_cat(0))
        M.same_image(ctx, np.asarray(wide).reshape(-1), both, f"{case}: scene with a given point spread")
        ctx.check(len(scene) == len(res.active[sel]), f"{case}: {len(scene)} sources rendered")
    ctx.state(case)
    ctx.outcome((nsrc, str(pick)))
    ctx.trace()


def rhalf_cases(tier):
    for nsrc in (1, 2, 3):
        for pick in ["all", [0], slice(0, 1)] + ([[1], [1, 0], slice(1, None)] if nsrc > 1 else []):
            for band in ("B0", "B1"):
                for niter, ntune, step in ((1, 0, 5), (3, 1, 1), (4, 0, 3), (4, 1, 2)):
                    for wk in (0, 3) if tier == "quick" else range(6):
                        yield nsrc, pick, band, niter, ntune, step, wk


def suites(tier):
    q = tier == "quick"
    names = list(CALLS)
    return [Suite("chains", chain_cases(tier), run_chain, note="results x bands x bounds x options: panels of one source"),
            Suite("chainpages", [(i, nb, n, t, b) for i in ([3], [4, 0, 2]) for nb in (1, 2, 3, 9) for n, t in ((2, 1), (4, 0), (4, 2), (5, 3)) for b in (False, True)],
                  run_chainpdf, note="one page per source"),
            Suite("residuals", show_cases(tier), run_show, note="pixel sets x padding x weights x scales"),
            Suite("marks", [(s, ns, na) for n in ((1, 2) if q else (1, 2, 3)) for s in itertools.product(names, repeat=n) for ns in (1, 3) for na in (0, 1, 2)],
                  run_marks, note="every sequence of up to 2 (3) styles x sources x panels"),
            Suite("residualpages", [(p, n, e, f) for p in range(1, 6 if q else 9) for n in (1, 2, 3) for e in (0, 1) for f in (0, 1)], run_respdf,
                  note="patches of a run x patches per page"),
            Suite("sizes", rhalf_cases(tier), run_rhalf, note="sources x selections x samples x stamps")]
