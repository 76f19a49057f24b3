"""C30: corner plots.  Every ordering of small sample sets, with every assignment of weights from
a finite alphabet, through the quantiles, ranges, histograms and contour levels; and every
combination of the drawing options through whole corner plots on real (off-screen) axes, whose
artists are read back and compared with the samples."""
import itertools
import os

os.environ["MPLBACKEND"] = "Agg"
import numpy as np

from ..core import Suite
from .. import env
env.load_kernel()
from .. import kern as K        # noqa: F401  (forcepho from the tree under test)

PROPERTY = "C30"
ASSUMPTIONS = ["samples of one parameter are distinct where weighted quantiles are asked for", "weights are positive",
               "drawn artists are judged through matplotlib's own objects, not pixels"]
VAL = [-1.5, 0.0, 0.25, 2.0, 7.0, 11.0]
QS = [0.0, 0.05, 0.16, 0.5, 0.77, 0.84, 1.0]


def mod():
    from forcepho.utils import corner
    return corner


def pct(v, q):
    v = sorted(float(x) for x in v)
    h = (len(v) - 1) * q
    lo = min(int(np.floor(h)), len(v) - 1)
    hi = min(lo + 1, len(v) - 1)
    return v[lo] + (h - lo) * (v[hi] - v[lo])


# ---- quantiles -------------------------------------------------------------------------------

def run_quantiles(case, ctx):
    n, wts = case
    C = mod()
    w = None if wts is None else np.array(wts, dtype=float)
    base = np.array(VAL[:n])
    for perm in itertools.permutations(range(n)):
        x = base[list(perm)]
        ww = None if w is None else w[list(perm)]
        where = f"samples {x.tolist()}, weights {None if ww is None else ww.tolist()}"
        kx, kw = x.copy(), None if ww is None else ww.copy()
        got = np.array(C._quantile(x, QS, weights=ww), dtype=float)
        ctx.check(np.array_equal(x, kx) and (ww is None or np.array_equal(ww, kw)), f"{where}: the inputs were changed")
        ctx.check(got.shape == (len(QS),), f"{where}: {got.shape} quantiles for {len(QS)} asked for")
        ctx.check(bool(np.all(np.diff(got) >= 0)), f"{where}: the quantiles {got.tolist()} of {QS} decrease")
        ctx.check(got[0] == base.min() and got[-1] == base.max(), f"{where}: quantiles 0 and 1 are {got[0]} and {got[-1]}")
        if w is None or np.all(w == w[0]):
            want = [pct(x, q) for q in QS]
            ctx.check(np.allclose(got, want, rtol=1e-12, atol=1e-12), f"{where}: quantiles {QS} are {got.tolist()}, expected {want}")
        if w is not None:
            tot, big = w.sum(), w.max() / w.sum()
            for q, v in zip(QS, got):
                lo, hi = w[base < v - 1e-12].sum() / tot, w[base <= v + 1e-12].sum() / tot
                ctx.check(lo - 2 * big - 1e-9 <= q <= hi + 2 * big + 1e-9,
                          f"{where}: quantile {q} is {v}, below which there are {lo:.3f} to {hi:.3f} of the weight")
            ident = np.array(C._quantile(base, QS, weights=w), dtype=float)
            ctx.check(np.allclose(got, ident, rtol=1e-12, atol=1e-12), f"{where}: quantiles {got.tolist()}, in another order of the samples {ident.tolist()}")
            scaled = np.array(C._quantile(x, QS, weights=ww * 8), dtype=float)
            ctx.check(np.allclose(got, scaled, rtol=1e-12, atol=1e-12), f"{where}: quantiles change with the units of the weights")
        # one at a time, and of several parameters at once
        for q, v in zip(QS, got):
            one = np.array(C._quantile(x, q, weights=ww), dtype=float)
            ctx.check(one.shape == (1,) and abs(one[0] - v) < 1e-12, f"{where}: quantile {q} alone is {one.tolist()}, in a list {v}")
        many = np.array(C.quantile(np.array([x, 3 * x + 1, -x]), QS, weights=ww))
        want = np.array([got, 3 * got + 1])
        ctx.check(many.shape == (3, len(QS)) and np.allclose(many[:2], want, rtol=1e-12, atol=1e-12), f"{where}: quantiles of several parameters are {many.tolist()}")
        ctx.step()
        ctx.trace()
    for badq in ([-0.1], [0.5, 1.2], [1.0001]):
        try:
            C._quantile(base, badq, weights=w)
        except ValueError:
            continue
        ctx.fail(f"quantiles {badq} are accepted")
    if w is not None:
        for k in (n - 1, n + 1):
            try:
                C._quantile(base, [0.5], weights=np.ones(k))
            except ValueError:
                continue
            ctx.fail(f"{k} weights are accepted for {n} samples")
    ctx.outcome(case)


def quantile_cases(tier):
    top = 5 if tier == "quick" else 6
    for n in range(2, top + 1):
        yield n, None
        alpha = (0.5, 1.0, 3.0) if n < 5 else (0.5, 3.0)
        for w in itertools.product(alpha, repeat=n):
            yield n, list(w)


# ---- ranges ----------------------------------------------------------------------------------

SPANS = [[-2.0, 5.0], [3.0, 1.0], 0.9, 0.5, 1.0]


def run_spans(case, ctx):
    span, weighted = case
    C = mod()
    n = len(span)
    x = np.array([[0.3 * ((7 * k + 3 * i) % 11) + i for k in range(11)] for i in range(n)])
    w = np.array([1 + (k % 3) for k in range(11)], dtype=float) if weighted else None
    for form in (list, tuple):
        arg = form(tuple(s) if isinstance(s, list) else s for s in span)
        keep = form(arg)
        got = C.get_spans(arg, x, weights=w)
        ctx.check(arg == keep, f"ranges {span}: the request was changed")
        ctx.check(len(got) == n, f"ranges {span}: {len(got)} ranges")
        for i, s in enumerate(span):
            want = s if isinstance(s, list) else C._quantile(x[i], [0.5 - 0.5 * s, 0.5 + 0.5 * s], weights=w)
            ctx.check(np.allclose(got[i], want, rtol=1e-12, atol=1e-12), f"ranges {span}: parameter {i} spans {list(got[i])}, expected {list(want)}")
            if s == 1.0:
                ctx.check(np.allclose(got[i], [x[i].min(), x[i].max()]), f"ranges {span}: all of the samples span {list(got[i])}")
        for k in (n - 1, n + 1):
            try:
                C.get_spans([0.5] * k, x)
            except ValueError:
                continue
            ctx.fail(f"{k} ranges are accepted for {n} parameters")
        ctx.step()
    got = C.get_spans(None, x, weights=w)
    for i in range(n):
        lo, hi = got[i]
        ctx.check(x[i].min() <= lo <= x[i].min() + 1e-4 and x[i].max() - 1e-4 <= hi <= x[i].max(), f"the default range of parameter {i} is {lo} to {hi}")
    ctx.outcome(case)


def span_cases(tier):
    for n in (1, 2, 3):
        for s in itertools.product(SPANS, repeat=n):
            for w in (0, 1):
                yield list(s), w


# ---- histograms and contour levels ------------------------------------------------------------

def cloud(kind, n):
    k = np.arange(n)
    if kind == "line":
        return 0.1 + 0.8 * k / max(n - 1, 1), 2 + 3 * k / max(n - 1, 1)
    if kind == "peak":
        r = (k / n) ** 2
        return 0.5 + 0.45 * r * np.cos(2.4 * k), 3 + 1.9 * r * np.sin(2.4 * k)
    return (k * 37 % 101) / 101.0, 1.05 + 3.9 * (k * 53 % 97) / 97.0


LEVELS = [None, [0.5], [0.2, 0.6, 0.9], [0.9, 0.3]]


def run_contours(case, ctx):
    kind, n, smooth, weighted, lv = case
    C = mod()
    x, y = cloud(kind, n)
    w = 0.5 + (np.arange(n) * 7 % 5) if weighted else None
    span = [(0.0, 1.0), (1.0, 5.0)]
    levels = LEVELS[lv]
    where = f"{n} samples ({kind}), smoothing {smooth}, levels {levels}, {'weighted' if weighted else 'unweighted'}"
    kx, ky = x.copy(), y.copy()
    X2, Y2, HT, V, cl, ax = C.twodhist(x, y, span=list(span), weights=w, smooth=smooth, levels=levels, plot_contours=False)
    ctx.check(np.array_equal(x, kx) and np.array_equal(y, ky), f"{where}: the samples were changed")
    sm = smooth if isinstance(smooth, list) else [smooth, smooth]
    nb = [int(s) if s > 1 else int(round(2.0 / s)) for s in sm]
    H = HT.T[2:-2, 2:-2]
    ctx.check(H.shape == tuple(nb), f"{where}: the density has {H.shape} cells, expected {nb}")
    ww = np.ones(n) if w is None else w
    # every sample counted in its cell
    cnt = np.zeros(nb)
    for a, b, c in zip(x, y, ww):
        i, j = min(int((a - 0.0) / 1.0 * nb[0]), nb[0] - 1), min(int((b - 1.0) / 4.0 * nb[1]), nb[1] - 1)
        if 0 <= a <= 1 and 1 <= b <= 5:
            cnt[i, j] += c
    ctx.check(abs(H.sum() - cnt.sum()) <= 1e-9 * cnt.sum(), f"{where}: the density adds up to {H.sum()}, the samples to {cnt.sum()}")
    if all(s > 1 for s in sm):
        ctx.check(np.allclose(H, cnt, atol=1e-9), f"{where}: the cells do not hold their samples")
    else:
        ii, jj = np.mgrid[0:nb[0], 0:nb[1]]
        for name, k, m in (("x", ii, 0), ("y", jj, 1)):
            a, b = (k * H).sum() / H.sum(), (k * cnt).sum() / cnt.sum()
            ctx.check(abs(a - b) <= 1.5, f"{where}: the smoothed density is centred on {name} cell {a:.2f}, the samples on {b:.2f}")
        ctx.check(H.max() <= cnt.max() + 1e-9 and H.min() >= -1e-12, f"{where}: smoothing sharpens the density")
    for name, e, (lo, hi), m in (("x", X2, span[0], nb[0]), ("y", Y2, span[1], nb[1])):
        want = lo + (hi - lo) * (np.arange(-2, m + 2) + 0.5) / m
        ctx.check(e.shape == want.shape and np.allclose(e, want, atol=1e-9), f"{where}: the cells' {name} positions are {np.array(e)[:4]}..., expected {want[:4]}...")
    # every level encloses its fraction of the density
    lvl = sorted(1 - np.exp(-0.5 * np.arange(0.5, 2.1, 0.5) ** 2) if levels is None else levels, reverse=True)
    ctx.check(len(V) == len(lvl) and bool(np.all(np.diff(V) > 0)), f"{where}: density levels {np.array(V).tolist()}")
    tot = H.sum()
    for l, v in zip(lvl, V):
        tol = 1e-3 * len(lvl)
        above = H[H > v * (1 + tol)].sum() / tot
        ctx.check(above <= l + 1e-9, f"{where}: the contour of {l:.3f} encloses {above:.3f} of the density")
        low = H[(H < v * (1 - tol))]
        if low.size:
            incl = H[H >= low.max()].sum() / tot
            ctx.check(incl > l - 1e-9, f"{where}: the contour of {l:.3f} could be lower, one cell further there are {incl:.3f} of the density")
    ctx.check(len(cl) == len(V) + 2 and cl[0] == 0 and np.array_equal(cl[1:-1], V) and cl[-1] >= H.max(), f"{where}: fill levels {list(cl)}")
    ctx.step()
    ctx.outcome(case)


def contour_cases(tier):
    ns = (6, 40, 160) if tier == "quick" else (6, 12, 40, 97, 160, 400)
    for kind in ("line", "peak", "even"):
        for n in ns:
            for smooth in (2.0, 4, 7, [3, 5], [5, 0.1], 0.5, 0.2, 0.05, [0.1, 0.25]):
                for w in (0, 1):
                    for lv in range(len(LEVELS)):
                        yield kind, n, smooth, w, lv


# ---- whole plots -----------------------------------------------------------------------------

def samples(nd, ns):
    """parameter p lives in [10 p, 10 p + 4], so that a panel shows whose it is"""
    k = np.arange(ns)
    return np.array([10 * p + 2 + 1.9 * np.sin(1.3 * k * (p + 1) + p) * ((k % 7) + 1) / 7.0 for p in range(nd)])


def boxes(ax):
    return sorted((r.get_x(), r.get_width(), r.get_height()) for r in ax.patches if r.get_height() > 0)


def lines(ax):
    """vertical and horizontal lines"""
    v, h = [], []
    for l in ax.lines:
        x, y = np.array(l.get_xdata(), dtype=float), np.array(l.get_ydata(), dtype=float)
        if len(x) == 2 and x[0] == x[1] and sorted(y) == [0, 1]:
            v.append(float(x[0]))
        elif len(y) == 2 and y[0] == y[1] and sorted(x) == [0, 1]:
            h.append(float(y[0]))
    return sorted(v), sorted(h)


def contents(ax):
    from matplotlib.collections import PathCollection
    sc, xy = [], []
    for c in ax.collections:
        if isinstance(c, PathCollection) and len(c.get_offsets()) and not np.allclose(np.asarray(c.get_offsets()), 0):
            sc.append(np.asarray(c.get_offsets(), dtype=float))
        else:
            for p in c.get_paths():
                if len(p.vertices):
                    xy.append(p.vertices)
    return sc, np.concatenate(xy) if xy else None


def run_panels(case, ctx):
    import matplotlib.pyplot as pl
    nd, upper, spans, weighted, smooth, pts, extras = case
    C = mod()
    ns = 60
    x = samples(nd, ns)
    w = 1.0 + (np.arange(ns) % 4) if weighted else None
    span = {"none": None, "frac": [0.9] * nd, "mixed": [(10.0 * p - 1 + 0.5 * p, 10.0 * p + 5) if p % 2 == 0 else 0.95 for p in range(nd)]}[spans]
    want = C.get_spans(span, x, weights=w)
    labels = [f"par{p}" for p in range(nd)]
    where = f"{nd} parameters, upper={upper}, ranges {spans}, weighted={weighted}, smoothing {smooth}, {pts} points, extras {extras}"
    psam = None if not pts else np.array([10 * p + 1 + 0.3 * np.arange(pts) for p in range(nd)])
    truths = {"truth": [10 * p + 1.25 for p in range(nd)], "lists": [[10 * p + 1.25, 10 * p + 2.5] for p in range(nd)],
              "some": [10 * p + 1.25 if p != 1 else None for p in range(nd)]}.get(extras)
    fig, axes = pl.subplots(nd, nd, figsize=(3, 3))
    try:
        keep = x.copy()
        axes = C.allcorner(x, labels, axes, weights=w, span=span, smooth=smooth, upper=bool(upper), psamples=psam,
                           hist_kwargs={"histtype": "bar"}, qcolor="r" if extras in ("q", "qt") else None, show_titles=extras in ("t", "qt"))
        if truths is not None:
            C.show_extras(x, labels, axes, weights=w, qcolor=None, truths=truths)
        ctx.check(np.array_equal(x, keep), f"{where}: the samples were changed")
        for i in range(nd):
            for j in range(nd):
                ax = axes[i, j]
                pn = f"{where}: panel {i},{j}"
                sc, xy = contents(ax)
                v, h = lines(ax)
                if i == j:
                    lo, hi = np.sort(want[i])
                    ctx.check(np.allclose(ax.get_xlim(), want[i]), f"{pn} is drawn from {ax.get_xlim()}, expected {want[i]}")
                    b = boxes(ax)
                    ww = np.ones(ns) if w is None else w
                    if smooth > 1:
                        cnt, edge = np.histogram(x[i], bins=int(smooth), weights=ww, range=(lo, hi))
                        exp = sorted((edge[k], edge[k + 1] - edge[k], cnt[k]) for k in range(len(cnt)) if cnt[k] > 0)
                        ctx.check(len(b) == len(exp) and np.allclose(b, exp), f"{pn}: the bars are {b[:3]}..., expected {exp[:3]}...")
                    else:
                        tot = ww[(x[i] >= lo) & (x[i] <= hi)].sum()
                        ctx.check(abs(sum(t[2] for t in b) - tot) <= 1e-6 * tot, f"{pn}: the bars add up to {sum(t[2] for t in b)}, the samples to {tot}")
                        mean = sum((t[0] + t[1] / 2) * t[2] for t in b) / tot
                        ex = (x[i] * ww)[(x[i] >= lo) & (x[i] <= hi)].sum() / tot
                        ctx.check(abs(mean - ex) <= 0.03 * (hi - lo), f"{pn}: the bars are centred on {mean:.3f}, the samples on {ex:.3f}")
                    if extras in ("q", "qt"):
                        ctx.check(np.allclose(v, sorted(C._quantile(x[i], [0.16, 0.5, 0.84], weights=w))), f"{pn}: lines at {v} mark the quantiles")
                    elif truths is None:
                        ctx.check(not v and not h, f"{pn}: lines at {v}, {h} where none were asked for")
                    else:
                        t = truths[i]
                        t = [] if t is None else t if isinstance(t, list) else [t]
                        ctx.check(np.array_equal(v, t) and not h, f"{pn}: lines at {v} and {h} mark the true value {t}")
                    title = ax.get_title()
                    if extras in ("t", "qt"):
                        ql, qm, qh = C._quantile(x[i], [0.16, 0.5, 0.84], weights=w)
                        exp = f"par{i} = ${{{qm:.2f}}}_{{-{qm - ql:.2f}}}^{{+{qh - qm:.2f}}}$"
                        ctx.check(title == exp, f"{pn}: titled {title!r}, expected {exp!r}")
                    else:
                        ctx.check(not title, f"{pn}: titled {title!r}")
                elif (j > i) == bool(upper):
                    ctx.check(xy is not None, f"{pn} is empty")
                    for k, p, name in ((0, j, "x"), (1, i, "y")):
                        lo, hi = np.sort(want[p])
                        cell = (hi - lo) / (int(smooth) if smooth > 1 else round(2 / smooth))
                        a, b = xy[:, k].min(), xy[:, k].max()
                        ctx.check(lo - 2 * cell - 1e-6 <= a and b <= hi + 2 * cell + 1e-6, f"{pn}: contours reach from {a} to {b} in {name}, parameter {p} from {lo} to {hi}")
                    if psam is not None:
                        ctx.check(len(sc) == 1 and np.allclose(sc[0], np.array([psam[j], psam[i]]).T), f"{pn}: the points are drawn at {sc}")
                    else:
                        ctx.check(not sc, f"{pn}: points where none were asked for")
                    if truths is not None and not upper:
                        tv, th = ([] if truths[p] is None else truths[p] if isinstance(truths[p], list) else [truths[p]] for p in (j, i))
                        ctx.check(np.array_equal(v, tv) and np.array_equal(h, th), f"{pn}: lines at {v} and {h} mark the true values {tv} and {th}")
                else:
                    ctx.check(xy is None and not sc and not ax.patches and not v and not h, f"{pn}, off the triangle, is drawn into")
                    ctx.check(not ax.get_frame_on(), f"{pn}, off the triangle, has a frame")
                xl, yl = ax.get_xlabel(), ax.get_ylabel()
                exl = labels[j] if ((i == j) if upper else (i == nd - 1)) else ""
                eyl = labels[i] if ((j == nd - 1 and i < nd - 1) if upper else (j == 0 and i > 0)) else ""
                ctx.check(xl == exl and yl == eyl, f"{pn} is labelled {xl!r}, {yl!r}, expected {exl!r}, {eyl!r}")
                ctx.step()
    finally:
        pl.close(fig)
    ctx.trace()
    ctx.outcome(case)


def panel_cases(tier):
    nds = (2, 3) if tier == "quick" else (2, 3, 4)
    for nd in nds:
        for upper in (0, 1):
            for spans in ("none", "frac", "mixed"):
                for w in (0, 1):
                    for smooth in (5.0, 0.1) if tier == "quick" else (3.0, 5.0, 0.1, 0.05):
                        for pts, extras in ((0, "none"), (1, "q"), (3, "qt"), (2, "t"), (0, "truth"), (0, "lists"), (1, "some")):
                            if upper and extras in ("truth", "lists", "some"):
                                continue        # (the markers of true values know the lower triangle only)
                            yield nd, upper, spans, w, smooth, pts, extras


# ---- one marginal ----------------------------------------------------------------------------

def run_marginal(case, ctx):
    import matplotlib.pyplot as pl
    smooth, weighted, span, peak = case
    C = mod()
    x = samples(1, 50)[0]
    w = 1.0 + (np.arange(50) % 4) if weighted else None
    fig, ax = pl.subplots(figsize=(2, 2))
    try:
        C.marginal(x, ax, weights=w, span=span, smooth=smooth, peak=peak, histtype="bar")
        b = boxes(ax)
        where = f"marginal with smoothing {smooth}, range {span}, peak {peak}, {'weighted' if weighted else 'unweighted'}"
        top = max(t[2] for t in b)
        if peak is not None:
            ctx.check(abs(top - peak) <= 1e-9 * peak, f"{where}: the highest bar is {top}")
        else:
            lo, hi = np.sort(C.get_spans(None, [x], weights=w)[0] if span is None else span)
            tot = (np.ones(50) if w is None else w)[(x >= lo) & (x <= hi)].sum()
            got = sum(t[2] for t in b)
            ctx.check(abs(got - tot) <= 1e-6 * tot, f"{where}: the bars add up to {got}, the samples in range to {tot}")
        ctx.check(ax.get_ylim()[0] == 0 and ax.get_ylim()[1] >= top, f"{where}: the axis ends at {ax.get_ylim()} below the highest bar {top}")
        ctx.step()
    finally:
        pl.close(fig)
    ctx.outcome(case)


def suites(tier):
    return [Suite("quantiles", quantile_cases(tier), run_quantiles, note="orders of 2-5 (6) samples x weights"),
            Suite("spans", span_cases(tier), run_spans, note="requests of ranges for 1-3 parameters"),
            Suite("contours", contour_cases(tier), run_contours, note="clouds x smoothing x levels x weights"),
            Suite("panels", panel_cases(tier), run_panels, note="whole plots: options of the drawing functions"),
            Suite("marginal", [(s, w, sp, pk) for s in (2.0, 5, 12, 0.5, 0.2, 0.1, 0.02) for w in (0, 1)
                               for sp in (None, [0.0, 4.0], [1.0, 3.0]) for pk in (None, 1.0, 7.5)], run_marginal, note="one panel: smoothing x range x peak x weights")]
