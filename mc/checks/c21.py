"""C21: ingestion of catalogs and angle conversion, for every placement of every column
relative to its range, every malformed column and every short history of a scene."""
import contextlib
import itertools
import os
import tempfile

import numpy as np
from astropy.io import fits

from ..core import Suite
from .. import env
env.load_kernel()
from .. import kern as K
from .. import scenes as S
from forcepho.superscene import rectify_catalog, convert_pa, sourcecat_dtype, SuperScene, LinkedSuperScene, REQUIRED_COLUMNS

PROPERTY = "C21"
ASSUMPTIONS = ["position angles within two turns of zero (the conversion wraps at most four half turns)",
               "catalog values are compared to the digits of the input column",
               "a scene numbers the catalog object it is given, as documented"]
SH = K.SHAPES
RANGES = dict(rhalf=(0.051, 0.29), q=(0.2, 0.99), sersic=(1.01, 4.99), pa=(-2.0, 2.0))
ARG = dict(rhalf="rhalf_range", q="sqrtq_range", sersic="sersic_range", pa="pa_range")


@contextlib.contextmanager
def folder():
    import shutil
    d = tempfile.mkdtemp(dir=K.scratch())
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def raw(n, bands, dtype="<f8", extra=True, order=0):
    cols = ["id"] + SH + list(bands) + (["mag_auto", "weird"] if extra else [])
    if order:
        cols = cols[::-1]
    dt = [(c, "<i4" if c == "id" else "U5" if c == "weird" else dtype) for c in cols]
    c = np.zeros(n, dtype=dt)
    i = np.arange(n)
    c["id"] = 2000000501 - 7 * i
    c["ra"], c["dec"] = 53.1 + 1e-3 * i, -27.8 + 2e-3 * i
    c["rhalf"], c["q"], c["sersic"], c["pa"] = 0.1 + 0.01 * i, 0.5 + 0.05 * i, 2 + 0.2 * i, -0.4 + 0.3 * i
    for j, b in enumerate(bands):
        c[b] = 10.0 * (j + 1) - 4.5 * i
    if extra:
        c["mag_auto"], c["weird"] = np.nan, "x"
    return c


def header(bands, sep=","):
    h = fits.Header()
    h["FILTERS"] = sep.join(bands)
    return h


PLACE = ["below", "low", "in", "high", "above"]


def put(c, k, col, where, rng):
    lo, hi = rng
    c[col][k] = dict(below=lo - 0.7, low=lo, high=hi, above=hi + 5.0)[where] if where != "in" else lo + 0.37 * (hi - lo)


def angle_eq(a, b, tol=1e-9):
    d = (a - b) / np.pi
    return np.abs(d - np.round(d)) * np.pi < tol


def judge(ctx, out, src, bands, rng, rotate, reverse, where):
    cat, bn, hd = out
    ctx.check(list(bn) == list(bands), f"{where}: bands {bn}")
    ctx.check(len(cat) == len(src), f"{where}: {len(cat)} sources of {len(src)}")
    ctx.check(cat.dtype == sourcecat_dtype(bands=list(bands)), f"{where}: data type")
    for c in ["id", "ra", "dec"] + list(bands):
        ctx.check(np.array_equal(cat[c].astype(float), src[c].astype(float)), f"{where}: column {c} is {cat[c].tolist()}, it was {src[c].tolist()}")
    for c in ("rhalf", "q", "sersic", "pa"):
        v = src[c].astype(float)
        w = np.minimum(np.maximum(v, rng[c][0]), rng[c][1])
        if c == "pa" and (rotate or reverse):
            w2 = w + (np.pi / 2 if rotate else 0.0)
            w2 = -w2 if reverse else w2
            ctx.check(angle_eq(cat[c], w2).all(), f"{where}: position angles {cat[c].tolist()} are not the orientations {w2.tolist()}")
            if rotate:
                ctx.check((np.abs(cat[c]) <= np.pi / 2 + 1e-12).all(), f"{where}: position angles {cat[c].tolist()} are beyond a quarter turn")
            else:
                ctx.check(np.allclose(cat[c], -w, rtol=0, atol=1e-12), f"{where}: reversed position angles {cat[c].tolist()}")
        else:
            bad = cat[c] != w
            ctx.check(not bad.any(), f"{where}: {c} is {cat[c].tolist()}, in range {rng[c]} it is {w.tolist()}")
    ctx.check(np.array_equal(cat["source_index"], np.arange(len(src))), f"{where}: source numbers {cat['source_index'].tolist()}")
    ctx.step()


def run_rectify(case, ctx):
    nb, dtype, custom, rot, rev, io, order, places = case
    bands = [f"F{i}W" for i in range(nb)]
    n = 3
    rng = dict(RANGES)
    kw = {}
    if custom:
        rng = dict(rhalf=(0.01, 1.5), q=(0.4, 0.8), sersic=(0.7, 6.0), pa=(-1.2, 1.4))
        kw = {ARG[c]: rng[c] for c in rng}
    src = raw(n, bands, dtype, order=order)
    for (col, k), p in places:
        put(src, k, col, p, rng[col])
    keep = src.copy()
    hdr = header(bands, ", " if custom else ",")
    kw.update({} if not rot else dict(rotate=True), **({} if not rev else dict(reverse=True)))
    where = f"{case}"
    if io == "file":
        with folder() as d:
            fn = os.path.join(d, "cat.fits")
            fits.HDUList([fits.PrimaryHDU(header=hdr), fits.BinTableHDU(src)]).writeto(fn)
            blob = open(fn, "rb").read()
            out = rectify_catalog(fn, **kw)
            judge(ctx, out, keep, bands, rng, rot, rev, where)
            ctx.check(open(fn, "rb").read() == blob, f"{where}: the file was changed")
    else:
        out = rectify_catalog((src, hdr), **kw)
        judge(ctx, out, keep, bands, rng, rot, rev, where)
    ctx.check(src.tobytes() == keep.tobytes(), f"{where}: the input was changed")
    cat = out[0]
    # whatever comes out is accepted by a scene built with it
    if io == "pair" and not (rot or rev) and nb == 2:
        s = SuperScene(sourcecat=cat, bands=out[1], bounds_kwargs={})
        ctx.check(s.n_sources == n and not s.sourcecat["is_active"].any() and (s.sourcecat["is_valid"] == 1).all(), f"{where}: scene of the catalog")
    ctx.outcome(case)


def rectify_cases(tier):
    cols = ("rhalf", "q", "sersic", "pa")
    slots = [(c, k) for c in cols for k in (0, 1, 2)]
    single = [()] + [((s, p),) for s in slots for p in PLACE]
    for nb, dt, cu, rot, rev, io, order in itertools.product((1, 2, 3), ("<f8", "<f4"), (False, True), (False, True), (False, True), ("pair", "file"), (0, 1)):
        if io == "file" and tier == "quick" and (nb != 2 or order):
            continue
        for pl in single:
            yield nb, dt, cu, rot, rev, io, order, pl
    for p in itertools.product(PLACE, repeat=4):         # all columns of one source
        for rot in (False, True):
            yield 2, "<f8", False, rot, False, "pair", 0, tuple(((c, 1), q) for c, q in zip(cols, p))


def run_bad(case, ctx):
    """missing bands, missing shape columns and non-finite values are refused"""
    what, nb, n, io = case
    bands = [f"F{i}W" for i in range(nb)]
    for k in range(n):
        for col in (SH + bands if what in ("nan", "inf", "-inf") else ["x"] if what == "ok" else bands if what == "band" else SH):
            src = raw(n, bands)
            hb = list(bands)
            if what in ("nan", "inf", "-inf"):
                src[col][k] = float(what)
            elif what == "band":
                hb = [b if b != col else "MISSING" for b in bands]
            elif what == "shape":
                src = np.array(src[[c for c in src.dtype.names if c != col]].tolist(), dtype=[(c, src.dtype[c]) for c in src.dtype.names if c != col])
            elif what == "ok":
                src["mag_auto"][k] = np.inf       # a column that is not used
            try:
                if io == "file":
                    with folder() as d:
                        fn = os.path.join(d, "cat.fits")
                        fits.HDUList([fits.PrimaryHDU(header=header(hb)), fits.BinTableHDU(src)]).writeto(fn)
                        rectify_catalog(fn)
                else:
                    rectify_catalog((src, header(hb)))
                refused = False
            except Exception as e:
                refused = True
            ctx.check(refused == (what != "ok"), f"{case}: {what} in {col} of source {k}: {'refused' if refused else 'accepted'}")
            ctx.step()
    ctx.outcome(case)


# ---------------------------------------------------------------- angles

def run_angle(case, ctx):
    deg, rot, rev, lo, hi, n = case
    full = 360.0 if deg else 2 * np.pi
    # multiples of 1/24 of a turn and points off them, within two turns
    grid = np.concatenate([np.arange(-48, 49) / 24., np.arange(-48, 48) / 24. + 0.013, np.arange(-48, 48) / 24. + 0.0401]) * full
    grid = grid[np.abs(grid) <= 2 * full * (1 + 1e-12)]
    for i in range(lo, min(hi, len(grid))):
        for other in ((), (0.3,), (0.3, -5 * full / 4, 2 * full)) if n == 3 else ((),):
            arr = np.array((grid[i],) + tuple(other))
            for perm in ((0, 1), (1, 0)) if len(arr) > 1 else ((0,),):
                a = arr if perm[0] == 0 else arr[::-1].copy()
                keep = a.copy()
                got = convert_pa(a, from_deg=deg, rotate=rot, reverse=rev)
                ctx.check(np.array_equal(a, keep), f"{case}: the input was changed")
                rad = np.deg2rad(keep) if deg else keep
                w = rad + (np.pi / 2 if rot else 0)
                w = -w if rev else w
                ctx.check(got.shape == a.shape, f"{case}: shape")
                ctx.check(angle_eq(got, w, 1e-9).all(), f"{case}: {keep.tolist()} became {got.tolist()}, not the same line as {w.tolist()}")
                ctx.check((np.abs(got) <= np.pi / 2 + 1e-9).all(), f"{case}: {keep.tolist()} became {got.tolist()}, beyond a quarter turn")
                # already inside: unchanged
                if not rot:
                    inn = np.abs(rad) < np.pi / 2 - 1e-9
                    ctx.check(np.allclose(got[inn], (-rad if rev else rad)[inn], rtol=0, atol=1e-14), f"{case}: {keep.tolist()} became {got.tolist()}")
                ctx.step()
    ctx.outcome(case)


# ---------------------------------------------------------------- scenes

def run_scene(case, ctx):
    """numbering, availability and the original copy along histories of a scene"""
    kind, n, start, ops = case
    lay = [(0, 0), (0.6, 0.1), (4.0, 0), (30, 4), (31, -5)][:n]
    cat = S.catalog(lay, 0.2)
    # whatever state the catalog comes in
    cat["source_index"] = [[7, 7, 7, 7, 7], [4, 3, 2, 1, 0], [-1, 0, 5, 9, 2]][start][:n]
    cat["is_active"] = [[1] * 5, [0, 1, 0, 1, 0], [0] * 5][start][:n]
    cat["is_valid"] = [[0] * 5, [1, 0, 1, 0, 1], [0] * 5][start][:n]
    before = cat.copy()
    kw = dict(bounds_kwargs=dict(rhalf_range=(0.01, 8.)), boundary_radius=8., maxradius=6., minradius=1.)
    s = (SuperScene if kind == "circ" else LinkedSuperScene)(sourcecat=cat, bands=list(S.BANDS), **kw)

    def fresh(where):
        c = s.sourcecat
        ctx.check(len(c) == n and np.array_equal(c["source_index"], np.arange(n)), f"{where}: numbers {c['source_index'].tolist()}")
        ctx.check((c["is_valid"] == 1).all() and (c["is_active"] == 0).all(), f"{where}: not all sources are available")
    fresh(f"{case} at the start")
    for col in cat.dtype.names:
        if col not in ("source_index", "is_active", "is_valid"):
            ctx.check(np.array_equal(s.sourcecat[col], before[col]), f"{case}: {col} changed on ingestion")
    want = before.copy()
    want["source_index"], want["is_valid"], want["is_active"] = np.arange(n), 1, 0
    out = []
    for k, o in enumerate(ops):
        if o == "R":
            s.reset()
            out = []
            fresh(f"{case} after a reset")
        elif o == "I":
            if out:
                for r in out:
                    a = r[1].copy()
                    for c in list(S.BANDS) + ["rhalf"]:
                        a[c] += 1.5
                    s.checkin_region(a, r[2], 10, taskID=k)
                out = []
        elif o == "C":                # a new catalog
            c2 = S.catalog(lay, 0.2)
            c2["source_index"] = 3
            c2["F1"] += 100
            want = c2.copy()
            want["source_index"], want["is_valid"], want["is_active"] = np.arange(n), 1, 0
            s.ingest(c2, rhalf_range=(0.01, 8.))
            s.n_active = s.n_fixed = 0
            out = []
            fresh(f"{case} with a new catalog")
        else:
            region, active, fixed = s.checkout_region(seed_index=o)
            if active is not None and len(active):
                active["F1"] += 3
                out.append((region, active, fixed))
        ctx.check(s.original.dtype == want.dtype and s.original.tobytes() == want.tobytes(), f"{case}: the original copy changed at step {k}")
        ctx.step()
    ctx.trace()
    ctx.outcome(case)


def run_missing(case, ctx):
    kind, col = case
    cls = SuperScene if kind == "circ" else LinkedSuperScene
    cat = S.catalog([(0, 0), (3, 0)], 0.2)
    names = [c for c in cat.dtype.names if c != col]
    small = np.zeros(2, dtype=[(c, cat.dtype[c]) for c in names])
    for c in names:
        small[c] = cat[c]
    try:
        cls(sourcecat=small, bands=list(S.BANDS))
        refused = False
    except Exception:
        refused = True
    ctx.check(refused, f"a catalog without {col} is accepted")
    ctx.outcome(case)


def scene_cases(tier):
    d = 3 if tier == "quick" else 4
    for kind in ("circ", "fof"):
        for n in (2, 4):
            ops = list(range(min(n, 3))) + ["I", "R", "C"]
            for start in range(3):
                for k in range(0, d + 1):
                    for o in itertools.product(ops, repeat=k):
                        if start and k == d and tier == "quick":
                            continue
                        yield kind, n, start, list(o)


def suites(tier):
    q = tier == "quick"
    return [
        Suite("rectify", rectify_cases(tier), run_rectify, note="bands x precision x ranges x rotation x reversal x file or arrays x column order x every placement of every shape value"),
        Suite("malformed", [(w, nb, n, io) for w in ("nan", "inf", "-inf", "band", "shape", "ok") for nb in (1, 2) for n in (1, 3) for io in ("pair", "file")], run_bad, note="every column of every source non-finite, every band and shape column missing"),
        Suite("angles", [(dg, r, v, a, a + 25, n) for dg in (False, True) for r in (False, True) for v in (False, True) for a in range(0, 300, 25) for n in (1, 3)], run_angle, note="units x rotation x reversal x angles every 1/24 turn within two turns"),
        Suite("scenes", scene_cases(tier), run_scene, note="all histories of checkouts, check-ins, resets and new catalogs to depth 3 (4) from every kind of initial state"),
        Suite("missing", [(k, c) for k in ("circ", "fof") for c in list(REQUIRED_COLUMNS) + list(S.BANDS)], run_missing, note="every required column missing"),
    ]
