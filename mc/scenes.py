"""Scene-manager helpers shared by C01-C04: layouts, cloning, snapshots."""
import copy
import itertools

import numpy as np

from forcepho.superscene import SuperScene, LinkedSuperScene, sourcecat_dtype

RA0, DEC0 = 53.1, -27.8
BANDS = ["F1", "F2"]


def catalog(layout, rhalf, bands=BANDS, dec0=DEC0, ra0=RA0):
    """layout: list of (dx, dy) arcsec offsets"""
    n = len(layout)
    cat = np.zeros(n, dtype=sourcecat_dtype(bands=bands))
    xy = np.array(layout, dtype=float).reshape(n, 2)
    cat["dec"] = dec0 + xy[:, 1] / 3600.
    cat["ra"] = ra0 + xy[:, 0] / 3600. / np.cos(np.deg2rad(dec0))
    cat["rhalf"] = rhalf
    cat["roi"] = rhalf
    cat["q"] = 0.7 + 0.01 * np.arange(n)
    cat["pa"] = 0.1 * np.arange(n)
    cat["sersic"] = 1.5 + 0.1 * np.arange(n)
    cat["id"] = 100 + np.arange(n)
    for i, b in enumerate(bands):
        cat[b] = 10. * (i + 1) + np.arange(n)
    return cat


def make(kind, layout, rhalf, bands=BANDS, strict=False, roi=None, buffer=0.3, **kw):
    cat = catalog(layout, rhalf, bands)
    kw.setdefault("boundary_radius", 8.)
    kw.setdefault("maxradius", 6.)
    kw.setdefault("minradius", 1.)
    bk = kw.pop("bounds_kwargs", dict(rhalf_range=(0.01, 8.)))
    if kind == "circ":
        return SuperScene(sourcecat=cat, bands=list(bands), bounds_kwargs=bk, **kw)
    return LinkedSuperScene(sourcecat=cat, bands=list(bands), bounds_kwargs=bk, strict=strict, roi=roi,
                            buffer=buffer, **kw)


SHARED = ("kdt", "_scene_frame", "_scene_coordinates", "original")


def clone(s):
    memo = {}
    for k in SHARED:
        v = getattr(s, k, None)
        if v is not None:
            memo[id(v)] = v
    new = copy.deepcopy(s, memo)
    # LinkedSuperScene keeps `roi` as a view of the catalog's rhalf column when
    # none is given; deepcopy would cut that link, so restore it
    r = getattr(s, "roi", None)
    if isinstance(r, np.ndarray) and np.may_share_memory(r, s.sourcecat):
        new.roi = new.sourcecat["rhalf"]
    return new


def snapshot(s):
    return dict(cat=s.sourcecat.copy(), bounds=s.bounds_catalog.copy(), cov=np.array(s.covariance_matrices),
                n_active=int(s.n_active), n_fixed=int(s.n_fixed),
                sourcelog=copy.deepcopy(s.sourcelog), patchlog=list(s.patchlog))


def same(a, b):
    for k in a:
        if isinstance(a[k], np.ndarray):
            if a[k].dtype != b[k].dtype or a[k].shape != b[k].shape or a[k].tobytes() != b[k].tobytes():
                return False, k
        elif a[k] != b[k]:
            return False, k
    return True, None


def idx(rows):
    return [] if rows is None else [int(i) for i in rows["source_index"]]


def line_layouts(n, gaps):
    """all chains of n sources with the gaps drawn from the alphabet, bent a
    little so that no two separations tie"""
    for g in itertools.product(gaps, repeat=n - 1):
        x = np.concatenate([[0], np.cumsum(g)])
        y = 0.013 * np.arange(n) ** 2
        yield tuple((float(a), float(b)) for a, b in zip(x, y))


def grid_layouts(n, nx, ny, step):
    """all n-subsets of a slightly sheared nx x ny lattice"""
    pts = [(step * (i + 0.017 * j + 0.003 * i * i), step * (j * 1.031 + 0.011 * i)) for i in range(nx) for j in range(ny)]
    for c in itertools.combinations(pts, n):
        yield tuple((round(a, 6), round(b, 6)) for a, b in c)


def canon_outstanding(out):
    return sorted((tuple(sorted(a)), tuple(sorted(f))) for a, f in out)


def flags_match(ctx, s, outstanding, where):
    """catalog flags and counters are those of the reference bookkeeping"""
    n = s.n_sources
    act = np.zeros(n, bool)
    use = np.zeros(n, bool)
    for a, f in outstanding:
        act[list(a)] = True
        use[list(a) + list(f)] = True
    ia = np.array(s.sourcecat["is_active"]) != 0
    iv = np.array(s.sourcecat["is_valid"]) != 0
    ctx.check(np.array_equal(ia, act), f"{where}: active flags are {np.flatnonzero(ia)} but the outstanding regions "
              f"hold {np.flatnonzero(act)}", outstanding=outstanding)
    ctx.check(np.array_equal(iv, ~use), f"{where}: unavailable sources are {np.flatnonzero(~iv)} but the outstanding "
              f"regions hold {np.flatnonzero(use)}", outstanding=outstanding)
    ctx.check(s.n_active == sum(len(a) for a, f in outstanding), f"{where}: n_active is {s.n_active}",
              outstanding=outstanding)
    ctx.check(s.n_fixed == sum(len(f) for a, f in outstanding), f"{where}: n_fixed is {s.n_fixed}",
              outstanding=outstanding)
