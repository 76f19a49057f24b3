"""C17: region geometry: every pair of convex lattice polygons and every lattice point
against exact integer geometry, and every small configuration of image, orientation and
region against sky positions."""
import itertools

import numpy as np
from astropy.wcs import WCS
from astropy.coordinates import angular_separation

from ..core import Suite
from .. import env
env.load_kernel()
from .. import kern as K
from forcepho.region import CircularRegion, RectangularRegion, Region, polygons_overlap, polygon_contains

PROPERTY = "C17"
ASSUMPTIONS = ["convex, non-degenerate polygons; lattice coordinates, for which floating-point arithmetic is exact",
               "square pixels for circular regions, away from the poles and from the wrap of right ascension",
               "corners within 1e-4 pixel of the region's edge, and boxes whose overlap depends on less than 1.1 pixel, are not judged"]


class Poly(Region):
    def __init__(self, pts, dtype=float):
        self.box = np.array(pts, dtype=dtype).T

    @property
    def bounding_box(self):
        return self.box


def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def convex_polygons(n, sides):
    """all strictly convex polygons with vertices on the n x n lattice, counterclockwise, from their lowest vertex"""
    pts = list(itertools.product(range(n), repeat=2))
    out = []
    for s in sides:
        for c in itertools.combinations(pts, s):
            p0 = c[0]
            rest = sorted(c[1:], key=lambda p: np.arctan2(p[1] - p0[1], p[0] - p0[0]))
            p = [p0] + rest
            if all(orient(p[i], p[(i + 1) % s], p[(i + 2) % s]) > 0 for i in range(s)):
                out.append(tuple(p))
    return out


def in_closed(p, q):
    return all(orient(p[i], p[(i + 1) % len(p)], q) >= 0 for i in range(len(p)))


def in_open(p, q):
    return all(orient(p[i], p[(i + 1) % len(p)], q) > 0 for i in range(len(p)))


def segs(a, b, c, d):
    def on(p, q, r):
        return min(p[0], q[0]) <= r[0] <= max(p[0], q[0]) and min(p[1], q[1]) <= r[1] <= max(p[1], q[1])
    o1, o2, o3, o4 = orient(a, b, c), orient(a, b, d), orient(c, d, a), orient(c, d, b)
    if ((o1 > 0) != (o2 > 0)) and ((o3 > 0) != (o4 > 0)) and o1 * o2 != 0 and o3 * o4 != 0:
        return True
    return (o1 == 0 and on(a, b, c)) or (o2 == 0 and on(a, b, d)) or (o3 == 0 and on(c, d, a)) or (o4 == 0 and on(c, d, b))


def meet(p, q):
    """closed convex polygons share a point (exact)"""
    if any(in_closed(p, v) for v in q) or any(in_closed(q, v) for v in p):
        return True
    return any(segs(p[i - 1], p[i], q[j - 1], q[j]) for i in range(len(p)) for j in range(len(q)))


SHIFT = {"quick": [(0, 0), (1, 0), (2, 1), (0, 2), (-2, 2), (3, 0), (1, -3), (-1, -1)],
         "thorough": list(itertools.product(range(-3, 4), repeat=2))}


def run_overlap(case, ctx):
    i, shifts, sides = case
    A = convex_polygons(3, (3, 4))
    B = convex_polygons(3, sides)
    p = A[i]
    rp = Poly(p)
    yes = no = 0
    for dx, dy in shifts:
        for q0 in B:
            q = tuple((x + dx, y + dy) for x, y in q0)
            want = meet(p, q)
            k = len(q) % 3
            rq = Poly(q)
            rr = Poly(tuple(reversed(q)))
            for a, b, how in ((rp, rq, "(a, b)"), (rq, rp, "(b, a)"), (rr, rp, "(b clockwise, a)")):
                got = polygons_overlap(a, b)
                if bool(got) != want:
                    ctx.fail(f"polygons_overlap{how} is {got} for {p} and {q}, which {'share a point' if want else 'are apart'}")
                ctx.step()
            yes += want
            no += not want
    ctx.extra_states += yes + no - 1
    ctx.outcome((yes > 0, no > 0, i % 7))


def run_sep(case, ctx):
    """scaled, offset and non-lattice copies: touching is nudged apart / together"""
    i, sides = case
    A = convex_polygons(3, (3, 4))
    p = A[i]
    for scale, off in ((1 / 3600., (53.0, -27.5)), (1.0, (359.0, 0.0)), (1e-4, (150.0, 2.0))):
        def sky(poly, grow=0.0):
            c = np.mean(poly, axis=0)
            return Poly([(off[0] + scale * (c[0] + (1 + grow) * (x - c[0])), off[1] + scale * (c[1] + (1 + grow) * (y - c[1]))) for x, y in poly])
        for q0 in convex_polygons(3, sides):
            for dx, dy in ((1, 0), (2, 1), (-1, 1), (3, 0)):
                q = tuple((x + dx, y + dy) for x, y in q0)
                if meet(p, q):
                    # a common point is kept when both grow about their centres
                    a, b, want = sky(p, 1e-3), sky(q, 1e-3), True
                else:
                    a, b, want = sky(p, 1e-4), sky(q, 1e-4), False
                    # lattice polygons apart stay apart when growing by 1e-4
                for u, v in ((a, b), (b, a)):
                    got = polygons_overlap(u, v)
                    if bool(got) != want:
                        ctx.fail(f"polygons_overlap is {got} for {p} and {q} at scale {scale} around {off}, which {'share a point' if want else 'are apart'}")
                    ctx.step()
    ctx.outcome(i % 5)


def run_inside(case, ctx):
    p = case
    n = len(p)
    pts = [(x / 2., y / 2.) for x in range(-1, 2 * 4) for y in range(-1, 2 * 4)]
    want = np.array([in_open(tuple((2 * a, 2 * b) for a, b in p), (int(2 * x), int(2 * y))) for x, y in pts])
    for roll in range(n):
        v = list(p[roll:] + p[:roll])
        for verts in (v, v[::-1]):
            for scale, off in ((1.0, (0., 0.)), (4.0, (1024., -512.)), (0.25, (0.5, 8.))):
                poly = np.array(verts, dtype=float) * scale + np.array(off)
                P = np.array(pts) * scale + np.array(off)
                keep = poly.copy(), P.copy()
                got = np.asarray(polygon_contains(poly, P))
                ctx.check(got.shape == want.shape, f"shape {got.shape} for {len(pts)} points")
                bad = np.flatnonzero(got.astype(bool) != want)
                if len(bad):
                    ctx.fail(f"polygon {verts}: point {pts[bad[0]]} reported {'inside' if got[bad[0]] else 'outside'}, it is {'inside' if want[bad[0]] else 'outside or on the edge'}")
                ctx.check(np.array_equal(poly, keep[0]) and np.array_equal(P, keep[1]), "arguments changed")
                for j in (0, len(pts) // 2):     # one point at a time gives the same
                    one = np.asarray(polygon_contains(poly, P[j:j + 1]))
                    ctx.check(bool(one[0]) == want[j], f"single point {pts[j]} of {verts}")
                ctx.step(len(pts))
    ctx.outcome(n)


# ---------------------------------------------------------------- pixels

SC = 0.1
DECS = (-27.5, 0.0, 60.0, -75.0)


def image(dec, rot, flip, nx=8, ny=6, scale=SC):
    h = K.header("F1", nx=nx, ny=ny, scale=scale, rot=rot, flip=flip, crpix=(nx / 2 + 0.5, ny / 2 + 0.5), crval=(53.0, dec))
    return h, WCS(h)


def corner_arrays(nx, ny, s, kind):
    """corners of the s x s superpixels, as coordinates of pixel centres ('c') or pixel edges ('e')"""
    x0, y0 = np.meshgrid(np.arange(0, nx, s), np.arange(0, ny, s), indexing="ij")
    lo, hi = (0, s - 1) if kind == "c" else (-0.5, s - 0.5)
    dx, dy = np.array([lo, lo, hi, hi]), np.array([lo, hi, hi, lo])
    return x0[..., None] + dx, y0[..., None] + dy


def run_pixels(case, ctx):
    shape, dec, rot, flip, s, kind = case
    nx, ny = 8, 6
    hdr, w = image(dec, rot, flip, nx, ny)
    xc, yc = corner_arrays(nx, ny, s, kind)
    ra, de = w.pixel_to_world_values(xc, yc)
    cd = np.cos(np.deg2rad(dec))
    sel = set()
    for ox in np.arange(-6.3, 6.4, 1.8):
        for oy in np.arange(-6.1, 6.2, 2.1):
            for size in (0.4, 1.1, 2.6, 5.2):
                r0, d0 = 53.0 + ox * SC / 3600 / cd, dec + oy * SC / 3600
                if shape == "C":
                    reg = CircularRegion(r0, d0, size * SC / 3600)
                    sep = np.rad2deg(angular_separation(*np.deg2rad([r0, d0]), np.deg2rad(ra), np.deg2rad(de)))
                    m = (reg.radius - sep) * 3600 / SC
                else:
                    h = [size * 0.7, size * 1.2]
                    lims = (r0 - h[0] * SC / 3600 / cd, r0 + h[1] * SC / 3600 / cd, d0 - h[1] * SC / 3600, d0 + h[0] * SC / 3600)
                    reg = RectangularRegion(*lims)
                    m = np.min([(ra - lims[0]) * cd, (lims[1] - ra) * cd, de - lims[2], lims[3] - de], axis=0) * 3600 / SC
                if np.any(np.abs(m) < 1e-4):
                    continue
                want = (m > 0).any(axis=-1)
                got = reg.contains(xc.copy(), yc.copy(), w)
                ctx.check(len(got) == 2 and got[0].shape == got[1].shape, f"selection is not a pair of index arrays: {got}")
                g = np.zeros(want.shape, dtype=int)
                np.add.at(g, tuple(got), 1)
                bad = np.argwhere(g != want)
                if len(bad):
                    ctx.fail(f"{case}: region at ({ox:.2f}, {oy:.2f}) of size {size} pixels: superpixel {bad[0]} {'not ' if want[tuple(bad[0])] else ''}selected, its corners are {'inside' if want[tuple(bad[0])] else 'outside'}")
                if s > 1 or kind == "e":
                    # a flat list of pixels selects the same ones
                    f = reg.contains(xc.reshape(-1, 4), yc.reshape(-1, 4), w)
                    ctx.check(np.array_equal(np.sort(f[0]), np.flatnonzero(want.ravel())), f"{case}: flat list of pixels")
                sel.add(want.tobytes())
                ctx.step()
    ctx.extra_states += len(sel)
    ctx.outcome((shape, len(sel)))


def run_box(case, ctx):
    """bounding boxes circumscribe their regions"""
    dec, r, ra = case
    reg = CircularRegion(ra, dec, r / 3600.)
    bb = np.asarray(reg.bounding_box)
    ctx.check(bb.shape == (2, 4), f"box of shape {bb.shape}")
    lo, hi = bb.min(axis=1), bb.max(axis=1)
    ctx.check({tuple(c) for c in bb.T} == set(itertools.product((lo[0], hi[0]), (lo[1], hi[1]))), f"the box {bb.T.tolist()} is not aligned with the sky axes")
    th = np.linspace(0, 2 * np.pi, 73)
    rr, d0 = np.deg2rad(r / 3600.), np.deg2rad(dec)
    de = np.arcsin(np.sin(d0) * np.cos(rr) + np.cos(d0) * np.sin(rr) * np.cos(th))
    dr = np.arctan2(np.sin(th) * np.sin(rr) * np.cos(d0), np.cos(rr) - np.sin(d0) * np.sin(de))
    x, y = ra + np.rad2deg(dr), np.rad2deg(de)
    tol = 1e-3 * r / 3600.
    ctx.check((y >= lo[1] - tol).all() and (y <= hi[1] + tol).all() and (x >= lo[0] - tol / np.cos(d0)).all() and (x <= hi[0] + tol / np.cos(d0)).all(),
              f"{case}: circle reaches ra {x.min()}..{x.max()}, dec {y.min()}..{y.max()}, its box is {lo}..{hi}")
    ctx.check(np.allclose([lo[1], hi[1]], [y.min(), y.max()], rtol=0, atol=2e-3 * r / 3600) and np.allclose([lo[0], hi[0]], [x.min(), x.max()], rtol=0, atol=2e-3 * r / 3600 / np.cos(d0)), f"{case}: the box does not circumscribe the circle")
    # signed order of the corners is that of the rectangle's box
    q = RectangularRegion(lo[0], hi[0], lo[1], hi[1])
    bq = np.asarray(q.bounding_box)
    ctx.check({tuple(c) for c in bq.T} == set(itertools.product((lo[0], hi[0]), (lo[1], hi[1]))), f"box of a rectangle: {bq.T.tolist()}")
    for b in (bb, bq):
        turn = [orient(b[:, i], b[:, (i + 1) % 4], b[:, (i + 2) % 4]) for i in range(4)]
        ctx.check(all(t > 0 for t in turn) or all(t < 0 for t in turn), "the corners are not in order around the box")
    ctx.step(73)
    ctx.outcome(case[0])


def run_image(case, ctx):
    """a region overlaps an image exactly when the boxes meet"""
    shape, dec, rot, flip, nx, ny, size = case
    hdr, w = image(dec, rot, flip, nx, ny)
    cd = np.cos(np.deg2rad(dec))
    ra, de = w.pixel_to_world_values([-0.5, nx - 0.5, nx - 0.5, -0.5], [-0.5, -0.5, ny - 0.5, ny - 0.5])
    im = (ra.min() - 53.0) * cd, (ra.max() - 53.0) * cd, de.min() - dec, de.max() - dec
    im = np.array(im) * 3600 / SC
    n = [0, 0, 0]
    for ox in np.arange(-22, 22.1, 2.2):
        for oy in np.arange(-20, 20.1, 2.5):
            r0, d0 = 53.0 + ox * SC / 3600 / cd, dec + oy * SC / 3600
            if shape == "C":
                reg = CircularRegion(r0, d0, size * SC / 3600)
                h = (size, size)
            else:
                h = (size, 0.6 * size)
                reg = RectangularRegion(r0 - h[0] * SC / 3600 / cd, r0 + h[0] * SC / 3600 / cd, d0 - h[1] * SC / 3600, d0 + h[1] * SC / 3600)
            m = min(im[1] - (ox - h[0]), ox + h[0] - im[0], im[3] - (oy - h[1]), oy + h[1] - im[2])
            got = bool(reg.overlaps(hdr))
            ctx.step()
            if abs(m) < 1.1:
                n[2] += 1
                continue
            n[m > 0] += 1
            ctx.check(got == (m > 0), f"{case}: region at ({ox:.1f}, {oy:.1f}) pixels {'overlaps' if m > 0 else 'is apart from'} the image by {abs(m):.1f} pixels, reported {got}")
    ctx.check(n[0] > 0 and n[1] > 0, "nothing to judge")
    ctx.outcome(tuple(n))


def suites(tier):
    q = tier == "quick"
    nA = len(convex_polygons(3, (3, 4)))
    big = convex_polygons(3 if q else 4, (3, 4, 5) if not q else (3, 4, 5, 6))
    rots = (0.0, 0.7, 2.5) if q else (0.0, 0.3, 0.7, 1.5, 2.5, -2.2)
    return [
        Suite("overlap", [(i, SHIFT[tier], (3, 4) if q else (3, 4, 5, 6)) for i in range(nA)], run_overlap, note="all ordered pairs of convex triangles and quadrilaterals (thorough: to hexagons) on the 3x3 lattice x 8 (49) shifts x orders x orientations"),
        Suite("overlap_sky", [(i, (3,) if q else (3, 4)) for i in range(0, nA, 3 if q else 1)], run_sep, note="the same pairs at sky coordinates and scales"),
        Suite("inside", big, run_inside, note="all convex lattice polygons x starting vertex x orientation x half-lattice points"),
        Suite("pixels", [(sh, d, r, f, s, k) for sh in "CR" for d in DECS for r in rots for f in (False, True) for s in (1, 2) for k in "ce"], run_pixels,
              note="shapes x declinations x orientations x handedness x superpixels x corner convention, regions on a grid of positions and sizes"),
        Suite("boxes", [(d, r, ra) for d in (-80, -60, -27.5, -1e-3, 0, 10, 45, 80) for r in (0.05, 1.0, 10.0, 60.0) for ra in (1.0, 53.1, 180.0, 300.0)], run_box, note="declinations x radii"),
        Suite("images", [(sh, d, r, f, nx, ny, s) for sh in "CR" for d in DECS for r in rots for f in (False, True) for nx, ny in ((12, 8), (4, 16)) for s in (0.6, 4.0)], run_image,
              note="shapes x declinations x orientations x handedness x image sizes x region sizes, on a grid of positions"),
    ]
