"""C04: shape of checked-out regions, against brute-force references."""
import itertools

import numpy as np

from ..core import Suite
from .. import scenes as S

PROPERTY = "C04"
ASSUMPTIONS = ["radii of influence do not exceed boundary_radius; no two sources coincide exactly; layouts avoid exact ties"]


def geometry(s):
    xy = np.array(s.scene_coordinates)
    return xy, np.hypot(*(xy[:, None] - xy[None]).transpose(2, 0, 1))


def components(d, roi):
    n = len(roi)
    adj = (d < roi[:, None] + roi[None]) & ~np.eye(n, dtype=bool)
    comp = -np.ones(n, int)
    g = 0
    for i in range(n):
        if comp[i] >= 0:
            continue
        st = [i]
        comp[i] = g
        while st:
            u = st.pop()
            for v in np.flatnonzero(adj[u]):
                if comp[v] < 0:
                    comp[v] = g
                    st.append(v)
        g += 1
    return comp


def groups(case, ctx):
    s = build(case)
    xy, d = geometry(s)
    roi = np.array(s.roi, dtype=float)
    comp = components(d, roi)
    n = len(roi)
    for i in range(n):
        got = sorted(int(x) for x in s.grow_source(i))
        ctx.check(got == sorted(np.flatnonzero(comp == comp[i])), f"group of source {i} is {got}, connected component is "
                  f"{np.flatnonzero(comp == comp[i])}", roi=roi)
        ctx.step()
    gid = np.array(s.make_group_catalog())
    ctx.check(gid.shape == (n,) and np.array_equal(gid.astype(int), comp), f"group catalog {gid} is not the partition {comp} "
              "numbered from zero in catalog order")
    for i in range(n):
        for r in (0.3, 1.0, 2.2, 5.0):
            want = sorted(np.flatnonzero(d[i] < r + roi))
            got = sorted(int(x) for x in s.find_overlaps(s.scene_coordinates[i], r))
            ctx.check(got == want, f"sources overlapping a circle of {r} around {i} are {got}, expected {want}")
            w2 = [j for j in want if j != i]
            got = sorted(int(x) for x in s.find_overlaps(s.scene_coordinates[i], r, seed_index=i))
            ctx.check(got == w2, f"overlaps of {i} excluding itself are {got}, expected {w2}")
            got = [int(x) for x in s.find_overlaps(s.scene_coordinates[i], r, sort=True)]
            ctx.check(sorted(got) == want, f"sorted overlaps of {i} are {got}, expected {want}")
            m = d[i][got] / (r + roi[got])
            ctx.check(bool(np.all(np.diff(m) >= -1e-9)), f"overlaps of {i} are not sorted: {got}")
            row = s.overlap_circle(s.sourcecat["ra"][i], s.sourcecat["dec"][i], r)
            ctx.check(sorted(S.idx(row)) == want, f"overlap_circle gives {S.idx(row)}, expected {want}")
            ctx.step(4)
    ctx.outcome(comp)
    ctx.state((comp, case["layout"]))


def build(case):
    roi = case.get("roi")
    return S.make(case["kind"], case["layout"], case["rhalf"], roi=None if roi is None else np.array(roi), **case["cfg"])


def linked(case, ctx):
    s0 = build(case)
    xy, d = geometry(s0)
    roi = np.array(s0.roi, dtype=float)
    comp = components(d, roi)
    n = len(roi)
    cfg = case["cfg"]
    mx, br = cfg["maxactive_per_patch"], cfg["boundary_radius"]
    for k in range(n):
        for mf in (None, 0, 1, 2):
            s = S.clone(s0)
            ctx.trail = [k, mf]
            reg, act, fix = s.checkout_region(seed_index=k, max_fixed=mf)
            ctx.step()
            ctx.check(act is not None, f"checkout of {k} from a fresh scene is refused")
            a, f = S.idx(act), S.idx(fix)
            ctx.check(1 <= len(a) <= mx, f"{len(a)} active sources, limit {mx}")
            ctx.check(len(set(a)) == len(a), f"active sources repeat: {a}")
            ctx.check(k in a, f"seed {k} is not active: {a}")
            ctx.check(len(set(f)) == len(f) and not set(f) & set(a), f"fixed sources {f} repeat or are active {a}")
            # the active set: whole groups in order of distance, one split at most
            cand = [int(j) for j in np.argsort(d[k] / (br + roi), kind="stable") if d[k][j] < br + roi[j]]
            want, split = [], None
            for c in cand:
                if c in want:
                    continue
                grp = [int(x) for x in np.flatnonzero(comp == comp[c])]
                if len(grp) > mx - len(want):
                    if not cfg["strict"] or not want:
                        split = grp
                    break
                want += grp
            if split is None or len(want) == mx:
                ctx.check(sorted(a) == sorted(want), f"active sources {sorted(a)}, expected the groups {sorted(want)} "
                          f"(strict={cfg['strict']}, limit {mx})", groups=comp)
            else:
                rest = set(a) - set(want)
                ctx.check(set(want) <= set(a) and rest <= set(split), f"active sources {sorted(a)}, expected {want} plus part "
                          f"of {split}", groups=comp)
                ctx.check(len(a) == mx, f"{len(a)} active sources while the group {split} could fill {mx} slots")
            # strict: only the first group may be split
            if cfg["strict"]:
                for g in set(comp[a]):
                    mem = set(np.flatnonzero(comp == g))
                    ctx.check(mem <= set(a) or (set(a) <= mem and len(mem) > mx), f"strict checkout {a} splits group {mem}")
            # the circle
            cat = s0.sourcecat
            cra, cdec = np.mean(cat["ra"][a]), np.mean(cat["dec"][a])
            ctx.check(abs(reg.ra - cra) * 3600 < 1e-4 and abs(reg.dec - cdec) * 3600 < 1e-4, "region is not centred on the mean of "
                      "its active sources")
            cx = np.array(s0.sky_to_scene(reg.ra, reg.dec))
            R = reg.radius * 3600
            dist = np.hypot(*(xy - cx).T)
            ctx.check(bool(np.all(dist[a] + roi[a] + case.get("buffer", 0.3) <= R * (1 + 1e-6) + 1e-6)),
                      f"circle of {R} does not enclose the active sources with their radii {dist[a] + roi[a]} plus buffer")
            tight = max(cfg.get("minradius", 1.), np.max(dist[a] + roi[a]) + case.get("buffer", 0.3))
            ctx.check(abs(R - tight) < 1e-5, f"radius {R} is not the enclosing one, {tight}")
            # the fixed ones
            met = dist / (1.2 * R + roi)
            w = [int(j) for j in np.argsort(met, kind="stable") if met[j] < 1 and j not in a]
            lim = mx if mf is None else mf
            ctx.check(len(f) <= lim, f"{len(f)} fixed sources, at most {lim} requested")
            ctx.check(f == w[:lim], f"fixed sources {f}, closest overlapping are {w[:lim]}", met=met)
            ctx.state((tuple(sorted(a)), tuple(f)))
            ctx.outcome((tuple(sorted(a)), tuple(f)))
    ctx.trace(4 * n)


def circular(case, ctx):
    s0 = build(case)
    xy, d = geometry(s0)
    n = len(xy)
    cfg = case["cfg"]
    mx, br, mr, ns = cfg["maxactive_per_patch"], cfg["boundary_radius"], cfg["maxradius"], cfg.get("nscale", 3)
    rh = np.array(s0.sourcecat["rhalf"])
    for k in range(n):
        s = S.clone(s0)
        ctx.trail = [k]
        reg, act, fix = s.checkout_region(seed_index=k)
        ctx.step()
        ctx.check(act is not None, f"checkout of {k} from a fresh scene is refused")
        a, f = S.idx(act), S.idx(fix)
        outer = d[k] + ns * rh
        inner = d[k] - ns * rh
        near = [int(j) for j in np.argsort(outer, kind="stable") if d[k][j] <= br]
        ins = [j for j in near if outer[j] < mr]
        want = ins[:mx]
        ctx.check(1 <= len(a) <= mx and len(set(a)) == len(a), f"active sources {a}, limit {mx}")
        ctx.check(sorted(a) == sorted(want), f"active sources {sorted(a)}, smallest outer extents are {sorted(want)}")
        ctx.check(abs(reg.ra - s0.sourcecat["ra"][k]) < 1e-9 and abs(reg.dec - s0.sourcecat["dec"][k]) < 1e-9,
                  "region is not centred on the seed")
        R = reg.radius * 3600
        ctx.check(bool(np.all(outer[a] <= R * (1 + 1e-6))), f"active extents {outer[a]} outside of radius {R}")
        ctx.check(R >= cfg.get("minradius", 1.) * (1 - 1e-9), f"radius {R} below the minimum")
        ctx.check(abs(R - max(cfg.get("minradius", 1.), outer[want].max())) < 1e-6, f"radius {R} is not the outermost extent")
        rest = [j for j in near if j not in want]
        fx = [j for j in rest if inner[j] < R][:mx]
        ctx.check(not set(f) & set(a) and len(set(f)) == len(f) and len(f) <= max(mx, 1), f"fixed {f} with active {a}")
        if fx:
            ctx.check(f == fx, f"fixed sources {f}, expected {fx}")
        else:
            ctx.check(set(f) <= set(rest) and len(f) <= 1, f"fixed sources {f}, expected at most one of {rest}")
        ctx.state((tuple(sorted(a)), tuple(f)))
        ctx.outcome((tuple(sorted(a)), tuple(f)))
    ctx.trace(n)


def suites(tier):
    q = tier == "quick"
    lays = list(S.line_layouts(5, (0.7, 1.7, 4.1))) + list(S.grid_layouts(5, 3, 3, 1.9 if q else 1.7))
    if not q:
        lays += list(S.line_layouts(6, (0.7, 1.7, 4.1))) + list(S.grid_layouts(6, 4, 3, 1.9))
    gr, li, ci = [], [], []
    for i, lay in enumerate(lays):
        n = len(lay)
        rads = [tuple([0.5] * n), tuple(0.3 if j % 2 else 1.3 for j in range(n)), tuple([2.2] + [0.2] * (n - 1))]
        rads = [rads[i % 3], rads[(i + 1) % 3]] if q else rads
        for j, rh in enumerate(rads):
            gr.append(dict(kind="link", layout=lay, rhalf=rh, cfg=dict(boundary_radius=4., maxactive_per_patch=1 + (i + j) % 3)))
            if (i + j) % 2:
                gr.append(dict(kind="link", layout=lay, rhalf=tuple([0.1] * n), roi=rh, cfg=dict(boundary_radius=4., maxactive_per_patch=1 + i % 4)))
            for st in (False, True):
                for mx in (((1, 3) if i % 2 else (2, 4)) if q else (1, 2, 3, 4, 6)):
                    for br in ((8.,) if q and (i + j) % 3 else (2.5, 8.)):
                        li.append(dict(kind="link", layout=lay, rhalf=rh,
                                       cfg=dict(boundary_radius=br, maxactive_per_patch=mx, strict=st)))
            for mx in (1, 3) if q else (1, 2, 3, 5):
                for br in (3., 8.):
                    for ns in (1, 3) if mx > 1 else (1, 5):
                        ci.append(dict(kind="circ", layout=lay, rhalf=tuple(min(r, 0.6 if ns > 3 else 1.3) for r in rh),
                                       cfg=dict(boundary_radius=br, maxactive_per_patch=mx, maxradius=6. if mx > 1 else 4.,
                                                nscale=ns)))
    # branching groups: a centre, arms of every combination of lengths, every numbering shift
    for arms in itertools.product((0, 1, 2), repeat=4):
        lay = [(0.0, 0.0)]
        for t, m in enumerate(arms):
            lay += [((k + 1) * np.cos(1.571 * t + 0.1), (k + 1) * np.sin(1.571 * t + 0.1)) for k in range(m)]
        for sh in range(0, len(lay), 2 if q else 1):
            for mx in (1, 2, 3):
                gr.append(dict(kind="link", layout=tuple(lay[sh:] + lay[:sh]), rhalf=tuple([0.55] * len(lay)),
                               cfg=dict(boundary_radius=4., maxactive_per_patch=mx)))
    return [Suite("groups", gr, groups, note="components, group catalog, overlap queries"),
            Suite("linked", li, linked, note="every seed and fixed limit of every layout/limit/strictness"),
            Suite("circular", ci, circular)]
