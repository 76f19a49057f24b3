"""C02: check-in accounting against a reference model of the whole scene."""
import copy
import itertools
import os
import tempfile

import numpy as np

from ..core import Suite
from .. import scenes as S

PROPERTY = "C02"
ASSUMPTIONS = ["a region is checked in with the fixed sources it was handed out with",
               "returned rows carry the source_index column they were handed out with"]

PARAMS = lambda s: list(s.bands) + list(s.shape_cols)
FIXPAR = ["ra", "dec", "q", "pa", "sersic", "rhalf"]


class Model:
    """what the scene must look like"""

    def __init__(self, s):
        self.snap = S.snapshot(s)
        self.out = []

    def copy(self):
        m = object.__new__(Model)
        m.snap = copy.deepcopy(self.snap)
        m.out = list(self.out)
        return m

    def checkout(self, act, fix):
        a, f = S.idx(act), S.idx(fix)
        c = self.snap["cat"]
        c["is_active"][a] = 1
        c["is_valid"][a + f] = 0
        self.snap["n_active"] += len(a)
        self.snap["n_fixed"] += len(f)
        self.out.append((act, fix))

    def checkin(self, i, bands, act, fix, niter, covs, bounds, taskid):
        a, f = S.idx(act), S.idx(fix)
        c = self.snap["cat"]
        for j, k in enumerate(a):
            for p in list(bands) + FIXPAR:
                c[p][k] = act[p][j]
            c["n_iter"][k] += niter
            c["n_patch"][k] += 1 if niter > 0 else 0
            if covs is not None:
                self.snap["cov"][k] = covs[j]
            if bounds is not None:
                self.snap["bounds"][k] = bounds[j]
            if taskid is not None:
                self.snap["sourcelog"].setdefault(k, []).append(str(taskid))
        c["is_active"][a] = 0
        c["is_valid"][a + f] = 1
        if taskid is not None:
            self.snap["patchlog"].append(str(taskid))
        self.snap["n_active"] -= len(a)
        self.snap["n_fixed"] -= len(f)
        self.out.pop(i)


def norm(snap):
    s = dict(snap)
    s["sourcelog"] = {int(k): list(v) for k, v in snap["sourcelog"].items()}
    return s


def compare(ctx, s, m, where):
    got, want = norm(S.snapshot(s)), norm(m.snap)
    for k in want:
        if isinstance(want[k], np.ndarray):
            if want[k].dtype.names:
                for nme in want[k].dtype.names:
                    ctx.check(np.array_equal(got[k][nme], want[k][nme]),
                              f"{where}: column {nme} of the {k} table is {got[k][nme].tolist()}, expected "
                              f"{want[k][nme].tolist()}")
            else:
                ctx.check(np.array_equal(got[k], want[k]), f"{where}: {k} differs from what was returned")
        else:
            ctx.check(got[k] == want[k], f"{where}: {k} is {got[k]}, expected {want[k]}")


COUNT = itertools.count(1)


def edited(act, tag, bands, order):
    new = act.copy()[list(order)]
    for i in range(len(new)):
        for j, p in enumerate(list(bands) + FIXPAR):
            if p in ("ra", "dec"):
                new[p][i] += (tag * 0.01 + 0.001 * new["source_index"][i] + 0.0003 * j) / 3600.
            else:
                new[p][i] = tag + 0.1 * new["source_index"][i] + 0.01 * j
    new["rhalf"] = 0.1 + 0.01 * np.arange(len(new)) + 0.001 * tag
    # bookkeeping columns of the returned rows must not leak into the catalog
    new["n_iter"] = 777
    new["n_patch"] = 77
    new["id"] = -5
    return new


def options(tier, na):
    """every combination of the optional check-in arguments"""
    orders = list(itertools.permutations(range(na))) if na <= 3 else [tuple(range(na)), tuple(range(na))[::-1]]
    for niter in (0, 1, 70000):
        for cov in (False, True):
            for bnd in (False, True):
                for tid in (None, 0, 12, "p3"):
                    for o in orders:
                        yield niter, cov, bnd, tid, o


def apply_checkin(ctx, s, m, i, opt, tag, flush=False):
    niter, cov, bnd, tid, order = opt
    act, fix = m.out[i]
    npar = len(s.bands) + len(FIXPAR)
    new = edited(act, tag, s.bands, order)
    covs = bounds = None
    if cov:
        covs = np.array([np.eye(npar) * (k + 2 + tag) + 0.01 * j for j, k in enumerate(S.idx(new))])
    if bnd:
        bounds = s.bounds_catalog[S.idx(new)].copy()
        for j, p in enumerate(list(s.bands) + FIXPAR):
            bounds[p][:, 0] -= 0.5 + 0.01 * j + tag * 0.001
            bounds[p][:, 1] += 0.25 + 0.01 * j
    keep = (new.copy(), None if fix is None else fix.copy(), None if covs is None else covs.copy(),
            None if bounds is None else bounds.copy())
    s.checkin_region(new, fix, niter=niter, block_covs=covs, new_bounds=bounds, taskID=tid, flush=flush)
    m.checkin(i, s.bands, keep[0], keep[1], niter, keep[2], keep[3], tid)
    for a, b in zip((new, fix, covs, bounds), keep):
        ctx.check(a is None or a.tobytes() == b.tobytes(), "check-in modified the arrays it was given")
    ctx.step()
    compare(ctx, s, m, f"check-in {opt}")
    # the returned arrays do not stay connected to the catalog
    new["rhalf"] = -99.
    if covs is not None:
        covs[:] = -1
    if bounds is not None:
        bounds["q"] = -4
    compare(ctx, s, m, "editing the arrays after the check-in")


def checkout(ctx, s, m, k):
    reg, act, fix = s.checkout_region(seed_index=k)
    ctx.step()
    if act is None:
        compare(ctx, s, m, f"refused checkout of {k}")
        return False
    m.checkout(act, fix)
    compare(ctx, s, m, f"checkout of {k}")
    # copies: scribbling on what was handed out leaves the catalog alone
    ka, kf = act.copy(), (None if fix is None else fix.copy())
    act["rhalf"] = -1
    act["is_valid"] = 5
    act["ra"] = 0
    if fix is not None:
        fix["dec"] = 0
        fix["is_valid"] = 1
    compare(ctx, s, m, "editing the checked-out copies")
    act[:] = ka
    if fix is not None:
        fix[:] = kf
    return True


def fresh(case, tmp=None):
    s = S.make(case["kind"], case["layout"], case["rhalf"], bands=case["bands"], **case["cfg"])
    return s


def histories(case, ctx):
    """all interleavings of checkouts and check-ins up to the depth; the options
    of successive check-ins cycle through a covering schedule"""
    s0 = fresh(case)
    m0 = Model(s0)
    depth = case["depth"]
    todo = [(s0, m0, [])]
    while todo:
        s, m, trail = todo.pop()
        ctx.trail = trail
        ctx.state((S.canon_outstanding([(S.idx(a), S.idx(f)) for a, f in m.out]), m.snap["cat"]))
        # from every state: returning everything empties the scene
        t, mm = S.clone(s), m.copy()
        for j in range(len(mm.out)):
            act, fix = mm.out[0]
            t.checkin_region(act, fix, niter=2)
            mm.checkin(0, t.bands, act, fix, 2, None, None, None)
        compare(ctx, t, mm, "everything returned")
        ctx.check(not np.any(t.sourcecat["is_active"]) and np.all(t.sourcecat["is_valid"]) and
                  t.n_active == 0 and t.n_fixed == 0, "scene is not empty after every region was returned")
        ctx.trace()
        # and a reset clears it whatever is outstanding
        t = S.clone(s)
        t.reset()
        c = t.sourcecat
        ctx.check(t.n_active == 0 and t.n_fixed == 0 and not np.any(c["is_active"]) and np.all(c["is_valid"]) and
                  not np.any(c["n_iter"]) and not np.any(c["n_patch"]), "reset leaves something checked out or counted")
        for p in list(s.bands) + FIXPAR:
            ctx.check(np.array_equal(c[p], s.sourcecat[p]), f"reset changed column {p}")
        if len(trail) >= depth:
            continue
        for k in range(s.n_sources):
            t, mm = S.clone(s), m.copy()
            ctx.trail = trail + [["checkout", k]]
            if checkout(ctx, t, mm, k):
                todo.append((t, mm, ctx.trail))
        for i in range(len(m.out)):
            na = len(m.out[i][0])
            opts = SCHED[(len(trail) * 3 + i) % len(SCHED)]
            for (niter, cov, bnd, tid, rev) in opts:
                t, mm = S.clone(s), m.copy()
                order = tuple(range(na))[::-1] if rev else tuple(range(na))
                ctx.trail = trail + [["checkin", i, niter, cov, bnd, tid, rev]]
                apply_checkin(ctx, t, mm, i, (niter, cov, bnd, tid, order), len(trail) + 1)
                todo.append((t, mm, ctx.trail))


SCHED = [[(1, True, False, 0, True), (0, False, True, "p3", False)],
         [(70000, False, True, 12, False), (1, True, True, None, True)],
         [(0, True, False, "x", False), (3, False, False, 4, True)]]


def all_options(case, ctx):
    """one region (optionally with a second one outstanding), every combination
    of the check-in arguments and every row order"""
    s0 = fresh(case)
    m0 = Model(s0)
    for k2 in [None] + list(range(s0.n_sources)):
        s, m = S.clone(s0), m0.copy()
        if not checkout(ctx, s, m, case["seed"]):
            continue
        if k2 is not None and not checkout(ctx, s, m, k2):
            continue
        for opt in options(ctx.tier, len(m.out[0][0])):
            t, mm = S.clone(s), m.copy()
            ctx.trail = [case["seed"], k2, opt]
            apply_checkin(ctx, t, mm, 0, opt, 3)
            ctx.state((mm.snap["cat"], opt))
            ctx.trace()
        # the bounds and covariances handed to a fit are those of its sources, in order
        apply_checkin(ctx, s, m, 0, (1, True, True, 5, tuple(range(len(m.out[0][0])))[::-1]), 4)
        for r in range(1, min(3, s.n_sources) + 1):
            for ids in itertools.permutations(range(s.n_sources), r):
                b, cv = s.bounds_and_covs(np.array(ids))
                ctx.check(b.tobytes() == m.snap["bounds"][list(ids)].tobytes(), f"bounds of sources {ids} are not theirs")
                npar = m.snap["cov"].shape[1]
                want = np.zeros((npar * r, npar * r))
                for j, i in enumerate(ids):
                    want[j * npar:(j + 1) * npar, j * npar:(j + 1) * npar] = m.snap["cov"][i]
                ctx.check(np.array_equal(cv, want), f"covariance of sources {ids} is not block diagonal in their order")
                # copies: editing what was handed out leaves the master alone
                for f in b.dtype.names or ():
                    b[f] = -77.0
                cv[...] = -77.0
                again = S.snapshot(s)
                ctx.check(again["bounds"].tobytes() == m.snap["bounds"].tobytes(),
                          f"editing the bounds handed out for {ids} changed the bounds table")
                ctx.check(np.array_equal(again["cov"], m.snap["cov"]),
                          f"editing the covariance handed out for {ids} changed the master covariances")
                ctx.step()


def suites(tier):
    q = tier == "quick"
    lays = list(S.line_layouts(4, (0.7, 4.1))) + ([] if q else list(S.line_layouts(4, (2.3, 7.9))))
    bandsets = (["A"], ["F1", "F2", "F3"])
    hist, opts = [], []
    for li, lay in enumerate(lays):
        for kind in ("circ", "link"):
            for mx in (2, 3):
                bands = bandsets[(li + mx) % 2]
                cfg = dict(maxactive_per_patch=mx, boundary_radius=3.)
                rh = tuple(0.3 if i % 2 else 0.9 for i in range(len(lay)))
                hist.append(dict(kind=kind, layout=lay, rhalf=rh, cfg=cfg, bands=bands, depth=4 if q else 6))
                for seed in ((0, 3) if q else range(4)):
                    opts.append(dict(kind=kind, layout=lay, rhalf=rh, cfg=cfg, bands=bands, seed=seed))
    return [Suite("histories", hist, histories,
                  note="all histories of checkouts/check-ins to the depth, covering schedule of options"),
            Suite("options", opts, all_options,
                  note="every combination of niter, covariances, bounds, task id and row order")]
