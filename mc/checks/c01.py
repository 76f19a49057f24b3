"""C01: no two outstanding regions share a source.

Explicit-state search of the real scene managers: from the fresh scene, every
seeded checkout and every check-in (of any outstanding region, returned
unchanged or with moved/resized sources) is applied to a copy of every reachable
state, and the reference bookkeeping is compared after each transition."""
import itertools

import numpy as np

from ..core import Suite
from .. import scenes as S

PROPERTY = "C01"
ASSUMPTIONS = ["source extents are smaller than the patch limits: nscale*rhalf < maxradius and radius of influence <= boundary_radius",
               "one coordinator process owns the scene (as the dispatcher does)"]

ALT = 0.45      # radius a modified check-in gives its sources


def explore(case, ctx, maxdepth=None, modify=False):
    kind, layout, rh, cfg = case["kind"], case["layout"], case["rhalf"], dict(case["cfg"])
    s0 = S.make(kind, layout, rh, **cfg)
    n = s0.n_sources
    todo = [(s0, [], [])]         # scene, outstanding [(active rows, fixed rows)], trail
    ctx.state(("", key(s0, [])))
    while todo:
        s, out, trail = todo.pop()
        ref = [(S.idx(a), S.idx(f)) for a, f in out]
        before = S.snapshot(s)
        for k, kw in itertools.product(range(n), case.get("kw", [{}])):
            t = S.clone(s)
            ctx.trail = trail + [("checkout", k, kw)]
            reg, act, fix = t.checkout_region(seed_index=k, **kw)
            ctx.step()
            if act is None:
                ctx.check(fix is None, "a refused checkout handed out fixed sources")
                ok, what = S.same(before, S.snapshot(t))
                ctx.check(ok, f"a refused checkout changed the scene ({what})")
                ctx.check(len(out) > 0, f"checkout of seed {k} is refused although nothing is checked out")
                unblock(ctx, s, out, k, kw)
                ctx.outcome(("refused", len(out)))
                continue
            a, f = S.idx(act), S.idx(fix)
            ctx.check(len(a) > 0, "a checkout succeeded without active sources")
            ctx.check(len(set(a + f)) == len(a + f), f"region lists a source twice: active {a} fixed {f}")
            for ra, rf in ref:
                sh = set(a + f) & set(ra + rf)
                ctx.check(not sh, f"regions share sources {sorted(sh)}: new active {a} fixed {f}, outstanding active "
                          f"{ra} fixed {rf}")
            S.flags_match(ctx, t, ref + [(a, f)], "after checkout")
            ctx.outcome(("ok", tuple(sorted(a)), tuple(sorted(f))))
            push(ctx, todo, t, out + [(act, fix)], ctx.trail, maxdepth)
        drawn(ctx, s, ref, before, trail, case)
        for i, (act, fix) in enumerate(out):
            for mod in ((False, True) if modify else (False,)):
                t = S.clone(s)
                ctx.trail = trail + [("checkin", S.idx(act), "moved" if mod else "same")]
                new = act.copy()
                if mod:
                    new["rhalf"] = ALT
                    new["ra"] = s.original["ra"][S.idx(act)] + 0.35 / 3600.
                t.checkin_region(new, fix, niter=0)
                ctx.step()
                rest = out[:i] + out[i + 1:]
                S.flags_match(ctx, t, [(S.idx(a), S.idx(f)) for a, f in rest], "after check-in")
                push(ctx, todo, t, rest, ctx.trail, maxdepth)
    ctx.trace(len(ctx.states))


def drawn(ctx, s, ref, before, trail, case):
    """checkouts of a drawn seed: every outcome of the draw, forced through the
    weights, and every pair of outcomes when the scene draws again"""
    free = np.flatnonzero(np.array(s.sourcecat["is_valid"]) != 0).tolist()
    for k in free:
        for k2 in {k, free[(free.index(k) + 1) % len(free)]}:
            t = S.clone(s)
            todo = [k]

            def weights(n=t.n_sources, todo=todo, k2=k2):
                p = np.zeros(n)
                p[todo.pop(0) if todo else k2] = 1.0
                return p
            t.seed_weight = weights
            ctx.trail = trail + [("checkout of a drawn seed", k, k2)]
            reg, act, fix = t.checkout_region()
            del t.seed_weight
            ctx.step()
            if act is None:
                ok, what = S.same(before, S.snapshot(t))
                ctx.check(ok and fix is None, f"a refused checkout of a drawn seed changed the scene ({what})")
                continue
            a, f = S.idx(act), S.idx(fix)
            ctx.check(len(set(a + f)) == len(a + f), f"region lists a source twice: active {a} fixed {f}")
            for ra, rf in ref:
                sh = set(a + f) & set(ra + rf)
                ctx.check(not sh, f"regions share sources {sorted(sh)}: drawn active {a} fixed {f}, outstanding active "
                          f"{ra} fixed {rf}")
            S.flags_match(ctx, t, ref + [(a, f)], "after checkout of a drawn seed")


def unblock(ctx, s, out, k, kw):
    """the seed is free again once the regions that block it are back"""
    blockers = []
    for i in range(len(out)):
        t = S.clone(s)
        for j, (a, f) in enumerate(out):
            if j != i:
                t.checkin_region(a.copy(), f, niter=0)
        ctx.step()
        if t.checkout_region(seed_index=k, **kw)[1] is None:
            blockers.append(i)
    ctx.check(blockers, f"seed {k} is refused although no outstanding region blocks it by itself")
    t = S.clone(s)
    for i in blockers:
        t.checkin_region(out[i][0].copy(), out[i][1], niter=0)
    ctx.step()
    ctx.check(t.checkout_region(seed_index=k, **kw)[1] is not None,
              f"seed {k} is still refused after every region that blocks it was checked in")


def key(s, out):
    c = s.sourcecat
    return (np.array(c["is_active"]), np.array(c["is_valid"]), np.array(c["rhalf"]), np.array(c["ra"]),
            S.canon_outstanding([(S.idx(a), S.idx(f)) for a, f in out]))


def push(ctx, todo, t, out, trail, maxdepth):
    if maxdepth is not None and len(trail) > maxdepth:
        return
    k = key(t, out)
    # with a depth bound a state is revisited only from a shorter history
    d = len(trail)
    h = ("", k)
    if maxdepth is None:
        if ctx.state(h):
            todo.append((t, out, trail))
    else:
        if ctx.state(h) | ctx.state((d, k)):
            if len(trail) < maxdepth:
                todo.append((t, out, trail))


def cases(tier):
    cs = []
    gaps = (0.7, 2.3, 4.1, 7.9) if tier == "quick" else (0.4, 0.7, 1.6, 2.3, 4.1, 7.9, 12.3)
    n = 4 if tier == "quick" else 5
    lays = list(S.line_layouts(n, gaps))
    if tier == "quick":
        lays += list(S.grid_layouts(4, 3, 2, 3.1))
    else:
        lays = lays[::1] if n <= 4 else list(S.line_layouts(4, gaps)) + list(S.line_layouts(5, (0.7, 2.3, 7.9)))
        lays += list(S.grid_layouts(5, 3, 3, 3.1)) + list(S.grid_layouts(4, 4, 2, 2.2))
    for li, lay in enumerate(lays):
        m = len(lay)
        rhs = [tuple([0.5] * m), tuple(0.3 if i % 2 else 1.2 for i in range(m))]
        for ri, rh in enumerate(rhs):
            for mx in ((1, 3) if tier == "quick" else (1, 2, 3, 5)):
                for br in ((3., 8.) if tier != "quick" or li % 2 == ri else (3.,)):
                    base = dict(maxactive_per_patch=mx, boundary_radius=br, maxradius=6.)
                    cs.append(dict(kind="circ", layout=lay, rhalf=rh, cfg=base))
                    for st in ((False, True) if tier != "quick" else (bool((li + mx) % 2),)):
                        cs.append(dict(kind="link", layout=lay, rhalf=rh, cfg=dict(base, strict=st)))
                        # the number of fixed sources is limited differently
                        if tier != "quick" or (li + ri) % 3 == 0:
                            cs.append(dict(kind="link", layout=lay, rhalf=rh, kw=[dict(max_fixed=f) for f in (0, m)],
                                           cfg=dict(base, strict=st)))
    return cs


def suites(tier):
    cs = cases(tier)
    small = [c for c in cs if len(c["layout"]) == 4]
    step = 9 if tier == "quick" else 2
    mods = small[::step]
    return [
        Suite("reachable", cs, lambda c, x: explore(c, x),
              note="all reachable states of seeded checkouts/check-ins (unchanged parameters)"),
        Suite("moved", mods, lambda c, x: explore(c, x, maxdepth=4 if tier == "quick" else 6, modify=True),
              note="all histories up to the depth, check-ins may move and resize sources"),
    ]
