"""C06: whole parallel runs of the real parent and worker loops on a simulated
communicator, under every seed draw and every completion subset.

do_parent runs in the main thread and one do_child per worker in its own thread.
Workers share nothing with each other, so a worker runs from the receipt of a
task to its next receive in one go; what is explored is when its answer becomes
visible to the parent (any subset of the unanswered tasks at every collect, in
either order) and which source every seed draw yields."""
import argparse
import inspect
import json
import os
import shutil
import tempfile
import threading

import numpy as np
from astropy.io import fits

from ..core import Suite
from ..explore import explore
from .. import fakempi as F
from .. import scenes as S

import forcepho.dispatcher as D
import forcepho.patches as P

PROPERTY = "C06"
ASSUMPTIONS = ["MPI delivers every message once and in order per channel; workers do not crash",
               "workers share no state, so running each task to completion at once loses no behaviour",
               "the fit itself is a stand-in that returns recognisable parameters (fits are decided in C08-C14)"]

D.MPI = F.MPI
TOKENS = "model", "step", "stats"
STORES = dict(metastorefile="meta.json", psfstorefile="psf.h5", pixelstorefile="pix.h5", splinedatafile="spline.h5")
NPAR = {}


class Patcher:
    """stand-in for the patch maker: remembers which stores it was told to use"""

    def __init__(self, *a, **k):
        got = inspect.signature(P.StorePatch.__init__).bind(self, *a, **k).arguments
        got = dict(got, **got.get("kwargs", {}))
        self.stores = tuple(got.get(n) for n in ("metastore", "psfstore", "pixelstore", "splinedata"))

    def free(self):
        pass


class Out:
    """stand-in for a fit result: remembers what the worker hands back"""

    def __init__(self, final, covs):
        self._final, self._covs = final, covs

    def fill(self, region, active, fixed, model, bounds=None, step=None, stats=None, patchID=None, **kw):
        self.region, self.active, self.fixed, self.bounds = region, active, fixed, bounds
        if (model, step, stats) != TOKENS:
            raise AssertionError(f"the result was filled from model, step and statistics {(model, step, stats)}, the fit gave {TOKENS}")
        return self._final, self._covs


class Stuck(Exception):
    pass


class World:
    """children threads, handed the processor only while they own a message"""

    def __init__(self, nchild, chooser, config, nbands):
        self.ch, self.config, self.nbands = chooser, config, nbands
        self.comm = F.Comm(nchild + 1, self)
        self.inbox = {c: [] for c in range(1, nchild + 1)}
        self.evt = {c: threading.Semaphore(0) for c in self.inbox}
        self.back = threading.Semaphore(0)
        self.ended, self.errors = set(), []
        self.answers = {}           # taskid -> (final, covs)
        self.tasks = {}             # taskid -> (child, chore copies)
        self.order = []
        self.flight = {}            # taskid -> set of sources
        self.pending = {c: [] for c in self.inbox}
        self.problem = None
        self.count = 0
        self.log = []
        self.kids = []
        for c in self.inbox:
            t = threading.Thread(target=self.child, args=(c,), daemon=True)
            self.kids.append(t)
            t.start()
            self.back.acquire()

    # -- the worker side --
    def child(self, c):
        try:
            D.do_child(ChildComm(self, c), config=self.config)
        except Stuck:
            pass
        except BaseException as e:
            self.errors.append(f"worker {c} raised {type(e).__name__}: {e}")
        self.ended.add(c)
        self.back.release()

    def work(self, patcher, scene, config, logger):
        region, active, fixed, bounds = scene
        if patcher.stores != tuple(STORES.values()):
            self.problem = self.problem or f"the worker's patches come from {patcher.stores}, configured {STORES}"
        self.count += 1
        tag = self.current
        final = active.copy()
        for j, p in enumerate(BANDS[:self.nbands]):
            final[p] = 1000 * tag + 10 * active["source_index"] + j
        final["rhalf"] = 0.10 + 0.0001 * tag + 0.00001 * active["source_index"]
        npar = self.nbands + 6
        covs = np.array([np.eye(npar) * (tag + 0.01 * k) for k in active["source_index"]])
        self.answers[tag] = (final.copy(), covs.copy())
        return (Out(final, covs),) + TOKENS[1:], scene, TOKENS[0]

    # -- the communicator --
    def deliver(self, comm, dest, tag, obj):
        if dest in self.ended:
            self.problem = self.problem or f"message sent to worker {dest}, which has stopped"
            return
        if obj is not None:
            if self.pending[dest] or self.inbox[dest]:
                self.problem = self.problem or f"worker {dest} got task {tag} while holding another"
            src = set(S.idx(obj["active"])) | set(S.idx(obj["fixed"]))
            for t, other in self.flight.items():
                if src & other:
                    self.problem = self.problem or f"tasks {t} and {tag} in flight share sources {sorted(src & other)}"
            if tag in self.tasks:
                self.problem = self.problem or f"task id {tag} used twice"
            if len(self.order) > 60:
                raise RuntimeError("the run does not end")
            self.flight[tag] = src
            self.tasks[tag] = dict(child=dest, active=obj["active"].copy(), fixed=obj["fixed"].copy(), cov=np.array(obj["cov"]),
                                   bounds=obj["bounds"].copy(), region=obj["region"], before=list(self.seen))
            self.order.append(tag)
            self.log.append(("send", tag, dest, sorted(src)))
        self.inbox[dest].append((tag, obj))
        self.current = tag
        n = len(self.comm.outbox[dest])
        self.evt[dest].release()
        self.back.acquire()
        if obj is not None and len(self.pending[dest]) != 1:
            self.problem = self.problem or f"worker {dest} sent {len(self.pending[dest])} answers to task {tag}"

    seen = ()
    free = 4

    def arrive(self, comm, blocking):
        kids = [c for c in sorted(self.pending) if self.pending[c]]
        if blocking == "all":
            pick = kids
        else:
            subs = subsets(kids)
            if blocking:
                subs = [s for s in subs if s]
            if not subs:
                return list(comm.arrived)
            # default: everything for a blocking call, nothing for a poll
            if blocking:
                subs = subs[::-1]
            pick = subs[self.ch.choose(len(subs), "complete")]
        for c in pick:
            tag, obj = self.pending[c].pop(0)
            comm.arrived.append((c, tag, obj))
            self.flight.pop(tag, None)
            self.seen = list(self.seen) + [tag]
            self.log.append(("answer", tag, c))
        arr = list(comm.arrived)
        if len(arr) > 1 and self.ch.choose(2, "order"):
            arr = arr[::-1]
        return arr

    def draw(self, a, size=None, replace=True, p=None):
        # the likeliest seeds first, so that the default schedule makes progress;
        # the draw is free for the first few tasks (a run that keeps drawing
        # finished sources never ends, as any random draw may)
        p = np.asarray(p)
        pos = np.argsort(-p, kind="stable")[:int(np.sum(p > 0))]
        key = len(self.order), len(self.seen)
        if getattr(self, "dkey", None) != key:
            self.dkey = key
            self.dk = self.ch.choose(len(pos), "seed") if len(self.order) < self.free else 0
        else:
            self.dk += 1
        return int(pos[self.dk % len(pos)])

    def end(self):
        for c in self.inbox:
            if c not in self.ended:
                self.inbox[c].append(("stuck", None))
                self.evt[c].release()
                self.back.acquire()
        for t in self.kids:
            t.join(5)


class ChildComm:
    def __init__(self, w, c):
        self.w, self.c = w, c

    def Get_rank(self):
        return self.c

    def Get_size(self):
        return self.w.comm.size

    def recv(self, buf=None, source=F.ANY, tag=F.ANY, status=None):
        w, c = self.w, self.c
        w.back.release()
        w.evt[c].acquire()
        tg, obj = w.inbox[c].pop(0)
        if tg == "stuck":
            raise Stuck()
        if status is not None:
            status.source, status.tag = 0, tg
        return obj

    def send(self, obj, dest, tag=0):
        if dest != 0:
            self.w.problem = self.w.problem or f"worker {self.c} sent its answer to rank {dest}"
        self.w.pending[self.c].append((tag, obj))


def subsets(xs):
    out = [[]]
    for x in xs:
        out += [o + [x] for o in out]
    return out


BANDS = ["A", "B"]


def one_run(case, ctx, chooser):
    tmp = tempfile.mkdtemp(prefix="c06_")
    cwd = os.getcwd()
    os.chdir(tmp)
    nb = case["nb"]
    cat = S.catalog(case["layout"], case["rhalf"], bands=BANDS[:nb])
    n = len(cat)
    hdr = dict(FILTERS=",".join(BANDS[:nb]))
    cfg = argparse.Namespace(raw_catalog=(cat, hdr), maxactive_per_patch=case["mx"], patch_maxradius=6.,
                             target_draws=case["target"], scene_catalog=os.path.join(tmp, "scene.fits"),
                             sampling_draws=case["draws"], ntry_checkout=2 * n + 1,
                             **STORES,
                             bands=BANDS[:nb])
    saved = (np.random.choice, D.dummy_work, P.JadesPatch)
    w = None
    err = None
    try:
        P.JadesPatch = Patcher
        if hasattr(D, "JadesPatch"):
            D.JadesPatch = Patcher
        D.dummy_work = lambda *a, **k: w.work(*a, **k)
        w = World(case["nchild"], chooser, cfg, nb)
        np.random.choice = w.draw
        w.free = case.get("free", 4)
        try:
            D.do_parent(w.comm, config=cfg)
        except F.Deadlock as e:
            err = str(e)
        except Exception as e:
            err = f"the parent raised {type(e).__name__}: {e}"
        np.random.choice = saved[0]
        stopped = set(w.ended)
        w.end()
        ctx.trail = dict(choices=chooser.taken, log=w.log)
        ctx.check(w.problem is None, str(w.problem))
        ctx.check(not w.errors, "; ".join(w.errors))
        ctx.check(err is None, str(err))
        verify(case, ctx, w, tmp, cat, stopped)
        ctx.trace()
        ctx.step(len(w.log))
        ctx.state(tuple(map(str, w.log)))
        ctx.outcome(tuple(map(str, w.order)))
    finally:
        np.random.choice, D.dummy_work, P.JadesPatch = saved
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def verify(case, ctx, w, tmp, cat, stopped):
    n, nb = len(cat), case["nb"]
    ctx.check(stopped == set(range(1, case["nchild"] + 1)), f"workers {stopped} stopped of {case['nchild']}")
    stops = [d for d, t, o in w.comm.sent if o is None]
    ctx.check(sorted(stops) == sorted(stopped), f"stop messages went to {stops}")
    ctx.check(not w.flight, f"tasks {sorted(w.flight)} were never collected")
    state = fits.getdata(os.path.join(tmp, "scene.fits"))
    with open(os.path.join(tmp, "scene_log.json")) as f:
        log = json.load(f)
    with open(os.path.join(tmp, "patchlog.dat")) as f:
        plog = json.load(f)
    ids = sorted(w.tasks)
    ctx.check(sorted(str(i) for i in ids) == sorted(log["patchlog"]),
              f"patches {ids} were dispatched, the log of check-ins is {log['patchlog']}")
    ctx.check(sorted(str(i) for i in ids) == sorted(plog), f"patches {ids} were dispatched, the patch log has {sorted(plog)}")
    mine = {k: [] for k in range(n)}
    for t in w.order:
        for k in S.idx(w.tasks[t]["active"]):
            mine[k].append(t)
        ctx.check(sorted(plog[str(t)]["sources"]) == sorted(S.idx(w.tasks[t]["active"])),
                  f"patch log lists {plog[str(t)]['sources']} for task {t}")
    npar = nb + 6
    for k in range(n):
        ts = mine[k]
        ctx.check(int(state["n_iter"][k]) == len(ts) * case["draws"], f"source {k} has {state['n_iter'][k]} iterations after "
                  f"{len(ts)} patches of {case['draws']}")
        ctx.check(int(state["n_iter"][k]) >= case["target"], f"source {k} ended with {state['n_iter'][k]} of {case['target']} iterations")
        ctx.check(int(state["n_patch"][k]) == len(ts), f"source {k} counts {state['n_patch'][k]} patches, was in {ts}")
        ctx.check(list(map(str, ts)) == log["sourcelog"].get(str(k), []), f"source {k} was fitted in {ts}, logged as "
                  f"{log['sourcelog'].get(str(k))}")
        ctx.check(not state["is_active"][k] and state["is_valid"][k], f"source {k} is still checked out at the end")
        last = ts[-1]
        final, covs = w.answers[last]
        j = S.idx(final).index(k)
        for p in BANDS[:nb] + ["rhalf", "ra", "dec", "q", "pa", "sersic"]:
            ctx.check(state[p][k] == final[p][j], f"source {k} ended with {p}={state[p][k]}, its last patch {last} returned {final[p][j]}")
    # what each task was handed is the latest answer for each of its sources
    for t in w.order:
        task = w.tasks[t]
        done = task["before"]
        for j, k in enumerate(S.idx(task["active"])):
            prev = [u for u in done if k in S.idx(w.tasks[u]["active"])]
            blk = task["cov"][j * npar:(j + 1) * npar, j * npar:(j + 1) * npar]
            if prev:
                final, covs = w.answers[prev[-1]]
                i = S.idx(final).index(k)
                ctx.check(all(task["active"][p][j] == final[p][i] for p in BANDS[:nb] + ["rhalf"]),
                          f"task {t} started source {k} from other values than task {prev[-1]} returned")
                ctx.check(np.array_equal(blk, covs[i]), f"task {t} got the covariance of another patch for source {k}")
            else:
                ctx.check(np.array_equal(blk, np.eye(npar)), f"task {t} did not start source {k} from the identity covariance")
            ctx.check(int(task["bounds"]["source_index"][j]) in (0, k) and
                      task["bounds"]["dec"][j][0] < cat["dec"][k] < task["bounds"]["dec"][j][1], f"task {t} has the bounds of another source")
        for j, k in enumerate(S.idx(task["fixed"])):
            prev = [u for u in done if k in S.idx(w.tasks[u]["active"])]
            final = w.answers[prev[-1]][0] if prev else cat
            i = S.idx(final).index(k) if prev else k
            ctx.check(all(task["fixed"][p][j] == final[p][i] for p in BANDS[:nb] + ["rhalf", "ra", "dec"]),
                      f"task {t} was given source {k} as fixed at other values than {'task %s returned' % prev[-1] if prev else 'the catalog has'}")


def run(case, ctx):
    n, done = explore(lambda ch: one_run(case, ctx, ch), maxdev=case["maxdev"])


FAR = ((0., 0.), (20.3, 0.4), (41.7, -0.6), (60.1, 0.3), (79.9, 0.2), (101.3, 0.1))
NEAR = ((0., 0.), (5.1, 0.3), (14.7, 0.1), (19.9, -0.2))
PAIRS = ((0., 0.), (1.1, 0.3), (41.7, 0.1), (42.9, -0.2))      # one of each pair fitted, the other fixed


def suites(tier):
    q = tier == "quick"
    cs, dv = [], []
    rows = [("far2", FAR[:2], 1), ("far3", FAR[:3], 1), ("near", NEAR, 2)]
    for name, lay, mx in rows:
        for nchild in (1, 2, 3):
            for target, draws in ((1, 1), (2, 1), (10, 20)):
                c = dict(layout=lay, rhalf=tuple([0.2] * len(lay)), mx=mx, nchild=nchild, target=target, draws=draws,
                         nb=1 + (nchild % 2))
                if name == "far2" or (target != 2 and (nchild < 3 or not q)):
                    cs.append(dict(c, maxdev=None if name == "far2" and target != 2 else (3 if q else 5)))
                else:
                    dv.append(dict(c, maxdev=2 if q else 4))
    for n in (4, 6):
        for nchild in (2, 3):
            dv.append(dict(layout=FAR[:n], rhalf=tuple([0.2] * n), mx=1, nchild=nchild, target=1, draws=1, nb=1,
                           maxdev=2 if q else 3))
    for nchild in (1, 2, 3):
        for target, draws in ((1, 1), (2, 1)):
            dv.append(dict(layout=PAIRS, rhalf=(0.2,) * 4, mx=1, nchild=nchild, target=target, draws=draws, nb=1 + nchild % 2,
                           maxdev=3 if q and target == 1 else 2 if q else 4))
    return [Suite("small", cs, run, note="all schedules (or up to 3 departures from the default schedule)"),
            Suite("deviations", dv, run, note="all schedules with a bounded number of departures from the default one")]
