"""C05: the task queue, explored as a state machine on a simulated communicator.

Every sequence of submit / collect (non-blocking, blocking, all) / closeout up to
the depth, and at every collect every subset of the outstanding tasks as the one
that has completed, reported in every order."""
import copy
import itertools

from ..core import Suite
from .. import fakempi as F

import forcepho.dispatcher as D

PROPERTY = "C05"
ASSUMPTIONS = ["MPI delivers every message once and in order per channel; workers answer each task once, with the tag it came with (decided for the real worker loop in C06)"]

D.MPI = F.MPI


class Env:
    """workers answer any task they hold when told to"""

    def __init__(self):
        self.held = {}     # child -> list of (tag, task)
        self.stops = []
        self.pick = ()
        self.double = None

    def deliver(self, comm, dest, tag, obj):
        if obj is None:
            self.stops.append(dest)
            return
        if self.held.get(dest):
            self.double = dest
        self.held.setdefault(dest, []).append((tag, obj))

    def arrive(self, comm, blocking):
        kids = self.pick if blocking != "all" else tuple(c for c in sorted(self.held) if self.held[c])
        for c in kids:
            tag, obj = self.held[c].pop(0)
            comm.arrived.append((c, tag, ("answer", c, obj)))
        return list(comm.arrived)


class St:
    def __init__(self, n):
        self.env = Env()
        self.comm = F.Comm(n + 1, self.env)
        self.q = D.MPIQueue(self.comm, n)
        self.out = {}          # child -> task (reference)
        self.next = 1
        self.closed = False


def observe(q):
    return sorted(q.idle), sorted(q.busy), len(q.irecv_handles)


def invariant(ctx, s, n):
    q = s.q
    idle, busy = list(q.idle), list(q.busy)
    ctx.check(len(set(idle)) == len(idle) and len(set(busy)) == len(busy), f"a worker is listed twice: idle {idle} busy {busy}")
    ctx.check(not set(idle) & set(busy), f"a worker is idle and busy: idle {idle} busy {busy}")
    ctx.check(set(idle) | set(busy) == set(range(1, n + 1)), f"a worker is lost: idle {idle} busy {busy}")
    ctx.check(set(busy) == set(s.out), f"busy workers are {busy}, tasks are held by {sorted(s.out)}")
    ctx.check(s.env.double is None, f"worker {s.env.double} was sent a second task while holding one")
    ctx.check(set(c for c in s.env.held if s.env.held[c]) == set(s.out), "tasks held by the workers are not the outstanding ones")


def refused(ctx, s, fn, what):
    before = observe(s.q), len(s.comm.sent)
    try:
        fn()
    except (RuntimeError, ValueError, F.MPIError) as e:
        ctx.check(not isinstance(e, F.MPIError), f"{what}: {e}")
    else:
        ctx.fail(f"{what} is not refused")
    ctx.check((observe(s.q), len(s.comm.sent)) == before, f"{what} was refused but changed the queue")


def run(case, ctx):
    n, depth = case["n"], case["depth"]
    root = St(n)
    root.next = first = case.get("first", 1)
    ctx.check(sorted(root.q.idle) == list(range(1, n + 1)) and not root.q.busy, "a fresh queue has every worker idle")
    todo = [(root, [])]
    while todo:
        s, trail = todo.pop()
        ops = []
        if len(trail) < depth:
            ops.append(("submit", case["tag"]))
            kids = sorted(s.out)
            for r in range(0, len(kids) + 1):
                for sub in itertools.permutations(kids, r):
                    ops.append(("collect", False, sub))
                    if r:
                        ops.append(("collect", True, sub))
            ops.append(("collect", "all", ()))
            if not kids:
                ops.append(("collect", True, ()))
        ops.append(("close",))
        for op in ops:
            t = copy.deepcopy(s)
            ctx.trail = trail + [op]
            ctx.step()
            if op[0] == "submit":
                task = {"task": t.next}
                if len(t.out) == n:
                    refused(ctx, t, lambda: t.q.submit(task, tag=t.next), "submitting with every worker busy")
                    continue
                nsent = len(t.comm.sent)
                child = t.q.submit(task, tag=t.next) if op[1] == "id" else t.q.submit(task)
                ctx.check(len(t.comm.sent) == nsent + 1, f"submit sent {len(t.comm.sent) - nsent} messages")
                dest, tag, obj = t.comm.sent[-1]
                ctx.check(dest not in t.out, f"task sent to worker {dest}, which is busy")
                ctx.check(child == dest, f"submit returned worker {child}, the task went to {dest}")
                ctx.check(obj == {"task": t.next}, f"worker received {obj}")
                if op[1] == "id" and first == 1:
                    ctx.check(tag == t.next, f"task {t.next} was sent with tag {tag}")
                t.out[dest] = t.next
                t.next += 1
            elif op[0] == "collect":
                _, mode, sub = op
                t.env.pick = sub
                if mode is True and not t.out:
                    refused(ctx, t, lambda: t.q.collect(blocking=True), "blocking with nothing outstanding")
                    continue
                try:
                    res = t.q.collect(blocking=mode)
                except F.Deadlock as e:
                    ctx.fail(f"collect({mode!r}): {e}")
                done = sub if mode != "all" else tuple(sorted(t.out))
                want = sorted((c, t.out[c]) for c in done)
                try:
                    got = sorted((r[1], r[2]["task"]) for r in res)
                except Exception:
                    ctx.fail(f"collect({mode!r}) returned {res!r} with workers {done} finished")
                ctx.check(got == want, f"collect({mode!r}) returned {got}, workers {done} finished {want}")
                for c in done:
                    del t.out[c]
            else:
                if t.out:
                    refused(ctx, t, t.q.closeout, "closing with work outstanding")
                    continue
                t.q.closeout()
                ctx.check(sorted(t.env.stops) == list(range(1, n + 1)), f"stop messages went to {t.env.stops}")
                ctx.trace()
                ctx.outcome(("closed", t.next))
                continue
            invariant(ctx, t, n)
            if t.next > case["maxtask"] + first:
                continue
            key = (sorted(t.out.items()), list(t.q.idle), list(t.q.busy), t.next)
            if ctx.state(key) or case["all_paths"]:
                todo.append((t, ctx.trail))


def suites(tier):
    q = tier == "quick"
    cs = []
    for n in (1, 2, 3, 4):
        for tag in ("id", "default"):
            cs.append(dict(n=n, depth=100, maxtask=(10, 9, 8, 6)[n - 1] if q else (12, 10, 9, 7)[n - 1], tag=tag, all_paths=False))
    # a long run: task numbers beyond sixteen bits
    cs.append(dict(n=2, depth=100, maxtask=5 if q else 8, tag="id", all_paths=False, first=65533))
    paths = [dict(n=n, depth=(7 if q else 9) if n < 3 else (6 if q else 7), maxtask=9, tag=tag, all_paths=True)
             for n in (1, 2, 3) for tag in ("id", "default")]
    return [Suite("states", cs, run, note="all reachable queue states, all completion subsets and report orders"),
            Suite("paths", paths, run, note="all operation sequences up to the depth, without merging states")]
