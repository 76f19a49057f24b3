"""C07: every crash point and every failing or torn write of a save.

kill:  the saving call runs under a line tracer; before every executed line (of
       forcepho, astropy, json, ...) the directory on disk is what a kill at that
       point would leave behind, and is checked whenever it changed.
torn:  the saving call runs in a forked process whose files can not grow beyond
       L bytes, for every L of an enumerated range: the process is killed by the
       kernel in the middle of the write, or the write fails with an error.
error: every file-system call that Python announces (open, rename, remove, ...)
       fails in turn with an I/O error.
"""
import itertools
import json
import os
import resource
import shutil
import signal
import sys
import tempfile

import numpy as np
from astropy.io import fits

from ..core import Suite
from .. import scenes as S

PROPERTY = "C07"
ASSUMPTIONS = ["process death and failed writes, not power loss: what the process handed to the kernel survives",
               "the file system renames atomically"]


def build(n, nlog, statefile, kind="link", tag=0):
    lay = tuple((3.1 * i, 0.2 * i) for i in range(n))
    s = S.make(kind, lay, tuple([0.2] * n), statefile=statefile)
    mutate(s, nlog, tag)
    return s


def mutate(s, nlog, tag):
    s.sourcecat["n_iter"] = tag * 10 + np.arange(s.n_sources)
    s.sourcecat["F1"] = tag + 0.25 * np.arange(s.n_sources)
    s.patchlog = [f"{tag}-{i}" for i in range(nlog)]
    s.sourcelog = {int(i): [f"{tag}-{i}"] * min(nlog, 3) for i in range(s.n_sources)}


def expect(s):
    return dict(cat=s.sourcecat.copy(), log=dict(sourcelog={str(k): list(map(str, v)) for k, v in s.sourcelog.items()},
                                                 patchlog=list(map(str, s.patchlog))))


def logname(f):
    return os.path.splitext(f)[0] + "_log.json"


def read_cat(fn):
    with open(fn, "rb") as f:
        raw = f.read()
    if not raw:
        raise ValueError("empty")
    with fits.open(fn, memmap=False) as h:
        data = [x.data for x in h if x.data is not None]
        if not data:
            raise ValueError("no table")
        return np.array(data[0])


def cat_equal(a, b):
    if a.dtype.names != b.dtype.names or len(a) != len(b):
        return False
    return all(np.array_equal(np.asarray(a[c]).astype(b[c].dtype), b[c]) for c in b.dtype.names)


def check_files(ctx, statefile, versions, where, allow_absent):
    """each file is a complete old or a complete new version"""
    for what, fn, rd in (("state", statefile, read_cat), ("log", logname(statefile), lambda f: json.load(open(f)))):
        if not os.path.exists(fn):
            ctx.check(allow_absent, f"{where}: the {what} file is gone")
            continue
        try:
            got = rd(fn)
        except Exception as e:
            ctx.fail(f"{where}: the {what} file is unreadable ({type(e).__name__}: {e}; {os.path.getsize(fn)} bytes)")
        if what == "state":
            ok = any(cat_equal(got, v["cat"]) for v in versions)
        else:
            ok = any(got == v["log"] for v in versions)
        ctx.check(ok, f"{where}: the {what} file is neither the previous nor the new version")
        ctx.outcome((what, [cat_equal(got, v["cat"]) if what == "state" else got == v["log"] for v in versions]))


def sig(d):
    """stat, and content of the small ones"""
    out = []
    for root, _, fs in os.walk(d):
        for f in sorted(fs):
            p = os.path.join(root, f)
            try:
                st = os.stat(p)
                out.append((p, st.st_ino, st.st_size, st.st_mtime_ns))
            except FileNotFoundError:
                out.append((p, None))
    return tuple(out)


def save_ops(case, s):
    """the way the save is triggered"""
    how = case["how"]
    if how == "writeout":
        return lambda: s.writeout()
    if how == "named":
        return lambda: s.writeout(case["_named"])
    if how == "flush":
        reg, act, fix = s.checkout_region(seed_index=0)

        def op():
            s.checkin_region(act, fix, niter=3, taskID=9, flush=True)
        return op
    if how == "exit":
        def op():
            with s:
                pass
        return op
    if how == "exit-exc":
        def op():
            try:
                with s:
                    raise KeyError("boom")
            except KeyError:
                return
            raise AssertionError("the context swallowed the exception")
        return op
    raise ValueError(how)


class Case:
    def __init__(self, case, tmp):
        name = case["name"]
        os.makedirs(os.path.dirname(os.path.join(tmp, name)), exist_ok=True)
        self.state = os.path.join(tmp, name)
        n0, l0 = case["old"] if case["old"] else (2, 1)
        self.versions = []
        self.absent = case["old"] is None
        named = None
        if case["how"] == "named":
            named = self.state
            self.statefile = os.path.join(tmp, "other.fits")
        else:
            self.statefile = self.state
        if case["old"]:
            o = build(n0, l0, self.state, case["kind"], tag=1)
            o.writeout()
            self.versions.append(expect(o))
        n1, l1 = case["new"]
        self.s = build(n1, l1, self.statefile, case["kind"], tag=2)
        case = dict(case, _named=named)
        self.op = save_ops(case, self.s)
        if case["how"] == "flush":
            # expected content: the reference effect of that check-in
            r = S.clone(self.s)
            a = np.flatnonzero(r.sourcecat["is_active"])
            r.sourcecat["n_iter"][a] += 3
            r.sourcecat["n_patch"][a] += 1
            r.sourcecat["is_active"][:] = 0
            r.sourcecat["is_valid"][:] = 1
            for k in a:
                r.sourcelog.setdefault(int(k), []).append("9")
            r.patchlog.append("9")
            self.versions.append(expect(r))
        else:
            self.versions.append(expect(self.s))


def final_ok(ctx, c, where):
    check_files(ctx, c.state, c.versions[-1:], where, False)


def with_tmp(fn):
    def wrapped(case, ctx):
        tmp = tempfile.mkdtemp(prefix="c07_")
        try:
            return fn(case, ctx, tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return wrapped


@with_tmp
def kill(case, ctx, tmp):
    c = Case(case, tmp)
    last = [sig(tmp)]
    err = []
    n = [0]

    def tracer(frame, event, arg):
        if frame.f_code.co_filename == __file__:
            return None
        if event == "line" and not err:
            n[0] += 1
            now = sig(tmp)
            if now != last[0]:
                last[0] = now
                sys.settrace(None)
                try:
                    ctx.step()
                    ctx.state(now)
                    check_files(ctx, c.state, c.versions, f"killed before {os.path.basename(frame.f_code.co_filename)}:"
                                f"{frame.f_lineno} ({frame.f_code.co_name})", c.absent)
                except Exception as e:
                    err.append(e)
                finally:
                    sys.settrace(tracer)
        return tracer
    sys.settrace(tracer)
    try:
        c.op()
    finally:
        sys.settrace(None)
    if err:
        raise err[0]
    ctx.check(n[0] > 20, "the tracer saw no crash points")
    ctx.trace(n[0])
    ctx.extra_states += n[0]
    final_ok(ctx, c, "after the save")
    # saving again over the result works too
    c.s.writeout(c.state)
    c.versions[-1] = expect(c.s)
    final_ok(ctx, c, "after saving again")
    left = [f for f in os.listdir(os.path.dirname(c.state)) if os.path.isfile(os.path.join(os.path.dirname(c.state), f))]
    ctx.check(os.path.basename(c.state) in left, "the state file does not have the requested name")


def child(fn):
    """run fn in a forked process; returns the wait status"""
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            fn()
        except BaseException as e:
            code = 3
            if os.environ.get("VERIF_VERBOSE"):
                print(repr(e), file=sys.stderr)
        finally:
            os._exit(code)
    return os.waitpid(pid, 0)[1]


@with_tmp
def torn(case, ctx, tmp):
    # length of the complete files
    c = Case(case, tmp)
    st = child(c.op)
    ctx.check(st == 0, "the save fails without any fault")
    sizes = sorted({os.path.getsize(c.state), os.path.getsize(logname(c.state))})
    top = max(sizes)
    limits = set(range(0, top + 200, case["step"])) | {x + d for x in sizes for d in (-2, -1, 0, 1) if x + d >= 0} | {0, 1, 2}
    hit = 0
    for lim in sorted(limits):
        for mode in ("kill", "error"):
            shutil.rmtree(tmp)
            os.makedirs(tmp)
            c = Case(case, tmp)

            def op():
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL if mode == "kill" else signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (lim, resource.RLIM_INFINITY))
                c.op()
            status = child(op)
            hit += status != 0
            ctx.trail = [lim, mode]
            ctx.step()
            ctx.state((lim, mode))
            check_files(ctx, c.state, c.versions, f"file size limited to {lim} bytes ({mode})", c.absent)
            if status == 0:
                final_ok(ctx, c, f"save reported success with files limited to {lim} bytes")
            # the next save is not disturbed by what the failed one left behind
            c.s.writeout(c.state)
            c.versions[-1] = expect(c.s)
            final_ok(ctx, c, f"save after one that failed at {lim} bytes")
            ctx.trace(2)
    ctx.check(hit > 0, "no write was ever torn")


FSEVENTS = ("open", "os.rename", "os.remove", "os.link", "os.symlink", "os.truncate", "os.mkdir", "os.rmdir",
            "shutil.move", "shutil.copyfile", "tempfile.mkstemp")


@with_tmp
def error(case, ctx, tmp):
    k = 0
    while True:
        shutil.rmtree(tmp)
        os.makedirs(tmp)
        c = Case(case, tmp)
        r, w = os.pipe()

        def op():
            n = [0]

            def hook(ev, args):
                if ev not in FSEVENTS or not args:
                    return
                a = [str(x) for x in args[:2] if isinstance(x, (str, bytes, os.PathLike))]
                if not any(x.startswith(tmp) for x in a):
                    return
                i = n[0]
                n[0] += 1
                if i == k:
                    os.write(w, b"1")
                    if case["mode"] == "kill":
                        os._exit(9)
                    raise OSError(5, "injected I/O error")
            sys.addaudithook(hook)
            c.op()
        status = child(op)
        os.close(w)
        fired = os.read(r, 1)
        os.close(r)
        ctx.trail = [k]
        ctx.step()
        ctx.state(k)
        check_files(ctx, c.state, c.versions, f"file-system call {k} failed ({case['mode']})", c.absent)
        if not fired:
            ctx.check(status == 0, "the save fails without any fault")
            final_ok(ctx, c, "after the save")
            break
        ctx.check(status != 0, f"the error of file-system call {k} was swallowed")
        c.s.writeout(c.state)
        c.versions[-1] = expect(c.s)
        final_ok(ctx, c, f"save after one that failed at call {k}")
        ctx.trace(2)
        k += 1
    ctx.check(k >= 1, "no file-system call was seen")


class Boom(Exception):
    pass


LEAVE = {"normal": None, "error": Boom, "interrupt": KeyboardInterrupt, "exit": SystemExit}


@with_tmp
def histories(case, ctx, tmp):
    """every history of checkouts and check-ins inside the context, every way of leaving it"""
    n, kind, ops = case["n"], case["kind"], case["ops"]
    for how, exc in LEAVE.items():
        for prior in (False, True):
            fn = os.path.join(tmp, f"{how}{int(prior)}.fits")
            s = S.make(kind, tuple((9.1 * i, 0.2 * i) for i in range(n)), tuple([0.2] * n), statefile=fn,
                       maxactive_per_patch=1, boundary_radius=4., maxradius=3.)
            if prior:
                s.writeout()
            out, t = [], 0
            try:
                with s:
                    for o in ops:
                        ctx.step()
                        if o[0] == "out":
                            reg, a, f = s.checkout_region(seed_index=o[1])
                            if a is not None:
                                out.append((a, f))
                        elif out:
                            t += 1
                            a, f = out.pop(o[1] % len(out))
                            a["F1"] += t
                            s.checkin_region(a, f, niter=t, taskID=t, flush=o[2])
                            if o[2]:
                                check_files(ctx, fn, [expect(s)], f"{ops}: after a flushed check-in", False)
                    if exc is not None:
                        raise exc("boom")
            except BaseException as e:
                if exc is None or type(e) is not exc:
                    raise
            else:
                ctx.check(exc is None, f"{ops}: leaving the context swallowed the {how}")
            check_files(ctx, fn, [expect(s)], f"{ops}, left by {how}, {len(out)} outstanding", False)
            ctx.state((how, len(out), t))
            ctx.trace()


def history_cases(depth):
    acts = [("out", 0), ("out", 1), ("in", 0, False), ("in", 1, True)]
    for kind in ("circ", "link"):
        for d in range(depth + 1):
            for ops in itertools.product(acts, repeat=d):
                if d == 0 or ops[0][0] == "out":
                    yield dict(kind=kind, n=3, ops=list(ops))


def suites(tier):
    q = tier == "quick"
    names = ("scene.fits", "run.fits/scene.fits", "scene.cat", "my.fits.v2.fits") if q else \
            ("scene.fits", "run.fits/scene.fits", "scene.cat", "my.fits.v2.fits", "scene", "a.b/scene.FITS", "x_log.fits")
    hows = ("writeout", "named", "flush", "exit", "exit-exc")
    shapes = [((3, 2), (3, 4)), ((60, 2), (3, 400)), ((3, 900), (60, 1)), (None, (3, 2))]
    ks, er = [], []
    for i, (name, how, (old, new)) in enumerate(itertools.product(names, hows, shapes)):
        kind = "link" if i % 2 else "circ"
        ks.append(dict(name=name, how=how, old=old, new=new, kind=kind))
        for mode in ("error", "kill"):
            er.append(dict(name=name, how=how, old=old, new=new, kind=kind, mode=mode))
    tn = []
    for i, (old, new) in enumerate(shapes):
        for j, how in enumerate(hows if not q else (hows[i % 5], hows[(i + 2) % 5])):
            tn.append(dict(name=names[(i + j) % len(names)], how=how, old=old, new=new, kind="circ", step=211 if q else 31))
    return [Suite("kill", ks, kill, note="every executed line of every save"),
            Suite("torn", tn, torn, note="file size limits from 0 to beyond the complete size, kill and error"),
            Suite("histories", history_cases(3 if q else 5), histories,
                  note="all in-context histories up to the depth x normal exit, exception, interrupt, system exit x earlier state file"),
            Suite("error", er, error, note="every file-system call of the save fails or is the last")]
