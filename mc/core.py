"""Runner for bounded exhaustive checks.

A property module (mc/checks/cXX.py) defines

    PROPERTY = "CXX"
    LEVEL_NOTE / ASSUMPTIONS
    def suites(tier): -> list of Suite

A Suite enumerates *cases* (JSON-able descriptors, produced in a deterministic
order and covering a stated finite space completely) and a function that runs
the real code on one case and compares it with the reference model.  Inside a
case the function may itself be an explicit-state search (see mc.explore).

The runner executes every case of every suite in forked workers, merges the
counters, writes evidence/<id>.json, and prints VIOLATION / KNOWN-FINDING.
"""
import hashlib
import json
import os
import pickle
import signal
import struct
import sys
import time
import traceback

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(ROOT, "evidence")
COV_DUMP = None     # development aid, see tools/cov.py
CASE_TIMEOUT = int(os.environ.get("VERIF_CASE_TIMEOUT", "0"))


class Violation(Exception):
    def __init__(self, msg, **detail):
        super().__init__(msg)
        self.detail = detail


class CaseTimeout(BaseException):
    pass


def digest(obj):
    """Stable digest of nested python/numpy values."""
    h = hashlib.blake2b(digest_size=12)
    _feed(h, obj)
    return h.digest()


def _feed(h, o):
    if isinstance(o, np.ndarray):
        h.update(b"A" + str(o.dtype.descr if o.dtype.names else o.dtype).encode() + repr(o.shape).encode())
        h.update(np.ascontiguousarray(o).tobytes())
    elif isinstance(o, (np.generic,)):
        _feed(h, o.item())
    elif isinstance(o, dict):
        h.update(b"D")
        for k in sorted(o, key=repr):
            _feed(h, k)
            _feed(h, o[k])
    elif isinstance(o, (list, tuple)):
        h.update(b"L%d" % len(o))
        for x in o:
            _feed(h, x)
    elif isinstance(o, (set, frozenset)):
        h.update(b"S")
        for x in sorted(o, key=repr):
            _feed(h, x)
    else:
        h.update(repr(o).encode() + b";")


class Ctx:
    """Per-case recorder handed to the case function."""

    def __init__(self, suite, case, tier, seed):
        self.suite, self.case, self.tier, self.seed = suite, case, tier, seed
        self.states = set()
        self.extra_states = 0
        self.transitions = 0
        self.traces = 0
        self.outcomes = set()
        self.trail = None
        self.known = []

    def state(self, obj):
        """record a visited model/implementation state; True when it is new"""
        d = digest(obj)
        if d in self.states:
            return False
        self.states.add(d)
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, obj):
        self.outcomes.add(digest(obj))

    def fail(self, msg, **detail):
        raise Violation(msg, **detail)

    def check(self, ok, msg, **detail):
        if not ok:
            raise Violation(msg, **detail)


class Suite:
    def __init__(self, name, cases, run, exhaustive=True, note=""):
        self.name = name
        self.cases = list(cases)
        self.run = run
        self.exhaustive = exhaustive
        self.note = note


def jsonable(o):
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(x) for x in o]
    if isinstance(o, (set, frozenset)):
        return sorted([jsonable(x) for x in o], key=repr)
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, np.generic):
        return jsonable(o.item())
    if isinstance(o, bytes):
        return o.hex()
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(suite, case, tier, seed):
    ctx = Ctx(suite.name, case, tier, seed)
    np.random.seed(0)
    fail = None
    old = signal.signal(signal.SIGALRM, _alarm)
    limit = CASE_TIMEOUT or (240 if tier == "quick" else 7200)
    signal.alarm(limit)
    try:
        suite.run(case, ctx)
    except Violation as e:
        fail = dict(kind="violation", message=str(e), detail=jsonable(e.detail))
    except CaseTimeout:
        fail = dict(kind="timeout", message=f"case did not finish in {limit} s", detail={})
    except Exception as e:
        fail = dict(kind="exception", message=f"code under test raised {type(e).__name__}: {e}",
                    detail=dict(traceback=traceback.format_exc().splitlines()[-14:]))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    if fail is not None:
        fail["trail"] = jsonable(ctx.trail)
    return ctx, fail


def _take(counter, n, chunk):
    with counter.get_lock():
        i = counter.value
        counter.value = min(n, i + chunk)
    return range(i, min(n, i + chunk))


def _worker(suite, counter, tier, seed, wfd, curfd, deadline):
    """take cases from the shared counter and run them; stop at the first failure"""
    n = len(suite.cases)
    chunk = 1 if n < 2000 else 8
    tot = dict(states=0, transitions=0, traces=0, cases=0, outcomes=set(), fail=None,
               known=[], sample=None)
    queue = []
    while True:
        if not queue:
            queue = list(_take(counter, n, chunk))
            if not queue:
                break
        i = queue.pop(0)
        if time.time() > deadline:
            tot["capped"] = True
            break
        os.pwrite(curfd, struct.pack("q", i), 0)
        ctx, fail = run_one(suite, suite.cases[i], tier, seed)
        tot["states"] += max(1, len(ctx.states)) + ctx.extra_states
        tot["transitions"] += max(1, ctx.transitions)
        tot["traces"] += max(1, ctx.traces)
        tot["cases"] += 1
        tot["outcomes"] |= ctx.outcomes
        tot["known"] += ctx.known
        if tot["sample"] is None or i == n // 2:
            tot["sample"] = jsonable(dict(suite=suite.name, case=suite.cases[i], states=max(1, len(ctx.states)),
                                          transitions=ctx.transitions))
        if fail is not None:
            fail["case_index"] = i
            tot["fail"] = fail
            with counter.get_lock():      # the others finish what they are doing
                counter.value = n
            break
    with os.fdopen(wfd, "wb") as f:
        pickle.dump(tot, f)


def run_suite(suite, tier, seed, nproc, deadline):
    n = len(suite.cases)
    if os.environ.get("VERIF_CASE"):
        suite.cases = [suite.cases[int(os.environ["VERIF_CASE"])]]
        n = 1
    nproc = max(1, min(nproc, n))
    kids = []
    sys.stdout.flush()
    sys.stderr.flush()
    import multiprocessing
    import tempfile
    counter = multiprocessing.get_context("fork").Value("q", 0)
    for w in range(nproc):
        rfd, wfd = os.pipe()
        curf = tempfile.TemporaryFile()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(rfd)
                dn = os.open(os.devnull, os.O_WRONLY)
                if not os.environ.get("VERIF_VERBOSE"):
                    os.dup2(dn, 1)
                _worker(suite, counter, tier, seed, wfd, curf.fileno(), deadline)
            except BaseException:
                traceback.print_exc()
                code = 77
            finally:
                if COV_DUMP:
                    COV_DUMP(tag=suite.name)
                os._exit(code)
        os.close(wfd)
        kids.append((pid, rfd, curf))
    res = []
    for pid, rfd, curf in kids:
        with os.fdopen(rfd, "rb") as f:
            blob = f.read()
        _, status = os.waitpid(pid, 0)
        if blob and os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0:
            res.append(pickle.loads(blob))
        else:
            cur = os.pread(curf.fileno(), 8, 0)
            i = struct.unpack("q", cur)[0] if len(cur) == 8 else -1
            if os.WIFSIGNALED(status):
                msg = f"process died on signal {os.WTERMSIG(status)} while running the case"
                res.append(dict(states=0, transitions=0, traces=0, cases=0, outcomes=set(), known=[],
                                sample=None, fail=dict(kind="crash", message=msg, detail={}, case_index=i,
                                                       trail=None)))
            else:
                raise RuntimeError(f"worker of suite {suite.name} failed with status {status}")
        curf.close()
    return res


def main(module, tier, seed, nproc=None, only=None, budget=None):
    t0 = time.time()
    prop = module.PROPERTY
    os.makedirs(EVID, exist_ok=True)
    nproc = nproc or int(os.environ.get("VERIF_PROCS", "0")) or min(8, os.cpu_count() or 1)
    budget = budget or (700 if tier == "quick" else 6 * 3600)
    deadline = t0 + budget
    findings = json.load(open(os.path.join(ROOT, "known_findings.json"))) if \
        os.path.exists(os.path.join(ROOT, "known_findings.json")) else {"findings": []}
    listed = {f["key"]: f for f in findings.get("findings", []) if f["property"] == prop}

    tot = dict(states=0, transitions=0, traces=0)
    per_suite, samples, fails, known = [], [], [], []
    capped = False
    try:
        suites = module.suites(tier)
        suite_err = None
    except Exception as e:
        suites = []
        suite_err = dict(kind="exception", message=f"setting up the cases raised {type(e).__name__}: {e}",
                         detail=dict(traceback=traceback.format_exc().splitlines()[-14:]), trail=None,
                         case_index=-1)
        fails.append(("setup", suite_err, None))
    for s in suites:
        if only and s.name not in only:
            continue
        ts = time.time()
        res = run_suite(s, tier, seed, nproc, deadline)
        outc = set()
        row = dict(suite=s.name, cases_enumerated=len(s.cases), cases_run=0, states=0, transitions=0, traces=0)
        for r in res:
            row["cases_run"] += r["cases"]
            for k in ("states", "transitions", "traces"):
                row[k] += r[k]
                tot[k] += r[k]
            outc |= r["outcomes"]
            known += [tuple(k) for k in r["known"]]
            capped |= bool(r.get("capped"))
        row["distinct_outcomes"] = len(outc)
        row["wall_s"] = round(time.time() - ts, 2)
        if s.note:
            row["bounds"] = s.note
        per_suite.append(row)
        samples += [r["sample"] for r in res if r["sample"]][:2]
        bad = [r["fail"] for r in res if r["fail"]]
        if bad and os.environ.get("VERIF_FAILFAST"):
            only = ["-"]
        if bad:
            bad.sort(key=lambda f: f["case_index"])
            fails.append((s.name, bad[0], s.cases[bad[0]["case_index"]] if bad[0]["case_index"] >= 0 else None))

    # a failing case whose key is listed is reported as a finding (checks report
    # listed findings through ctx.known so that the rest of the case still runs)
    seen_known = sorted(set(known))
    for key, what in seen_known:
        if key in listed:
            print(f"KNOWN-FINDING: property={prop} {listed[key]['what']}")
        else:
            fails.append(("finding", dict(kind="violation", message=what, detail=dict(key=key), trail=None,
                                          case_index=-1), None))

    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=tot["states"], transitions=tot["transitions"],
                            traces_validated_against_impl=tot["traces"],
                            samples=samples[:12] or ["none"],
                            exhaustive=(not capped and not fails and all(s.exhaustive for s in suites)),
                            suites=per_suite),
              assumptions=list(getattr(module, "ASSUMPTIONS", [])),
              wall_s=round(time.time() - t0, 3), violations=len(fails))
    with open(os.path.join(EVID, f"{prop}.json"), "w") as f:
        json.dump(jsonable(ev), f, indent=1)
    for row in per_suite:
        print(f"  {prop}/{row['suite']}: cases={row['cases_run']}/{row['cases_enumerated']} "
              f"states={row['states']} transitions={row['transitions']} traces={row['traces']} "
              f"outcomes={row['distinct_outcomes']} wall={row['wall_s']}s")
    if capped:
        print(f"  {prop}: time budget reached; coverage is partial (exhaustive=false)")
    for i, (sname, f, case) in enumerate(fails):
        path = os.path.join(EVID, f"replay_{prop}_{sname}_{i}.json")
        with open(path, "w") as fo:
            json.dump(jsonable(dict(property=prop, suite=sname, tier=tier, case=case, **f,
                                    how=f"cd /verif && VERIF_CASE={f['case_index']} ./run.sh {prop} {tier} --suite {sname}")),
                      fo, indent=1)
        print(f"  {prop}/{sname}: {f['message'][:600]}")
        print(f"VIOLATION property={prop} replay={path}")
    sys.stdout.flush()
    return 1 if fails else 0
