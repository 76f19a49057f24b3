"""Line coverage of the code under test by the checks (development aid):
VERIF_COV=/tmp/cov ./run.sh C01 quick; python tools/cov.py /tmp/cov [file substring]"""
import glob
import os
import sys


def start(repo):
    mon = sys.monitoring
    hits = set()
    mon.use_tool_id(mon.COVERAGE_ID, "verif")
    pre = os.path.join(repo, "forcepho") + os.sep

    def line(code, n):
        if code.co_filename.startswith(pre):
            hits.add((code.co_filename[len(pre):], n))
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)

    def dump(d=os.environ["VERIF_COV"], tag=""):
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f"{tag}.{os.getpid()}"), "w") as f:
            f.writelines(f"{a} {b}\n" for a, b in sorted(hits))
    return dump


if __name__ == "__main__":
    import ast
    d, sub = sys.argv[1], sys.argv[2:] or [""]
    repo = os.environ.get("VERIF_REPO", "/repo")
    hits = {}
    for f in glob.glob(d + "/*"):
        for l in open(f):
            a, b = l.split()
            hits.setdefault(a, set()).add(int(b))
    for fn in sorted(glob.glob(repo + "/forcepho/**/*.py", recursive=True)):
        rel = os.path.relpath(fn, repo + "/forcepho")
        if not any(s in rel for s in sub):
            continue
        src = open(fn).read()
        lines = src.splitlines()
        want = set()

        def walk(co):
            for _, _, n in co.co_lines():
                if n:
                    want.add(n)
            for c in co.co_consts:
                if hasattr(c, "co_code"):
                    walk(c)
        walk(compile(src, fn, "exec"))
        h = hits.get(rel, set())
        miss = sorted(n for n in want if n not in h and lines[n - 1].strip() and not lines[n - 1].strip().startswith(('"""', "def ", "class ", "@")))
        print(f"== {rel}: {len(want) - len(miss)}/{len(want)}")
        if len(sys.argv) > 2:
            for n in miss:
                print(f"  {n}: {lines[n - 1]}")
