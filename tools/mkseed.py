#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE < json {old,new,needs,breaks,demo}: record a planted change (development aid, not a check)"""
import json, os, subprocess, sys
sid, prop, fn = sys.argv[1:4]
d = json.load(sys.stdin) if not sys.stdin.isatty() else {}
R = "/tmp/mk/r"
subprocess.check_call(["git", "-C", R, "fetch", "-q"]); subprocess.check_call(["git", "-C", R, "reset", "-q", "--hard", "origin/HEAD"])
edits = d.get("edits") or [[fn, d["old"], d["new"]]]
for f, o, n in edits:
    s = open(f"{R}/{f}").read()
    assert s.count(o) == 1, (f, o, s.count(o))
    open(f"{R}/{f}", "w").write(s.replace(o, n))
out = os.environ.get("SEED_OUT", "/verif/seeded") + "/" + sid
os.makedirs(out, exist_ok=True)
open(out + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", R, "diff"], text=True))
open(out + "/demo.py", "w").write(d["demo"])
open(out + "/demo.sh", "w").write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo exec /opt/venv/bin/python -W ignore "$d/demo.py"\n')
os.chmod(out + "/demo.sh", 0o755)
json.dump(dict(property=prop, needs=d["needs"], what_it_breaks=d["breaks"]), open(out + "/meta.json", "w"), indent=1)
print(open(out + "/patch.diff").read())
