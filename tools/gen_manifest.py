"""Regenerate MANIFEST.json from the check modules that exist (run from /verif)."""
import ast, json, os
props = [json.loads(l) for l in open("properties.jsonl")]
NOTE = json.load(open("tools/notes.json")) if os.path.exists("tools/notes.json") else {}
checks, na = [], []
for p in props:
    i = p["id"]
    f = f"mc/checks/{i.lower()}.py"
    if not os.path.exists(f):
        na.append(dict(property=i, reason="check not built yet"))
        continue
    doc = ast.get_docstring(ast.parse(open(f).read())) or ""
    n = NOTE.get(i, {})
    checks.append(dict(property=i, quick_cmd=f"./run.sh {i} quick", thorough_cmd=f"./run.sh {i} thorough",
                       technique=n.get("technique", "explicit-state / bounded exhaustive exploration of the real code against a reference model"),
                       level="model_checking", level_note=n.get("note", " ".join(doc.split())), evidence_file=f"evidence/{i}.json"))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="All checks run the code of /repo's working tree (the C++ kernel is compiled out of tree from its current sources). See DESIGN.md.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
