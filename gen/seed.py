#!/usr/bin/env python3
"""seed.py ID PROP FILE 'needs' 'breaks' < JSON: helper for development. Reads from stdin: OLD, a line ====, NEW, a line ====, demo.py."""
import json, os, shutil, subprocess, sys
REPO = os.environ.get("SEED_REPO", "/repo")
i, prop, f, needs, breaks = sys.argv[1:6]
parts = sys.stdin.read().split("\n====\n")
edits, demo = parts[:-1], parts[-1]
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
files = f.split(",")
k = 0
assert len(edits) % 2 == 0
for j in range(0, len(edits), 2):
    p = REPO + "/" + files[min(j // 2, len(files) - 1)]
    s = open(p, newline="").read()
    old, new = edits[j].strip("\n"), edits[j + 1].strip("\n")
    if "\r\n" in s:
        old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
    assert s.count(old) == 1, (p, s.count(old), old)
    open(p, "w", newline="").write(s.replace(old, new))
diff = subprocess.run(["git", "-C", REPO, "diff", "--binary"], stdout=subprocess.PIPE).stdout
open(d + "/patch.diff", "wb").write(diff)
subprocess.run(["git", "-C", REPO, "checkout", "-q", "--", "."])
open(d + "/meta.json", "w").write(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
for x in ("demo.sh", "mk.py"):
    shutil.copy("/verif/gen/demo/" + x, d)
if "mkf" in demo:
    for x in ("mkf.py", "probe.F90"):
        shutil.copy("/verif/gen/demo/fortran/" + x, d)
open(d + "/demo.py", "w").write(demo.strip("\n") + "\n")
