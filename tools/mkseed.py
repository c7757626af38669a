#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS BREAKS < edits : writes seeded/ID/{patch.diff,meta.json}.
edits: blocks "@@ FILE\nold\n====\nnew" one after the other.  Every hunk must take away a line of the original repository."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sid, prop, needs, breaks = sys.argv[1:5]
d = os.path.join(V, "seeded", sid)
os.makedirs(d, exist_ok=True)
git = lambda *a: subprocess.run(["git", "-C", "/repo"] + list(a), capture_output=True, text=True).stdout
files, orig = {}, {}
for part in re.split(r"^@@ ", sys.stdin.read(), flags=re.M)[1:]:
    f, body = part.split("\n", 1)
    old, rep = (body.strip("\n") + "\n").split("\n====\n")
    old, rep = (old, rep[:-1]) if rep else (old + "\n", "")
    if f not in files:
        files[f] = orig[f] = open("/repo/" + f).read()
    assert files[f].count(old) == 1, (files[f].count(old), old)
    files[f] = files[f].replace(old, rep)
try:
    for f, t in files.items():
        open("/repo/" + f, "w").write(t)
    diff = git("diff", "--", *files)
finally:
    for f, t in orig.items():
        open("/repo/" + f, "w").write(t)
base = {x.strip() for f in files for x in git("show", "bdde976:" + f).split("\n")}
gone = [x[1:].strip() for x in diff.split("\n") if x.startswith("-") and not x.startswith("---")]
print("lines taken away:", len(gone), "of them original:", sum(1 for g in gone if g and g in base))
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
