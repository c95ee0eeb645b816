#!/usr/bin/env python3
"""mkseed.py SPEC.py: spec defines id, prop, edits [(file, old, new)], demo (Kos text) + expect (stdout) or demo_sh, needs, breaks."""
import json, os, subprocess, sys
ns = {}
exec(open(sys.argv[1]).read(), ns)
R = "/repo"
assert not subprocess.run(["git", "-C", R, "status", "--porcelain", "--untracked-files=no"], capture_output=True).stdout, "repo not clean"
d = "/verif/seeded/" + ns["id"]
os.makedirs(d, exist_ok=True)
try:
    for f, old, new in ns["edits"]:
        p = os.path.join(R, f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True).stdout
finally:
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."])
open(d + "/patch.diff", "wb").write(diff)
if "demo" in ns:
    open(d + "/demo.kos", "w").write(ns["demo"])
    open(d + "/expected.txt", "w").write(ns["expect"])
    args = ns.get("args", "")
    sh = """#!/bin/bash
# exit 0: the interpreter built in /repo behaves as documented; 1: it does not
here=$(cd "$(dirname "$0")" && pwd)
kos=$(ls -t "$PWD"/Out/vp/interpreter/kos | head -1)
out=$(timeout 100 "$kos" %s "$here/demo.kos" 2>&1) || true
[ "$out" == "$(cat "$here/expected.txt")" ] && exit 0
echo "got: $out"
exit 1
""" % args
else:
    sh = ns["demo_sh"]
open(d + "/demo.sh", "w").write(sh)
json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
for n, t in ns.get("files", {}).items():
    open(os.path.join(d, n), "w").write(t)
print("written", d)
