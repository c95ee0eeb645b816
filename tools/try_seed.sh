#!/bin/bash
# try_seed.sh ID [PROPERTY...]: applies seeded/ID to /repo, builds, tests, runs the demo and the checks, and undoes it.
# KEEP=1 skips the baseline tests.
id=$1; shift
d=/verif/seeded/$id
cd /repo || exit 9
[ -z "$(git status --porcelain --untracked-files=no)" ] || { echo "repo not clean"; exit 9; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ -z "$SKIP_CLEAN" ]; then
bash /opt/vp/build.sh >/dev/null 2>&1
bash $d/demo.sh >/tmp/demo_clean.txt 2>&1; echo "demo clean: $?"
fi
git apply $d/patch.diff || { echo "does not apply"; exit 9; }
bash /opt/vp/build.sh >/tmp/seed_build.txt 2>&1 || { echo "does not build"; tail -5 /tmp/seed_build.txt; exit 9; }
bash $d/demo.sh >/tmp/demo_bad.txt 2>&1; echo "demo patched: $?"
if [ -z "$KEEP" ]; then
bash /opt/vp/test.sh /tmp/seed_o.json >/dev/null 2>&1
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); o=json.load(open("/tmp/seed_o.json"))
st=set(b["stable"]) if "stable" in b else set(b["passed"])
m=st-set(o["passed"])
print("tests missing:", len(m), sorted(m)[:5])
P
fi
for c in ${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}; do
  (cd /verif; timeout 900 python3 check.py $c > /tmp/seed_check_$c.txt 2>&1; rc=$?; python3 - "$id" "$c" $rc <<'Q'
import json, sys, os
f = "/verif/tools/seed_results.json"
r = json.load(open(f)) if os.path.exists(f) else {}
r.setdefault(sys.argv[1], {})[sys.argv[2]] = int(sys.argv[3])
json.dump(r, open(f, "w"), indent=1, sort_keys=True)
Q
echo "check $c: rc=$rc $(grep -c VIOLATION /tmp/seed_check_$c.txt) $(tail -1 /tmp/seed_check_$c.txt | cut -c1-150)")
done
