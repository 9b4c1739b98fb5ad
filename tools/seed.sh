#!/bin/bash
# tools/seed.sh ID [--check]: takes /repo's uncommitted change (or seeded/ID/patch.diff when /repo is
# clean) as planted bug ID: builds, runs the tests and the demo with it, optionally the check, undoes it.
id=$1; d=/verif/seeded/$id; mkdir -p $d
cd /repo
if [ -n "$(git status --porcelain --untracked-files=no)" ]; then git diff > $d/patch.diff; else git apply $d/patch.diff || exit 3; fi
bash /opt/vp/build.sh >/tmp/seed_b.log 2>&1 || { echo "BUILD FAILED"; tail -30 /tmp/seed_b.log | grep -i error; git checkout -- .; exit 3; }
bash /opt/vp/test.sh /tmp/seed_o.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable'];o=json.load(open('/tmp/seed_o.json'))['passed']
m=[x for x in b if x not in o]; print("tests:", "ok" if not m else "BROKEN %s"%m)
P
bash $d/demo.sh >/tmp/seed_demo.log 2>&1; echo "demo with bug: $? (want nonzero)"
if [ "$2" = --check ]; then
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  (cd /verif; VERIF_SEED=1 timeout 900 python3 -m vf.check $p quick > /tmp/seed_check.log 2>&1; echo "check $p: $? (want 1)"; grep -m1 VIOLATION /tmp/seed_check.log; grep -m1 ^violation: /tmp/seed_check.log | cut -c1-300; tail -3 /tmp/seed_check.log|cut -c1-300)
fi
git checkout -- .
bash /opt/vp/build.sh >/tmp/seed_b.log 2>&1
bash $d/demo.sh >/tmp/seed_demo0.log 2>&1; echo "demo without: $? (want 0)"
