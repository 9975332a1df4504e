#!/bin/bash
# seed.sh ID: with a planted change applied in /repo's working tree, or /verif/seeded/ID/patch.diff present: capture, build, demo, tests, check, revert
id=$1; d=/verif/seeded/$id; mkdir -p $d
if git -C /repo diff --quiet; then git -C /repo apply $d/patch.diff || exit 1; else git -C /repo diff > $d/patch.diff; fi
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILED; tail -5 /tmp/b.log; }
(timeout 300 bash $d/demo.sh >/tmp/demo.out 2>&1; echo "demo with change: exit $? (want nonzero)"; tail -2 /tmp/demo.out)
[ "$2" = notest ] || bash /verif/tools/rt.sh
(cd /verif; python3 run.py $prop > /tmp/chk.out 2>&1; echo "check $prop exit $?"; grep VIOLATION /tmp/chk.out | cut -c1-300| head -3; tail -2 /tmp/chk.out| cut -c1-300)
git -C /repo checkout -q -- .
bash /opt/vp/build.sh >/tmp/b.log 2>&1
(timeout 300 bash $d/demo.sh >/tmp/demo.out 2>&1; echo "demo unchanged: exit $? (want 0)"; tail -2 /tmp/demo.out)
