#!/bin/bash
# plant.sh ID: with the bug applied in /repo's working tree, records it under seeded/ID and confirms it.
# demo.sh and meta.json must already be there.
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 1
[ -n "$(git diff)" ] || { echo "no change in /repo"; exit 1; }
git diff > $d/patch.diff
bash /opt/vp/build.sh > /tmp/plant.build 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/plant.build; git checkout -q -- .; exit 1; }
timeout 300 bash $d/demo.sh > /tmp/plant.demo 2>&1; r=$?
echo "demo with bug: exit $r ($(tail -1 /tmp/plant.demo | cut -c1-200))"
[ -n "$NOTEST" ] || bash /opt/vp/test.sh /tmp/plant.json 2>&1 | tail -1
(cd /verif && ./check $prop 2>&1 | cut -c1-400 | tail -6; echo "check $prop exit ${PIPESTATUS[0]}")
git checkout -q -- .
bash /opt/vp/build.sh > /dev/null 2>&1
timeout 300 bash $d/demo.sh > /tmp/plant.demo 2>&1; r=$?
echo "demo clean: exit $r ($(tail -1 /tmp/plant.demo | cut -c1-200))"
git status --short
