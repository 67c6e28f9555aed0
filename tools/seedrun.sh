#!/bin/bash
# developer aid: run one planted bug: build, tests, demo, its check.   usage: seedrun.sh ID [prop]
set -u
ID=$1; S=/verif/seeded/$ID; P=${2:-$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")}
git -C /repo diff --quiet || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -- .' EXIT
D=$(mktemp -d); cp -a $S/. $D/
(cd /repo && bash /opt/vp/build.sh >$D/b0.log 2>&1; bash $D/demo.sh >$D/d0.log 2>&1); echo "demo unchanged: $?"
git -C /repo apply $S/patch.diff || exit 2
bash /opt/vp/build.sh >$D/b1.log 2>&1 || { echo BUILD FAILS; tail -20 $D/b1.log; exit 1; }
bash /opt/vp/test.sh $D/o.json 2>/dev/null | tail -1
(cd /repo && bash $D/demo.sh >$D/d1.log 2>&1); echo "demo patched: $?"; tail -2 $D/d1.log
(cd /verif && timeout 900 python3 tools/check.py $P quick | tail -8 | cut -c1-300)
rm -rf "$D"
