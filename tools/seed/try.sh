#!/bin/bash
# try.sh ID [full]: apply a seed to /repo, run its check (and build, tests, demo), undo.
S=/verif/seeded/$1; P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
cd /repo && [ -z "$(git status --porcelain)" ] || { echo dirty; exit 9; }
git apply $S/patch.diff || exit 9
trap 'git -C /repo checkout -q -- .' EXIT
(cd /verif && NNV_EVIDENCE=/tmp/ev python3 check.py $P | tail -4 | cut -c1-300)
if [ "$2" = full ]; then
 bash /opt/vp/test.sh /tmp/try.json > /tmp/try.log 2>&1
 python3 - <<'Q'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; o=set(json.load(open('/tmp/try.json'))['passed'])
m=[x for x in b if x not in o]; print('stable missing:',len(m),m[:5])
Q
 bash $S/demo.sh; echo "demo with patch: $?"
 git -C /repo checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1; bash $S/demo.sh; echo "demo clean: $?"
fi
