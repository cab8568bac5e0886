#!/bin/bash
# seedtest.sh ID [check...]: apply a planted bug to /repo, build, test, run demo and its check, undo
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
D=/verif/seeded/$1
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
bash "$D/demo.sh" >/tmp/demo0.txt 2>&1; d0=$?
git apply "$D/patch.diff" || exit 2
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/tmp/b.txt 2>&1 || echo "BUILD FAILS"
bash /opt/vp/test.sh /tmp/o.json >/tmp/t.txt 2>&1
T=$(tail -1 /tmp/t.txt)
bash "$D/demo.sh" >/tmp/demo1.txt 2>&1; d1=$?
shift
for c in ${*:-$P}; do
  cd /verif; s=$(date +%s)
  ./check $c quick >/tmp/seed_$c.txt 2>&1; r=$?
  echo "$(basename $D) $P demo $d0/$d1 tests '$T' check $c exit $r $(grep -c '^VIOLATION' /tmp/seed_$c.txt) viol $(( $(date +%s) - s )) s"
  grep "violation kind" /tmp/seed_$c.txt | head -3
done
