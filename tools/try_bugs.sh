#!/bin/bash
# try_bugs.sh [-c "C01 C02"] ids...: clean demo, then with the patch: build, tests, demo, the property's check (or those given)
CH=""; [ "$1" = -c ] && { CH=$2; shift 2; }
V=/verif/seeded
bash /opt/vp/build.sh >/dev/null 2>&1
declare -A clean
for i in "$@"; do (cd /repo && bash $V/$i/demo.sh >/tmp/demo.$i.clean 2>&1; echo $? >/tmp/demo.$i.rc); done
for i in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('$V/$i/meta.json'))['property'])")
  git -C /repo apply $V/$i/patch.diff || { echo "$i: NO APPLY"; continue; }
  bash /opt/vp/build.sh >/tmp/bl 2>&1; b=$?
  bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1; t=$(python3 -c "import json;d=json.load(open('/tmp/t.json'));print(len(d['passed']),len(d['failed']))")
  (cd /repo && bash $V/$i/demo.sh >/tmp/demo.$i.bug 2>&1); d=$?
  echo "== $i [$p] build=$b tests=$t demo clean=$(cat /tmp/demo.$i.rc) bug=$d: $(tail -n1 /tmp/demo.$i.bug)"
  for c in ${CH:-$p}; do s=$(date +%s); (cd /verif; VERIF_SEED=${SEED:-1} python3 check.py $c >/tmp/chk 2>&1); r=$?; echo "   $c rc=$r $(( $(date +%s)-s ))s $(grep -aE 'VIOLATION' /tmp/chk | head -1) $(grep -av VIOLATION /tmp/chk | tail -1 | cut -c1-220)"; done
  git -C /repo checkout -- .
done
git -C /repo status --short
