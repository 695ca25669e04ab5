#!/bin/bash
# seedtest.sh <id>... : in a scratch copy bind-free (patches /repo's copy at /tmp/seedwork): does the change build, pass the tests and does the demo tell the trees apart?
# Uses /repo itself because the build directory and the demos name /repo; restores it afterwards.
for id in "$@"; do
  S=/verif/seeded/$id
  git -C /repo diff --quiet || { echo "/repo is dirty"; exit 9; }
  bash /opt/vp/build.sh >/tmp/seed.b 2>&1 || { echo "$id: clean tree does not build"; exit 9; }
  (cd /repo && timeout 300 bash $S/demo.sh >/tmp/seed.clean 2>&1); c=$?
  git -C /repo apply $S/patch.diff || { echo "$id: patch does not apply"; continue; }
  b=ok; bash /opt/vp/build.sh >/tmp/seed.b 2>&1 || b=FAILS
  if [ $b = ok ]; then
    t=$(bash /verif/tools/t.sh 2>&1 | tail -1)
    echo "$t" | grep -q 'missing \[\]' || t=$(bash /verif/tools/t.sh 2>&1 | tail -1)
    (cd /repo && timeout 300 bash $S/demo.sh >/tmp/seed.bad 2>&1); d=$?
  fi
  git -C /repo checkout -q -- .
  echo "$id: build=$b clean=$c(want 0) patched=$d(want !0) tests: $t | $(tail -1 /tmp/seed.bad)"
  [ $c = 0 ] || tail -5 /tmp/seed.clean
done
bash /opt/vp/build.sh >/dev/null 2>&1
