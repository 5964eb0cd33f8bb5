#!/bin/bash
# seed.sh ID [demo-only]: confirm a planted bug in a scratch copy: patch applies, builds, stable tests pass, demo 0 without / nonzero with.
id=$1; S=/verif/seeded/$id
W=$(mktemp -d /tmp/seedw.XXXX); git clone -q /repo $W/r; cd $W/r
bash $S/demo.sh > /tmp/seed_clean_$id.log 2>&1; a=$?
git apply $S/patch.diff || { echo "$id patch does not apply"; exit 1; }
bash $S/demo.sh > /tmp/seed_bug_$id.log 2>&1; b=$?
echo "$id demo: clean=$a bug=$b   $(grep -m1 -A1 panicked /tmp/seed_bug_$id.log | tail -1 | cut -c1-150)"
[ $a = 0 ] || tail -5 /tmp/seed_clean_$id.log
cd /; rm -rf $W
if [ "$2" != demo-only ]; then
  git -C /repo apply $S/patch.diff && bash /verif/tools/stable.sh; git -C /repo checkout -- .
fi
