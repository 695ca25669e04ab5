#!/bin/bash
# newseed.sh <dir with edits.py, demo.sh[, demo.cpp], meta.json> : install as seeded/<name>, test it
for s in "$@"; do
  id=$(basename $s); bash /verif/tools/mkseed.sh $id
  python3 /verif/tools/mkpatch.py $id < $s/edits.py || { echo "$id: edits do not apply"; rm -rf /verif/seeded/$id; continue; }
  for f in $s/*; do case $f in */edits.py) ;; *) cp $f /verif/seeded/$id/;; esac; done
  bash /verif/tools/seedtest.sh $id
done
