#!/bin/bash
# mut.sh (-R <commit> | <patch>) <ID>...   runs checks against a scratch copy of /repo with a change (never touches /repo)
set -e
P=$(realpath -m -- "$1")
M=/tmp/bccv-mut; mkdir -p $M
if [ ! -d $M/repo ]; then mkdir $M/repo; fi
rsync -a --delete --exclude _build /repo/ $M/repo/ 2>/dev/null || { rm -rf /tmp/bccv-mut/repo; mkdir /tmp/bccv-mut/repo; (cd /repo && tar cf - --exclude=./_build .) | (cd $M/repo && tar xf -); }
cd $M/repo; git checkout -q -- . ; git update-index -q --refresh || true
if [ "$1" = -R ]; then git show $2 | git apply -R --3way || exit 9; shift 2; elif [ "$1" = none ]; then shift; else git apply "$P"; shift; fi
for id in "$@"; do
  VERIF_REPO=$M/repo VERIF_BUILD=$M/build VERIF_OUT=$M python3 /verif/run.py $id > $M/$id.log 2>&1 && rc=0 || rc=$?
  echo "$id rc=$rc $(grep -c ^VIOLATION $M/$id.log) violations: $(grep '^  ' $M/$id.log | head -2 | cut -c1-220)"
  [ $rc -gt 1 ] && tail -5 $M/$id.log
done
exit 0
