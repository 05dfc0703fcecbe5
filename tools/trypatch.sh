#!/bin/bash
# trypatch.sh <name> <revert:COMMIT | at:COMMIT | patch file> <property>...   -- run checks against a changed scratch copy of /repo
name=$1 what=$2; shift 2
wt=/tmp/try-$name; bld=/tmp/try-$name-build
git clone -q --shared /repo "$wt" || exit 2
case $what in
  at:*) git -C "$wt" checkout -q --detach "${what#at:}" ;;
  revert:*) git -C "$wt" show "${what#revert:}" | git -C "$wt" apply -R --3way >/dev/null 2>&1 || { echo "$name: revert conflicts"; } ;;
  *) git -C "$wt" apply "$what" || echo "$name: does not apply" ;;
esac
for p in "$@"; do
  out=$(VERIF_REPO=$wt VERIF_BUILD=$bld VERIF_EVIDENCE=/tmp/try-$name-ev python3 /verif/check.py "$p" quick 2>&1); rc=$?
  echo "$name $p rc=$rc $(echo "$out" | grep -c ^VIOLATION) violation(s): $(echo "$out" | grep 'key:' | sed 's/ *key: //' | cut -c1-90 | tr '\n' ';')"
  [ $rc = 2 ] && echo "$out" | tail -5
done
/bin/rm -rf "$wt" "$bld" "/tmp/try-$name-ev"
