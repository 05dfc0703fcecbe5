#!/bin/bash
# seed.sh <id>...: validates planted bugs in a scratch copy of /repo (bind-mounted over /repo in a namespace of its own),
# and runs the check of their property on it. One line per bug.
for id in "$@"; do
  t=/tmp/seed-$id
  /bin/mkdir -p "$t/demo" && cp -a /repo "$t/repo" && cp -r /verif/seeded/$id/. "$t/demo/" && /bin/rm -f "$t/demo/patch.diff" "$t/demo/meta.json"
  prop=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' /verif/seeded/$id/meta.json)
  unshare -Urm bash -c '
    id=$1 t=$2 prop=$3
    mount --bind $t/repo /repo && cd /repo || exit
    bash /opt/vp/build.sh >$t/build0.log 2>&1 || { echo "$id: base build failed"; exit; }
    bash $t/demo/demo.sh >$t/demo0.log 2>&1; d0=$?
    git apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; exit; }
    bash /opt/vp/build.sh >$t/build1.log 2>&1; b=$?
    bash /opt/vp/test.sh $t/t.json >$t/test.log 2>&1; tests=$(tail -1 $t/test.log)
    bash $t/demo/demo.sh >$t/demo1.log 2>&1; d1=$?
    out=$(VERIF_SEED=${VERIF_SEED:-1} VERIF_REPO=/repo VERIF_BUILD=$t/bld VERIF_EVIDENCE=$t/ev timeout 900 python3 /verif/check.py $prop quick 2>&1); rc=$?
    echo "$id [$prop] demo $d0 -> $d1, build $b, tests: $tests, check rc=$rc: $(echo "$out" | grep "key:" | sed "s/ *key: //" | cut -c1-60 | tr "\n" ";" | cut -c1-240)"
    [ $d0 = 0 ] || tail -3 $t/demo0.log
    [ $b = 0 ] || grep -m3 "error" $t/build1.log
    [ $rc = 2 ] && echo "$out" | tail -5
    grep -q ", 0 failed" $t/test.log || tail -5 $t/test.log
  ' _ "$id" "$t" "$prop"
  [ -n "$KEEP" ] || /bin/rm -rf "$t"
done
