#!/bin/bash
# Development tool: try_seed.sh <id> [check...]: is the planted bug valid, and do the checks catch it?
id=$1; shift
s=/verif/seeded/$id
t=$(mktemp -d /tmp/seedXXXX); trap 'rm -rf $t' EXIT
cp -a /repo $t/r; cd $t/r; git checkout -q -- . 
cp -a $s $t/demo
bash $t/demo/demo.sh > $t/o 2>&1; c=$?
git apply $s/patch.diff || { echo "$id NOAPPLY"; exit 1; }
bash $t/demo/demo.sh > $t/o2 2>&1; p=$?
cargo test -q --offline > $t/o3 2>&1; b=$?
echo "$id demo clean=$c patched=$p tests=$b $(tail -1 $t/o2 | cut -c1-120)"
[ $b = 0 ] || grep -E "^(error|test .*FAILED|    [a-z0-9_:]+$)" $t/o3 | head -8
[ $c = 0 ] || tail -5 $t/o
cd /
if [ -n "$1" ]; then
  git -C /repo apply $s/patch.diff || exit 1
  for k in "$@"; do
    a=$(date +%s); timeout 900 python3 /verif/check.py $k quick > /tmp/seed.$id.$k.txt 2>&1; r=$?
    echo "  $id $k rc=$r $(( $(date +%s) - a ))s $(grep -E 'VIOLATION|^FAIL|ERROR' /tmp/seed.$id.$k.txt | head -2 | cut -c1-220 | tr '\n' ' ')"
  done
  git -C /repo checkout -q -- .
fi
