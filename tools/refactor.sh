#!/bin/bash
# tools/refactor.sh "<name>[,<name>...]" [Cxx ...]: apply behaviour-preserving edits (refactors_def.py)
# to a copy of /repo, bind the copy and a copy of /verif over the real ones in a mount namespace of
# our own, run the repository's tests and then the checks (default: all), and report every check that is not
# quiet.  Development only.
set -u
names=$1; shift
work=$(mktemp -d /tmp/rf.XXXXXX)
cp -a /repo "$work/repo"
mkdir "$work/verif"; (cd /verif && tar --exclude=./target --exclude=./.git --exclude=./seeded -cf - .) | tar -C "$work/verif" -xf -
[ -n "${RF_TARGET:-}" ] && { mkdir -p "$RF_TARGET"; ln -s "$RF_TARGET" "$work/verif/target"; }
python3 - "$work/repo/src" "$names" <<'PY'
import sys, os
sys.path.insert(0, "/verif/tools")
from refactors_def import R
from refactors2_def import R2
from refactors3_def import R3
src, names = sys.argv[1], sys.argv[2].split(",")
if names == ["all"]: names = [n for n in R if n not in ("ghash-right-to-left","aes-inverse-chain")]
if names == ["all2"]: names = list(R2)
if names == ["all3"]: names = list(R3)
for n in names:
    f, edits = (R.get(n) or R2.get(n) or R3[n])
    if f is None:
        for g in os.listdir(src):
            open(os.path.join(src, g), "a").write(edits)
        continue
    p = os.path.join(src, f); t = open(p).read()
    for e in edits:
        if callable(e):
            u = e(t)
            if u == t: sys.exit("no change in %s" % n)
            t = u
            continue
        old, new = e
        if t.count(old) < 1: sys.exit("no match in %s: %s" % (n, old[:60]))
        t = t.replace(old, new, 1)
    open(p, "w").write(t)
PY
[ $? = 0 ] || { rm -rf "$work"; exit 2; }
checks="$*"; [ -z "$checks" ] && checks=$(seq -f 'C%02g' 1 26 | tr '\n' ' ')
unshare -Urm bash -c '
mount --bind '"$work"'/repo /repo; mount --bind '"$work"'/verif /verif
cd /repo && cargo test --offline -q 2>&1 | grep -E "^error|test result|FAILED|warning: unused" | head -5
cd /verif
if [ -n "${RF_CMD:-}" ]; then eval "$RF_CMD"; exit; fi
for c in '"$checks"'; do
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py $c quick > /tmp/rf_out.$$ 2>&1; rc=$?
  if [ $rc != 0 ]; then echo "NOT-QUIET '"$names"' $c rc=$rc"; tail -60 /tmp/rf_out.$$ | cut -c1-600; else echo "ok '"$names"' $c"; fi
done'
rm -rf "$work"
