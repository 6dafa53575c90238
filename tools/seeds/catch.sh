#!/bin/bash
# catch.sh [-a] SEED...: runs the property's check (-a: every check) against the planted bugs, in $W and $H
W=${CSIG_W:-/tmp/w} H=${CSIG_H:-/tmp/h}
all=; [ "$1" = -a ] && { all=1; shift; }
[ -d $W ] || cp -a /repo $W
mkdir -p $H/root
rsync -a --delete --exclude target /verif/harness/ $H/harness/ 2>/dev/null || { mkdir -p $H/harness; (cd /verif/harness && tar c --exclude=./target .) | tar x -C $H/harness; }
sed -i "s|path = \"/repo\"|path = \"$W\"|" $H/harness/Cargo.toml
cp /verif/check $H/check; cp /verif/known_findings.json $H/root/; cp /verif/known_findings.json $H/
export CSIG_SRC=$W/src CSIG_ROOT=$H VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick
for s in "$@"; do
  git -C $W checkout -q -- . ; git -C $W clean -fdq -e target
  git -C $W apply /verif/seeded/$s/patch.diff || { echo "$s APPLY"; continue; }
  p=$(python3 -c "import json,sys;print(json.load(open('/verif/seeded/$s/meta.json'))['property'])")
  out=""
  for c in $([ $all ] && seq -f C%02g 1 27 || echo $p); do
    t0=$(date +%s)
    r=$(timeout 900 $H/check run $c 2>&1); rc=$?
    [ $rc -eq 0 ] || out="$out $c:$rc($(( $(date +%s)-t0 ))s)"
    [ $c = $p ] && why=$(echo "$r" | grep -v '^$' | tail -3 | cut -c1-300)
  done
  echo "== $s [$p]:$out"; echo "$why"
done
git -C $W checkout -q -- .
