#!/bin/bash
# seedw.sh ID...: like seed.sh, in scratch copies of /repo (two at a time), for use while /repo must stay as it is.
one() {
  i=$1; w=/tmp/sw_$i; rm -rf "$w"; cp -a /repo "$w"; cd "$w" || exit
  git checkout -q -- . ; git apply /verif/seeded/$i/patch.diff || { echo "$i: does not apply"; rm -rf "$w"; exit; }
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$i/meta.json'))['property'])")
  for q in $p $EXTRA; do
    out=$(GOTOOLCHAIN=local GOPROXY=off VERIF_TIER=quick /verif/bin/gv check -repo "$w" -verif /verif -prop $q 2>&1); rc=$?
    { echo "== $i $q rc=$rc"; echo "$out" | grep -v "^ok\|obligations," | head -${N:-6} | cut -c1-300; echo "$out" | tail -1; } 
  done
  rm -rf "$w"
}
export -f one
printf '%s\n' "$@" | xargs -P ${J:-2} -I{} bash -c 'one {}'
