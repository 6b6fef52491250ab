#!/bin/bash
# run the check of every seeded bug against a scratch copy of /repo carrying it (VERIF_REPO); results on stdout
# usage: seedrun.sh [id...]
cd "$(dirname "$0")/.."
one() { s=$1; w=$(mktemp -d); cp -a /repo $w/repo; (cd $w/repo && git apply /verif/seeded/$s/patch.diff); p=$(python3 -c "import json;print(json.load(open('seeded/$s/meta.json'))['property'])")
 out=$(VERIF_REPO=$w/repo VERIF_NOEV=1 python3 check.py $p 2>&1); rc=$?; echo "$s $p rc=$rc $(echo "$out" | grep -m1 -A2 VIOLATION | tr '\n' ' ' | cut -c1-260)"; rm -rf $w; }
export -f one
ids=${@:-$(ls seeded)}
printf '%s\n' $ids | xargs -P 4 -I{} bash -c 'one {}'
