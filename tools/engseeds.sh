#!/bin/bash
# obligations that fail on each planted bug (scratch copies; nothing in /repo is touched)
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  w=$(mktemp -d /tmp/es.XXXX); cp -a /repo/CasimirRio $w/; (cd $w && patch -s -p1 < /verif/seeded/$d/patch.diff)
  echo "== $d $p"
  (cd engine; VERIF_REPO=$w timeout 400 python3-vt main.py $p 2>&1 | cut -c1-150 | grep -v "obs=\([0-9]*\) proved=\1 " | grep -v '^\s*$' | head -6)
  rm -rf "$w"
done
