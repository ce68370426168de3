#!/bin/bash
# tools/detect.sh [id ...]: runs the check of each planted bug's property against a scratch copy of /repo with it
# (CHECK=Cnn: that check instead; SEEDED=dir: planted bugs from elsewhere)
cd "$(dirname "$0")/.." || exit 2
S=${SEEDED:-seeded}
for d in ${@:-$(ls $S)}; do
  p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' $S/$d/meta.json)
  w=$(mktemp -d /tmp/detect.XXXXXX); cp -a /repo $w/repo
  if git -C $w/repo apply "$(realpath $S/$d/patch.diff)"; then
    out=$(VERIF_REPO=$w/repo VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick /opt/venv/bin/python harness/run.py ${CHECK:-$p} 2>&1); rc=$?
    echo "$d ${CHECK:-$p} rc=$rc $(echo "$out" | grep -m1 -E 'VIOLATION|^OK|ERROR' | cut -c1-160)"
  else echo "$d does not apply"; fi
  rm -rf "$w"
done
