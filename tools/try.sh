#!/bin/bash
# tools/try.sh SEED...: runs the property's check against a scratch copy of /repo with the planted bug applied
V=$(cd "$(dirname "$0")/.." && pwd)
for s in "$@"; do
  w=$(mktemp -d /tmp/try.XXXXXX)
  cp /repo/*.c /repo/*.h /repo/*.h++ /repo/*.in "$w"/ 2>/dev/null
  (cd "$w" && git init -q && git apply "$V/seeded/$s/patch.diff") || { echo "$s: patch does not apply"; rm -rf "$w"; continue; }
  p=$(python3 -c "import json;print(json.load(open('$V/seeded/$s/meta.json'))['property'])")
  VF_REPO=$w VF_NOEVIDENCE=1 VF_BUDGET=${VF_BUDGET:-600} python3 "$V/lib/vf.py" check "$p" > "/tmp/try-$s.log" 2>&1
  echo "$s rc=$?"; grep -a "VIOL\|failed ob\|wall=" "/tmp/try-$s.log" | head -${L:-4}
  rm -rf "$w"
done
