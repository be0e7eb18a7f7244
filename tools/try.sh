#!/bin/bash
# try.sh SEED...: run the check of each planted bug's property against a scratch copy with the bug
V=$(cd "$(dirname "$0")/.." && pwd)
for s in "$@"; do
  d="$V/seeded/$s"; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  T=$(mktemp -d /tmp/try_XXXX); mkdir "$T/r"; cp -a /repo/clpoly "$T/r/"; (cd "$T/r" && git init -q . 2>/dev/null; patch -p1 -s < "$d/patch.diff")
  t0=$SECONDS; VERIF_REPO="$T/r" timeout 900 python3 "$V/check.py" "$p" > "$T/out" 2>&1; rc=$?
  echo "$s $p rc=$rc $((SECONDS-t0))s $(grep -A1 -m1 VIOLATION "$T/out" | tr '\n' ' ' | cut -c1-330) $([ $rc = 0 ] || [ $rc = 1 ] || tail -3 "$T/out")"
  rm -rf "$T"
done
