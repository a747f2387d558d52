#!/bin/bash
# runs the checks of each seeded change's property (all checks with ALL=1) on a scratch copy with the change; args: ids
cd "$(dirname "$0")/.."
for id in ${@:-$(ls seeded)}; do
  T=$(mktemp -d); cp -r /repo/src /repo/Cargo.toml /repo/Cargo.lock "$T/" 2>/dev/null
  (cd "$T" && git init -q . && git apply "$OLDPWD/seeded/$id/patch.diff") || { echo "$id: patch does not apply"; continue; }
  P=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  export VERIF_REPO=$T VERIF_BUILD=${SELFTEST_DIR:-/tmp/selftest}/seedbld SA_NOEVIDENCE=1
  mkdir -p "$VERIF_BUILD"; [ -e "$VERIF_BUILD/drv" ] || cp -a .build/drv "$VERIF_BUILD/drv" 2>/dev/null
  python3 sa/build.py > /dev/null 2>"$T/err" || { echo "$id: build failed"; tail -3 "$T/err"; continue; }
  by=""
  for f in sa/rules/c[0-9][0-9].py; do c=$(basename $f .py); c=${c^^}
    [ "$c" = "$P" ] || [ -n "$ALL" ] || continue
    python3 check.py $c --dump=$VERIF_BUILD/dump.json > "$T/o" 2>&1 || by="$by $c"
  done
  echo "$id $P caught by:${by:- NONE}"
  rm -rf "$T"
done
