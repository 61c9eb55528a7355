#!/bin/bash
# save_mutant.sh PROPERTY NAME FILE SED-EXPR [check flags]: applies a sed edit to a scratch copy, lets the check find it, keeps the shrunk case.
set -eu
V=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/rg.XXXXXX)
cp -a /repo "$W/repo"
sed -i -E "$4" "$W/repo/$3"
if git -C "$W/repo" diff --quiet; then echo "no change"; rm -rf "$W"; exit 4; fi
C="$V/regress/$1/$2.json"
mkdir -p "$V/regress/$1"
set +e
VERIF_REPO="$W/repo" VERIF_SEED=${VERIF_SEED:-1} "$V/check.sh" "$1" "${@:5}" > "$W/log" 2>&1
set -e
F=$(grep -o 'replay=.*' "$W/log" | head -1 | cut -d= -f2)
if [ -z "$F" ]; then tail -5 "$W/log"; rm -rf "$W"; exit 5; fi
cp "$F" "$C"; grep -B3 VIOLATION "$W/log" | head -5 | cut -c1-300
rm -rf "$W"
"$V/check.sh" --replay "$C"
