#!/bin/bash
# save_regress.sh COMMIT PROPERTY NAME [check flags]: reverts a fix in a scratch copy, lets the check find it, keeps the shrunk case.
set -eu
V=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/rg.XXXXXX)
cp -a /repo "$W/repo"
git -C "$W/repo" revert --no-edit -n "$1" || { rm -rf "$W"; exit 4; }
C="$V/regress/$2/$3.json"
mkdir -p "$V/regress/$2"
set +e
VERIF_REPO="$W/repo" VERIF_SEED=${VERIF_SEED:-1} "$V/check.sh" "$2" "${@:4}" > "$W/log" 2>&1
set -e
F=$(grep -ao 'replay=.*' "$W/log" | head -1 | cut -d= -f2)
if [ -z "$F" ]; then tail -5 "$W/log"; rm -rf "$W"; exit 5; fi
cp "$F" "$C"; grep -a -B3 VIOLATION "$W/log" | head -5 | cut -c1-300
rm -rf "$W"
"$V/check.sh" --replay "$C"
