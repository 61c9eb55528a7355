#!/bin/bash
# usage: check.sh PROPERTY [harness flags]     (tier and seed come from VERIF_TIER / VERIF_SEED)
#        check.sh --replay FILE
# Builds oct and the harness from the current trees, offline, outside /repo, and runs one check.
# exit 0: held; 1: violated (VIOLATION line); anything else: the check itself could not run.
set -u
V=$(cd "$(dirname "$0")" && pwd)
export PATH=/usr/local/bin:/usr/bin:/bin
export HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GO111MODULE=on GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
REPO=${VERIF_REPO:-/repo}
T=$(mktemp -d /tmp/octcheck.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/zz_verif_helper/main.go":"%s/harness/helper/main.go.src"}}' "$REPO" "$V" > "$T/overlay.json"
(cd "$REPO" && go build -o "$T/oct" .) > "$T/build.log" 2>&1 || {
  echo "ERROR: /repo does not build"; cat "$T/build.log"; exit 3; }
case "$*" in C01*|*C01*|--build-only) # the only check that also goes through the Go API
  (cd "$REPO" && go build -overlay "$T/overlay.json" -o "$T/helper" ./zz_verif_helper) > "$T/build.log" 2>&1 || {
    echo "ERROR: the helper over /repo's octopus package does not build"; cat "$T/build.log"; exit 3; } ;;
esac
(cd "$V/harness" && go build -o "$T/harness" .) > "$T/build.log" 2>&1 || {
  echo "ERROR: the harness does not build"; cat "$T/build.log"; exit 3; }
mkdir -p "$T/scratch"
[ "${1:-}" = --build-only ] && exit 0
if [ "${1:-}" = --replay ]; then
  "$T/harness" -replay "$2" -oct "$T/oct" -helper "$T/helper" -scratch "$T/scratch" -verif "$V"; exit $?
fi
P=$1; shift
"$T/harness" -property "$P" -oct "$T/oct" -helper "$T/helper" -scratch "$T/scratch" -verif "$V" "$@"
exit $?
