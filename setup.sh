#!/bin/bash
# Builds oct, the helper and the harness once, so that the Go build cache is warm for the checks.
set -eu
cd "$(dirname "$0")"
./check.sh --build-only
