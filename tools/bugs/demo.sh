#!/bin/bash
# Builds a small client into the module in the current directory and runs it in a scratch directory.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
scratch="$(mktemp -d)" || exit 2
trap 'rm -rf -- "$scratch"' EXIT
printf '{"Replace":{"%s/internal/demo/main.go":"%s/main.go","%s/internal/demo/lib.go":"%s/lib.go"}}\n' "$PWD" "$here" "$PWD" "$here" > "$scratch/overlay.json"
go build @RACE@-overlay "$scratch/overlay.json" -o "$scratch/demo" ./internal/demo || exit 3
mkdir -p "$scratch/w"
GORACE="halt_on_error=1 exitcode=1" timeout 250 "$scratch/demo" "$scratch/w"
