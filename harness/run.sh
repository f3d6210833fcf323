#!/bin/bash
# run.sh ID: builds the harness against /repo's working tree and runs the check of one property.
set -u
id="$1"
here="$(cd "$(dirname "$0")" && pwd)"
repo="${VERIF_REPO:-/repo}"
export VERIF_DIR="$(dirname "$here")"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 GOSUMDB=off
scratch="$(mktemp -d "${TMPDIR:-/tmp}/vhbuild-XXXXXX")" || exit 2
trap 'rm -rf -- "$scratch"' EXIT
export TMPDIR="$scratch"
race=""
case "$id" in C01) race="-race" ;; esac
{
  printf '{"Replace":{'
  sep=""
  for f in "$here"/*.go; do
    printf '%s"%s/internal/verifharness/%s":"%s"' "$sep" "$repo" "$(basename "$f")" "$f"
    sep=","
  done
  printf '}}\n'
} > "$scratch/overlay.json"
cd "$repo" || exit 2
if ! go build $race -tags "check_$id" -overlay "$scratch/overlay.json" -o "$scratch/vh" ./internal/verifharness > "$scratch/build.log" 2>&1; then
  echo "check error: the harness does not build against $repo" >&2
  head -50 "$scratch/build.log" >&2
  exit 2
fi
if [ "$id" = C32 ]; then
  if ! go build -o "$scratch/telefacts" ./cmd/telefacts > "$scratch/build.log" 2>&1; then
    echo "check error: the program does not build" >&2
    head -50 "$scratch/build.log" >&2
    exit 2
  fi
  export VERIF_PROGRAM="$scratch/telefacts"
fi
[ -n "${VERIF_BUILD_ONLY:-}" ] && exit 0
cd "$VERIF_DIR" || exit 2
"$scratch/vh" run "$id"
