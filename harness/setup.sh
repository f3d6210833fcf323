#!/bin/bash
# setup.sh: builds the harness once against /repo's working tree, with and without the race detector, so that the checks find a warm build cache.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
for id in C06 C01; do
  VERIF_BUILD_ONLY=1 bash "$here/run.sh" "$id" || exit 1
done
