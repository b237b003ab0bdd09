#!/bin/bash
# Builds the verifier from the committed sources, offline.
set -e
cd "$(dirname "$0")"
. ./env.sh
mkdir -p bin evidence replays
(cd govc && go build -o ../bin/govc .)
# warm the build cache for replays (not needed for correctness)
bin/govc -list >/dev/null
