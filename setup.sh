#!/bin/bash
# Builds the engine from the committed files.
cd "$(dirname "$0")" || exit 3
. /opt/vp/env.sh
set -e
mkdir -p bin evidence
(cd engine && go build -o ../bin/vpcheck .)
(cd harness && go build -o /dev/null ./replay) || true
