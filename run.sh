#!/bin/bash
# run.sh <property> <quick|thorough>
cd "$(dirname "$0")" || exit 3
. /opt/vp/env.sh
if [ ! -x bin/vpcheck ] || [ -n "$(find engine -newer bin/vpcheck -name '*.go' 2>/dev/null | head -1)" ]; then ./setup.sh || exit 3; fi
exec bin/vpcheck -prop "$1" -tier "${2:-quick}"
