#!/bin/bash
# Warms the build cache; the checks build everything they need themselves.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence" "$here/replays"
. /opt/vp/env.sh 2>/dev/null
cd "$here/harness" && go build -o /dev/null . || exit 1
exit 0
