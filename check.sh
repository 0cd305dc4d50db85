#!/bin/bash
# check.sh ID [TIER]     decide one property on /repo's current working tree
# check.sh --replay FILE re-run one reported violation
# VERIF_TIER=quick|thorough selects the bounds; GPEG_REPO overrides /repo
# (used only to try the checks on scratch copies).
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
if [ -d /opt/veriftools/go1.27.3/bin ]; then export PATH=/opt/veriftools/go1.27.3/bin:$PATH; fi
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on CGO_ENABLED=${CGO_ENABLED:-1}
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
repo=${GPEG_REPO:-/repo}
tier=${2:-${VERIF_TIER:-quick}}
work=$(mktemp -d /tmp/gpegchk.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
sed "s#=> /repo#=> $repo#" "$here/harness/go.mod" > "$work/go.mod"
: > "$work/go.sum"
if ! (cd "$here/harness" && go build -modfile "$work/go.mod" -o "$work/gpegmc" . ) > "$work/build.log" 2>&1; then
  cat "$work/build.log" >&2
  echo "check.sh: the harness does not build against $repo" >&2
  exit 2
fi
export VERIF_HARNESS_DIR="$here/harness" GPEG_REPO_DIR="$repo" VERIF_MODFILE="$work/go.mod" VERIF_WORK="$work"
prop=$1
if [ "$1" = "--replay" ]; then
  prop=$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$2" | head -1)
fi
bin=$work/gpegmc
case $prop in
C27|C29)
  # interleavings: a build against an instrumented copy, under the scheduler
  mkdir -p "$work/ov"
  bin=$work/gpegmc-sched
  if ! { "$work/gpegmc" instrument "$repo" "$here/harness/_sched" "$work/ov" && cd "$here/harness" &&
         go build -race -tags sched -modfile "$work/go.mod" -overlay "$work/ov/overlay.json" -o "$bin" . ; } > "$work/build.log" 2>&1; then
    cat "$work/build.log" >&2
    echo "check.sh: the instrumented harness does not build against $repo" >&2
    exit 2
  fi
  export VERIF_POINTS=$work/ov/points.json
  export GORACE="log_path=$work/race suppress_equal_stacks=0 suppress_equal_addresses=0 exitcode=0 halt_on_error=0 history_size=4"
  ;;
esac
if [ "$1" = "--replay" ]; then
  "$bin" replay -root "$here" "$2"
else
  "$bin" run "$1" -tier "$tier" -root "${VERIF_OUT:-$here}"
fi
