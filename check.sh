#!/bin/bash
# check.sh PROPERTY [quick|thorough]      run a check against /repo's working tree
# check.sh --replay FILE                  replay a violation
# check.sh --build PROPERTY OUT           only build the harness
# Exit 0: held on everything explored. 1: VIOLATION line printed. Other: error.
set -u
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off CGO_ENABLED=0
V=$(cd "$(dirname "$0")" && pwd)
REPO=${DST_REPO:-/repo}
SEED=${VERIF_SEED:-1}
REPLAY=""; BUILDONLY=""
if [ "${1:-}" = "--replay" ]; then
  REPLAY=$(realpath "$2")
  ID=$(sed -n 's/^ *"property": "\(C[0-9]*\)".*/\1/p' "$REPLAY" | head -1)
  TIER=quick
elif [ "${1:-}" = "--build" ]; then
  ID=$2; BUILDONLY=$(realpath -m "$3"); TIER=quick
else
  ID=${1:?usage: check.sh PROPERTY [quick|thorough]}
  TIER=${2:-${VERIF_TIER:-quick}}
fi
P=$(echo "$ID" | tr 'A-Z' 'a-z')
[ -d "$V/dst/props/$P" ] || { echo "ERROR: no check for $ID"; exit 2; }
T=$(mktemp -d /tmp/dst.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
trap 'exit 2' INT TERM
mkdir -p "$T/bin"
cp "$REPO/go.mod" "$T/repo.mod" && { cp "$REPO/go.sum" "$T/repo.sum" 2>/dev/null || : >"$T/repo.sum"; }
(cd "$V/dst" && go build -o "$T/bin/rewrite" ./cmd/rewrite) || { echo "ERROR: the rewriter does not build"; exit 2; }
{
  printf 'module dst\n\ngo 1.25\n\nrequire github.com/ahKevinXy/go-web-tools v0.0.0\n\n'
  awk '/^require \(/{b=1} b{print} /^\)/{b=0} /^require [^(]/{print}' "$REPO/go.mod"
  printf '\nreplace github.com/ahKevinXy/go-web-tools => %s/gen/repo\n' "$T"
} >"$T/go.mod"
cp "$T/repo.sum" "$T/go.sum"
export DST_MODE=full
build() {
  rm -rf "$T/gen"
  "$T/bin/rewrite" $1 -modfile "$T/repo.mod" "$REPO" "$T/gen/repo" >"$T/rw.log" 2>&1 || return 1
  (cd "$V/dst" && go build -modfile="$T/go.mod" -o "$T/bin/prop" "./props/$P") >"$T/build.log" 2>&1
}
if ! build ""; then
  cp "$T/build.log" "$T/build1.log" 2>/dev/null
  DST_MODE="synchronisation only: memory accesses could not be instrumented"
  if ! build -nomem; then
    echo "ERROR: $ID: the instrumented tree does not build"
    tail -20 "$T/rw.log"; head -40 "$T/build1.log" "$T/build.log" 2>/dev/null
    exit 2
  fi
  echo "note: built without memory instrumentation"; head -5 "$T/build1.log"
fi
if [ -n "$BUILDONLY" ]; then cp "$T/bin/prop" "$BUILDONLY"; exit 0; fi
if [ -n "$REPLAY" ]; then "$T/bin/prop" -replay "$REPLAY"; exit $?; fi
mkdir -p "$V/evidence" "$V/replays"
"$T/bin/prop" -tier "$TIER" -seed "$SEED" -evidence "$V/evidence/$ID.json" -replays "$V/replays" -known "$V/known_findings.txt"
exit $?
