#!/bin/bash
# The rewriter's corpus: a program of every language form it treats specially
# must print in the simulator, on every schedule, what it prints natively.
set -eu
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off CGO_ENABLED=0
cd "$(dirname "$0")"
T=$(mktemp -d /tmp/dstself.XXXXXX)
trap 'rm -rf "$T"' EXIT
go build ./sim ./run ./x/... ./cmd/...
go build -o "$T/rewrite" ./cmd/rewrite
cp -r testdata/corpus "$T/corpus"
(cd "$T/corpus" && go run . >"$T/native.txt")
for mode in "" "-nomem"; do
  "$T/rewrite" $mode "$T/corpus" "$T/out" >/dev/null
  printf 'module dst\n\ngo 1.25\n\nrequire corpus v0.0.0\n\nreplace corpus => %s/out\n' "$T" >"$T/go.mod"
  go run -modfile="$T/go.mod" ./testdata/corpusmain >"$T/sim.txt"
  cmp "$T/native.txt" "$T/sim.txt"
  /bin/rm -rf "$T/out"
done
echo "selftest passed"
