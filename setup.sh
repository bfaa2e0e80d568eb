#!/bin/bash
# Checks that the framework builds and that its own corpus passes. Every check
# rebuilds what it needs itself.
set -eu
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off CGO_ENABLED=0
cd "$(dirname "$0")/dst"
./selftest.sh
