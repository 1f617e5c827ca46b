#!/bin/bash
# run.sh PROPERTY: decide one property on /repo's current working tree
set -u
cd "$(dirname "$0")" || exit 2
root=$PWD
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
export GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod}
bin=$root/.build/gov
if [ ! -x "$bin" ] || [ -n "$(find gov -name '*.go' -newer "$bin" 2>/dev/null | head -1)" ]; then
  mkdir -p .build
  (cd gov && PATH=/opt/veriftools/go1.27.3/bin:$PATH go build -o "$bin.$$" . && mv "$bin.$$" "$bin") || { echo "cannot build the verifier" >&2; exit 2; }
fi
export PATH=/opt/veriftools/go1.23.12/bin:$PATH
if [ "${1:-}" = setup ]; then
  cd /repo && go build ./pkg/... ./golibs/... >/dev/null 2>&1
  exit 0
fi
shift_prop=$1; shift
exec "$bin" check -prop "$shift_prop" -root "$root" "$@"
