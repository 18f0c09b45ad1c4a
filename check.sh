#!/bin/bash
# Usage: check.sh setup | check.sh <property> [quick|thorough] | check.sh replay FILE
# Rebuilds the harness from /repo's working tree and runs one property check.
# Exit 0: held; 1: VIOLATION printed; 2: the check could not be run.
cd /verif/harness || exit 2
export HOME="${HOME:-/root}"
export PATH="/usr/local/go/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:${PATH:-}"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0
export GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}" GOCACHE="${GOCACHE:-/root/.cache/go-build}"
mkdir -p /verif/.build /verif/evidence /verif/replays || exit 2
bin=/verif/.build/harness.$$
trap 'rm -f "$bin" "$bin.fuzz"' EXIT
if ! go build -o "$bin" . ; then
  echo "check.sh: the harness does not build against /repo" >&2
  exit 2
fi
# C28 runs under the race detector.
if [ "$1" = C28 ] || { [ "$1" = replay ] && grep -q '"C28"' "$2"; }; then
  CGO_ENABLED=1 go build -race -o "$bin" . || echo "check.sh: no race detector, going on without" >&2
fi
# A thorough run also searches guided by coverage.
if [ "${2:-${VERIF_TIER:-quick}}" = thorough ] && [ "$1" != replay ] && [ "$1" != C28 ]; then
  go test -c -fuzz=Fuzz -vet=off -o "$bin.fuzz" . >/dev/null && export VERIF_FUZZ_BIN="$bin.fuzz" || echo "check.sh: no coverage-guided search" >&2
fi
case "$1" in
  setup) exit 0 ;;
  replay) "$bin" replay "$2" ;;
  *) "$bin" check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}" -seed "${VERIF_SEED:-1}" ;;
esac
