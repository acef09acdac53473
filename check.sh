#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide one property for /repo's working tree
# check.sh replay FILE                 re-execute a replay file
export HOME=${HOME:-/root} PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
(cd "$here/sim" && GOFLAGS=-mod=mod GOWORK=off GOPROXY=off GOTOOLCHAIN=local go build -o "$tmp/dst" ./cmd/dst) || { echo "ERROR building the driver" >&2; exit 2; }
if [ "$1" = selftest ]; then
  "$tmp/dst" -root "$here" -build
elif [ "$1" = replay ]; then
  "$tmp/dst" -root "$here" -replay "$2"
else
  "$tmp/dst" -root "$here" -prop "$1" -tier "${2:-$VERIF_TIER}" "${@:3}"
fi
exit $?
