#!/bin/bash
# build.sh <property> <dir>: builds the driver in <dir> against /repo's working tree. The checks of schedules run on a
# Go runtime with a controlled scheduler (sched/), and the one of concurrent conversions also with the race detector.
prop="$1"; dir="$2"
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off CGO_ENABLED=0 GOWORK=off
cd "$here/mc" || exit 2
case "$prop" in
C04|C05|C06)
  python3 -B "$here/sched/mkoverlay.py" "$dir/overlay" || exit 2
  go build -tags verifsched -overlay "$dir/overlay/overlay.json" -o "$dir/mc" . || exit 2
  if [ "$prop" = C06 ]; then
    CGO_ENABLED=1 go build -race -tags verifsched -overlay "$dir/overlay/overlay.json" -o "$dir/mc-race" . || exit 2
  fi;;
C27)
  go build -o "$dir/mc" . || exit 2
  (cd /repo && GOFLAGS=-mod=readonly go build -o "$dir/libasciidoc" ./cmd/libasciidoc) || exit 2;;
*)
  go build -o "$dir/mc" . || exit 2;;
esac
