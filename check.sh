#!/bin/bash
# check.sh <property> [quick|thorough]: rebuilds the driver against /repo's working tree, and runs one check.
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
tmp="$(mktemp -d "${TMPDIR:-/tmp}/verif-$prop-XXXXXX")" || exit 2
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
if ! bash "$here/build.sh" "$prop" "$tmp" >"$tmp/build.log" 2>&1; then
  cat "$tmp/build.log" >&2
  echo "check.sh: the driver does not build against /repo" >&2
  exit 2
fi
cd "$here/mc" || exit 2
export VERIF_RACE_BIN="$tmp/mc-race" VERIF_CLI="$tmp/libasciidoc"
"$tmp/mc" -prop "$prop" -tier "$tier" -verif "$here"
