#!/bin/bash
# replay.sh <violation.json>: rebuilds the driver and replays one recorded case, without the explorer.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
f="$(realpath "$1")"
prop="$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$f")"
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
bash "$here/build.sh" "$prop" "$tmp" || exit 2
export VERIF_RACE_BIN="$tmp/mc-race" VERIF_CLI="$tmp/libasciidoc"
cd "$tmp" && "$tmp/mc" -replay "$f"
