#!/bin/bash
# setup.sh: warms the build cache; every check rebuilds what it needs anyway.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
mkdir -p "$here/evidence"
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
bash "$here/build.sh" C01 "$tmp" && bash "$here/build.sh" C06 "$tmp"
