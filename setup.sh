#!/bin/bash
# setup.sh: warms the Go build cache (plain and race builds), offline.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
work=$(mktemp -d "${TMPDIR:-/tmp}/krypto-verif.XXXXXX") || exit 1
trap 'rm -rf "$work"' EXIT
mkdir -p "$here/evidence" "$here/out"
bash "$here/build.sh" "$work" C01 && bash "$here/build.sh" "$work" C30
