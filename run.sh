#!/bin/bash
# run.sh <property> quick|thorough [harness arguments]
# Builds the harness and the program from /repo's working tree and runs the
# monitor of one property. Exit 0: held, 1: violation, 2: no answer.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
prop=$1; tier=${2:-${VERIF_TIER:-quick}}; shift 2
. "$here/env.sh"
work=$(mktemp -d "${TMPDIR:-/tmp}/krypto-verif.XXXXXX") || exit 2
trap 'chmod -R u+rwX "$work" 2>/dev/null; rm -rf "$work"' EXIT
trap 'exit 2' INT TERM
mkdir -p "$here/evidence" "$here/out"
rm -f "$here/evidence/$prop.json" "$here"/out/"$prop"-*.json
bash "$here/build.sh" "$work" "$prop" || { echo "build failed" >&2; exit 2; }
bin="$work/harness"; [ -x "$work/harness-race" ] && bin="$work/harness-race"
"$bin" -prop "$prop" -tier "$tier" -seed "${VERIF_SEED:-1}" -work "$work" -cli "$work/krypto431" \
  -out "$here/out" -evidence "$here/evidence/$prop.json" -known "$here/KNOWN_FINDINGS.txt" -data "$here/data" \
  -timeout "${VERIF_TIMEOUT:-$([ "$tier" = thorough ] && echo 14000 || echo 800)}" "$@" </dev/null
rc=$?
[ $rc -eq 0 ] || [ $rc -eq 1 ] || rc=2
exit $rc
