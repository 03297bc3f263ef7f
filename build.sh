#!/bin/bash
# build.sh <work> <property>: builds <work>/harness (or harness-race) and
# <work>/krypto431 from the working tree of $REPO.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
work=$1; prop=$2
. "$here/env.sh"
mkdir -p "$work/src" || exit 1
cp "$here"/harness/*.go "$work/src/" || exit 1
{
  echo "module vharness"; echo; echo "go 1.25"; echo
  echo "require github.com/sa6mwa/krypto431 v0.0.0"
  echo "replace github.com/sa6mwa/krypto431 => $REPO"
  sed -n '/^require (/,/^)/p' "$REPO/go.mod"
} > "$work/src/go.mod"
cp "$REPO/go.sum" "$work/src/go.sum" || exit 1
cd "$work/src" || exit 1
case "$prop" in
  C16|C30) CGO_ENABLED=1 go build -race -o "$work/harness-race" . || exit 1 ;;
  *) go build -o "$work/harness" . || exit 1 ;;
esac
go build -buildvcs=false -o "$work/krypto431" github.com/sa6mwa/krypto431/cmd/krypto431 || exit 1
