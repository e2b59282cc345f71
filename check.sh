#!/bin/bash
# usage: check.sh -prop ID [-tier quick|thorough] | -replay FILE
# Builds the monitors against /repo's current working tree and runs one property.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}"
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE="${GOCACHE:-/root/.cache/go-build}"
out=$(mktemp -d "${TMPDIR:-/tmp}/verif-check.XXXXXX") || exit 2
trap 'rm -rf "$out"' EXIT
cd "$here/harness" || exit 2
race=""
prop=""
args=("$@")
for ((i=0;i<${#args[@]};i++)); do
  [ "${args[$i]}" = "-prop" ] && prop="${args[$((i+1))]}"
  [ "${args[$i]}" = "-replay" ] && prop=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "${args[$((i+1))]}" | head -1)
done
if grep -qx "$prop" race_props.txt 2>/dev/null; then race="-race"; fi
if ! go build $race -mod=readonly -o "$out/check" . ; then
  echo "check.sh: the harness does not build against /repo" >&2
  exit 2
fi
"$out/check" -verif "$here" "$@"
rc=$?
exit $rc
