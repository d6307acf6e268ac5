#!/bin/bash
# runs demo_test.go, which lies beside this script, inside the module of the
# current directory: exit 0 if it passes.
d="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
w="$(mktemp -d)" || exit 3
printf '{"Replace":{"%s/pkg/iodefine/zz_demo_test.go":"%s/demo_test.go"}}\n' "$PWD" "$d" > "$w/overlay.json"
go test -count=1 -vet=off -timeout 200s -overlay "$w/overlay.json" ./pkg/iodefine/
r=$?
/bin/rm -r "$w"
exit $r
