#!/bin/bash
# Runs the demonstrations of the genuine defects against /repo (informative only; no check uses it).
d=$(cd "$(dirname "$0")" && pwd)
repo=${1:-/repo}
o=$(mktemp)
python3 - "$d" "$repo" >"$o" <<'P'
import json,sys
d,r=sys.argv[1:]
print(json.dumps({"Replace":{f"{r}/{p}/x_verif_test.go":f"{d}/{p}_defects_test.go" for p in ("client","cluster","server","proxy")}}))
P
cd "$repo" && GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod setsid go test -vet=off -count=1 -p 1 -timeout 100s -overlay "$o" -run TestDefect ./client ./cluster ./server ./proxy
rc=$?; rm -f "$o"; exit $rc
