#!/bin/bash
# Runs demo_test.go inside its package of the repository in the current directory (first line of demo_test.go: //demo:pkg DIR).
d=$(cd "$(dirname "$0")" && pwd); r=$(pwd)
export PATH=/opt/veriftools/go1.23.12/bin:$PATH HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
pkg=$(sed -n '1s,^//demo:pkg ,,p' "$d/demo_test.go")
t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
echo "{\"Replace\": {\"$r/$pkg/zz_demo_test.go\": \"$d/demo_test.go\"}}" > "$t/overlay.json"
go test -vet=off -count=1 -timeout 200s -overlay "$t/overlay.json" -run 'TestDemo$' "./$pkg"
