#!/bin/bash
# Runs the in-package test beside this script against the working tree (cwd). The compiled test runs in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
[ -f /opt/vp/env.sh ] && { w=$PWD; . /opt/vp/env.sh; cd "$w"; }
printf '{"Replace":{"%s/internal/party/zz_net_test.go":"%s/net_test.go","%s/internal/party/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$here" "$PWD" "$here" > "$tmp/overlay.json"
go test -c -vet=off $DEMO_FLAGS -overlay "$tmp/overlay.json" -o "$tmp/party.test" ./internal/party || exit 2
cd "$tmp" && timeout 250 ./party.test -test.run '^TestDemo$' -test.timeout 240s > "$tmp/log" 2>&1
rc=$?
grep -v "^20" "$tmp/log" | tail -30
exit $rc
