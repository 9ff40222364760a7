#!/bin/bash
# Builds the harnesses once, so that later builds only recompile what changed.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOFLAGS=-mod=readonly
tmp=$(mktemp -d /tmp/goorcmc.XXXXXX) || exit 1
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"/repo/orc/zz_verif.go":"%s/mc/overlay/zz_verif.go.txt","/repo/orc/zzsched/zz.go":"%s/mc/overlay/zzsched.go.txt"}}\n' "$PWD" "$PWD" >"$tmp/overlay.json"
cd mc || exit 1
go1.27 build -overlay "$tmp/overlay.json" ./... || exit 1
go1.27 build -race -overlay "$tmp/overlay.json" -o "$tmp/race" ./cmd/file || true
