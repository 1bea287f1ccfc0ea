#!/bin/bash
# Warms the build cache; every check builds what it needs itself.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
work=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 2
trap 'rm -rf -- "${work:?}"' EXIT
cp "$here/harness/go.mod" "$here/harness/go.sum" "$work/" || exit 2
cd "$here/harness" || exit 2
go build -modfile "$work/go.mod" -o "$work/" ./... github.com/GalaIO/P2Pcrawler || exit 2
mkdir -p "$work/race" && go build -modfile "$work/go.mod" -race -o "$work/race/" ./... github.com/GalaIO/P2Pcrawler || exit 2
