#!/bin/bash
# bash check.sh PROPERTY: decides one property for /repo's working tree.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local
work=$(mktemp -d /tmp/verif.XXXXXXXX) || exit 2
trap 'rm -rf -- "${work:?}"' EXIT
cp "$here/harness/go.mod" "$here/harness/go.sum" "$work/" || exit 2
(cd "$here/harness" && go build -modfile "$work/go.mod" -o "$work/driver" ./driver) || exit 2
"$work/driver" "$here" "$work" "$1"
