#!/bin/bash
# check.sh PROPERTY quick|thorough | check.sh replay FILE
cd "$(dirname "$0")" || exit 2
[ -x /opt/veriftools/go1.27.3/bin/go ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
[ -n "$HOME" ] || export HOME=/root
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
mkdir -p .build || exit 2
go build -o .build/check.$$ ./cmd/check || exit 2
.build/check.$$ "$@"
rc=$?
rm -f "$PWD/.build/check.$$"
exit $rc
