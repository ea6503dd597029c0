#!/bin/bash
# check.sh PROPERTY [quick|thorough]: rebuilds the verifier if needed and decides one property on /repo's working tree.
set -e
cd "$(dirname "$0")"
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 GOSUMDB=off GONOSUMDB='*' GOFLAGS=-mod=mod
export HOME="${HOME:-/root}"
export GOSTV_VERIF="$PWD"
mkdir -p bin evidence
(cd gostv && go build -o ../bin/gostv .) || exit 2
case "$1" in
  build) exit 0;;
  replay) exec bin/gostv replay "$2";;
esac
exec bin/gostv check "$@"
