#!/bin/bash
# check.sh <property>: builds the analyser if needed and decides one property on /repo's source.
# exit 0 held, 1 violated, anything else an error of the check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off HOME="${HOME:-/root}"
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH
bash "$here/setup.sh" || exit 3
exec "$here/.bin/mqcheck" "$1" /repo "$here"
