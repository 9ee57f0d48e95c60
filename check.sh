#!/bin/bash
# check.sh ID: decides property ID from /repo's current source.
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" || { echo "the analyser does not build" >&2; exit 2; }
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export GOENV=off GOTOOLCHAIN=local GOPROXY=off GOWORK=off
exec "$here/bin/sa" -repo "${VERIF_REPO:-/repo}" -evidence "$here/evidence" "$@"
