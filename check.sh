#!/bin/bash
# check.sh PROPERTY...: decides properties from the source in /repo.
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off CGO_ENABLED=0
export VF_VERIF="${VF_VERIF:-$here}"
bin="$here/.bin/vfcheck"
build() {
  mkdir -p "$here/.bin" &&
  (cd "$here/checker" && go build -trimpath -o "$bin.$$" . && mv "$bin.$$" "$bin")
}
stale() {
  [ -x "$bin" ] || return 0
  [ -n "$(find "$here/checker" -newer "$bin" -type f -print -quit)" ]
}
if [ "$1" = --build ]; then build || exit 2; exit 0; fi
if stale; then build || { echo "the checker can not be built"; exit 2; }; fi
exec "$bin" "$@"
