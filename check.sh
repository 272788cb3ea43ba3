#!/bin/bash
# check.sh <property> [quick|thorough]   decide one property
# check.sh replay <file>                 replay a counterexample natively
# check.sh build                         build the engine only
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
cache="${SYM_GOCACHE:-/root/.cache/go-build}"
mkdir -p "$here/build" || exit 2
build() {
  ( flock 9
    cd "$here/engine" && env -u GOENV GOROOT=/opt/veriftools/go1.26.10 PATH=/opt/veriftools/go1.26.10/bin:/usr/local/bin:/usr/bin:/bin \
      GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOMODCACHE=/root/go/pkg/mod GOPATH=/root/go GOWORK=off GOENV=off CGO_ENABLED=0 GOCACHE="$cache" \
      go build -o "$here/build/symgo" . ) 9>"$here/build/.lock"
}
build || { echo "engine build failed" >&2; exit 2; }
case "$1" in
build) exit 0 ;;
replay) exec "$here/build/symgo" -root "$here" -replay "$2" ;;
*) id="$1"; tier="${2:-${VERIF_TIER:-quick}}"; shift; shift
   exec "$here/build/symgo" -root "$here" -check "$id" -tier "$tier" "$@" ;;
esac
