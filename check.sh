#!/bin/bash
# Usage: check.sh ID TIER | replay FILE | build
# Builds the harness against /repo's current working tree and runs one check.
# Exit 0: held on everything explored; 1: VIOLATION; anything else: error.
set -u
VERIF="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOSUMDB=off GOFLAGS="-mod=mod -buildvcs=false" GOPROXY=off GOWORK=off GOTOOLCHAIN=local
export VERIF_DIR="$VERIF"
unset GOMAXPROCS GODEBUG GOGC
BUILD="$(mktemp -d /tmp/vpbuild.XXXXXX)" || exit 3
trap 'rm -rf "$BUILD"' EXIT
cd "$VERIF/harness" || exit 3
if ! CGO_ENABLED=0 go build -o "$BUILD/h" . 2>"$BUILD/err"; then
  cat "$BUILD/err" >&2; echo "HARNESS ERROR: build failed" >&2; exit 3
fi
build_race() {
  if [ "$("$BUILD/h" needsrace "$1")" = yes ]; then
    if ! CGO_ENABLED=1 go build -race -o "$BUILD/hrace" . 2>"$BUILD/err"; then
      cat "$BUILD/err" >&2; echo "HARNESS ERROR: race build failed" >&2; exit 3
    fi
    export VERIF_RACEBIN="$BUILD/hrace"
  fi
  local f
  for f in $("$BUILD/h" needs "$1"); do
    case $f in
      pure) CGO_ENABLED=0 go build -tags purego,noasm -o "$BUILD/h-$f" . 2>"$BUILD/err" ;;
      word32) GOARCH=386 CGO_ENABLED=0 go build -o "$BUILD/h-$f" . 2>"$BUILD/err" ;;
    esac || { cat "$BUILD/err" >&2; echo "HARNESS ERROR: $f build failed" >&2; exit 3; }
    export "VERIF_BIN_$f=$BUILD/h-$f"
  done
}
case "${1:-}" in
  build)
    CGO_ENABLED=1 go build -race -o "$BUILD/hrace" . || exit 3
    CGO_ENABLED=0 go build -tags purego,noasm -o "$BUILD/h-pure" . || exit 3
    GOARCH=386 CGO_ENABLED=0 go build -o "$BUILD/h-word32" . || exit 3
    exit 0 ;;
  list) "$BUILD/h" list ;;
  replay)
    P="$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$2" | head -1)"
    build_race "$P"; "$BUILD/h" replay "$2" ;;
  *)
    build_race "$1"
    "$BUILD/h" run "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
exit $?
