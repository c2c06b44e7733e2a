#!/bin/bash
# run.sh setup | check ID | replay ID FILE
# Builds the engine from /verif/gosym if it is missing or older than its source, and runs one check against /repo.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOWORK=off

build() {
  if [ ! -x "$here/bin/gosym" ] || [ -n "$(find "$here/gosym" -newer "$here/bin/gosym" \( -name '*.go' -o -name 'go.*' \) -print -quit)" ]; then
    mkdir -p "$here/bin"
    (cd "$here/gosym" && GOFLAGS="-mod=mod -buildvcs=false" go build -o "$here/bin/gosym.$$" . && mv "$here/bin/gosym.$$" "$here/bin/gosym") || exit 2
  fi
}

case "${1:-}" in
setup) build ;;
check)
  build
  exec "$here/bin/gosym" -repo "${REPO:-/repo}" -verif "$here" -prop "$2" "${@:3}"
  ;;
replay)
  build
  exec "$here/bin/gosym" -repo "${REPO:-/repo}" -verif "$here" -prop "$2" -replay "$3"
  ;;
*) echo "usage: $0 setup | check ID [FLAGS] | replay ID FILE" >&2; exit 2 ;;
esac
