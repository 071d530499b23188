#!/bin/bash
# check.sh Cnn quick|thorough     decide one property
# check.sh replay FILE            replay a recorded counterexample against /repo
# check.sh build                  build the engine
set -u
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
build() {
	# rebuilt whenever its sources are newer (a few seconds, offline, vendored)
	if [ ! -x "$here/bin/symgo" ] || [ -n "$(find "$here/symgo" -name '*.go' -newer "$here/bin/symgo" -print -quit)" ]; then
		mkdir -p "$here/bin"
		(cd "$here/symgo" && GOFLAGS=-mod=vendor go build -o "$here/bin/symgo.$$" . && mv "$here/bin/symgo.$$" "$here/bin/symgo") || exit 2
	fi
}
case "${1:-}" in
build) build ;;
replay) build; exec "$here/bin/symgo" -replay "$2" ;;
C*) build; exec "$here/bin/symgo" -p "$1" -tier "${2:-quick}" ;;
*) echo "usage: check.sh Cnn quick|thorough | replay FILE | build" >&2; exit 2 ;;
esac
