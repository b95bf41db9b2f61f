#!/bin/bash
# build.sh plain|race: builds the harness against /repo's working tree into /verif/build (git-ignored).
VERIF=$(cd "$(dirname "$0")" && pwd)
. "$VERIF/env.sh"
mkdir -p "$VERIF/build/src-$1"
# the build works on a copy of the harness so that go never rewrites committed files (go.mod, go.sum)
cp "$VERIF"/harness/*.go "$VERIF"/harness/go.mod "$VERIF"/harness/go.sum "$VERIF/build/src-$1/" || exit 1
cd "$VERIF/build/src-$1" || exit 1
for f in *.go; do [ -f "$VERIF/harness/$f" ] || rm -f "$VERIF/build/src-$1/$f"; done
RACE=; [ "$1" = race ] && RACE=-race
exec go build $RACE -o "$VERIF/build/harness-$1" .
