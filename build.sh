#!/bin/bash
# builds the analyser into /verif/bin (only if its sources are newer)
cd "$(dirname "$0")/tool" || exit 2
bin=../bin/dupicheck
if [ -x "$bin" ] && [ -z "$(find . -newer "$bin" -print -quit)" ]; then exit 0; fi
mkdir -p ../bin
tmp=$(mktemp ../bin/.build.XXXXXX) || exit 2
if GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0 go build -o "$tmp" .; then
	chmod 755 "$tmp"; mv -f "$tmp" "$bin"
else
	rm -f "$PWD/$tmp"; echo "the analyser does not build"; exit 2
fi
