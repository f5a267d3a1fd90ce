#!/bin/bash
# Builds the verifier from its committed sources, unless that has been done.
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off
cd "$(dirname "$0")/gover" || exit 2
mkdir -p ../build
sum=$(cat *.go go.mod go.sum | sha256sum | cut -c1-16)
if [ ! -x ../build/gover ] || [ "$(cat ../build/gover.sum 2>/dev/null)" != "$sum" ]; then
	go build -o ../build/gover.$$ . && mv ../build/gover.$$ ../build/gover && echo "$sum" > ../build/gover.sum || exit 2
fi
