#!/bin/bash
# Builds the analyser (vendored dependencies, offline).
cd "$(dirname "$0")/tool" || exit 1
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
mkdir -p ../bin
GOFLAGS=-mod=vendor CGO_ENABLED=0 go build -o ../bin/verif .
