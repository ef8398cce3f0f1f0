#!/bin/bash
# Builds the harness once (the checks rebuild it from /repo's current tree).
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
cd "$here/harness" && mkdir -p bin && go build -o bin/vh . && go build -race -o bin/vh-race .
