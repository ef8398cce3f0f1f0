#!/bin/bash
# cwd is the repository. Exit 0: behaviour as it should be; 1: the property is broken.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
{
  printf '{"Replace": {'
  sep=""
  for f in "$here"/*_test.go; do printf '%s"%s/zzdemo/%s": "%s"' "$sep" "$PWD" "$(basename "$f")" "$f"; sep=","; done
  printf '}}'
} > "$work/overlay.json"
go test -vet=off -c -o "$work/demo.test" -overlay "$work/overlay.json" ./zzdemo || exit 1
cd "$work" && timeout 240 ./demo.test -test.v -test.timeout 220s
