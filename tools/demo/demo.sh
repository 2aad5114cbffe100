#!/bin/bash
# Runs the program beside this script inside the module of the current directory.
set -e
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
cd "${DEMO_REPO:-/repo}"
root=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
{
  echo '{"Replace": {'
  sep=
  for f in "$here"/*.go; do
    echo "$sep\"$root/zzdemo/$(basename "$f")\": \"$f\""
    sep=,
  done
  echo '}}'
} > "$tmp/overlay.json"
go build -overlay "$tmp/overlay.json" -o "$tmp/demo" ./zzdemo
cd "$tmp"
timeout 200 ./demo
