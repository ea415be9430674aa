#!/bin/bash
# Builds the replay binary from the current sources of the repository: build.sh REPO OUT
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$1"; out="$2"; prop="$3"
ov="$(mktemp)"
trap 'rm -f "$ov"' EXIT
{
  echo '{"Replace": {'
  for f in "$here"/*.go; do echo "\"$repo/internal/verifreplay/$(basename "$f")\": \"$f\","; done
  if [ "$prop" = C30 ]; then
    echo "\"$repo/internal/cmd/zz_verif_bridge.go\": \"$here/bridge/cmd_bridge.go\","
    echo "\"$repo/internal/verifreplay/c30.go\": \"$here/bridge/c30.go\","
  fi
  echo "\"$repo/internal/verifreplay/main/main.go\": \"$here/main/main.go\""
  echo '}}'
} > "$ov"
cd "$repo"
GOFLAGS= go build -overlay "$ov" -o "$out" ./internal/verifreplay/main
