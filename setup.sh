#!/bin/bash
# Build everything once, so that a broken toolchain shows up here.
set -e
cd "$(dirname "$0")"
mkdir -p .build evidence replays
d=$(mktemp -d -p .build setup-XXXXXX)
trap 'rm -rf "$PWD/$d"' EXIT
for g in 1.27.3 1.26.10 1.25.14; do
  [ -x /opt/veriftools/go$g/bin/go ] && export PATH=/opt/veriftools/go$g/bin:$PATH && break
done
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=1
python3 tools/mkoverlay.py "$d/overlay"
cd harness
go test -c -o /dev/null ./codec
if [ -d nodes ]; then
  go test -c -overlay "../$d/overlay/overlay.json" -o /dev/null ./nodes
fi
echo setup ok
