#!/bin/bash
# Rewrites /repo's working tree into a simulated copy and builds the harness
# from it. usage: build.sh OUTDIR  -> OUTDIR/harness
set -e
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
out="$1"
[ -n "$out" ] || { echo "usage: build.sh OUTDIR" >&2; exit 3; }
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
mkdir -p "$out"
(cd "$here/sim/rewrite" && GOFLAGS=-mod=mod GOPROXY=off go build -o "$out/rewrite" .)
rm -rf "${out:?}/gen"
mkdir -p "$out/gen/zzverif"
"$out/rewrite" -repo /repo -out "$out/gen" -rt github.com/go-stomp/stomp/v3/zzverif/sim . ./server
cp -r "$here"/sim/rt/* "$out/gen/zzverif/"
cat > "$out/gen/go.mod" <<'EOM'
module github.com/go-stomp/stomp/v3

go 1.24
EOM
(cd "$out/gen" && GOFLAGS=-mod=mod GOPROXY=off go build -o "$out/harness" ./zzverif/harness)
