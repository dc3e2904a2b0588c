#!/bin/bash
# Builds the verifier (govc) and, with an argument, the replay harness against
# the current tree of /repo. Usage: build.sh [OUTDIR]
set -e
ROOT="$(cd "$(dirname "$0")/.." && pwd)"
REPO="${VERIF_REPO:-/repo}"
export HOME="${HOME:-/root}"
if [ -f /opt/vp/env.sh ]; then . /opt/vp/env.sh; fi
mkdir -p "$ROOT/build"
GOFLAGS=-mod=vendor go build -C "$ROOT/govc" -o "$ROOT/build/govc" .
if [ -n "$1" ]; then
  OUT="$1"
  python3 - "$ROOT" "$REPO" "$OUT/overlay.json" <<'P'
import json, os, sys
root, repo, out = sys.argv[1:]
d = os.path.join(root, 'harness', 'h')
json.dump({'Replace': {os.path.join(repo, 'zzverif', 'h', f): os.path.join(d, f) for f in os.listdir(d) if f.endswith('.go')}}, open(out, 'w'))
P
  cd "$REPO"
  go build -overlay "$OUT/overlay.json" -o "$OUT/h" ./zzverif/h
  go build -o "$OUT/rap-cli" ./cmd/rap-cli
fi
