#!/bin/bash
# Builds the conformance binary from /repo's current working tree: lib/build.sh OUT
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
source /opt/vp/env.sh
ov=$(mktemp)
trap 'rm -f "$ov"' EXIT
R=${VERIF_REPO:-/repo} # only experiments set VERIF_REPO
python3 - "$here" "$R" > "$ov" <<'P'
import sys,os,json
h=os.path.join(sys.argv[1],'harness')
print(json.dumps({"Replace":{sys.argv[2]+"/app/"+f: os.path.join(h,f) for f in sorted(os.listdir(h)) if f.endswith('_verif_test.go')}}))
P
cd "$R" && go test -c -vet=off -overlay "$ov" -tags testing -o "$1" ./app
