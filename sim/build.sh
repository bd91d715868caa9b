#!/bin/bash
# Builds the simulator against /repo's current working tree: regenerates the protobuf code into /verif/build and overlays it.
# Usage: build.sh OUTBIN [REPO]
set -eo pipefail
. /opt/vp/env.sh
OUT=$1; REPO=${2:-/repo}
SIM=$(cd "$(dirname "$0")" && pwd)
W=$(dirname "$OUT"); mkdir -p "$W"
gen=$(mktemp -d "$W/gen.XXXXXX")
trap 'rm -rf "$gen"' EXIT
cd "$REPO"
for dir in $(find ./proto -name '*.proto' -printf '%h\n' | sort -u); do
  protoc -I proto -I third_party/proto \
    --gocosmos_out=plugins=interfacetype+grpc,Mgoogle/protobuf/any.proto=github.com/cosmos/cosmos-sdk/codec/types:"$gen" \
    --grpc-gateway_out=logtostderr=true:"$gen" \
    $(find "$dir" -maxdepth 1 -name '*.proto' | sort) 2> "$gen/err" || { cat "$gen/err" >&2; exit 1; }
done
mkdir -p "$gen/github.com/arterynetwork/artr/client/docs"
statik -src=client/docs/swagger-ui -dest="$gen/github.com/arterynetwork/artr/client/docs" -f -m -ns=swagger > /dev/null
python3 - "$gen/github.com/arterynetwork/artr" "$REPO" "$SIM" "$gen/overlay.json" <<'P'
import sys,os,json,filecmp
gen,repo,sim,out=sys.argv[1:]
rep={}; have=set()
for d,_,fs in os.walk(gen):
    for f in fs:
        rel=os.path.relpath(os.path.join(d,f),gen); have.add(rel)
        dst=os.path.join(repo,rel); src=os.path.join(d,f)
        if not(os.path.exists(dst) and filecmp.cmp(src,dst,False)): rep[dst]=src
for top in('x','util'):
    for d,_,fs in os.walk(os.path.join(repo,top)):
        for f in fs:
            if f.endswith('.pb.go') or f.endswith('.pb.gw.go'):
                rel=os.path.relpath(os.path.join(d,f),repo)
                if rel not in have: rep[os.path.join(repo,rel)]=''
for f in os.listdir(sim):
    if f.endswith('.go'): rep[os.path.join(repo,'verifsim',f)]=os.path.join(sim,f)
json.dump({'Replace':rep},open(out,'w'))
P
go build -overlay "$gen/overlay.json" -tags=testing -o "$OUT" ./verifsim
