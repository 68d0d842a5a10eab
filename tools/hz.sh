#!/bin/bash
# hz.sh HARNESS DIR PROP [args]: build and run a concrete search by hand
V="$(cd "$(dirname "$0")/.." && pwd)"; R="${VERIF_REPO:-/repo}"; H=$1; D=$2; P=$3; shift 3
T=$(mktemp -d); virt=$R/$D/zzverif_$H
python3 - "$V" "$virt" "$H" > $T/o.json <<'P'
import sys,glob,json,os
v,virt,h=sys.argv[1:]
r={virt+"/common.go":v+"/harness/common/common.go"}
for f in glob.glob(f"{v}/harness/{h}/*.go"): r[virt+"/"+os.path.basename(f)]=f
print(json.dumps({"Replace":r}))
P
. /opt/vp/env.sh
(cd $R && go build $RACE -overlay $T/o.json -o $T/h ./$D/zzverif_$H) && VERIF_REPO=$R $T/h -prop $P "$@"
rm -rf "$T"
