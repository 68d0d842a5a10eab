#!/bin/bash
# mkseed ID PROP "needs" "breaks"  : uses changes in /tmp/w/repo and /tmp/w/demo.go
id=$1; prop=$2; d=/verif/seeded/$id; mkdir -p $d
cd /tmp/w/repo && git diff > $d/patch.diff || exit 1
[ -s $d/patch.diff ] || { echo EMPTY PATCH; exit 1; }
dir=${5:-.}
cp /tmp/w/demo.go $d/main.go.txt
cat > $d/demo.sh <<X
#!/bin/bash
# runs the program beside this script as a package of the module in the current directory
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh >/dev/null 2>&1
D="\$(cd "\$(dirname "\$0")" && pwd)"
T="\$(mktemp -d)"
echo '{"Replace":{"'"\$PWD"'/$dir/zzdemo/main.go":"'"\$D"'/main.go.txt"}}' > "\$T/o.json"
go build -overlay "\$T/o.json" -o "\$T/demo" ./$dir/zzdemo || { rm -rf "\$T"; exit 0; }
timeout 120 "\$T/demo"; rc=\$?
rm -rf "\$T"
exit \$rc
X
chmod +x $d/demo.sh
python3 - "$id" "$prop" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(f"/verif/seeded/{sys.argv[1]}/meta.json","w"),indent=1)
P
# verify
cd /repo; $d/demo.sh >/dev/null 2>&1; a=$?
cd /tmp/w/repo; $d/demo.sh > /tmp/w/demo.out 2>&1; b=$?
cd /tmp/w/repo && . /opt/vp/env.sh && go build ./... && go test ./... 2>&1 | grep -v "^ok\|no test files" | head; 
echo "$id clean=$a patched=$b $(tail -1 /tmp/w/demo.out | cut -c1-200)"
git checkout -q -- .
