#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS BREAKS < demo_test.go ; the changed tree is /tmp/s (a copy of /repo with the edit applied)
set -u
id=$1 prop=$2 needs=$3 breaks=$4
out=/verif/seeded/$id; mkdir -p $out
cat > $out/demo_test.go
(cd /tmp/s && git diff -U15) > $out/patch.diff
cat > $out/demo.sh <<'X'
#!/bin/bash
# Runs TestDemo inside the package, through an overlay.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf -- "$T"' EXIT
echo "{\"Replace\":{\"$PWD/zz_demo_test.go\":\"$D/demo_test.go\"}}" > "$T/o.json"
DEMO_TMP=$T GOFLAGS=-mod=mod GOPROXY=off go test -overlay "$T/o.json" -run '^TestDemo$' -count=1 -timeout 120s .
X
chmod +x $out/demo.sh
python3 - "$out" "$prop" "$needs" "$breaks" <<'X'
import json,sys
o,p,n,b=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(o+'/meta.json','w'),indent=1)
X
cd /repo && bash $out/demo.sh >/tmp/w/d0 2>&1 || { echo "BAD $id: demo fails on the clean tree"; tail -20 /tmp/w/d0; exit 1; }
cd /tmp/s && go build ./... || { echo "BAD $id: build"; exit 1; }
bash $out/demo.sh >/tmp/w/d1 2>&1 && { echo "BAD $id: demo passes with the patch"; exit 1; }
grep -q 'build failed' /tmp/w/d1 && { echo "BAD $id: demo does not build"; exit 1; }
cd /tmp/s && go test ./... >/tmp/w/d2 2>&1 || { echo "BAD $id: existing tests fail"; grep -- '--- FAIL' /tmp/w/d2 | head; exit 1; }
git -C /repo apply --check $out/patch.diff || { echo "BAD $id: does not apply"; exit 1; }
git -C /tmp/s checkout -q -- . ; echo "ok $id"
