#!/bin/bash
# mkseed.sh ID PROP PKG "needs" "what"   -- uses: edits already made in /tmp/sw (copy of /repo), test body in /tmp/demo_test.go
# Confirms build, stable tests and demo on both trees, then stores /verif/seeded/ID.
set -e
ID=$1 PROP=$2 PKG=$3 NEEDS=$4 WHAT=$5
D=/verif/seeded/$ID; mkdir -p $D
git -C /tmp/sw diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no change"; exit 1; }
cp /tmp/demo_test.go $D/demo_test.go
cat > $D/demo.sh <<X
#!/bin/bash
# Runs demo_test.go inside $PKG of the repository in the current directory.
D=\$(cd "\$(dirname "\$0")" && pwd); R=\$PWD
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:\$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS= GOWORK=\$R/go.work GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
T=\$(mktemp -d); trap 'rm -rf "\$T"' EXIT
echo "{\"Replace\":{\"\$R/$PKG/zz_demo_test.go\":\"\$D/demo_test.go\"}}" > \$T/o.json
exec_dir=\$R
go test -vet=off -count=1 -timeout 120s -overlay \$T/o.json -run Demo ./$PKG
X
chmod +x $D/demo.sh
python3 - "$D/meta.json" "$PROP" "$NEEDS" "$WHAT" <<'P'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1],'w'),indent=1)
P
cd /repo; git diff --quiet
$D/demo.sh > /tmp/d0.log 2>&1 || { echo "DEMO FAILS ON CLEAN TREE"; tail -30 /tmp/d0.log; exit 1; }
git apply $D/patch.diff
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh || { echo "BUILD FAILS"; exit 1; }
if $D/demo.sh > /tmp/d1.log 2>&1; then echo "DEMO PASSES WITH BUG"; exit 1; fi
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'P' || { echo "TESTS FAIL"; exit 1; }
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
def names(x,k):
    v=x.get(k) if isinstance(x,dict) else None
    return set(v or [])
base=names(b,'passed') or names(b,'stable') or set(b if isinstance(b,list) else [])
got=names(t,'passed')
miss=base-got
print('baseline',len(base),'missing',sorted(miss)[:5])
import sys; sys.exit(1 if miss or not base else 0)
P
grep -m3 -E "FAIL|panic|demo" /tmp/d1.log
cd /verif && (timeout 900 ./check.sh $PROP quick | tail -5) || true
