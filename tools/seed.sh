#!/bin/bash
# seed.sh ID PROP PKGDIR "NEEDS" "BREAKS": makes /verif/seeded/ID from the diff of the
# scratch copy /tmp/m and the test /tmp/demo_test.go (or /tmp/demo.sh) and confirms it.
set -e
. /opt/vp/env.sh
ID=$1 PROP=$2 PKG=$3 D=/verif/seeded/$1
mkdir -p $D
git -C /tmp/m diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "empty patch"; exit 1; }
if [ -f /tmp/demo_test.go ]; then
  mv /tmp/demo_test.go $D/demo_test.go.txt
  cat > $D/demo.sh <<EOF
#!/bin/bash
# in-package test laid over the package, run against the tree in the working directory
. /opt/vp/env.sh
D=\$(cd "\$(dirname "\$0")" && pwd)
T=\$(mktemp -d); trap 'rm -rf "\$T"' EXIT
cp "\$D/demo_test.go.txt" "\$T/zz_demo_test.go"
echo '{"Replace":{"'\$PWD'/$PKG/zz_demo_test.go":"'\$T'/zz_demo_test.go"}}' > "\$T/overlay.json"
export TMPDIR=\$T
timeout 250 go test \$RACE -vet=off -overlay "\$T/overlay.json" -count=1 -run 'TestDemo' ./$PKG
EOF
  [ -n "$RACE" ] && sed -i "s/\\\$RACE/-race/" $D/demo.sh
fi
chmod +x $D/demo.sh
python3 - "$D" "$PROP" "$4" "$5" <<'EOF'
import json,sys
json.dump(dict(property=sys.argv[2],needs=sys.argv[3],what_it_breaks=sys.argv[4]),open(sys.argv[1]+"/meta.json","w"),indent=1)
EOF
cd /repo; bash $D/demo.sh > /tmp/demo.out 2>&1 || { echo "demo fails on the unchanged tree"; cat /tmp/demo.out; exit 1; }
cd /tmp/m; go build ./... || { echo "does not build"; exit 1; }
# demo against the scratch copy
if bash $D/demo.sh > /tmp/demo.out 2>&1; then echo "demo passes with the change"; exit 1; fi
tail -5 /tmp/demo.out
# the existing tests
go test -vet=off -count=1 ./tests ./... > /tmp/demo.out 2>&1 || { tail -20 /tmp/demo.out; echo "existing tests fail"; exit 1; }
git -C /repo apply --check $D/patch.diff && echo "seed $ID ok"
