# builds the harness to /tmp/harness from REPO
REPO=${REPO:-/repo}
rm -rf /tmp/hsrc; cp -r /verif/harness /tmp/hsrc
sed -e 's/^module .*/module vharness/' -e 's/^go 1.18/go 1.24/' $REPO/go.mod > /tmp/hsrc/go.mod
printf '\nrequire github.com/vito/booklit v0.0.0\nreplace github.com/vito/booklit => %s\n' $REPO >> /tmp/hsrc/go.mod
cp $REPO/go.sum /tmp/hsrc/
cd /tmp/hsrc && go build $RACE -o ${OUT:-/tmp/harness} .
