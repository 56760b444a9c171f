#!/bin/bash
# seed.sh ID PROP [needs] [breaks]: take the working-tree change of /repo as planted bug ID of property PROP
# (or re-apply the recorded one), confirm it builds, passes the tests, its demo tells it apart; run the check; undo.
id=$1; prop=$2; d=/verif/seeded/$id; mkdir -p $d
cd /repo
if [ -n "$3" ]; then
  git diff > $d/patch.diff
  python3 - "$prop" "$3" "$4" > $d/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
else
  git apply $d/patch.diff || exit 1
fi
if [ ! -f $d/demo.sh ]; then cat > $d/demo.sh <<'D'
#!/bin/bash
# runs main.go (beside this file) against /repo; exit 0: behaves as it should
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
export HOME=/root GOROOT=/opt/veriftools/go1.27.3 GOTOOLCHAIN=local GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
export PATH=$GOROOT/bin:$PATH
cp "$here/main.go" "$t/main.go"
cat > "$t/go.mod" <<M
module demo

go 1.21.1

require (
	github.com/KSpaceer/yamly v0.1.1
	github.com/KSpaceer/yamly/engines/goyaml v0.1.1
	github.com/KSpaceer/yamly/engines/yayamls v0.1.1
	gopkg.in/yaml.v3 v3.0.1
)

replace github.com/KSpaceer/yamly => /repo

replace github.com/KSpaceer/yamly/engines/yayamls => /repo/engines/yayamls

replace github.com/KSpaceer/yamly/engines/goyaml => /repo/engines/goyaml
M
cat /repo/engines/goyaml/go.sum > "$t/go.sum"
cd "$t" && go build -o demo . || exit 2
timeout 60 ./demo
D
fi
bash /opt/vp/build.sh > /tmp/seed.b 2>&1 || { echo "BUILD FAILS"; tail -5 /tmp/seed.b; git checkout -- .; exit 1; }
bash /opt/vp/test.sh /tmp/seed.t | tail -1
bash $d/demo.sh > /tmp/seed.o 2>&1; echo "demo patched: $? $(tail -1 /tmp/seed.o)"
(cd /verif; for p in ${CHECKS:-$prop}; do timeout 900 python3 bin/check.py $p quick | tail -4 | cut -c1-400; done)
git checkout -- .
bash $d/demo.sh > /tmp/seed.o 2>&1; echo "demo clean: $? $(tail -1 /tmp/seed.o)"
rm -f /tmp/seed.b /tmp/seed.o /tmp/seed.t
