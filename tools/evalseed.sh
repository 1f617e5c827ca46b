#!/bin/bash
# evalseed.sh ID [notest]: applies seeded/ID to a scratch copy, tests it, runs its demo and the property's check
set -u
id=$1
export PATH=/opt/veriftools/go1.23.12/bin:$PATH HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
S=/tmp/w/s.$id; D=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
rm -rf "$S"; mkdir -p /tmp/w; cp -a /repo "$S"
(cd "$S" && git apply "$D/patch.diff") || { echo "$id PATCH FAILS"; rm -rf "$S"; exit 1; }
cd "$S"
if [ "${2:-}" != notest ]; then
  go build ./... || { echo "$id BUILD FAILS"; rm -rf "$S"; exit 1; }
  PKGS=$(go list -e ./... | grep -vxE 'github.com/solarisdb/solaris/(golibs/timeout|pkg/storage/postgres)')
  TMPDIR=$(mktemp -d) go test -vet=off -count=1 -timeout 10m $PKGS > /tmp/w/test.$id.log 2>&1 || { echo "$id TESTS FAIL"; grep -E '^(---|\s+---) FAIL|^FAIL' /tmp/w/test.$id.log | head; }
  (cd /repo && bash "$D/demo.sh" > /tmp/w/demo0.$id.log 2>&1) || { echo "$id DEMO FAILS ON CLEAN"; tail -5 /tmp/w/demo0.$id.log; }
  (cd "$S" && bash "$D/demo.sh" > /tmp/w/demo1.$id.log 2>&1) && echo "$id DEMO PASSES ON BUG"
fi
rm -rf /tmp/w/root.$id; mkdir -p /tmp/w/root.$id
for x in contracts harness props.json known_findings.txt; do [ -e /verif/$x ] && ln -s /verif/$x /tmp/w/root.$id/$x; done
VERIF_SEED=1 VERIF_TIER=quick timeout 890 /verif/.build/gov check -repo "$S" -root /tmp/w/root.$id -prop "$prop" > /tmp/w/check.$id.log 2>&1
echo "$id $prop exit $? $(grep -a VIOLATION /tmp/w/check.$id.log | sed 's/replay=[^ ]*//')  $(grep -a '^FAILED\|^COUNTER' /tmp/w/check.$id.log | head -3 | cut -c1-200 | tr '\n' '|')"
rm -rf "$S" /tmp/w/root.$id
