#!/bin/bash
# mkseed.sh ID PROP PKGDIR FILE PERL-SUBST DEMO_TEST.go NEEDS BREAKS
# Makes a planted bug in a scratch copy, confirms it builds, passes the tests, is exposed by the demo, and runs the check on it.
set -u
id=$1 prop=$2 pkg=$3 file=$4 subst=$5 demo=$6 needs=$7 breaks=$8
export PATH=/opt/veriftools/go1.23.12/bin:$PATH HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
S=/tmp/w/s.$id; D=/verif/seeded/$id
rm -rf "$S"; mkdir -p /tmp/w; cp -a /repo "$S"; mkdir -p "$D"
(cd "$S" && perl -0pi -e "$subst" "$file" && git diff > "$D/patch.diff")
[ -s "$D/patch.diff" ] || { echo "NO CHANGE"; exit 1; }
grep '^[-+]' "$D/patch.diff"
[ "$demo" -ef "$D/demo_test.go" ] || cp "$demo" "$D/demo_test.go"
cat > "$D/demo.sh" <<EOS
#!/bin/bash
# exit 0 when the behaviour is right, nonzero when the bug shows
d=\$(cd "\$(dirname "\$0")" && pwd)
export PATH=/opt/veriftools/go1.23.12/bin:\$PATH HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off CGO_ENABLED=1
t=\$(mktemp -d) || exit 9
trap 'rm -rf "\$t"' EXIT
printf '{"Replace":{"%s":"%s"}}' "\$PWD/$pkg/zz_demo_test.go" "\$d/demo_test.go" > "\$t/ov.json"
TMPDIR=\$t go test -overlay "\$t/ov.json" -vet=off -count=1 -timeout 200s -run '^TestDemo' ./$pkg
EOS
python3 - "$D/meta.json" "$prop" "$needs" "$breaks" <<'EOS'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
EOS
bash /verif/tools/evalseed.sh "$id"
