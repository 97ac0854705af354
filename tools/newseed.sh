#!/bin/bash
# newseed.sh ID PROPERTY PKGDIR [FILES...]: a scratch copy to edit and a demo skeleton.
id="$1"; prop="$2"; pkg="$3"; shift 3
D=/verif/seeded/$id; mkdir -p $D /tmp/seed
[ -d /tmp/seed/$id ] || git -C /repo worktree add -q --detach /tmp/seed/$id HEAD
rep="\"\$PWD/$pkg/zz_demo_test.go\": \"\$here/demo_test.go\""
for f in "$@"; do cp /verif/tools/seedlib/$f $D/; rep="$rep, \"\$PWD/$pkg/zz_$f\": \"\$here/$f\""; done
cat > $D/demo.sh <<E
#!/bin/bash
here="\$(cd "\$(dirname "\$0")" && pwd)"
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
ov="\$(mktemp)"
trap 'rm -f "\$ov"' EXIT
cat > "\$ov" <<J
{"Replace": {$(echo "$rep")}}
J
go test -overlay "\$ov" -vet=off -count=1 -timeout 200s -run 'TestDemo' ./$pkg
E
