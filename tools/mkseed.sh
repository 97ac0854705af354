#!/bin/bash
# mkseed.sh ID: makes patch.diff of seeded/ID from the edits in the worktree
# /tmp/seed/ID, checks that it builds, that the stable tests pass and that the
# demo tells the two trees apart, and says which checks catch it.
# The demo and meta.json must exist already.
id="$1"; prop="$2"
W=/tmp/seed/$id
D=/verif/seeded/$id
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off
git -C $W diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "empty patch"; exit 1; }
(cd $W && go build -o /dev/null ./... && (cd vancap && go build -o /dev/null ./...)) || { echo "DOES NOT BUILD"; exit 1; }
(cd $W && go test -short -vet=off -count=1 -timeout 5m ./... 2>&1 | grep -v '^ok\|no test files') && echo "TESTS FAIL?"
T=$(mktemp -d)
cp -a /repo $T/repo
for v in clean bad; do
  [ $v = bad ] && git -C $T/repo apply $D/patch.diff
  mkdir -p $T/demo; cp $D/* $T/demo; rm -f $T/demo/patch.diff $T/demo/meta.json
  # the demo names /repo: show it the copy
  sed "s#/repo\b#$T/repo#g" $D/demo.sh > $T/demo/demo.sh
  (cd $T/repo && timeout 300 bash $T/demo/demo.sh > $T/out.$v 2>&1); rc=$?
  echo "demo on $v: $rc"
  [ $v = clean ] && [ $rc != 0 ] && tail -20 $T/out.$v
  [ $v = bad ] && { [ $rc = 0 ] && echo "NOT DEMONSTRATED"; grep -m3 -E 'FAIL|panic|_test.go:' $T/out.$v; }
done
mkdir -p $T/v; cp -a /verif/checker /verif/check.sh /verif/known-findings.txt /verif/.bin $T/v 2>/dev/null
VF_REPO=$T/repo VF_VERIF=$T/v /verif/check.sh ${2:-$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")} | tail -4
rm -rf "$T"
