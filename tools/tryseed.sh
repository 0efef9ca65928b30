#!/bin/bash
# tryseed.sh ID: validates a planted bug in a scratch copy: builds, passes the tests, demo passes before and fails after
id=$1; d=/verif/seeded/$id; w=/tmp/seedtry.$id
export PATH=$PATH:/usr/local/go/bin GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
rm -rf "$w"; cp -a /repo "$w"; cd "$w"; git checkout -q -- . 
demo() { (unshare -Urm bash -c "mount --bind $w /repo && cd /repo && exec timeout 300 bash $d/demo.sh") >/tmp/seedtry.$id.$1 2>&1; echo $?; }
a=$(demo clean)
git apply "$d/patch.diff" || { echo "$id: does not apply"; exit 1; }
pk=$(go list ./... 2>/dev/null | grep -v cmd/stl2svx$)
go build $pk >/tmp/seedtry.$id.build 2>&1 || { echo "$id: does not build"; cat /tmp/seedtry.$id.build; exit 1; }
go test $pk 2>&1 | grep -v "no test files" | grep -q "^FAIL\|^--- FAIL" && echo "$id: tests fail"
b=$(demo bug)
echo "$id: demo clean=$a bug=$b"
cd /; rm -rf "$w"
[ "$a" = 0 ] && [ "$b" != 0 ]
