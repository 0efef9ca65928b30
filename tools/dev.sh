#!/bin/bash
# dev.sh [race]: rebuild the simulated tree from /repo into /tmp/w and the harness /tmp/zh (and /tmp/zhr with the race detector)
set -e
export PATH=$PATH:/usr/local/go/bin GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
SRC=${SRC:-/repo}; W=${W:-/tmp/w}; OUT=${OUT:-/tmp/zh}
mkdir -p $W; rm -rf $W/src $W/out
cp -a $SRC $W/src; rm -rf $W/src/.git $W/src/cmd/stl2svx $W/src/cmd/stldice-mr
find $W/src -name '*_test.go' -delete
(cd /verif/sim/tool && go build -o $W/zztool .)
$W/zztool -src $W/src -sim /verif/sim -out $W/out -mains stldice=cmd/stldice,voxcut=cmd/voxcut,voxcut-dice=cmd/voxcut-dice,binvox-dice=cmd/binvox-dice,merge-binvox=cmd/merge-binvox,merge-stl=cmd/merge-stl,svx2stl=cmd/svx2stl,marching-cubes=cmd/marching-cubes,manifold-mesh=cmd/manifold-mesh,stl2svx-server=stl2svx/stl2svx-server,stl2svx-client=stl2svx/stl2svx-client
cd $W/out
go build -o $OUT ./zzsim/harness/cmd
if [ "$1" = race ]; then
M=$(go list -m)
GOEXPERIMENT=nosizespecializedmalloc go build -race "-gcflags=$M/zzsim/rt=-race=false -l" "-gcflags=$M/zzsim/harness=-race=false -l" "-gcflags=$M/zzsim/std/log=-race=false -l" "-gcflags=$M/zzsim/std/runtime=-race=false -l" '-gcflags=fmt=-race=false -l' '-gcflags=strconv=-race=false -l' '-gcflags=unicode/utf8=-race=false -l' '-gcflags=internal/fmtsort=-race=false -l' -o ${OUT}r ./zzsim/harness/cmd
fi
