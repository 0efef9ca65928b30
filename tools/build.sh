# build.sh DEST [race]: sourced by check.sh and replay.sh.  Rebuilds the simulated
# program from /repo's working tree: DEST/zh and, with race, DEST/zhr.
export HOME="${HOME:-/root}" PATH="$PATH:/usr/local/go/bin:/usr/local/bin"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GONOSUMDB=* GONOSUMCHECK=1
unset GOEXPERIMENT
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
REPO=${VERIF_REPO:-/repo}
MAINS=stldice=cmd/stldice,voxcut=cmd/voxcut,voxcut-dice=cmd/voxcut-dice,binvox-dice=cmd/binvox-dice,merge-binvox=cmd/merge-binvox,merge-stl=cmd/merge-stl,svx2stl=cmd/svx2stl,marching-cubes=cmd/marching-cubes,manifold-mesh=cmd/manifold-mesh,stl2svx-server=stl2svx/stl2svx-server,stl2svx-client=stl2svx/stl2svx-client

zz_build() { # DEST race?
  local d=$1 race=$2
  mkdir -p "$d" || return 1
  cp -a "$REPO" "$d/src" || return 1
  rm -rf "$d/src/.git" "$d/src/cmd/stl2svx" "$d/src/cmd/stldice-mr"
  find "$d/src" -name '*_test.go' -delete
  (cd "$VERIF/sim/tool" && go build -o "$d/zztool" .) || return 1
  "$d/zztool" -src "$d/src" -sim "$VERIF/sim" -out "$d/out" -mains "$MAINS" || return 1
  cd "$d/out" || return 1
  local m; m=$(go list -m) || return 1
  local pid=
  if [ -n "$race" ]; then
    # The simulator and the harness carry no race hooks; without this experiment
    # off, their allocations would not be announced to the race detector.
    GOEXPERIMENT=nosizespecializedmalloc go build -race \
      "-gcflags=$m/zzsim/rt=-race=false -l" "-gcflags=$m/zzsim/harness=-race=false -l" \
      "-gcflags=$m/zzsim/std/log=-race=false -l" "-gcflags=$m/zzsim/std/runtime=-race=false -l" \
      '-gcflags=fmt=-race=false -l' '-gcflags=strconv=-race=false -l' \
      '-gcflags=unicode/utf8=-race=false -l' '-gcflags=internal/fmtsort=-race=false -l' \
      -o "$d/zhr" ./zzsim/harness/cmd &
    pid=$!
  fi
  go build -o "$d/zh" ./zzsim/harness/cmd || { [ -n "$pid" ] && wait "$pid"; return 1; }
  if [ -n "$pid" ]; then wait "$pid" || return 1; fi
  cd "$VERIF"
}
