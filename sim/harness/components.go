package harness

import "sort"

// components names, per scenario, the code that really runs (rewritten by
// tool/main.go, otherwise unchanged) and what is replaced.
var components = map[string][]string{}

func init() {
	set := func(scens []string, real ...string) {
		for _, s := range scens {
			components[s] = append(components[s], real...)
		}
	}
	svx := []string{"svx-plain", "svx-faults", "svx-live", "svx-multi", "svx-excl", "svx-cancel", "svx-hostile", "svx-client", "svx-convert"}
	set(svx, "stl2svx/stl2svx-server (main, as master and as agents)", "stl2svx/master", "stl2svx/agent", "stl2svx/stl", "stl2svx/proto", "binvox: VoxelizeZ", "image/png, encoding/xml, google.golang.org/protobuf (originals)")
	set([]string{"svx-cancel", "svx-client", "svx-convert"}, "stl2svx/stl2svx-client (main)", "stl: Load")
	set([]string{"svx-convert", "svx2stl"}, "cmd/svx2stl (main)", "binvox: MarchingCubes", "stl: Save", "outfile", "archive/zip reader (clone over the simulated file system)")
	set([]string{"voxel"}, "binvox: Voxelize, VoxelizeZ")
	set([]string{"dice"}, "binvox: Voxelize, VoxelizeZ, Write, Read", "stl2svx/stl")
	set([]string{"stldice", "pipeline"}, "cmd/stldice (main)", "binvox: Voxelize, Write", "stl: Load", "outfile")
	set([]string{"pipeline", "voxcut", "voxcutdice"}, "cmd/voxcut (main)", "binvox: Read, Write, ToMesh, ManifoldMesh", "stl: Save", "outfile")
	set([]string{"pipeline", "mergestltool"}, "cmd/merge-stl (main)", "stl: Merge, Load, Save", "infile", "outfile")
	set([]string{"voxcutdice"}, "cmd/voxcut-dice (main)")
	set([]string{"mergebintool"}, "cmd/merge-binvox (main)", "binvox: Read", "vshell: Add, Write", "infile", "outfile")
	set([]string{"mergestl"}, "stl: Merge, Load")
	set([]string{"binvoxfile"}, "binvox: Write, Read", "outfile")
	set([]string{"vshellfile"}, "vshell: New, Add, Write, Read", "outfile")
	set([]string{"damage"}, "binvox: Read", "vshell: Read")
	set([]string{"meshtool"}, "cmd/marching-cubes (main)", "cmd/manifold-mesh (main)", "binvox: Read, MarchingCubes, ManifoldMesh", "stl: Save", "outfile")
	set([]string{"shell"}, "vshell: New, Add")
	set([]string{"binvoxdice"}, "cmd/binvox-dice (main)")
	for s := range components {
		if s == "binvoxdice" || s == "shell" {
			continue
		}
		components[s] = append(components[s], "github.com/fogleman/fauxgl")
	}
}

var stubs = []string{
	"goroutine scheduler, channels, select, sync, sync/atomic, map iteration order: zzsim/rt and clones",
	"time, context: clones over the simulated clock",
	"os, io/ioutil, path/filepath, os/exec, os/signal, flag, log, fmt output: clones over simulated processes, hosts and file systems (page cache, power loss, disk errors)",
	"net, google.golang.org/grpc: clones over the simulated network (real protobuf encoding)",
	"math/rand, crypto/rand, runtime: seeded clones",
}

func componentsOf(sp *propSpec) (real []string) {
	seen := map[string]bool{}
	for _, it := range sp.items {
		for _, r := range components[it.scen] {
			if !seen[r] {
				seen[r] = true
				real = append(real, r)
			}
		}
	}
	sort.Strings(real)
	return real
}

func stubsOf(sp *propSpec) []string {
	out := append([]string{}, stubs...)
	for _, it := range sp.items {
		switch it.scen {
		case "binvoxdice":
			out = append(out, "binvox and voxcut as run by the printed script: models in the harness")
		case "svx-faults", "svx-live", "svx-excl", "svx-client":
			out = append(out, "some agents: fakes that answer with an error")
		}
	}
	return out
}
