package harness

import (
	"encoding/json"
	"fmt"
	"math"

	rt "ZZSIM/rt"
	zsync "ZZSIM/std/sync"

	"ZZMOD/binvox"
)

// runLib runs f as a process of its own on host h; it reports a crash, a hang
// or a killed process to the caller.
func runLib(h *rt.Host, name string, f func()) *rt.Proc {
	p, err := rt.Start(h, name, name, nil, rt.StartOpts{Fn: f})
	if err != nil {
		fatal("start: %v", err)
	}
	return p
}

// voxParams: a solid and a region voxelised under a schedule.
type voxParams struct {
	Shapes []Shape    `json:"shapes"`
	VP     int        `json:"vp"`   // log2 of voxels per millimetre
	Move   [3]int     `json:"move"` // position in space (voxels)
	Off    [3]float64 `json:"off"`  // region origin relative to the position (voxels)
	N      [3]int     `json:"n"`
	Mode   int        `json:"mode"` // 0 one run, 1 two regions concurrently on one mesh, 2 same region twice
}

func genVoxel(r *rt.Rand, tier string) any {
	big := 14
	if tier == "thorough" && r.Chance(0.3) {
		big = 30
	}
	var d vec
	for i := range d {
		d[i] = float64(2 + r.Intn(big))
	}
	p := voxParams{Shapes: genShapes(r, d, allShapes), VP: r.Intn(6) - 2, Mode: r.Intn(3)}
	if r.Chance(0.15) { // solids that overlap: the mesh encloses their union
		p.Shapes = append(p.Shapes, genShapes(r, d, []string{"box", "rbox", "octa", "ball", "prism"})...)
	}
	for i := range p.Move {
		p.Move[i] = r.Intn(41) - 20
	}
	switch r.Intn(3) {
	case 0: // covering everything with a margin
		for i := range p.N {
			m := r.Intn(4)
			p.Off[i] = -float64(m)
			p.N[i] = int(d[i]) + 2*m + 2
		}
	default: // part of it
		for i := range p.N {
			p.Off[i] = float64(r.Intn(int(d[i])+3) - 3)
			p.N[i] = 1 + r.Intn(int(d[i])+2)
			if i < 2 && r.Chance(0.3) {
				p.Off[i] += 0.25 * float64(r.Intn(4))
			}
		}
	}
	return p
}

func voxelRun(c *Ctx, raw json.RawMessage) {
	p := decode[voxParams](raw)
	s := makeSolid(p.Shapes)
	k := math.Pow(2, -float64(p.VP))
	mv := vec{float64(p.Move[0]) * k, float64(p.Move[1]) * k, float64(p.Move[2]) * k}
	ts := scaled(s.tris, k, mv)
	maxd := max(p.N[0], p.N[1], p.N[2])
	mk := func(off [3]float64, n [3]int) *binvox.BinVOX {
		return &binvox.BinVOX{NX: n[0], NY: n[1], NZ: n[2],
			TX: mv[0] + off[0]*k, TY: mv[1] + off[1]*k, TZ: mv[2] + off[2]*k, Scale: float64(maxd) * k}
	}
	h := rt.NewHost("box", "10.0.0.1")
	var regions []*binvox.BinVOX
	var offs [][3]float64
	var ns [][3]int
	add := func(off [3]float64, n [3]int) {
		regions = append(regions, mk(off, n))
		offs = append(offs, off)
		ns = append(ns, n)
	}
	add(p.Off, p.N)
	switch p.Mode {
	case 1: // the neighbouring region, at the same scale
		o := p.Off
		o[0] += float64(p.N[0])
		add(o, p.N)
	case 2:
		add(p.Off, p.N)
	}
	errs := make([]error, len(regions))
	layers := make([]vset, len(regions))
	pr := runLib(h, "lib", func() {
		mesh := meshOf(ts)
		var wg zsync.WaitGroup
		for i := range regions {
			i := i
			job := func() {
				errs[i] = regions[i].Voxelize(mesh)
			}
			if len(regions) > 1 {
				wg.Add(1)
				rt.Go(func() { job(); wg.Done() })
			} else {
				job()
			}
		}
		wg.Wait()
		// layer by layer
		for i := range regions {
			u := vset{}
			for z := 0; z < ns[i][2]; z++ {
				b := mk(offs[i], ns[i])
				if err := b.VoxelizeZ(mesh, z); err != nil {
					errs[i] = err
				}
				for v := range whites(b.WhiteVoxels) {
					if v[2] != z {
						c.Viol("C08", "layer", "VoxelizeZ(%d) returned voxel %v of another layer", z, v)
					}
					u[v] = true
				}
			}
			layers[i] = u
		}
	})
	if !rt.WaitProcFor(pr, 3600e9) {
		c.Viol("C08", "hang", "Voxelize did not return")
		return
	}
	if ci, st := pr.CrashInfo(); ci != "" {
		c.Viol("C08", "crash", "Voxelize crashed: %s\n%s", ci, st)
		return
	}
	for i, b := range regions {
		if errs[i] != nil {
			c.Viol("C08", "error", "Voxelize of a valid region failed: %v", errs[i])
			continue
		}
		got := whites(b.WhiteVoxels)
		for v := range got {
			for a := range v {
				if v[a] < 0 || v[a] >= ns[i][a] {
					c.Viol("C08", "out-of-region", "voxel %v lies outside the region %v", v, ns[i])
				}
			}
		}
		if d := diffSets(layers[i], got); d != "" {
			c.Viol("C08", "layers-differ", "Voxelize differs from its layers voxelised one by one: %s", d)
		}
		checkSolid(c, "C08", s, p.Shapes, offs[i], ns[i], got)
		c.Probe("regions-checked")
		if len(got) > 0 {
			c.Probe("regions-with-voxels")
		}
	}
	if p.Mode == 2 && errs[0] == nil && errs[1] == nil {
		if d := diffSets(whites(regions[0].WhiteVoxels), whites(regions[1].WhiteVoxels)); d != "" {
			c.Viol("C08", "not-deterministic", "two voxelisations of the same region differ: %s", d)
		}
	}
}

// checkSolid compares voxels of the region at off (voxel units) with the solid.
func checkSolid(c *Ctx, prop string, s *Solid, shapes []Shape, off [3]float64, n [3]int, got vset) {
	const tol = 1.6
	boxes := true
	for _, sh := range shapes {
		boxes = boxes && sh.Kind == "box"
	}
	want := vset{}
	for x := 0; x < n[0]; x++ {
		for y := 0; y < n[1]; y++ {
			for z := 0; z < n[2]; z++ {
				v := [3]int{x, y, z}
				d := s.sd(vec{off[0] + float64(x) + 0.5, off[1] + float64(y) + 0.5, off[2] + float64(z) + 0.5})
				if d > tol && !got[v] {
					c.Viol(prop, "hole", "voxel %v of region %v+%v lies %.2f voxels inside the solid but is not set", v, off, n, d)
				}
				if d < -tol && got[v] {
					c.Viol(prop, "leak", "voxel %v of region %v+%v lies %.2f voxels outside the solid but is set", v, off, n, -d)
				}
				if boxes {
					for _, sh := range shapes {
						q := sh.P
						zc := off[2] + float64(z) + 0.5
						if float64(x) >= math.Floor(q[0]-off[0]) && float64(x) <= math.Floor(q[3]-off[0]) &&
							float64(y) >= math.Floor(q[1]-off[1]) && float64(y) <= math.Floor(q[4]-off[1]) && zc > q[2] && zc < q[5] {
							want[v] = true
						}
					}
				}
			}
		}
	}
	if boxes {
		if d := diffSets(want, inRegion(got, n)); d != "" {
			c.Viol(prop, "box", "boxes %v in region %v+%v: %s", shapes, off, n, d)
		}
		c.Probe("exact-boxes")
	}
}

func inRegion(s vset, n [3]int) vset {
	o := vset{}
	for v := range s {
		if v[0] >= 0 && v[1] >= 0 && v[2] >= 0 && v[0] < n[0] && v[1] < n[1] && v[2] < n[2] {
			o[v] = true
		}
	}
	return o
}

func shrinkShapes(sh []Shape) [][]Shape {
	var out [][]Shape
	for i := range sh {
		if len(sh) > 1 {
			out = append(out, append(append([]Shape{}, sh[:i]...), sh[i+1:]...))
		}
	}
	return out
}

func init() {
	register(&Scenario{
		Name: "voxel", Gen: genVoxel, Run: voxelRun, Hang: "C08", Race: "C08",
		Shrink: func(raw json.RawMessage) []any {
			p := decode[voxParams](raw)
			var out []any
			for _, s := range shrinkShapes(p.Shapes) {
				q := p
				q.Shapes = s
				out = append(out, q)
			}
			if p.Mode != 0 {
				q := p
				q.Mode = 0
				out = append(out, q)
			}
			for i := range p.N {
				if p.N[i] > 1 {
					q := p
					q.N[i] = p.N[i] / 2
					out = append(out, q)
					q = p
					q.N[i]--
					out = append(out, q)
				}
				if p.Move[i] != 0 {
					q := p
					q.Move[i] = 0
					out = append(out, q)
				}
			}
			if p.VP != 0 {
				q := p
				q.VP = 0
				out = append(out, q)
			}
			return out
		},
	})
}

var _ = fmt.Sprint
