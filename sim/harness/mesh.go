package harness

import (
	"encoding/json"
	"math"
	"math/bits"

	rt "ZZSIM/rt"
)

// --- scenario: marching-cubes and manifold-mesh ---

type meshParams struct {
	Model    boxModel `json:"model"`
	Manifold bool     `json:"manifold,omitempty"`
	Bad      string   `json:"bad,omitempty"` // as in putBinvox
	At       float64  `json:"at,omitempty"`
	Old      bool     `json:"old,omitempty"`
	Pipe     bool     `json:"pipe,omitempty"` // the output is a named pipe
	Full     int64    `json:"full,omitempty"`
	Args     int      `json:"args,omitempty"` // 1: too few arguments, 2: too many
}

// neighborhood is the pattern of the eight voxels around the corner k that
// voxel k shares with k-(1,1,1).
func neighborhood(s vset, k [3]int) (n int) {
	for i := 0; i < 8; i++ {
		if s[[3]int{k[0] - 1 + i&1, k[1] - 1 + i>>1&1, k[2] - 1 + i>>2}] {
			n |= 1 << i
		}
	}
	return
}

// openEdges finds the edges of a surface that are not used equally often in
// both directions; coordinates are in 1/64 voxels.
func openEdges(ts []tri, t [3]float64, vs float64) [][2][3]int64 {
	key := func(v vec) (k [3]int64) {
		for a := range v {
			k[a] = int64(math.Round((v[a] - t[a]) / vs * 64))
		}
		return
	}
	n := map[[2][3]int64]int{}
	for _, t := range ts {
		k := [3][3]int64{key(t[0]), key(t[1]), key(t[2])}
		for i := range k {
			// pieces between lattice points, since edges may meet midway
			a, b := k[i], k[(i+1)%3]
			g := gcd(gcd(b[0]-a[0], b[1]-a[1]), b[2]-a[2]) / 16
			g = max(g, 1)
			for j := int64(0); j < g; j++ {
				var p, q [3]int64
				for x := range p {
					p[x], q[x] = a[x]+(b[x]-a[x])*j/g, a[x]+(b[x]-a[x])*(j+1)/g
				}
				n[[2][3]int64{p, q}]++
				n[[2][3]int64{q, p}]--
			}
		}
	}
	var out [][2][3]int64
	for e, k := range n {
		if k > 0 {
			out = append(out, e)
		}
	}
	return out
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return max(a, -a)
}

func meshToolRun(c *Ctx, raw json.RawMessage) {
	p := decode[meshParams](raw)
	h := rt.NewHost("box", "10.0.0.1")
	h.Mkdir("/work")
	m := p.Model
	mustFail := putBinvox(h, "/work/in.binvox", m, p.Bad, p.At)
	if p.Old {
		h.PutFile("/work/out.stl", oldOutput(p.Model.Seed))
	}
	if p.Pipe {
		h.PutPipe("/work/out.stl")
	}
	args := []string{"in.binvox", "out.stl"}
	switch p.Args {
	case 1:
		args, mustFail = args[:1], true
	case 2:
		args, mustFail = append(args, "more.stl"), true
	}
	h.SyncAll()
	if p.Full > 0 {
		h.SetCapacity(p.Full)
	}
	bin := "marching-cubes"
	if p.Manifold {
		bin = "manifold-mesh"
	}
	pr := runTool(c, "C20", h, "mesh", bin, args...)
	if pr == nil {
		return
	}
	vox := m.vox()
	if !exitOK(pr) {
		c.Probe("mesh-failed")
		if !mustFail && !c.Faulty() && p.Full == 0 {
			c.Viol("C20", "spurious-failure", "%s failed although nothing is wrong: %s", bin, howEnded(pr))
		}
		return
	}
	c.Probe(bin + "-succeeded")
	if mustFail {
		c.Viol("C20", "bad-input", "%s %v succeeded although its input cannot be read completely (%s)", bin, args, p.Bad)
		return
	}
	b, ok := h.GetFile("/work/out.stl")
	if !ok {
		c.Viol("C20", "missing", "%s succeeded without writing its output", bin)
		return
	}
	if p.Pipe && !h.IsPipe("/work/out.stl") {
		c.Viol("C20", "pipe", "%s succeeded, but replaced the pipe it was to write into", bin)
		return
	}
	ts, err := parseSTL(b)
	if err != nil {
		c.Viol("C20", "incomplete", "%s succeeded, but its output is not complete: %v", bin, err)
		return
	}
	var want []tri
	lib(c, "C20", rt.NewHost("oracle", "10.0.3.1"), "oracle", func() {
		if p.Manifold {
			want = meshTris(m.bv().ManifoldMesh())
		} else {
			want = meshTris(m.bv().MarchingCubes())
		}
	})
	if d := diffTris(canonTris(f32Tris(want)), canonTris(ts)); d != "" {
		c.Viol("C20", "order", "%s wrote a mesh that depends on more than the model: %s", bin, d)
		return
	}
	if p.Manifold && !wellConnected(vox) {
		return
	}
	open := openEdges(ts, m.T, m.VS)
	if len(open) > 0 {
		c.Viol("C20", "open", "the mesh %s wrote for %d voxels is not closed: edge %v-%v (1/64 voxel) is not matched by its opposite", bin, len(vox), open[0][0], open[0][1])
	}
	if len(open) == 0 {
		if p.Manifold {
			c.Probe("manifold-closed")
		}
		lo, hi := [3]int{-1, -1, -1}, [3]int{m.N[0] + 1, m.N[1] + 1, m.N[2] + 1}
		if d := diffSets(vox, insideVoxels(ts, vec(m.T), m.VS, lo, hi)); d != "" {
			c.Viol("C20", "solid", "the mesh %s wrote does not enclose the voxels: %s", bin, d)
		}
	}
}

// wellConnected tells whether around every corner of the grid both the voxels
// and the empty cells are connected through faces.
func wellConnected(s vset) bool {
	for v := range s {
		for i := 0; i < 8; i++ {
			n := neighborhood(s, [3]int{v[0] + i&1, v[1] + i>>1&1, v[2] + i>>2})
			if two(n) {
				continue
			}
			if !faceConnected(n) || !faceConnected(255^n) {
				return false
			}
		}
	}
	return true
}

// two tells whether a corner has exactly two voxels around it.
func two(n int) bool { return bits.OnesCount(uint(n)) == 2 }

func faceConnected(n int) bool {
	if n == 0 {
		return true
	}
	seen := n & -n
	for {
		next := seen
		for i := 0; i < 8; i++ {
			if seen>>i&1 == 1 {
				next |= n & (1<<(i^1) | 1<<(i^2) | 1<<(i^4))
			}
		}
		if next == seen {
			return seen == n
		}
		seen = next
	}
}

func init() {
	register(&Scenario{
		Name: "meshtool", Run: meshToolRun, Hang: "C20",
		Kinds: func(json.RawMessage) []FaultKind { return toolFaults("mesh", false) },
		Gen: func(r *rt.Rand, tier string) any {
			p := meshParams{Model: genBoxModel(r, 5, true), Manifold: r.Chance(0.6), Old: r.Chance(0.3)}
			if r.Chance(0.4) {
				p.Model.N = [3]int{2, 2, 2}
				p.Model.Fill = 2
			}
			if r.Chance(0.15) {
				p.Bad = []string{"missing", "dir", "empty", "head", "odd"}[r.Intn(5)]
				p.At = r.Float()
			}
			if r.Chance(0.05) {
				p.Args = 1 + r.Intn(2)
			}
			if r.Chance(0.08) {
				p.Full = int64(1 + r.Intn(4000))
			}
			p.Pipe = r.Chance(0.08)
			return p
		},
		Shrink: func(raw json.RawMessage) []any {
			p := decode[meshParams](raw)
			var out []any
			for _, m := range p.Model.shrink() {
				q := p
				q.Model = m
				out = append(out, q)
			}
			if p.Old || p.Pipe {
				q := p
				q.Old, q.Pipe = false, false
				out = append(out, q)
			}
			return out
		},
	})
}
