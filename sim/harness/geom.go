package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strings"

	rt "ZZSIM/rt"

	gl "ZZSIM/fauxgl"

	"ZZMOD/binvox"
)

// Shape is a closed solid in voxel units (before scaling by the voxel size).
type Shape struct {
	Kind string    `json:"k"` // box, rbox, octa, ball, prism, cavity
	P    []float64 `json:"p"`
}

type vec [3]float64

type tri [3]vec

func (a vec) sub(b vec) vec     { return vec{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func (a vec) dot(b vec) float64 { return a[0]*b[0] + a[1]*b[1] + a[2]*b[2] }
func (a vec) cross(b vec) vec {
	return vec{a[1]*b[2] - a[2]*b[1], a[2]*b[0] - a[0]*b[2], a[0]*b[1] - a[1]*b[0]}
}
func (a vec) norm() float64 { return math.Sqrt(a.dot(a)) }

func q64(x float64) float64 { return math.Round(x*64) / 64 }

var boxQuads = [6][4]int{{0, 3, 2, 1}, {4, 5, 6, 7}, {0, 1, 5, 4}, {2, 3, 7, 6}, {1, 2, 6, 5}, {3, 0, 4, 7}}

func boxTris(min, max vec) []tri {
	v := [8]vec{
		{min[0], min[1], min[2]}, {max[0], min[1], min[2]}, {max[0], max[1], min[2]}, {min[0], max[1], min[2]},
		{min[0], min[1], max[2]}, {max[0], min[1], max[2]}, {max[0], max[1], max[2]}, {min[0], max[1], max[2]},
	}
	var out []tri
	for _, q := range boxQuads {
		out = append(out, tri{v[q[0]], v[q[1]], v[q[2]]}, tri{v[q[0]], v[q[2]], v[q[3]]})
	}
	return out
}

func rot(a, b, c float64) func(vec) vec {
	ca, sa := math.Cos(a), math.Sin(a)
	cb, sb := math.Cos(b), math.Sin(b)
	cc, sc := math.Cos(c), math.Sin(c)
	return func(v vec) vec {
		x, y, z := v[0], v[1], v[2]
		x, y = ca*x-sa*y, sa*x+ca*y
		x, z = cb*x-sb*z, sb*x+cb*z
		y, z = cc*y-sc*z, sc*y+cc*z
		return vec{x, y, z}
	}
}

// parts returns the convex pieces of a shape: outward triangles each; the
// second result is the cavity, if any (outward triangles of the void).
func (s Shape) parts() (solid []tri, hole []tri) {
	p := s.P
	switch s.Kind {
	case "box":
		return boxTris(vec{p[0], p[1], p[2]}, vec{p[3], p[4], p[5]}), nil
	case "cavity": // outer box, inner box
		return boxTris(vec{p[0], p[1], p[2]}, vec{p[3], p[4], p[5]}), boxTris(vec{p[6], p[7], p[8]}, vec{p[9], p[10], p[11]})
	case "rbox": // centre, half sizes, angles
		f := rot(p[6], p[7], p[8])
		t := boxTris(vec{-p[3], -p[4], -p[5]}, vec{p[3], p[4], p[5]})
		for i := range t {
			for j := range t[i] {
				v := f(t[i][j])
				for k := range v {
					v[k] = q64(v[k] + p[k])
				}
				t[i][j] = v
			}
		}
		return t, nil
	case "octa": // centre, radii
		c := vec{p[0], p[1], p[2]}
		var a [6]vec
		for i := 0; i < 6; i++ {
			v := c
			if i%2 == 0 {
				v[i/2] += p[3+i/2]
			} else {
				v[i/2] -= p[3+i/2]
			}
			a[i] = v
		}
		x, X, y, Y, z, Z := a[1], a[0], a[3], a[2], a[5], a[4]
		return []tri{{X, Y, Z}, {Y, x, Z}, {x, y, Z}, {y, X, Z}, {Y, X, z}, {x, Y, z}, {y, x, z}, {X, y, z}}, nil
	case "ball": // centre, radius
		return ballTris(vec{p[0], p[1], p[2]}, p[3], int(p[4])), nil
	case "prism": // n-gon extruded along z: cx cy r z0 z1 n phase
		n := int(p[5])
		var ring [][2]float64
		for i := 0; i < n; i++ {
			a := p[6] + 2*math.Pi*float64(i)/float64(n)
			ring = append(ring, [2]float64{q64(p[0] + p[2]*math.Cos(a)), q64(p[1] + p[2]*math.Sin(a))})
		}
		var out []tri
		at := func(i int, z float64) vec { return vec{ring[i%n][0], ring[i%n][1], z} }
		for i := 0; i < n; i++ {
			out = append(out, tri{at(i, p[3]), at(i+1, p[3]), at(i+1, p[4])}, tri{at(i, p[3]), at(i+1, p[4]), at(i, p[4])})
			if i >= 1 && i < n-1 {
				out = append(out, tri{at(0, p[4]), at(i, p[4]), at(i+1, p[4])}, tri{at(0, p[3]), at(i+1, p[3]), at(i, p[3])})
			}
		}
		return out, nil
	}
	fatal("shape %q", s.Kind)
	return nil, nil
}

func ballTris(c vec, r float64, level int) []tri {
	v := func(x, y, z float64) vec { return vec{x, y, z} }
	var t []tri
	for _, s := range [][3]float64{{1, 1, 1}, {-1, 1, 1}, {-1, -1, 1}, {1, -1, 1}, {1, 1, -1}, {-1, 1, -1}, {-1, -1, -1}, {1, -1, -1}} {
		a, b, d := v(s[0], 0, 0), v(0, s[1], 0), v(0, 0, s[2])
		if s[0]*s[1]*s[2] > 0 {
			t = append(t, tri{a, b, d})
		} else {
			t = append(t, tri{b, a, d})
		}
	}
	unit := func(a vec) vec { n := a.norm(); return vec{a[0] / n, a[1] / n, a[2] / n} }
	mid := func(a, b vec) vec { return unit(vec{a[0] + b[0], a[1] + b[1], a[2] + b[2]}) }
	for ; level > 0; level-- {
		var n []tri
		for _, q := range t {
			a, b, d := mid(q[0], q[1]), mid(q[1], q[2]), mid(q[2], q[0])
			n = append(n, tri{q[0], a, d}, tri{a, q[1], b}, tri{d, b, q[2]}, tri{a, b, d})
		}
		t = n
	}
	for i := range t {
		for j := range t[i] {
			for k := range t[i][j] {
				t[i][j][k] = q64(c[k] + r*t[i][j][k])
			}
		}
	}
	return t
}

// Solid is a disjoint union of shapes placed in space.
type Solid struct {
	pieces [][]plane // half spaces of each convex piece
	holes  [][]plane
	tris   []tri
}

type plane struct {
	n vec
	d float64
}

// planesOf returns the supporting planes of a convex piece.
func planesOf(ts []tri) []plane {
	var out []plane
	for _, t := range ts {
		n := t[1].sub(t[0]).cross(t[2].sub(t[0]))
		l := n.norm()
		if l < 1e-12 {
			continue
		}
		n = vec{n[0] / l, n[1] / l, n[2] / l}
		// rounding of the corners may tilt a facet: keep every corner inside
		d := math.Inf(-1)
		for _, u := range ts {
			for _, p := range u {
				if x := n.dot(p); x > d {
					d = x
				}
			}
		}
		out = append(out, plane{n, d})
	}
	return out
}

func flip(ts []tri) []tri {
	out := make([]tri, len(ts))
	for i, t := range ts {
		out[i] = tri{t[0], t[2], t[1]}
	}
	return out
}

func makeSolid(shapes []Shape) *Solid {
	s := &Solid{}
	for _, sh := range shapes {
		a, h := sh.parts()
		s.pieces = append(s.pieces, planesOf(a))
		s.tris = append(s.tris, a...)
		if h != nil {
			s.holes = append(s.holes, planesOf(h))
			s.tris = append(s.tris, flip(h)...)
		} else {
			s.holes = append(s.holes, nil)
		}
	}
	return s
}

// sd is how far p is inside the solid (positive) or, as a lower bound, outside (negative).
func (s *Solid) sd(p vec) float64 {
	in := func(pl []plane) float64 {
		m := math.Inf(1)
		for _, q := range pl {
			if x := q.d - q.n.dot(p); x < m {
				m = x
			}
		}
		return m
	}
	best := math.Inf(-1)
	for i, pc := range s.pieces {
		v := in(pc)
		if s.holes[i] != nil {
			v = math.Min(v, -in(s.holes[i]))
		}
		best = math.Max(best, v)
	}
	return best
}

// scaled returns the triangles multiplied by k and moved.
func scaled(ts []tri, k float64, move vec) []tri {
	out := make([]tri, len(ts))
	for i, t := range ts {
		for j, v := range t {
			for c := range v {
				out[i][j][c] = v[c]*k + move[c]
			}
		}
	}
	return out
}

func meshOf(ts []tri) *gl.Mesh {
	var out []*gl.Triangle
	for _, t := range ts {
		out = append(out, gl.NewTriangleForPoints(gl.V(t[0][0], t[0][1], t[0][2]), gl.V(t[1][0], t[1][1], t[1][2]), gl.V(t[2][0], t[2][1], t[2][2])))
	}
	return gl.NewTriangleMesh(out)
}

// Styles of STL files.
const (
	stylePlain = iota
	styleTwo   // two solids in an ASCII file
	styleLong  // ... and the second one has a long name
	styleDOS   // CR LF and tabs
	styleExp   // numbers with exponents, no final newline
	styleBlank // blank lines, single spaces
	styles
)

// stlStyled formats the triangles. Binary files get a header that looks like
// the one of an ASCII file, and attributes.
func stlStyled(ts []tri, ascii bool, style int) []byte {
	if !ascii {
		b := stlBytes(ts)
		switch style {
		case styleTwo, styleLong, styleDOS:
			copy(b, "solid part\r\n facet normal 0 0 1\n")
		case styleExp:
			copy(b, "endsolid\nsolid\nvertex 1 2 3\n")
		}
		if style >= styleDOS {
			for i := 84; i < len(b); i += 50 {
				b[i+48], b[i+49] = byte(i), byte(style)
			}
		}
		return b
	}
	b := stlASCII(ts)
	switch style {
	case styleTwo, styleLong:
		if len(ts) < 2 {
			return b
		}
		b = stlASCII(ts[:len(ts)/2])
		n := stlASCII(ts[len(ts)/2:])
		name := "solid t"
		if style == styleLong {
			name += " " + strings.Repeat("very long name ", 6000)
		}
		b = append(b, bytes.Replace(n, []byte("solid s"), []byte(name), 1)...)
	case styleDOS:
		b = bytes.ReplaceAll(b, []byte("\n"), []byte("\r\n"))
		b = bytes.ReplaceAll(b, []byte("  "), []byte("\t"))
	case styleExp:
		b = vertexRE.ReplaceAllFunc(b, func(l []byte) []byte {
			var v vec
			fmt.Sscanf(string(l), "vertex %g %g %g", &v[0], &v[1], &v[2])
			return []byte(fmt.Sprintf("vertex %.17e %+.17E %e", v[0], v[1], v[2]))
		})
		b = bytes.TrimRight(b, "\n")
	case styleBlank:
		b = bytes.ReplaceAll(b, []byte("\n"), []byte("\n\n"))
		b = bytes.ReplaceAll(b, []byte("  "), nil)
	}
	return b
}

var vertexRE = regexp.MustCompile(`vertex [^\n]*`)

// stlBytes is a binary STL file.
func stlBytes(ts []tri) []byte {
	var b bytes.Buffer
	b.Write(make([]byte, 80))
	binary.Write(&b, binary.LittleEndian, uint32(len(ts)))
	for _, t := range ts {
		n := t[1].sub(t[0]).cross(t[2].sub(t[0]))
		if l := n.norm(); l > 0 {
			n = vec{n[0] / l, n[1] / l, n[2] / l}
		}
		for _, v := range []vec{n, t[0], t[1], t[2]} {
			for _, x := range v {
				binary.Write(&b, binary.LittleEndian, float32(x))
			}
		}
		b.Write([]byte{0, 0})
	}
	return b.Bytes()
}

// stlASCII is a text STL file.
func stlASCII(ts []tri) []byte {
	var b bytes.Buffer
	b.WriteString("solid s\n")
	for _, t := range ts {
		b.WriteString(" facet normal 0 0 0\n  outer loop\n")
		for _, v := range t {
			fmt.Fprintf(&b, "   vertex %v %v %v\n", v[0], v[1], v[2])
		}
		b.WriteString("  endloop\n endfacet\n")
	}
	b.WriteString("endsolid s\n")
	return b.Bytes()
}

func boundsOf(ts []tri) (lo, hi vec) {
	for k := range lo {
		lo[k], hi[k] = math.Inf(1), math.Inf(-1)
	}
	for _, t := range ts {
		for _, v := range t {
			for k := range v {
				lo[k] = math.Min(lo[k], v[k])
				hi[k] = math.Max(hi[k], v[k])
			}
		}
	}
	return
}

// genShape makes one solid within the box lo..hi (voxel units).
func genShape(r *rt.Rand, lo, hi vec, kinds []string) Shape {
	size := hi.sub(lo)
	quarter := func(x float64) float64 { return math.Round(x*8) / 8 }
	// off keeps faces away from cell centres
	off := func(x float64) float64 { return math.Floor(x) + []float64{0, 0.25, 0.75, 0.125}[r.Intn(4)] }
	k := kinds[r.Intn(len(kinds))]
	if k == "cavity" && math.Min(size[0], math.Min(size[1], size[2])) < 8 {
		k = "box"
	}
	c := vec{}
	h := vec{}
	for i := range c {
		w := math.Max(1, size[i]*(0.3+0.7*r.Float()))
		a := lo[i] + r.Float()*(size[i]-w)
		c[i], h[i] = quarter(a+w/2), quarter(w/2)
		if h[i] < 0.5 {
			h[i] = 0.5
		}
	}
	m := math.Min(h[0], math.Min(h[1], h[2]))
	switch k {
	case "rbox":
		g := vec{}
		for i := range g {
			g[i] = math.Max(0.5, m*(0.25+0.3*r.Float()))
		}
		ang := func() float64 { return []float64{0, math.Pi / 4, math.Pi / 6, r.Float() * 3}[r.Intn(4)] }
		return Shape{k, []float64{c[0], c[1], c[2], g[0], g[1], g[2], ang(), ang(), ang()}}
	case "octa":
		return Shape{k, []float64{c[0], c[1], c[2], h[0], h[1], h[2]}}
	case "ball":
		return Shape{k, []float64{c[0], c[1], c[2], m, float64(1 + r.Intn(2))}}
	case "prism":
		return Shape{k, []float64{c[0], c[1], math.Min(h[0], h[1]), off(c[2] - h[2]), off(c[2]+h[2]) + 1, float64(3 + r.Intn(8)), r.Float() * 3}}
	case "cavity":
		lo2, hi2 := vec{}, vec{}
		for i := range c {
			h[i] = math.Max(h[i], 3)
			c[i] = math.Min(math.Max(c[i], lo[i]+h[i]), hi[i]-h[i]-1)
			lo2[i], hi2[i] = off(c[i]-h[i]), off(c[i]+h[i])
		}
		w := 1 + r.Float()
		return Shape{k, []float64{lo2[0], lo2[1], lo2[2], hi2[0], hi2[1], hi2[2],
			off(lo2[0] + w), off(lo2[1] + w), off(lo2[2] + w), off(hi2[0] - w), off(hi2[1] - w), off(hi2[2] - w)}}
	default:
		lo2, hi2 := vec{}, vec{}
		for i := range c {
			lo2[i], hi2[i] = off(c[i]-h[i]), off(c[i]+h[i])
			if hi2[i] <= lo2[i] {
				hi2[i] = lo2[i] + 1
			}
		}
		return Shape{"box", []float64{lo2[0], lo2[1], lo2[2], hi2[0], hi2[1], hi2[2]}}
	}
}

var allShapes = []string{"box", "box", "rbox", "octa", "ball", "prism", "cavity"}

// genShapes makes one to three solids that keep a distance from each other
// inside 0..dims.
func genShapes(r *rt.Rand, dims vec, kinds []string) []Shape {
	n := 1
	if r.Chance(0.4) {
		n = 2 + r.Intn(2)
	}
	ax := r.Intn(3)
	if dims[ax] < float64(7*n) {
		n = 1
	}
	var out []Shape
	for i := 0; i < n; i++ {
		lo, hi := vec{0, 0, 0}, dims
		lo[ax] = dims[ax] * float64(i) / float64(n)
		hi[ax] = dims[ax] * float64(i+1) / float64(n)
		if i > 0 {
			lo[ax] += 2
		}
		out = append(out, genShape(r, lo, hi, kinds))
	}
	return out
}

type vset map[[3]int]bool

func whites(m binvox.WhiteVoxelMap) vset {
	o := vset{}
	for k := range m {
		o[[3]int{k.X, k.Y, k.Z}] = true
	}
	return o
}

// diffSets describes how two voxel sets differ ("" if they do not).
func diffSets(want, got vset) string {
	var miss, extra [][3]int
	for k := range want {
		if !got[k] {
			miss = append(miss, k)
		}
	}
	for k := range got {
		if !want[k] {
			extra = append(extra, k)
		}
	}
	if len(miss)+len(extra) == 0 {
		return ""
	}
	sortKeys(miss)
	sortKeys(extra)
	cut := func(a [][3]int) [][3]int {
		if len(a) > 6 {
			return a[:6]
		}
		return a
	}
	return fmt.Sprintf("%d voxels missing %v, %d extra %v (of %d)", len(miss), cut(miss), len(extra), cut(extra), len(want))
}

func sortKeys(a [][3]int) {
	sort.Slice(a, func(i, j int) bool {
		x, y := a[i], a[j]
		return x[0] < y[0] || x[0] == y[0] && (x[1] < y[1] || x[1] == y[1] && x[2] < y[2])
	})
}
