package harness

import (
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	rt "ZZSIM/rt"
	zsync "ZZSIM/std/sync"

	"ZZMOD/binvox"
)

// baseSpec is a solid whose bounding box is 0..E (voxel units) placed in
// space such that all region arithmetic is exact.
type baseSpec struct {
	Shapes []Shape    `json:"shapes"`
	E      [3]float64 `json:"e"`
	Div    [3]int     `json:"div"`
	VP     int        `json:"vp"`
	Move   [3]int     `json:"move"`
	Dec    int        `json:"dec,omitempty"` // the voxel size is decSizes[Dec-1]: rounding matters
}

// decSizes are voxel sizes for which the region arithmetic is not exact.
var decSizes = []float64{0.1, 0.3, 0.7, 1.0 / 3, 25.4 / 7, 0.0123, 1e3 / 7}

func (b baseSpec) k() float64 {
	if b.Dec > 0 {
		return decSizes[b.Dec-1]
	}
	return math.Pow(2, -float64(b.VP))
}

// decimalize gives a base a voxel size that is no power of two. Its shapes
// become boxes whose inner faces keep away from cell boundaries and centres so
// that rounding does not decide about any voxel.
func (b *baseSpec) decimalize(r *rt.Rand) {
	b.Dec = 1 + r.Intn(len(decSizes))
	E := b.E
	if len(b.Shapes) < 2 || r.Chance(0.3) {
		b.Shapes = []Shape{{"box", []float64{0, 0, 0, E[0], E[1], E[2]}}}
		return
	}
	var a, o [3]float64
	for i := range a {
		a[i] = math.Max(0.25, offGrid(r, E[i]*(0.1+0.35*r.Float())))
		o[i] = math.Min(E[i]-0.25, offGrid(r, E[i]*(0.55+0.35*r.Float())))
		if o[i] == math.Floor(o[i]) || o[i]*2 == math.Floor(o[i]*2) {
			o[i] -= 0.25
		}
		if o[i] <= a[i] {
			b.Shapes = []Shape{{"box", []float64{0, 0, 0, E[0], E[1], E[2]}}}
			return
		}
	}
	b.Shapes = []Shape{{"box", []float64{0, 0, 0, a[0], a[1], a[2]}}, {"box", []float64{o[0], o[1], o[2], E[0], E[1], E[2]}}}
}

// offGrid moves x away from cell boundaries and centres.
func offGrid(r *rt.Rand, x float64) float64 {
	return math.Floor(x) + []float64{0.25, 0.75}[r.Intn(2)]
}

// offGridCuts makes cuts for a base of a decimal voxel size.
func offGridCuts(r *rt.Rand, cuts []cutSpec) {
	for i, c := range cuts {
		if c.Same {
			continue
		}
		lo, hi := boundsOf(makeSolid(c.Shapes).tris)
		for a := range lo {
			lo[a], hi[a] = offGrid(r, lo[a]), offGrid(r, hi[a])+1
		}
		cuts[i] = cutSpec{Shapes: []Shape{{"box", []float64{lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]}}}}
	}
}

func (b baseSpec) mv() vec {
	k := b.k()
	return vec{float64(b.Move[0]) * k, float64(b.Move[1]) * k, float64(b.Move[2]) * k}
}

func (b baseSpec) dims() [3]int {
	return [3]int{int(math.Ceil(b.E[0])), int(math.Ceil(b.E[1])), int(math.Ceil(b.E[2]))}
}

func (b baseSpec) dim() int { d := b.dims(); return max(d[0], d[1], d[2]) }

func (b baseSpec) tris() []tri { return scaled(makeSolid(b.Shapes).tris, b.k(), b.mv()) }

// whole is the empty model of the complete base.
func (b baseSpec) whole() *binvox.BinVOX {
	d, mv := b.dims(), b.mv()
	return &binvox.BinVOX{NX: d[0], NY: d[1], NZ: d[2], TX: mv[0], TY: mv[1], TZ: mv[2], Scale: float64(b.dim()) * b.k()}
}

// step is the size of a region; the last ones end where the model ends.
func (b baseSpec) step() (s [3]int) {
	d := b.dims()
	for i := range s {
		s[i] = (d[i] + b.Div[i] - 1) / b.Div[i]
	}
	return s
}

// region is the empty model of a region (nil if the ones before cover the model).
func (b baseSpec) region(i, j, l int) *binvox.BinVOX {
	d, mv, k, s := b.dims(), b.mv(), b.k(), b.step()
	n := [3]int{min(s[0], d[0]-i*s[0]), min(s[1], d[1]-j*s[1]), min(s[2], d[2]-l*s[2])}
	if min(n[0], n[1], n[2]) <= 0 {
		return nil
	}
	return &binvox.BinVOX{NX: n[0], NY: n[1], NZ: n[2],
		TX: mv[0] + float64(i*s[0])*k, TY: mv[1] + float64(j*s[1])*k, TZ: mv[2] + float64(l*s[2])*k,
		Scale: float64(max(n[0], n[1], n[2])) * k}
}

// genBase makes a base; maxDim bounds its size, divide tells whether it is diced.
func genBase(r *rt.Rand, maxDim int, maxDiv [3]int) baseSpec {
	var b baseSpec
	for i := range b.Div {
		b.Div[i] = 1 + r.Intn(maxDiv[i])
	}
	for i := range b.E {
		m := maxDim / b.Div[i]
		if m < 2 {
			m = 2
		}
		b.E[i] = float64(b.Div[i] * (1 + r.Intn(m)))
		if i == 2 && b.E[i] > 10 {
			b.E[i] = float64(b.Div[i] * (1 + r.Intn(max(1, 10/b.Div[i]))))
		}
		if r.Chance(0.4) { // the last region is smaller
			b.E[i] += float64(r.Intn(b.Div[i]))
		}
	}
	// the longest side must be exact and, for stldice, divisible by every division
	l := 0
	for i := range b.E {
		if b.E[i] > b.E[l] {
			l = i
		}
	}
	lcm := b.Div[0] * b.Div[1] * b.Div[2]
	for _, q := range []int{1, 2, 3, 4, 6, 8, 9, 12} {
		if q%b.Div[0] == 0 && q%b.Div[1] == 0 && q%b.Div[2] == 0 {
			lcm = q
			break
		}
	}
	if e := int(b.E[l]); e%lcm != 0 {
		b.E[l] = float64((e/lcm + 1) * lcm)
	}
	for i := range b.E {
		if i != l && b.E[i] > 1 {
			b.E[i] -= []float64{0, 0, 0.25, 0.75}[r.Intn(4)]
		}
	}
	b.VP = r.Intn(6) - 2
	for i := range b.Move {
		if r.Chance(0.7) {
			b.Move[i] = r.Intn(200) - 100
		}
	}
	E := b.E
	full := func() Shape { return Shape{"box", []float64{0, 0, 0, E[0], E[1], E[2]}} }
	octa := func(lo, hi vec) Shape {
		return Shape{"octa", []float64{(lo[0] + hi[0]) / 2, (lo[1] + hi[1]) / 2, (lo[2] + hi[2]) / 2, (hi[0] - lo[0]) / 2, (hi[1] - lo[1]) / 2, (hi[2] - lo[2]) / 2}}
	}
	corner := func(lo, hi vec) Shape {
		if r.Chance(0.4) {
			return octa(lo, hi)
		}
		return Shape{"box", []float64{lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]}}
	}
	switch r.Intn(4) {
	case 0:
		b.Shapes = []Shape{full()}
	case 1:
		b.Shapes = []Shape{octa(vec{}, vec(E))}
	default: // two opposite corners
		var a, o vec
		for i := range a {
			a[i] = math.Max(0.25, math.Floor(E[i]*4*(0.1+0.35*r.Float()))/4)
			o[i] = math.Min(E[i]-0.25, math.Ceil(E[i]*4*(0.55+0.35*r.Float()))/4)
		}
		b.Shapes = []Shape{corner(vec{}, a), corner(o, vec(E))}
		if a[0] >= o[0] && a[1] >= o[1] && a[2] >= o[2] {
			b.Shapes = []Shape{full()}
		}
	}
	return b
}

// twin is the base mirrored along some axes: another model of the same size,
// at the same place and with as many triangles.
func (b baseSpec) twin(r *rt.Rand) baseSpec {
	axes := 1 + r.Intn(6)
	shapes := b.Shapes
	b.Shapes = nil
	for _, s := range shapes {
		p := append([]float64(nil), s.P...)
		for i := range b.E {
			if axes>>i&1 == 0 || b.Dec > 0 {
				continue
			}
			switch s.Kind {
			case "box":
				p[i], p[i+3] = b.E[i]-p[i+3], b.E[i]-p[i]
			case "octa":
				p[i] = b.E[i] - p[i]
			}
		}
		b.Shapes = append(b.Shapes, Shape{s.Kind, p})
	}
	return b
}

func (b baseSpec) shrink() []baseSpec {
	var out []baseSpec
	for i := range b.Div {
		if b.Div[i] > 1 {
			q := b
			q.Div[i] = 1
			out = append(out, q)
		}
	}
	for i := range b.Move {
		if b.Move[i] != 0 {
			q := b
			q.Move[i] = 0
			out = append(out, q)
		}
	}
	if b.Dec > 0 {
		q := b
		q.Dec = 0
		out = append(out, q)
	}
	if b.VP != 0 {
		q := b
		q.VP = 0
		out = append(out, q)
	}
	return out
}

// --- an independent reader of binvox files ---

type boxFile struct {
	N        [3]int
	T        [3]float64
	Scale    float64
	Vox      vset
	Complete bool // the runs cover every voxel
}

var bvHead = regexp.MustCompile(`^#binvox 1\ndim (\d+) (\d+) (\d+)\ntranslate (\S+) (\S+) (\S+)\nscale (\S+)\ndata\n`)

func parseBinvox(d []byte) (*boxFile, error) {
	m := bvHead.FindSubmatch(d)
	if m == nil {
		return nil, fmt.Errorf("no binvox header")
	}
	f := &boxFile{Vox: vset{}}
	for i := range f.N {
		f.N[i], _ = strconv.Atoi(string(m[1+i]))
		f.T[i], _ = strconv.ParseFloat(string(m[4+i]), 64)
	}
	f.Scale, _ = strconv.ParseFloat(string(m[7]), 64)
	d = d[len(m[0]):]
	i, n := 0, f.N[0]*f.N[1]*f.N[2]
	for ; len(d) >= 2; d = d[2:] {
		for c := int(d[1]); c > 0; c-- {
			if i >= n {
				return nil, fmt.Errorf("more runs than voxels")
			}
			if d[0] == 1 {
				f.Vox[[3]int{i / (f.N[1] * f.N[2]), i % f.N[1], i / f.N[1] % f.N[2]}] = true
			}
			i++
		}
	}
	f.Complete = len(d) == 0 && i == n
	return f, nil
}

// binvoxBytes encodes a binvox file (independently of the code under test).
func binvoxBytes(f *boxFile) []byte {
	var b strings.Builder
	fmt.Fprintf(&b, "#binvox 1\ndim %d %d %d\ntranslate %g %g %g\nscale %g\ndata\n", f.N[0], f.N[1], f.N[2], f.T[0], f.T[1], f.T[2], f.Scale)
	n := f.N[0] * f.N[1] * f.N[2]
	var last byte
	run := 0
	flush := func() {
		for run > 0 {
			k := min(run, 255)
			b.WriteByte(last)
			b.WriteByte(byte(k))
			run -= k
		}
	}
	for i := 0; i < n; i++ {
		var v byte
		if f.Vox[[3]int{i / (f.N[1] * f.N[2]), i % f.N[1], i / f.N[1] % f.N[2]}] {
			v = 1
		}
		if v != last {
			flush()
			last = v
		}
		run++
	}
	flush()
	return []byte(b.String())
}

// --- scenario: regions of a model versus the whole ---

type diceParams struct {
	baseSpec
	Conc  int  `json:"conc"` // 0 one after the other, 1 shuffled, 2 concurrently
	Files bool `json:"files"`
}

func diceRun(c *Ctx, raw json.RawMessage) {
	p := decode[diceParams](raw)
	h := rt.NewHost("box", "10.0.0.1")
	s := p.step()
	type reg struct {
		at   [3]int
		b    *binvox.BinVOX
		rd   *binvox.BinVOX
		err  error
		name string
	}
	var regs []*reg
	for i := 0; i < p.Div[0]; i++ {
		for j := 0; j < p.Div[1]; j++ {
			for l := 0; l < p.Div[2]; l++ {
				b := p.region(i, j, l)
				if b == nil {
					continue
				}
				regs = append(regs, &reg{at: [3]int{i, j, l}, b: b, name: fmt.Sprintf("/work/r-%d-%d-%d.binvox", i, j, l)})
			}
		}
	}
	whole := p.whole()
	var werr error
	pr := runLib(h, "lib", func() {
		mesh := meshOf(p.tris())
		var wg zsync.WaitGroup
		job := func(g *reg) {
			if g.err = g.b.Voxelize(mesh); g.err != nil || !p.Files {
				return
			}
			if g.err = g.b.Write(g.name, 0, 0, 0, 0, 0, 0); g.err != nil {
				return
			}
			g.rd, g.err = binvox.Read(g.name, 0, 0, 0, 0, 0, 0)
		}
		if p.Conc == 2 {
			wg.Add(1)
			rt.Go(func() { werr = whole.Voxelize(mesh); wg.Done() })
		} else {
			werr = whole.Voxelize(mesh)
		}
		order := make([]int, len(regs))
		for i := range order {
			order[i] = i
		}
		if p.Conc > 0 {
			for i := range order {
				k := i + rt.Env().Intn(len(order)-i)
				order[i], order[k] = order[k], order[i]
			}
		}
		for _, i := range order {
			g := regs[i]
			if p.Conc == 2 {
				wg.Add(1)
				rt.Go(func() { job(g); wg.Done() })
			} else {
				job(g)
			}
		}
		wg.Wait()
	})
	if !rt.WaitProcFor(pr, 3600e9) {
		c.Viol("C09", "hang", "voxelising the regions did not end")
		return
	}
	if ci, st := pr.CrashInfo(); ci != "" {
		c.Viol("C09", "crash", "voxelising the regions crashed: %s\n%s", ci, st)
		return
	}
	if werr != nil {
		c.Viol("C09", "error", "voxelising the whole failed: %v", werr)
		return
	}
	union, fromFiles := vset{}, vset{}
	for _, g := range regs {
		if g.err != nil {
			c.Viol("C09", "error", "region %v failed: %v", g.at, g.err)
			return
		}
		for v := range whites(g.b.WhiteVoxels) {
			for a := range v {
				if n := [3]int{g.b.NX, g.b.NY, g.b.NZ}; v[a] < 0 || v[a] >= n[a] {
					c.Viol("C09", "out-of-region", "region %v returned voxel %v outside its %v voxels", g.at, v, n)
				}
			}
			w := [3]int{v[0] + g.at[0]*s[0], v[1] + g.at[1]*s[1], v[2] + g.at[2]*s[2]}
			if union[w] {
				c.Viol("C09", "duplicate", "voxel %v is in two regions", w)
			}
			union[w] = true
		}
		if p.Files {
			rd := g.rd
			b := g.b
			if len(b.WhiteVoxels) > 0 && (rd.NX != b.NX || rd.NY != b.NY || rd.NZ != b.NZ || rd.TX != b.TX || rd.TY != b.TY || rd.TZ != b.TZ || rd.Scale != b.Scale) {
				c.Viol("C09", "file-placement", "region %v read back as %v, was %v", g.at, rd, b)
			}
			for v := range whites(rd.WhiteVoxels) {
				fromFiles[[3]int{v[0] + g.at[0]*s[0], v[1] + g.at[1]*s[1], v[2] + g.at[2]*s[2]}] = true
			}
		}
	}
	w := whites(whole.WhiteVoxels)
	if d := diffSets(w, union); d != "" {
		c.Viol("C09", "union", "the regions of a %v division do not add up to the whole: %s", p.Div, d)
	}
	if p.Files {
		if d := diffSets(w, fromFiles); d != "" {
			c.Viol("C09", "files", "the region files of a %v division do not add up to the whole: %s", p.Div, d)
		}
	}
	if len(w) > 0 {
		c.Probe("dice-nonempty")
	}
	if len(regs) > 1 {
		c.Probe("dice-divided")
	}
}

func init() {
	register(&Scenario{
		Name: "dice", Run: diceRun, Hang: "C09", Race: "C09",
		Gen: func(r *rt.Rand, tier string) any {
			m := 16
			if tier == "thorough" && r.Chance(0.3) {
				m = 36
			}
			p := diceParams{baseSpec: genBase(r, m, [3]int{4, 4, 3}), Conc: r.Intn(3), Files: r.Chance(0.5)}
			if r.Chance(0.2) {
				p.decimalize(r)
			}
			return p
		},
		Shrink: func(raw json.RawMessage) []any {
			p := decode[diceParams](raw)
			var out []any
			for _, b := range p.shrink() {
				q := p
				q.baseSpec = b
				out = append(out, q)
			}
			for _, s := range shrinkShapes(p.Shapes) {
				q := p
				q.Shapes = s
				out = append(out, q)
			}
			if p.Conc > 0 {
				q := p
				q.Conc = 0
				out = append(out, q)
			}
			if p.Files {
				q := p
				q.Files = false
				out = append(out, q)
			}
			return out
		},
	})
}
