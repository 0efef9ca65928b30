package harness

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"

	rt "ZZSIM/rt"
)

// runTool runs a program to its end; nil means that it did not end.
func runTool(c *Ctx, prop string, h *rt.Host, name, bin string, args ...string) *rt.Proc {
	p, err := rt.Start(h, name, bin, args, rt.StartOpts{Cwd: "/work"})
	if err != nil {
		fatal("start %s: %v", bin, err)
	}
	if !rt.WaitProcFor(p, longWait) {
		c.Viol(prop, "hang", "%s %s did not end", bin, strings.Join(args, " "))
		return nil
	}
	return p
}

// exitOK tells whether a program ended by itself reporting success.
func exitOK(p *rt.Proc) bool { return p.Killed() == "" && p.ExitCode() == 0 }

func howEnded(p *rt.Proc) string {
	e := p.Stderr()
	if len(e) > 600 {
		e = "..." + e[len(e)-600:]
	}
	if k := p.Killed(); k != "" {
		return "killed (" + k + ")"
	}
	return fmt.Sprintf("exit code %d; its log ends:\n%s", p.ExitCode(), e)
}

// parseSTL is an independent reader of binary STL files.
func parseSTL(b []byte) ([]tri, error) {
	if len(b) < 84 {
		return nil, fmt.Errorf("%d bytes are no STL file", len(b))
	}
	n := int(binary.LittleEndian.Uint32(b[80:]))
	if len(b) != 84+50*n {
		return nil, fmt.Errorf("%d triangles declared, the file has %d bytes (%d needed)", n, len(b), 84+50*n)
	}
	out := make([]tri, n)
	for i := range out {
		d := b[84+50*i+12:]
		for j := range out[i] {
			for k := range out[i][j] {
				out[i][j][k] = float64(math.Float32frombits(binary.LittleEndian.Uint32(d[12*j+4*k:])))
			}
		}
	}
	return out, nil
}

// insideVoxels finds the voxels of the grid (origin t, size vs) lo <= v < hi
// whose centre is inside the closed surface.
func insideVoxels(ts []tri, t vec, vs float64, lo, hi [3]int) vset {
	const dy, dz = 0.013, 0.031
	type col struct{ y, z int }
	cross := map[col][]float64{}
	for _, q := range ts {
		var a [3]vec // in voxels
		for i := range q {
			for k := range q[i] {
				a[i][k] = (q[i][k] - t[k]) / vs
			}
		}
		n := a[1].sub(a[0]).cross(a[2].sub(a[0]))
		if math.Abs(n[0]) < 1e-9 {
			continue
		}
		l, h := boundsOf([]tri{a})
		for y := max(lo[1], int(math.Floor(l[1]-1))); y <= int(math.Ceil(h[1]+1)) && y < hi[1]; y++ {
			for z := max(lo[2], int(math.Floor(l[2]-1))); z <= int(math.Ceil(h[2]+1)) && z < hi[2]; z++ {
				py, pz := float64(y)+0.5+dy, float64(z)+0.5+dz
				in, sgn := true, 0.0
				for i := range a {
					u, v := a[i], a[(i+1)%3]
					w := (v[1]-u[1])*(pz-u[2]) - (v[2]-u[2])*(py-u[1])
					if sgn == 0 {
						sgn = w
					} else if (w > 0) != (sgn > 0) {
						in = false
						break
					}
				}
				if in {
					x := a[0][0] - (n[1]*(py-a[0][1])+n[2]*(pz-a[0][2]))/n[0]
					cross[col{y, z}] = append(cross[col{y, z}], x)
				}
			}
		}
	}
	out := vset{}
	for k, xs := range cross {
		for x := lo[0]; x < hi[0]; x++ {
			odd := false
			for _, v := range xs {
				if v < float64(x)+0.5 {
					odd = !odd
				}
			}
			if odd {
				out[[3]int{x, k.y, k.z}] = true
			}
		}
	}
	return out
}

// toolFaults are faults of the environment of a command-line tool.
func toolFaults(proc string, std bool) []FaultKind {
	out := []FaultKind{
		{Class: "fs.write", Proc: proc, Actions: []string{"enospc", "eio", "crash", "powerloss"}, Weight: 4},
		{Class: "fs.write", Proc: proc, Actions: []string{"short"}, Args: []int64{0, 1, 5, 50, 400}, Weight: 2},
		{Class: "fs.write", Proc: proc, Actions: []string{"diskfull"}, Args: []int64{0, 10, 100, 1000}, Weight: 1},
		{Class: "fs.create", Proc: proc, Actions: []string{"eacces", "enospc", "emfile", "crash", "powerloss"}, Weight: 2},
		{Class: "fs.open", Proc: proc, Actions: []string{"eacces", "emfile", "eio", "crash", "powerloss"}, Weight: 2},
		{Class: "fs.read", Proc: proc, Actions: []string{"eio"}, Weight: 4},
		{Class: "fs.read", Proc: proc, Actions: []string{"crash"}, Weight: 1},
		{Class: "fs.sync", Proc: proc, Actions: []string{"eio", "enospc", "crash", "powerloss"}, Weight: 2},
		{Class: "fs.close", Proc: proc, Actions: []string{"eio", "enospc", "crash", "powerloss"}, Weight: 3},
		{Class: "fs.rename", Proc: proc, Actions: []string{"eio", "eacces", "crash", "powerloss"}, Weight: 2},
		{Class: "fs.stat", Proc: proc, Actions: []string{"eio", "eacces", "crash", "powerloss"}, Weight: 2},
		{Class: "fs.readdir", Proc: proc, Actions: []string{"eio"}, Weight: 1},
		{Class: "fs.readdir", Proc: proc, Actions: []string{"short"}, Args: []int64{1, 2, 3}, Weight: 1},
		{Class: "fs.remove", Proc: proc, Actions: []string{"eio", "crash", "powerloss"}, Weight: 1},
		{Class: "time", Proc: proc, Actions: []string{"crash", "powerloss"}, Weight: 2},
		{Class: "sched", Proc: proc, Actions: []string{"crash", "powerloss"}, Weight: 1},
	}
	if std {
		out = append(out, FaultKind{Class: "stdout.write", Proc: proc, Actions: []string{"enospc", "eio"}, Weight: 3})
	}
	return out
}

// --- scenario: stldice, interrupted and run again ---

type stldiceParams struct {
	baseSpec
	Cuts  []cutSpec `json:"cuts"`
	ASCII bool      `json:"ascii,omitempty"`
	MBB   bool      `json:"mbb,omitempty"` // give the bounding box
	Full  int64     `json:"full,omitempty"`
	Abs   bool      `json:"abs,omitempty"` // absolute names
	Bad   string    `json:"bad,omitempty"` // a command that cannot be carried out goes first
	Word  int       `json:"word,omitempty"`
}

// cutSpec is a solid to be cut away (voxel units, like the base).
type cutSpec struct {
	Shapes []Shape `json:"shapes"`
	Same   bool    `json:"same,omitempty"` // the base itself
}

// cutTris are the triangles of cut i.
func (p stldiceParams) cutTris(i int) []tri {
	if p.Cuts[i].Same {
		return p.tris()
	}
	return scaled(makeSolid(p.Cuts[i].Shapes).tris, p.k(), p.mv())
}

func (p stldiceParams) files() (names []string, data [][]byte) {
	enc := stlBytes
	if p.ASCII {
		enc = stlASCII
	}
	names, data = append(names, "base.stl"), append(data, enc(p.tris()))
	for i := range p.Cuts {
		names, data = append(names, fmt.Sprintf("cut%d.stl", i)), append(data, stlBytes(p.cutTris(i)))
	}
	return
}

func (p stldiceParams) args() []string {
	a := []string{"-dim", fmt.Sprint(p.dim()), "-nx", fmt.Sprint(p.Div[0]), "-ny", fmt.Sprint(p.Div[1]), "-nz", fmt.Sprint(p.Div[2])}
	if p.MBB {
		m, k := p.mv(), p.k()
		a = append(a, "-mbb", fmt.Sprintf("(%v,%v,%v)-(%v,%v,%v)", m[0], m[1], m[2], m[0]+p.E[0]*k, m[1]+p.E[1]*k, m[2]+p.E[2]*k))
	}
	names, _ := p.files()
	for _, n := range names {
		if p.Abs {
			n = "/work/" + n
		}
		a = append(a, n)
	}
	return a
}

// badArgs is a command that cannot be carried out; torn is a damaged input.
func (p stldiceParams) badArgs() (args []string, torn []byte) {
	q := p
	q.MBB, q.Abs = false, false
	a := q.args()
	opt, files := a[:8:8], a[8:]
	switch p.Bad {
	case "word", "short":
		var w []string
		for i := 0; i < 6; i++ {
			m, k := p.mv(), p.k()
			w = append(w, fmt.Sprint(m[i%3]+float64(i/3)*p.E[i%3]*k))
		}
		w[p.Word%6] = []string{"x1", "1.2.3", "1e", "--1", "0x", "1..0", "+", "."}[p.Word/6%8]
		if p.Bad == "short" {
			return append(append(opt, "-mbb", fmt.Sprintf("(%s,%s)-(%s,%s)", w[0], w[1], w[3], w[4])), files...), nil
		}
		return append(append(opt, "-mbb", fmt.Sprintf("(%s,%s,%s)-(%s,%s,%s)", w[0], w[1], w[2], w[3], w[4], w[5])), files...), nil
	case "none":
		return opt, nil
	}
	i := p.Word % len(files)
	tris := p.tris()
	if i > 0 {
		tris = p.cutTris(i - 1)
	}
	torn = stlBytes(tris)
	files = append([]string{}, files...)
	files[i] = p.Bad + ".stl"
	return append(opt, files...), torn[:84+p.Word%(len(torn)-84)]
}

// tryBad runs a command that cannot be carried out, and then the right one.
func tryBad(c *Ctx, p stldiceParams, names []string, data [][]byte, golden map[string][]byte) {
	h := rt.NewHost("other", "10.0.0.3")
	h.Mkdir("/work")
	for i, n := range names {
		h.PutFile("/work/"+n, data[i])
	}
	args, torn := p.badArgs()
	if torn != nil && p.Bad == "torn" {
		h.PutFile("/work/torn.stl", torn)
	}
	q := runTool(c, "C14", h, "wrong", "stldice", args...)
	if q == nil {
		return
	}
	c.Probe("stldice-refused")
	if exitOK(q) {
		c.Viol("C14", "accepted", "stldice %v ends successfully although it cannot be carried out (%s)", args, p.Bad)
		return
	}
	if q = runTool(c, "C14", h, "right", "stldice", p.args()...); q == nil {
		return
	}
	if !exitOK(q) {
		c.Viol("C14", "no-recovery", "stldice %v fails after the wrong command %v: %s", p.args(), args, howEnded(q))
		return
	}
	if d := diffFiles(golden, regionFiles(h)); d != "" {
		c.Viol("C14", "files", "after the wrong command %v and the right one, stldice %v, the region files differ from those of an undisturbed run: %s", args, p.args(), d)
		return
	}
	checkScript(c, p, names, golden, q.Stdout())
}

var regionRE = regexp.MustCompile(`^(.*)-(\d+)-(\d+)-(\d+)-(\d+)-(\d\d+)-(\d\d+)-(\d\d+)\.binvox$`)

// regionFiles returns the binvox files in /work.
func regionFiles(h *rt.Host) map[string][]byte {
	out := map[string][]byte{}
	for _, n := range h.List("/work") {
		if strings.HasSuffix(n, ".binvox") {
			out[n], _ = h.GetFile("/work/" + n)
		}
	}
	return out
}

func stldiceRun(c *Ctx, raw json.RawMessage) {
	p := decode[stldiceParams](raw)
	names, data := p.files()
	ref := rt.NewHost("ref", "10.0.0.2")
	box := rt.NewHost("box", "10.0.0.1")
	for _, h := range []*rt.Host{ref, box} {
		h.Mkdir("/work")
		for i, n := range names {
			h.PutFile("/work/"+n, data[i])
		}
		h.SyncAll()
	}
	// what an undisturbed run leaves
	g := runTool(c, "C14", ref, "golden", "stldice", p.args()...)
	if g == nil {
		return
	}
	if !exitOK(g) {
		c.Viol("C14", "undisturbed-fails", "stldice %v fails though nothing is wrong: %s", p.args(), howEnded(g))
		return
	}
	golden := regionFiles(ref)
	checkRegions(c, p, names, golden)
	checkScript(c, p, names, golden, g.Stdout())
	if len(c.Out.Viols) > 0 {
		return
	}
	if p.Bad != "" {
		if tryBad(c, p, names, data, golden); len(c.Out.Viols) > 0 {
			return
		}
	}
	if p.Full > 0 {
		box.SetCapacity(p.Full)
	}
	ended := false
	for try := 0; try < 8 && !ended; try++ {
		if try == 6 {
			rt.DisarmFaults()
		}
		if try > 0 && (p.Full > 0 || try >= 6) {
			box.SetCapacity(-1)
		}
		q := runTool(c, "C14", box, "stldice", "stldice", p.args()...)
		if q == nil {
			return
		}
		if !exitOK(q) {
			c.Probe("stldice-interrupted")
			if try >= 6 || !c.Faulty() && p.Full == 0 {
				c.Viol("C14", "no-recovery", "run %d of stldice %v fails though nothing is wrong any more: %s", try+1, p.args(), howEnded(q))
				return
			}
			continue
		}
		ended = true
		if try > 0 {
			c.Probe("stldice-resumed")
		}
		got := regionFiles(box)
		if d := diffFiles(golden, got); d != "" {
			c.Viol("C14", "files", "after run %d of stldice %v, which succeeded, the region files differ from those of an undisturbed run: %s", try+1, p.args(), d)
			return
		}
		checkScript(c, p, names, golden, q.Stdout())
	}
	if !ended && len(c.Out.Viols) == 0 {
		c.Viol("C14", "no-recovery", "stldice %v never succeeded", p.args())
	}
}

func diffFiles(want, got map[string][]byte) string {
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		a, x := want[k]
		b, y := got[k]
		switch {
		case !y:
			return fmt.Sprintf("%s is missing", k)
		case !x:
			return fmt.Sprintf("%s should not exist", k)
		case !bytes.Equal(a, b):
			return fmt.Sprintf("%s has %d bytes, %d expected, first difference at %d", k, len(b), len(a), firstDiff(a, b))
		}
	}
	return ""
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// checkRegions checks that the region files of each model add up to it (C09).
func checkRegions(c *Ctx, p stldiceParams, names []string, files map[string][]byte) {
	s, k, mv := p.step(), p.k(), p.mv()
	for i, n := range names {
		ts := p.tris()
		if i > 0 {
			ts = p.cutTris(i - 1)
		}
		stem := strings.TrimSuffix(n, ".stl")
		w := p.whole()
		ok := lib(c, "C09", rt.NewHost("oracle"+n, fmt.Sprintf("10.0.1.%d", i+1)), "oracle", func() {
			if err := w.Voxelize(meshOf(ts)); err != nil {
				c.Viol("C09", "error", "voxelising the whole failed: %v", err)
			}
		})
		if !ok {
			return
		}
		union := vset{}
		var fs []string
		for f := range files {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		for _, f := range fs {
			m := regionRE.FindStringSubmatch(f)
			if m == nil {
				c.Viol("C14", "file-name", "unexpected file %q", f)
				continue
			}
			if m[1] != stem {
				continue
			}
			b, err := parseBinvox(files[f])
			if err != nil || !b.Complete {
				c.Viol("C14", "incomplete", "region file %q is not complete: %v", f, err)
				continue
			}
			var at [3]int
			at[0], _ = strconv.Atoi(m[6])
			at[1], _ = strconv.Atoi(m[7])
			at[2], _ = strconv.Atoi(m[8])
			r := p.region(at[0], at[1], at[2])
			if r == nil || at[0] >= p.Div[0] || at[1] >= p.Div[1] || at[2] >= p.Div[2] {
				c.Viol("C09", "region", "region file %q lies outside the model", f)
				continue
			}
			if len(b.Vox) == 0 {
				c.Viol("C14", "empty", "region file %q is empty", f)
			}
			if b.N != [3]int{r.NX, r.NY, r.NZ} || !sameNum(b.Scale, r.Scale) || !sameNum(b.T[0], r.TX) || !sameNum(b.T[1], r.TY) || !sameNum(b.T[2], r.TZ) {
				c.Viol("C09", "header", "region file %q has header %v %v %v, want %v %v %v", f, b.N, b.T, b.Scale, [3]int{r.NX, r.NY, r.NZ}, [3]float64{r.TX, r.TY, r.TZ}, r.Scale)
			}
			for v := range b.Vox {
				u := [3]int{v[0] + at[0]*s[0], v[1] + at[1]*s[1], v[2] + at[2]*s[2]}
				if union[u] {
					c.Viol("C09", "duplicate", "voxel %v of %s is in two region files", u, n)
				}
				union[u] = true
			}
		}
		if d := diffSets(whites(w.WhiteVoxels), union); d != "" {
			c.Viol("C09", "files", "the region files of %s (division %v, voxel size %v at %v) do not add up to it: %s", n, p.Div, k, mv, d)
		}
	}
	c.Probe("stldice-regions-checked")
}

// checkScript checks the commands printed by a successful run.
func checkScript(c *Ctx, p stldiceParams, names []string, golden map[string][]byte, script string) {
	common := fmt.Sprintf("%d-%d-%d-%d", p.dim(), p.Div[0], p.Div[1], p.Div[2])
	pre := ""
	if p.Abs {
		pre = "/work/"
	}
	stem := func(n string) string { return pre + strings.TrimSuffix(n, ".stl") }
	need := map[string]bool{}
	for f := range golden {
		m := regionRE.FindStringSubmatch(f)
		if m == nil {
			continue
		}
		need["-"+m[6]+"-"+m[7]+"-"+m[8]] = true
	}
	lines := strings.Split(strings.TrimSuffix(script, "\n"), "\n")
	seen := map[string]bool{}
	outs := map[string]bool{}
	merge := ""
	for _, l := range lines {
		f := strings.Fields(l)
		if len(f) == 0 || strings.HasPrefix(f[0], "#") {
			continue
		}
		if f[0] == "merge-stl" {
			for i := range f {
				if f[i] == "-prefix" && i+1 < len(f) {
					merge = f[i+1]
				}
			}
			continue
		}
		if f[0] != "voxcut" || len(f) != 3+len(names) || f[1] != "-ostl" {
			c.Viol("C14", "script-line", "unexpected line in the script: %q", l)
			return
		}
		b := strings.TrimPrefix(f[3], stem(names[0])+"-"+common)
		sfx := strings.TrimSuffix(b, ".binvox")
		if !need[sfx] {
			c.Viol("C14", "script-extra", "the script names a region without files: %q", l)
			return
		}
		for i, n := range names {
			if want := stem(n) + "-" + common + sfx + ".binvox"; f[3+i] != want {
				c.Viol("C14", "script-args", "the script's line %q should name %q", l, want)
				return
			}
		}
		if seen[sfx] || outs[f[2]] {
			c.Viol("C14", "script-twice", "the script names a region or an output twice: %q", l)
			return
		}
		seen[sfx], outs[f[2]] = true, true
	}
	var miss []string
	for sfx := range need {
		if !seen[sfx] {
			miss = append(miss, sfx)
		}
	}
	sort.Strings(miss)
	if len(miss) > 0 {
		c.Viol("C14", "script-missing", "the script does not name the regions %v:\n%s", miss, script)
	}
	if len(seen) > 1 {
		if merge == "" {
			c.Viol("C14", "script-merge", "the script does not merge its %d outputs", len(seen))
		}
		for o := range outs {
			if !strings.HasPrefix(o, merge) {
				c.Viol("C14", "script-merge", "the script's merge-stl of %q does not cover its output %q", merge, o)
			}
		}
	}
	c.Probe("script-checked")
}

func genCuts(r *rt.Rand, E [3]float64, n int) []cutSpec {
	var out []cutSpec
	for ; n > 0; n-- {
		if r.Chance(0.08) {
			out = append(out, cutSpec{Same: true})
			continue
		}
		lo, hi := vec{}, vec{}
		for a := range lo {
			w := math.Max(1, math.Round(E[a]*(0.2+0.8*r.Float())))
			lo[a] = math.Round((E[a] + w) * (r.Float() - 0.25))
			if lo[a] > E[a]-1 {
				lo[a] = E[a] - 1
			}
			lo[a] = math.Floor(lo[a])
			hi[a] = lo[a] + w
		}
		if r.Chance(0.08) { // far beyond the base
			a := r.Intn(3)
			if d := float64([]int{70, 150, 400}[r.Intn(3)]); r.Chance(0.5) {
				hi[a] += d
			} else {
				lo[a] -= d
			}
			out = append(out, cutSpec{Shapes: []Shape{{"box", []float64{lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]}}}})
			continue
		}
		out = append(out, cutSpec{Shapes: []Shape{genShape(r, lo, hi, []string{"box", "box", "octa", "prism", "rbox"})}})
	}
	return out
}

// manyRegions makes a long box with more than ten regions in a row.
func (b *baseSpec) manyRegions(r *rt.Rand) {
	b.Div, b.Dec = [3]int{1, 1, 1}, 0
	a := r.Intn(3)
	for i := range b.E {
		b.E[i] = float64(1 + r.Intn(3))
	}
	b.Div[a] = 10 + r.Intn(4)
	switch r.Intn(20) {
	case 0, 1, 2, 3, 4, 5:
		b.Div[a] = 14 + r.Intn(30)
	case 6: // three digits
		b.Div[a] = 100 + r.Intn(4)
	}
	b.E[a] = float64(b.Div[a] * (1 + r.Intn(2)))
	b.Shapes = []Shape{{"box", []float64{0, 0, 0, b.E[0], b.E[1], b.E[2]}}}
}

func genStldice(r *rt.Rand, tier string) any {
	m := 9
	if tier == "thorough" && r.Chance(0.3) {
		m = 20
	}
	p := stldiceParams{baseSpec: genBase(r, m, [3]int{3, 3, 2}), ASCII: r.Chance(0.2), MBB: r.Chance(0.2), Abs: r.Chance(0.2)}
	p.Cuts = genCuts(r, p.E, r.Intn(3))
	if r.Chance(0.05) { // many regions in a row
		p.manyRegions(r)
		p.Cuts = genCuts(r, p.E, r.Intn(2))
	}
	if p.ASCII && r.Chance(0.5) { // other STL files round the coordinates
		p.decimalize(r)
		offGridCuts(r, p.Cuts)
	}
	if r.Chance(0.1) {
		p.Full = int64(1 + r.Intn(800))
	}
	if r.Chance(0.1) {
		p.Bad, p.Word = []string{"word", "word", "short", "missing", "torn", "none"}[r.Intn(6)], r.Intn(10000)
	}
	return p
}

func shrinkStldice(raw json.RawMessage) []any {
	p := decode[stldiceParams](raw)
	var out []any
	for i := range p.Cuts {
		q := p
		q.Cuts = append(append([]cutSpec{}, p.Cuts[:i]...), p.Cuts[i+1:]...)
		out = append(out, q)
	}
	for _, b := range p.shrink() {
		q := p
		q.baseSpec = b
		out = append(out, q)
	}
	if p.ASCII {
		q := p
		q.ASCII = false
		out = append(out, q)
	}
	if p.MBB {
		q := p
		q.MBB = false
		out = append(out, q)
	}
	if p.Full > 0 {
		q := p
		q.Full = 0
		out = append(out, q)
	}
	if p.Bad != "" {
		q := p
		q.Bad = ""
		out = append(out, q)
	}
	return out
}

// moreCPUs lets STL files be loaded with many goroutines now and then.
func moreCPUs(r *rt.Rand, raw json.RawMessage, c *PlanCfg) {
	if r.Chance(0.1) {
		c.NumCPU = []int{16, 32, 64}[r.Intn(3)]
	}
}

func init() {
	register(&Scenario{
		Name: "stldice", Run: stldiceRun, Gen: genStldice, Hang: "C14", Shrink: shrinkStldice, Cfg: moreCPUs,
		Kinds: func(json.RawMessage) []FaultKind { return toolFaults("stldice", true) },
	})
}

// sameNum compares numbers that may have been computed in different orders.
func sameNum(a, b float64) bool {
	return math.Abs(a-b) <= 1e-9*math.Max(1, math.Max(math.Abs(a), math.Abs(b)))
}
