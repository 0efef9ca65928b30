package harness

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/crc32"
	"image"
	"image/color"
	"image/png"
	"math"
	"slices"
	"strconv"
	"strings"

	rt "ZZSIM/rt"

	"ZZMOD/binvox"
	"ZZMOD/vshell"
)

// --- scenario: merge-stl ---

type mergeSTLParams struct {
	Files   []stlIn `json:"files"`
	Workers int     `json:"workers"`
	Prefix  string  `json:"prefix"`
	Own     int     `json:"own"` // earlier output: 0 none, 1 a valid file, 2 garbage, 3 a pipe
	Force   bool    `json:"force"`
	Other   bool    `json:"other,omitempty"` // files that do not match
	Full    int64   `json:"full,omitempty"`
}

func mergeSTLRun(c *Ctx, raw json.RawMessage) {
	p := decode[mergeSTLParams](raw)
	h := rt.NewHost("box", "10.0.0.1")
	h.Mkdir("/work")
	h.Mkdir("/work/sub")
	pre := p.Prefix
	if !strings.HasPrefix(pre, "/") {
		pre = "/work/" + pre
	}
	glob := strings.HasPrefix(p.Prefix, "p?/") // the inputs lie in several folders
	if glob {
		h.Mkdir("/work/p?")
		h.Mkdir("/work/p1")
		h.Mkdir("/work/p2")
	}
	mustFail, mayFail := false, false
	var want []tri
	names := []string{"-0-00", "-1", "2", "x.y", "-000", ".stl", "A", "_", "-9"}
	n := 0
	for i, f := range p.Files {
		ts := stlTris(i, f.Tris)
		if f.Bad == "missing" {
			continue
		}
		n++
		name := pre + names[i%len(names)] + ".stl"
		if glob && i < 2 {
			name = fmt.Sprintf("/work/p%d/x.stl", i+1)
		} else if glob && i&1 == 0 {
			name = strings.Replace(name, "/p?/", "/p1/", 1)
		}
		if f.put(h, name, ts) {
			mustFail = true
		}
		mayFail = mayFail || f.ASCII && f.Style == styleLong
		want = append(want, ts...)
	}
	if n == 0 {
		mustFail = true
	}
	out := pre + ".stl"
	var old []byte
	switch p.Own {
	case 1:
		old = stlBytes(stlTris(77, 3))
	case 2:
		old = oldOutput(uint64(len(p.Files)))
	}
	if p.Own > 0 {
		h.PutFile(out, old)
		if p.Own == 3 {
			h.PutPipe(out)
		}
		if !p.Force {
			mustFail = true
		}
	}
	if p.Other {
		h.PutFile("/work/zzz.stl", stlBytes(stlTris(78, 2)))
		h.PutFile(pre+"-1.stl.bak", stlBytes(stlTris(79, 2)))
		h.PutFile(pre+"-1.binvox", []byte("x"))
	}
	h.SyncAll()
	if p.Full > 0 {
		h.SetCapacity(p.Full)
	}
	args := []string{"-prefix", p.Prefix}
	if p.Force {
		args = append(args, "-f")
	}
	if p.Workers != 10 {
		args = append(args, "-num", strconv.Itoa(p.Workers))
	}
	pr := runTool(c, "C17", h, "merge", "merge-stl", args...)
	if pr == nil {
		return
	}
	if ci, st := pr.CrashInfo(); ci != "" {
		c.Viol("C17", "crash", "merge-stl %v crashed: %s\n%s", args, ci, st)
		return
	}
	got, exists := h.GetFile(out)
	if p.Own > 0 && !p.Force && !rt.FaultFired("powerloss") && (!exists || !bytes.Equal(old, got)) {
		c.Viol("C17", "overwritten", "merge-stl %v changed its existing output without -f", args)
	}
	if exitOK(pr) {
		if mustFail {
			c.Viol("C17", "bad-input", "merge-stl %v succeeded although it must not (%d inputs %v, earlier output %d)", args, n, p.Files, p.Own)
			return
		}
		if p.Own == 3 && !h.IsPipe(out) {
			c.Viol("C17", "pipe", "merge-stl %v succeeded, but replaced the pipe it was to write into", args)
			return
		}
		ts, err := parseSTL(got)
		if !exists || err != nil {
			c.Viol("C17", "output", "merge-stl %v succeeded, but its output is not a complete STL file: %v", args, err)
			return
		}
		if d := diffTris(want, ts); d != "" {
			c.Viol("C17", "triangles", "merge-stl %v wrote wrong triangles: %s", args, d)
		}
		c.Probe("merge-stl-succeeded")
		if len(ts) > 1<<16 {
			c.Probe("merge-stl-many-triangles")
		}
		return
	}
	c.Probe("merge-stl-failed")
	if !mustFail && !mayFail && !c.Faulty() && p.Full == 0 && p.Workers > 0 {
		c.Viol("C17", "spurious-failure", "merge-stl %v failed though nothing is wrong: %s", args, howEnded(pr))
	}
}

func genMergeSTL(r *rt.Rand, tier string) any {
	p := mergeSTLParams{Workers: 10, Prefix: []string{"out", "sub/part", "/work/sub/abs", "a-8-2-2-1", "p?/x", "./out", "sub//part", "sub/../out"}[r.Intn(8)], Other: r.Chance(0.4)}
	if r.Chance(0.5) {
		p.Workers = 1 + r.Intn(4)
	}
	if r.Chance(0.05) {
		p.Workers = -r.Intn(2)
	}
	n := r.Intn(8)
	for i := 0; i < n; i++ {
		f := stlIn{Tris: 1 + r.Intn(6), ASCII: r.Chance(0.3)}
		if !f.ASCII && r.Chance(0.1) {
			f.Tris = 0
		}
		if r.Chance(0.2) {
			f.Style = r.Intn(styles)
		}
		p.Files = append(p.Files, f)
	}
	if n > 0 && r.Chance(0.01) {
		p.Files = p.Files[:min(n, 3)]
		n = len(p.Files)
		p.Files[r.Intn(n)] = manyTris(r)
	}
	if n > 0 && r.Chance(0.25) {
		f := &p.Files[r.Intn(n)]
		f.Bad = []string{"cut", "cut", "empty", "dir", "vertex"}[r.Intn(5)]
		f.At = r.Float()
		if f.Tris == 0 {
			f.Tris = 1
		}
	}
	if r.Chance(0.4) {
		p.Own = 1 + r.Intn(10)/4
		p.Force = r.Chance(0.6)
	} else {
		p.Force = r.Chance(0.2)
	}
	if r.Chance(0.08) {
		p.Full = int64(1 + r.Intn(1500))
	}
	return p
}

// --- scenario: merge-binvox ---

// part is one model to merge: a block of voxels of a common grid.
type part struct {
	At   [3]int `json:"at"`
	Size [3]int `json:"size"`
	Off  [3]int `json:"off"` // position of its first voxel within its own grid
	Pad  [3]int `json:"pad"` // empty space after it
	Fill int    `json:"fill"`
	Seed uint64 `json:"seed"`
}

type mergeBinParams struct {
	Parts []part  `json:"parts"`
	VS    float64 `json:"vs"`
	T     [3]int  `json:"t"`
	Own   int     `json:"own"`
	Force bool    `json:"force"`
	Bad   string  `json:"bad,omitempty"`
	BadAt int     `json:"bad_at,omitempty"`
	Cut   float64 `json:"cut,omitempty"`
	Full  int64   `json:"full,omitempty"`
	Lib   bool    `json:"lib,omitempty"` // merge with the library, in any order
	Mix   int     `json:"mix,omitempty"` // parts that interlock: 1 each voxel belongs to any part, 2 some single voxels belong to another
}

// models returns the parts as files and their voxels in the common grid.
func (p mergeBinParams) models() ([]boxFile, []vset) {
	fs, gs := make([]boxFile, len(p.Parts)), make([]vset, len(p.Parts))
	for i, q := range p.Parts {
		fs[i], gs[i] = q.model(p.VS, p.T)
	}
	if p.Mix == 0 || len(gs) < 2 {
		return fs, gs
	}
	own := make([]vset, len(gs))
	for i := range own {
		own[i] = vset{}
	}
	for i, g := range gs {
		for k := range g {
			h := (uint64(k[0]+1000)*0x9e3779b97f4a7c15 ^ uint64(k[1]+1000)*0xc2b2ae3d27d4eb4f ^ uint64(k[2]+1000)*0x165667b19e3779f9) + p.Parts[0].Seed
			h ^= h >> 29
			h *= 0xbf58476d1ce4e5b9
			h ^= h >> 32
			o := i
			switch {
			case p.Mix == 1:
				o = int(h % uint64(len(gs)))
			case k[0]&1 == 1 && k[1]&1 == 1 && k[2]&1 == 1 && h%3 > 0:
				o = (i + 1 + int((h>>8)%uint64(len(gs)-1))) % len(gs)
			}
			own[o][k] = true
		}
	}
	for i, g := range own {
		var lo, hi [3]int
		first := true
		for k := range g {
			for a := range lo {
				if first || k[a] < lo[a] {
					lo[a] = k[a]
				}
				if first || k[a] >= hi[a] {
					hi[a] = k[a] + 1
				}
			}
			first = false
		}
		q := p.Parts[i]
		f := boxFile{Vox: vset{}}
		for k := range g {
			f.Vox[[3]int{k[0] - lo[0] + q.Off[0], k[1] - lo[1] + q.Off[1], k[2] - lo[2] + q.Off[2]}] = true
		}
		for a := range f.N {
			f.N[a] = max(q.Off[a]+hi[a]-lo[a]+q.Pad[a], 1)
			f.T[a] = float64(p.T[a]+lo[a]-q.Off[a]) * p.VS
		}
		f.Scale = float64(max(f.N[0], f.N[1], f.N[2])) * p.VS
		fs[i] = f
	}
	return fs, own
}

// model is the part as a file; its voxels in the common grid come second.
func (q part) model(vs float64, t [3]int) (boxFile, vset) {
	f := boxFile{Vox: vset{}}
	glob := vset{}
	m := boxModel{N: q.Size, Fill: q.Fill, Seed: q.Seed}
	for v := range m.vox() {
		f.Vox[[3]int{v[0] + q.Off[0], v[1] + q.Off[1], v[2] + q.Off[2]}] = true
		glob[[3]int{v[0] + q.At[0], v[1] + q.At[1], v[2] + q.At[2]}] = true
	}
	for a := range f.N {
		f.N[a] = q.Off[a] + q.Size[a] + q.Pad[a]
		f.T[a] = float64(t[a]+q.At[a]-q.Off[a]) * vs
	}
	f.Scale = float64(max(f.N[0], f.N[1], f.N[2])) * vs
	return f, glob
}

// checkShell compares a shell with the one of the voxels (common grid).
func checkShell(c *Ctx, prop, what string, v *vshell.VShell, all vset, vs float64, t [3]int) {
	if len(all) == 0 {
		if len(v.Voxels) > 0 {
			c.Viol(prop, "shell", "%s: %d voxels in the shell of nothing", what, len(v.Voxels))
		}
		return
	}
	vox := math.NaN()
	if d := max(v.NX, v.NY, v.NZ); d > 0 {
		vox = v.Scale / float64(d)
	}
	if !(math.Abs(vox-vs) < 1e-9*vs) {
		c.Viol(prop, "voxel-size", "%s: the voxels of the shell are %v mm wide, not %v (dimensions %d %d %d, scale %v)", what, vox, vs, v.NX, v.NY, v.NZ, v.Scale)
		return
	}
	var off [3]int
	for a, x := range []float64{v.TX, v.TY, v.TZ} {
		o := x/vs - float64(t[a])
		off[a] = int(math.Round(o))
		if math.Abs(o-float64(off[a])) > 1e-6 {
			c.Viol(prop, "placement", "%s: the shell is placed at %v mm, off the grid", what, x)
			return
		}
	}
	want := map[[3]int]uint32{}
	for k := range all {
		if m := maskOf(all, k); m != 0x7ffdfff {
			want[[3]int{k[0] - off[0], k[1] - off[1], k[2] - off[2]}] = m
		}
	}
	if d := diffMasks(want, v.Voxels); d != "" {
		c.Viol(prop, "shell", "%s: the shell (placed at voxel %v) is wrong: %s", what, off, d)
	}
	for k := range want {
		for a, n := range []int{v.NX, v.NY, v.NZ} {
			if k[a] < 0 || k[a] >= n {
				c.Viol(prop, "dims", "%s: voxel %v lies outside the shell's dimensions (%d,%d,%d)", what, k, v.NX, v.NY, v.NZ)
				return
			}
		}
	}
	c.Probe("shell-checked")
	if len(want) < len(all) {
		c.Probe("shell-with-inside")
	}
}

func mergeBinRun(c *Ctx, raw json.RawMessage) {
	p := decode[mergeBinParams](raw)
	h := rt.NewHost("box", "10.0.0.1")
	h.Mkdir("/work")
	all := vset{}
	mustFail := len(p.Parts) == 0
	names := []string{"-0-00", "-1", "2", "x.y", "-000", "A", "_", "-9", "zz"}
	fs, gs := p.models()
	for i, q := range p.Parts {
		f, g := fs[i], gs[i]
		for k := range g {
			all[k] = true
		}
		if len(f.Vox) == 0 && q.Seed&1 == 1 && (p.Bad == "" || i != p.BadAt) {
			f.N = [3]int{} // the way empty models are written
		}
		b := binvoxBytes(&f)
		name := "/work/out" + names[i%len(names)] + ".binvox"
		if p.Bad != "" && i == p.BadAt {
			head := bytes.Index(b, []byte("\ndata\n")) + 6
			mustFail = true
			switch p.Bad {
			case "dir":
				h.Mkdir(name)
				continue
			case "head":
				b = b[:int(p.Cut*float64(head-1))]
			case "odd":
				b = b[:head+2*int(p.Cut*float64((len(b)-head)/2))+1]
			case "empty":
				b = nil
			}
		}
		h.PutFile(name, b)
	}
	h.PutFile("/work/other.binvox", []byte("x"))
	out := "/work/out.vsh"
	old := oldOutput(uint64(len(p.Parts)))
	if p.Own > 0 {
		h.PutFile(out, old)
		if !p.Force {
			mustFail = true
		}
	}
	h.SyncAll()
	if p.Full > 0 {
		h.SetCapacity(p.Full)
	}
	args := []string{"-prefix", "out"}
	if p.Force {
		args = append(args, "-f")
	}
	pr := runTool(c, "C17", h, "merge", "merge-binvox", args...)
	if pr == nil {
		return
	}
	if ci, st := pr.CrashInfo(); ci != "" {
		c.Viol("C17", "crash", "merge-binvox %v crashed: %s\n%s", args, ci, st)
		return
	}
	got, exists := h.GetFile(out)
	if p.Own > 0 && !p.Force && !rt.FaultFired("powerloss") && (!exists || !bytes.Equal(old, got)) {
		c.Viol("C17", "overwritten", "merge-binvox %v changed its existing output without -f", args)
	}
	if exitOK(pr) {
		if mustFail {
			c.Viol("C17", "bad-input", "merge-binvox %v succeeded although it must not (%d inputs, bad %q, earlier output %d)", args, len(p.Parts), p.Bad, p.Own)
			return
		}
		var v *vshell.VShell
		var err error
		oh := rt.NewHost("oracle", "10.0.3.1")
		oh.PutFile("/work/out.vsh", got)
		if !lib(c, "C17", oh, "oracle", func() { v, err = vshell.Read("/work/out.vsh", 0, 0, 0, 0, 0, 0) }) {
			return
		}
		if !exists || err != nil {
			c.Viol("C17", "output", "merge-binvox succeeded, but its output cannot be read: %v", err)
			return
		}
		checkShell(c, "C17", "merge-binvox", v, all, p.VS, p.T)
		c.Probe("merge-binvox-succeeded")
		return
	}
	c.Probe("merge-binvox-failed")
	if !mustFail && !c.Faulty() && p.Full == 0 {
		c.Viol("C17", "spurious-failure", "merge-binvox %v failed though nothing is wrong: %s", args, howEnded(pr))
	}
}

// shellRun adds the parts to a shell with the library, in a random order and
// under random map orders (C21).
func shellRun(c *Ctx, raw json.RawMessage) {
	p := decode[mergeBinParams](raw)
	h := rt.NewHost("box", "10.0.0.1")
	all := vset{}
	var v *vshell.VShell
	var err error
	order := make([]int, len(p.Parts))
	for i := range order {
		order[i] = i
	}
	for i := range order {
		k := i + rt.Env().Intn(len(order)-i)
		order[i], order[k] = order[k], order[i]
	}
	if !lib(c, "C21", h, "lib", func() {
		fs, gs := p.models()
		for n, i := range order {
			f, g := fs[i], gs[i]
			for k := range g {
				all[k] = true
			}
			b := &binvox.BinVOX{NX: f.N[0], NY: f.N[1], NZ: f.N[2], TX: f.T[0], TY: f.T[1], TZ: f.T[2], Scale: f.Scale, WhiteVoxels: whiteMap(f.Vox)}
			if v == nil {
				v, err = vshell.New(b)
			} else if len(f.Vox) > 0 {
				err = v.Add(b)
			}
			if err != nil {
				c.Viol("C21", "error", "adding part %d failed: %v", i, err)
				return
			}
			checkShell(c, "C21", fmt.Sprintf("after adding part %d (%d of %d)", i, n+1, len(order)), v, all, p.VS, p.T)
			if len(c.Out.Viols) > 0 {
				return
			}
		}
	}) {
		return
	}
	if len(order) > 1 {
		c.Probe("shells-of-several-models")
	}
}

// genParts cuts a box of space into disjoint parts.
func genParts(r *rt.Rand, big, n int) []part {
	type box struct{ lo, hi [3]int }
	var b box
	for a := range b.hi {
		b.hi[a] = 1 + r.Intn(big)
		if r.Chance(0.4) {
			k := r.Intn(12) - 6
			b.lo[a] += k
			b.hi[a] += k
		}
	}
	boxes := []box{b}
	for len(boxes) < n {
		i := r.Intn(len(boxes))
		a := r.Intn(3)
		x := boxes[i]
		if x.hi[a]-x.lo[a] < 2 {
			n--
			continue
		}
		m := x.lo[a] + 1 + r.Intn(x.hi[a]-x.lo[a]-1)
		y := x
		x.hi[a], y.lo[a] = m, m
		boxes[i] = x
		boxes = append(boxes, y)
	}
	var out []part
	for _, x := range boxes {
		q := part{At: x.lo, Seed: r.Uint64(), Fill: []int{1, 1, 1, 1, 2, 5, 3, 0}[r.Intn(8)]}
		for a := range q.Size {
			q.Size[a] = x.hi[a] - x.lo[a]
			if r.Chance(0.2) {
				q.Off[a] = r.Intn(4)
			}
			if r.Chance(0.2) {
				q.Pad[a] = r.Intn(4)
			}
		}
		out = append(out, q)
	}
	for i := range out { // any order
		k := i + r.Intn(len(out)-i)
		out[i], out[k] = out[k], out[i]
	}
	return out
}

func genMergeBin(r *rt.Rand, tier string) any {
	big := 8
	if tier == "thorough" && r.Chance(0.3) {
		big = 14
	}
	p := mergeBinParams{VS: []float64{1, 0.5, 0.25, 0.1, 0.3}[r.Intn(5)]}
	if !r.Chance(0.03) {
		p.Parts = genParts(r, big, 1+r.Intn(6))
	}
	if r.Chance(0.3) {
		p.Mix = 1 + r.Intn(2)
	}
	for a := range p.T {
		if r.Chance(0.5) {
			p.T[a] = r.Intn(400) - 200
		}
	}
	if r.Chance(0.3) {
		p.Own = 1
		p.Force = r.Chance(0.6)
	}
	if r.Chance(0.12) && len(p.Parts) > 0 {
		p.Bad = []string{"dir", "head", "odd", "odd", "empty"}[r.Intn(5)]
		p.BadAt = r.Intn(len(p.Parts))
		p.Cut = r.Float()
	}
	if r.Chance(0.08) {
		p.Full = int64(1 + r.Intn(1500))
	}
	return p
}

func genShell(r *rt.Rand, tier string) any {
	p := genMergeBin(r, tier).(mergeBinParams)
	p.Own, p.Bad, p.Full = 0, "", 0
	return p
}

func shrinkMergeBin(raw json.RawMessage) []any {
	p := decode[mergeBinParams](raw)
	var out []any
	if p.Mix > 0 {
		q := p
		q.Mix = 0
		out = append(out, q)
	}
	for i := range p.Parts {
		if p.Bad != "" && i == p.BadAt {
			continue
		}
		q := p
		q.Parts = append(append([]part{}, p.Parts[:i]...), p.Parts[i+1:]...)
		if p.BadAt > i {
			q.BadAt--
		}
		out = append(out, q)
		for a := 0; a < 3; a++ {
			x := p.Parts[i]
			if x.Off[a] > 0 || x.Pad[a] > 0 {
				x.Off[a], x.Pad[a] = 0, 0
				q := p
				q.Parts = append([]part{}, p.Parts...)
				q.Parts[i] = x
				out = append(out, q)
			}
			x = p.Parts[i]
			if x.Size[a] > 1 {
				x.Size[a]--
				q := p
				q.Parts = append([]part{}, p.Parts...)
				q.Parts[i] = x
				out = append(out, q)
			}
		}
	}
	for a := range p.T {
		if p.T[a] != 0 {
			q := p
			q.T[a] = 0
			out = append(out, q)
		}
	}
	if p.VS != 1 {
		q := p
		q.VS = 1
		out = append(out, q)
	}
	return out
}

// --- scenario: svx2stl ---

type svxParams struct {
	N       [3]int  `json:"n"`
	Fill    int     `json:"fill"`
	Seed    uint64  `json:"seed"`
	VS      float64 `json:"vs"`
	Shuffle uint64  `json:"shuffle"`
	Store   int     `json:"store"` // 0 deflate, 1 store, 2 mixed
	Gray    int     `json:"gray"`  // 0 gray, 1 RGBA, 2 paletted, 3 gray levels
	Damage  string  `json:"damage,omitempty"`
	At      float64 `json:"at,omitempty"`
	Bit     int     `json:"bit,omitempty"`
	Extra   bool    `json:"extra,omitempty"` // other channels in the manifest
	Two     bool    `json:"two,omitempty"`   // two archives
	Old     bool    `json:"old,omitempty"`
	Full    int64   `json:"full,omitempty"`
}

func (p svxParams) model() boxModel {
	return boxModel{N: p.N, Fill: p.Fill, Seed: p.Seed, VS: p.VS}
}

// archive makes the SVX file with its layers in the given order; data ranges
// of the entries come second.
func (p svxParams) archive(order []int, m boxModel) ([]byte, [][2]int) {
	var buf bytes.Buffer
	w := zip.NewWriter(&buf)
	extra := ""
	if p.Extra {
		extra = `        <channel type="COLOR" bits="8" slices="color/c%03d.png" />` + "\n"
	}
	manifest := fmt.Sprintf(`<?xml version="1.0"?>
<grid version="1.0" gridSizeX="%d" gridSizeY="%d" gridSizeZ="%d" voxelSize="%v" subvoxelBits="8" slicesOrientation="Z" >
    <channels>
%s        <channel type="DENSITY" bits="8" slices="density/slice%%04d.png" />
    </channels>
    <materials><material id="1" urn="urn:shapeways:materials/1" /></materials>
    <metadata><entry key="author" value="x" /></metadata>
</grid>
`, p.N[0], p.N[1], p.N[2], p.VS/1000, extra)
	var ranges [][2]int
	r := rt.NewRand(p.Seed ^ 0x99)
	put := func(name string, data []byte, store bool) {
		fh := &zip.FileHeader{Name: name, Method: zip.Deflate}
		if store {
			fh.Method = zip.Store
		}
		e, err := w.CreateHeader(fh)
		if err != nil {
			fatal("zip: %v", err)
		}
		w.Flush()
		a := buf.Len()
		e.Write(data)
		w.Flush()
		ranges = append(ranges, [2]int{a, buf.Len()})
	}
	put("manifest.xml", []byte(manifest), p.Store == 1)
	vox := m.vox()
	for _, z := range order {
		if z >= 0 && slices.Contains(order, -1-z) { // stands for the layer
			continue
		}
		if z < 0 {
			put(fmt.Sprintf("density/slice%04d.png", -1-z), nil, r.Chance(0.5))
			continue
		}
		if z == 1<<20 {
			img := image.NewGray(image.Rect(0, 0, p.N[0], p.N[1]))
			for i := range img.Pix {
				img.Pix[i] = 255
			}
			var b bytes.Buffer
			png.Encode(&b, img)
			put([]string{"density/slice0000.gif", "color/c000.png", "slice0000.png", "density/0.png", "density/slice.png"}[r.Intn(5)], b.Bytes(), r.Chance(0.5))
			continue
		}
		var img interface {
			image.Image
			Set(x, y int, c color.Color)
		}
		rect := image.Rect(0, 0, p.N[0], p.N[1])
		switch p.Gray {
		case 1:
			img = image.NewRGBA(rect)
		case 2:
			img = image.NewPaletted(rect, color.Palette{color.Black, color.White, color.Gray{127}, color.Gray{128}})
		default:
			img = image.NewGray(rect)
		}
		lr := rt.NewRand(m.Seed ^ uint64(z)*7919)
		for x := 0; x < p.N[0]; x++ {
			for y := 0; y < p.N[1]; y++ {
				g := color.Gray{0}
				if vox[[3]int{x, y, z}] {
					g.Y = 255
				}
				if p.Gray >= 2 { // levels on either side of the threshold
					if g.Y == 255 {
						g.Y = []uint8{255, 128}[lr.Intn(2)]
					} else {
						g.Y = []uint8{0, 127}[lr.Intn(2)]
					}
				}
				img.Set(x, y, g)
			}
		}
		var b bytes.Buffer
		png.Encode(&b, img)
		put(fmt.Sprintf("density/slice%04d.png", z), b.Bytes(), p.Store == 1 || p.Store == 2 && r.Chance(0.5))
	}
	w.Close()
	return buf.Bytes(), ranges
}

func svx2stlRun(c *Ctx, raw json.RawMessage) {
	p := decode[svxParams](raw)
	h := rt.NewHost("box", "10.0.0.1")
	h.Mkdir("/work")
	models := []boxModel{p.model()}
	if p.Two {
		m := p.model()
		m.Seed++
		models = append([]boxModel{m}, models...)
	}
	mustFail := false
	var args []string
	for i, m := range models {
		order := make([]int, p.N[2])
		for i := range order {
			order[i] = i
		}
		r := rt.NewRand(p.Shuffle + uint64(i))
		if p.Shuffle != 0 {
			for i := range order {
				k := i + r.Intn(len(order)-i)
				order[i], order[k] = order[k], order[i]
			}
		}
		b, ranges := p.archive(order, m)
		name := fmt.Sprintf("model%d.svx", i)
		args = append(args, name)
		if p.Old {
			h.PutFile(fmt.Sprintf("/work/model%d.stl", i), oldOutput(p.Seed))
		}
		if i == len(models)-1 && p.Damage != "" {
			mustFail = true
			switch p.Damage {
			case "missing":
				continue
			case "dir":
				h.Mkdir("/work/" + name)
				continue
			case "empty":
				b = nil
			case "cut":
				b = b[:int(p.At*float64(len(b)-22))]
			case "void": // a layer without content
				b, _ = p.archive(append(order, -1-order[int(p.At*float64(len(order)))]), m)
			case "alien": // an entry that is no layer
				mustFail = false // it may be ignored
				b, _ = p.archive(append(order, 1<<20), m)
			case "cutend": // within the last record
				b = b[:len(b)-1-int(p.At*21)]
			case "bit": // inside an entry's content
				g := ranges[int(p.At*1000)%len(ranges)]
				o := g[0] + int(p.At*float64(g[1]-g[0]))
				if !damagedEntry(b, o, p.Bit) {
					mustFail = false // the content stays the same
				}
				b[o] ^= 1 << (p.Bit & 7)
			}
		}
		h.PutFile("/work/"+name, b)
	}
	h.SyncAll()
	if p.Full > 0 {
		h.SetCapacity(p.Full)
	}
	pr := runTool(c, "C18", h, "svx2stl", "svx2stl", args...)
	if pr == nil {
		return
	}
	if exitOK(pr) {
		if mustFail {
			c.Viol("C18", "damage-accepted", "svx2stl %v succeeded although an archive is damaged (%s at %v)", args, p.Damage, p.At)
			return
		}
		for i, m := range models {
			b, ok := h.GetFile(fmt.Sprintf("/work/model%d.stl", i))
			if !ok {
				c.Viol("C18", "output", "svx2stl succeeded, but wrote no model%d.stl", i)
				return
			}
			ts, err := parseSTL(b)
			if err != nil {
				c.Viol("C18", "output", "svx2stl succeeded, but model%d.stl is not complete: %v", i, err)
				return
			}
			var want []tri
			vox := m.vox()
			lib(c, "C18", rt.NewHost(fmt.Sprintf("oracle%d", i), fmt.Sprintf("10.0.3.%d", i+1)), "oracle", func() {
				q := &binvox.BinVOX{NX: p.N[0], NY: p.N[1], NZ: p.N[2], Scale: p.VS, WhiteVoxels: whiteMap(vox)}
				want = meshTris(q.MarchingCubes())
			})
			if d := diffTris(canonTris(f32Tris(want)), canonTris(ts)); d != "" {
				c.Viol("C18", "mesh", "svx2stl wrote a mesh that depends on more than the layers (model %d, layers shuffled %v): %s", i, p.Shuffle != 0, d)
			}
			// the voxels' centres are inside (the voxel size is Scale/Dim)
			sz := p.VS / float64(max(p.N[0], p.N[1], p.N[2]))
			got := insideVoxels(ts, vec{}, sz, [3]int{-1, -1, -1}, [3]int{p.N[0] + 1, p.N[1] + 1, p.N[2] + 1})
			if d := diffSets(vox, got); d != "" {
				c.Viol("C18", "solid", "the mesh svx2stl wrote does not enclose the white pixels: %s", d)
			}
		}
		c.Probe("svx2stl-succeeded")
		return
	}
	c.Probe("svx2stl-failed")
	if !mustFail && !c.Faulty() && p.Full == 0 && p.Damage == "" {
		c.Viol("C18", "spurious-failure", "svx2stl %v failed though nothing is wrong: %s", args, howEnded(pr))
	}
}

// damagedEntry tells whether flipping a bit at o changes an entry's content.
func damagedEntry(b []byte, o, bit int) bool {
	read := func(b []byte) (string, bool) {
		z, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
		if err != nil {
			return "", false
		}
		var s strings.Builder
		for _, f := range z.File {
			rc, err := f.Open()
			if err != nil {
				return "", false
			}
			var d bytes.Buffer
			if _, err := d.ReadFrom(rc); err != nil {
				return "", false
			}
			fmt.Fprintf(&s, "%s %d;", f.Name, crc32.ChecksumIEEE(d.Bytes()))
		}
		return s.String(), true
	}
	q := append([]byte{}, b...)
	q[o] ^= 1 << (bit & 7)
	x, ok := read(b)
	if !ok {
		fatal("bad archive made")
	}
	y, ok := read(q)
	return !ok || x != y
}

func genSVX(r *rt.Rand, tier string) any {
	p := svxParams{Seed: r.Uint64(), VS: []float64{1, 0.5, 0.2, 0.125}[r.Intn(4)], Store: r.Intn(3), Gray: r.Intn(4), Extra: r.Chance(0.3), Two: r.Chance(0.2), Old: r.Chance(0.3)}
	for a := range p.N {
		p.N[a] = 1 + r.Intn(7)
	}
	if r.Chance(0.15) {
		p.N[2] = 8 + r.Intn(8)
	}
	if r.Chance(0.01) { // many layers
		p.N = [3]int{1 + r.Intn(2), 1 + r.Intn(2), 900 + r.Intn(400)}
	}
	p.Fill = []int{1, 2, 2, 3, 5, 5, 4, 0}[r.Intn(8)]
	if r.Chance(0.7) {
		p.Shuffle = r.Uint64() | 1
	}
	if r.Chance(0.3) {
		p.Damage = []string{"missing", "dir", "empty", "cut", "cut", "cutend", "bit", "bit", "bit", "void", "alien", "alien"}[r.Intn(12)]
		p.At = r.Float()
		p.Bit = r.Intn(8)
	}
	if r.Chance(0.08) {
		p.Full = int64(1 + r.Intn(4000))
	}
	return p
}

func init() {
	register(&Scenario{
		Name: "mergestltool", Run: mergeSTLRun, Gen: genMergeSTL, Hang: "C17",
		Cfg: func(r *rt.Rand, raw json.RawMessage, c *PlanCfg) {
			moreCPUs(r, raw, c)
			manyTrisCfg(decode[mergeSTLParams](raw).Files, c)
		},
		Kinds: func(json.RawMessage) []FaultKind { return toolFaults("merge", false) },
		Shrink: func(raw json.RawMessage) []any {
			p := decode[mergeSTLParams](raw)
			var out []any
			for i := range p.Files {
				q := p
				q.Files = append(append([]stlIn{}, p.Files[:i]...), p.Files[i+1:]...)
				out = append(out, q)
			}
			if p.Workers != 1 {
				q := p
				q.Workers = 1
				out = append(out, q)
			}
			if p.Other {
				q := p
				q.Other = false
				out = append(out, q)
			}
			return out
		},
	})
	register(&Scenario{
		Name: "mergebintool", Run: mergeBinRun, Gen: genMergeBin, Hang: "C17", Shrink: shrinkMergeBin,
		Kinds: func(json.RawMessage) []FaultKind { return toolFaults("merge", false) },
	})
	register(&Scenario{Name: "shell", Run: shellRun, Gen: genShell, Hang: "C21", Shrink: shrinkMergeBin})
	register(&Scenario{
		Name: "svx2stl", Run: svx2stlRun, Gen: genSVX, Hang: "C18",
		Kinds: func(json.RawMessage) []FaultKind { return toolFaults("svx2stl", false) },
		Shrink: func(raw json.RawMessage) []any {
			p := decode[svxParams](raw)
			var out []any
			for a := range p.N {
				if p.N[a] > 1 {
					q := p
					q.N[a]--
					out = append(out, q)
				}
			}
			for _, f := range []func(*svxParams){
				func(q *svxParams) { q.Two = false }, func(q *svxParams) { q.Old = false }, func(q *svxParams) { q.Extra = false },
				func(q *svxParams) { q.Shuffle = 0 }, func(q *svxParams) { q.Store = 1 }, func(q *svxParams) { q.Gray = 0 }, func(q *svxParams) { q.Fill = 1 },
			} {
				q := p
				f(&q)
				if q != p {
					out = append(out, q)
				}
			}
			return out
		},
	})
}
