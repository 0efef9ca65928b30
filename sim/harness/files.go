package harness

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"strings"
	"time"

	rt "ZZSIM/rt"
	zos "ZZSIM/std/os"

	"ZZMOD/binvox"
	"ZZMOD/stl"
	"ZZMOD/vshell"
	gl "ZZSIM/fauxgl"
)

const longWait = 6 * 3600e9

// lib runs f as process name on h and reports whether it ended by itself,
// returning normally; crashes and hangs are violations of prop.
func lib(c *Ctx, prop string, h *rt.Host, name string, f func()) bool {
	p := runLib(h, name, f)
	if !rt.WaitProcFor(p, longWait) {
		c.Viol(prop, "hang", "%s did not return", name)
		return false
	}
	if ci, st := p.CrashInfo(); ci != "" {
		c.Viol(prop, "crash", "%s crashed: %s\n%s", name, ci, st)
		return false
	}
	return p.Killed() == ""
}

// leftBehind tells how many goroutines f leaves running.
func leftBehind(f func()) int {
	p := rt.Cur()
	before := rt.TasksOf(p)
	f()
	for i := 0; i < 8 && rt.TasksOf(p) > before; i++ {
		rt.Sleep(time.Duration(1<<(3*i)) * time.Millisecond)
	}
	return rt.TasksOf(p) - before
}

// --- random models ---

// boxModel describes a random voxel model.
type boxModel struct {
	N    [3]int     `json:"n"`
	T    [3]float64 `json:"t"`
	VS   float64    `json:"vs"` // voxel size in mm
	Fill int        `json:"fill"`
	Seed uint64     `json:"seed"`
}

func (m boxModel) scale() float64 { return m.VS * float64(max(m.N[0], m.N[1], m.N[2])) }

// vox makes the voxels: dense, sparse, layers, blocks or single ones.
func (m boxModel) vox() vset {
	r := rt.NewRand(m.Seed)
	out := vset{}
	put := func(x, y, z int) {
		if x >= 0 && y >= 0 && z >= 0 && x < m.N[0] && y < m.N[1] && z < m.N[2] {
			out[[3]int{x, y, z}] = true
		}
	}
	all := func(f func(x, y, z int) bool) {
		for x := 0; x < m.N[0]; x++ {
			for y := 0; y < m.N[1]; y++ {
				for z := 0; z < m.N[2]; z++ {
					if f(x, y, z) {
						put(x, y, z)
					}
				}
			}
		}
	}
	switch m.Fill {
	case 0:
	case 1:
		all(func(x, y, z int) bool { return true })
	case 2:
		all(func(x, y, z int) bool { return r.Chance(0.5) })
	case 3:
		for i := 0; i < 1+r.Intn(4); i++ {
			put(r.Intn(m.N[0]), r.Intn(m.N[1]), r.Intn(m.N[2]))
		}
	case 4:
		a := r.Intn(3)
		k := 1 + r.Intn(3)
		all(func(x, y, z int) bool { return [3]int{x, y, z}[a]/k%2 == 0 })
	default:
		for i := 0; i < 1+r.Intn(3); i++ {
			var lo, hi [3]int
			for a := range lo {
				lo[a] = r.Intn(m.N[a])
				hi[a] = lo[a] + 1 + r.Intn(m.N[a]-lo[a])
			}
			all(func(x, y, z int) bool {
				v := [3]int{x, y, z}
				for a := range v {
					if v[a] < lo[a] || v[a] >= hi[a] {
						return false
					}
				}
				return true
			})
		}
	}
	return out
}

func (m boxModel) bv() *binvox.BinVOX {
	b := &binvox.BinVOX{NX: m.N[0], NY: m.N[1], NZ: m.N[2], TX: m.T[0], TY: m.T[1], TZ: m.T[2], Scale: m.scale(), WhiteVoxels: binvox.WhiteVoxelMap{}}
	for _, k := range sortedVox(m.vox()) {
		b.Add(k[0], k[1], k[2])
	}
	return b
}

func (m boxModel) file() *boxFile {
	f := &boxFile{N: m.N, T: m.T, Scale: m.scale(), Vox: m.vox()}
	return f
}

func sortedVox(s vset) [][3]int {
	out := make([][3]int, 0, len(s))
	for k := range s {
		out = append(out, k)
	}
	sortKeys(out)
	return out
}

func genBoxModel(r *rt.Rand, big int, empty bool) boxModel {
	m := boxModel{Seed: r.Uint64(), VS: []float64{1, 0.5, 0.125, 0.1, 3}[r.Intn(5)]}
	for i := range m.N {
		m.N[i] = 1 + r.Intn(big)
		if r.Chance(0.25) {
			m.T[i] = float64(r.Intn(2000)-1000) * m.VS
		} else if r.Chance(0.3) {
			m.T[i] = (r.Float() - 0.5) * 100
		}
	}
	if r.Chance(0.2) { // long runs
		a := []int{1, 1, 1, 0, 2}[r.Intn(5)]
		for i := range m.N {
			m.N[i] = 1 + r.Intn(3)
		}
		m.N[a] = 200 + r.Intn(120)
		if r.Chance(0.3) {
			m.N[a] = []int{255, 256, 257, 258, 511}[r.Intn(5)]
		}
	}
	lo := 1
	if empty {
		lo = 0
	}
	m.Fill = lo + r.Intn(6-lo)
	return m
}

func (m boxModel) shrink() []boxModel {
	var out []boxModel
	for i := range m.N {
		if m.N[i] > 1 {
			q := m
			q.N[i] /= 2
			out = append(out, q)
			q = m
			q.N[i]--
			out = append(out, q)
		}
		if m.T[i] != 0 {
			q := m
			q.T[i] = 0
			out = append(out, q)
		}
	}
	if m.Fill > 1 {
		q := m
		q.Fill = 1
		out = append(out, q)
	}
	if m.VS != 1 {
		q := m
		q.VS = 1
		out = append(out, q)
	}
	return out
}

// bvDiff compares a model that was read with what was written.
func bvDiff(m boxModel, b *binvox.BinVOX) string {
	if b == nil {
		return "no model"
	}
	want := m.vox()
	if len(want) > 0 && (b.NX != m.N[0] || b.NY != m.N[1] || b.NZ != m.N[2]) {
		return fmt.Sprintf("dimensions (%d,%d,%d), want %v", b.NX, b.NY, b.NZ, m.N)
	}
	if b.TX != m.T[0] || b.TY != m.T[1] || b.TZ != m.T[2] || b.Scale != m.scale() {
		return fmt.Sprintf("placement (%v,%v,%v) scale %v, want %v scale %v", b.TX, b.TY, b.TZ, b.Scale, m.T, m.scale())
	}
	return diffSets(want, whites(b.WhiteVoxels))
}

// --- scenario: writing and reading a binvox or vshell file ---

type fileParams struct {
	Kind  string   `json:"kind"` // binvox, vshell
	Model boxModel `json:"model"`
	Masks int      `json:"masks"` // vshell: 0 random masks, 1 real shell, 2 all neighbourless
	Old   int      `json:"old"`   // 0 nothing, 1 another model, 2 garbage, 3 the leftovers of a crash
	Twice bool     `json:"twice"` // write again after a failure
	Full  int64    `json:"full"`  // free space in bytes (0: plenty)
	Win   [6]int   `json:"win"`   // start indices and counts that are written (all 0: everything)
}

// windowed tells whether only a part of the model is written.
func (p fileParams) windowed() bool { return p.Win != [6]int{} }

// dims is the size of what is written.
func (p fileParams) dims() [3]int {
	n := p.Model.N
	for i := range n {
		if c := p.Win[3+i]; c > 0 {
			n[i] = c
		}
	}
	return n
}

// in moves a voxel of the model into the part that is written.
func (p fileParams) in(k [3]int) ([3]int, bool) {
	n := p.dims()
	for i := range k {
		k[i] -= p.Win[i]
		if k[i] < 0 || k[i] >= n[i] {
			return k, false
		}
	}
	return k, true
}

// vox is the set of the voxels that are written.
func (p fileParams) vox() map[[3]int]bool {
	out := map[[3]int]bool{}
	for k := range p.Model.vox() {
		if k, ok := p.in(k); ok {
			out[k] = true
		}
	}
	return out
}

// oldOutput is the content of an output file before the run: shorter or longer than what replaces it.
func oldOutput(n uint64) []byte {
	b := []byte("old content of the output\n")
	if n%2 == 0 {
		return bytes.Repeat(b, 8000)
	}
	return b
}

// shellVoxels makes the voxels of a vshell for the model.
func (p fileParams) shellVoxels() []vshell.VShVoxel {
	r := rt.NewRand(p.Model.Seed ^ 0x55)
	vs := p.Model.vox()
	var out []vshell.VShVoxel
	for _, k := range sortedVox(vs) {
		var n uint32
		switch p.Masks {
		case 0:
			n = uint32(r.Uint64()) & 0x7ffdfff
		case 1:
			n = maskOf(vs, k)
		case 3: // a few repeated masks, so that there are runs
			n = []uint32{0, 1, 0x7ffdfff, 0x3000, 0x100}[r.Intn(10)/4] & 0x7ffdfff
		}
		if p.Masks != 1 && r.Chance(0.1) {
			n = 0
		}
		out = append(out, vshell.VShVoxel{X: k[0], Y: k[1], Z: k[2], N: vshell.NeighborBitMap(n)})
	}
	r2 := rt.NewRand(p.Model.Seed ^ 0x77)
	for i := range out { // the order does not matter
		j := i + r2.Intn(len(out)-i)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// maskOf is the neighbour mask of voxel k in the set.
func maskOf(s vset, k [3]int) uint32 {
	var n uint32
	bit := 0
	for dx := -1; dx <= 1; dx++ {
		for dy := -1; dy <= 1; dy++ {
			for dz := -1; dz <= 1; dz++ {
				if (dx != 0 || dy != 0 || dz != 0) && s[[3]int{k[0] + dx, k[1] + dy, k[2] + dz}] {
					n |= 1 << bit
				}
				bit++
			}
		}
	}
	return n
}

func (p fileParams) vsh() *vshell.VShell {
	m := p.Model
	return &vshell.VShell{NX: m.N[0], NY: m.N[1], NZ: m.N[2], TX: m.T[0], TY: m.T[1], TZ: m.T[2], Scale: m.scale(), Voxels: p.shellVoxels()}
}

// vshDiff compares a vshell that was read with what was written.
func (p fileParams) vshDiff(v *vshell.VShell) string {
	m := p.Model
	if v == nil {
		return "no model"
	}
	want := map[[3]int]uint32{}
	for _, x := range p.shellVoxels() {
		if k, ok := p.in([3]int{x.X, x.Y, x.Z}); ok {
			want[k] = uint32(x.N)
		}
	}
	if n := p.dims(); len(want) > 0 && (v.NX != n[0] || v.NY != n[1] || v.NZ != n[2]) {
		return fmt.Sprintf("dimensions (%d,%d,%d), want %v", v.NX, v.NY, v.NZ, n)
	}
	if !p.windowed() && (v.TX != m.T[0] || v.TY != m.T[1] || v.TZ != m.T[2] || v.Scale != m.scale()) {
		return fmt.Sprintf("placement (%v,%v,%v) scale %v, want %v scale %v", v.TX, v.TY, v.TZ, v.Scale, m.T, m.scale())
	}
	return diffMasks(want, v.Voxels)
}

func diffMasks(want map[[3]int]uint32, got []vshell.VShVoxel) string {
	g := map[[3]int]uint32{}
	for _, x := range got {
		k := [3]int{x.X, x.Y, x.Z}
		if _, ok := g[k]; ok {
			return fmt.Sprintf("voxel %v twice", k)
		}
		g[k] = uint32(x.N)
	}
	a, b := vset{}, vset{}
	for k := range want {
		a[k] = true
	}
	for k := range g {
		b[k] = true
	}
	if d := diffSets(a, b); d != "" {
		return d
	}
	for _, k := range sortedVox(a) {
		if want[k] != g[k] {
			return fmt.Sprintf("voxel %v has neighbours %#x, want %#x", k, g[k], want[k])
		}
	}
	return ""
}

// write writes the model in the current process.
func (p fileParams) write(name string) error {
	w := p.Win
	if p.Kind == "vshell" {
		return p.vsh().Write(name, w[0], w[1], w[2], w[3], w[4], w[5])
	}
	return p.Model.bv().Write(name, w[0], w[1], w[2], w[3], w[4], w[5])
}

// read reads the file in the current process and compares it.
func (p fileParams) read(name string) (error, string) {
	if p.Kind == "vshell" {
		v, err := vshell.Read(name, 0, 0, 0, 0, 0, 0)
		if err != nil {
			return err, ""
		}
		return nil, p.vshDiff(v)
	}
	b, err := binvox.Read(name, 0, 0, 0, 0, 0, 0)
	if err != nil {
		return err, ""
	}
	if !p.windowed() {
		return nil, bvDiff(p.Model, b)
	}
	want := p.vox()
	if n := p.dims(); len(want) > 0 && (b == nil || b.NX != n[0] || b.NY != n[1] || b.NZ != n[2]) {
		return nil, fmt.Sprintf("not the dimensions %v", n)
	}
	if b == nil {
		return nil, "no model"
	}
	return nil, diffSets(want, whites(b.WhiteVoxels))
}

func fileRun(c *Ctx, raw json.RawMessage) {
	p := decode[fileParams](raw)
	prop := map[string]string{"binvox": "C11", "vshell": "C12"}[p.Kind]
	h := rt.NewHost("box", "10.0.0.1")
	name := "/work/model.bin"
	var old []byte
	hasOld := p.Old == 1 || p.Old == 2
	switch p.Old {
	case 1:
		q := p.Model
		q.Seed++
		q.Fill = 5
		q.N = [3]int{9, 9, 9}
		old = binvoxBytes(q.file())
	case 2:
		old = bytes.Repeat([]byte("old content\n"), 40)
	}
	if hasOld {
		h.PutFile(name, old)
	}
	h.SyncAll()
	if p.Full > 0 {
		h.SetCapacity(p.Full)
	}

	// verify tells whether the file is complete and new.
	verify := func(h *rt.Host) (ok bool, why string) {
		var err error
		var d string
		if !lib(c, prop, h, "verify", func() { err, d = p.read(name) }) {
			return false, "the reader failed"
		}
		if err != nil {
			return false, "reading it fails: " + err.Error()
		}
		if d != "" {
			return false, d
		}
		if p.Kind == "binvox" {
			b, _ := h.GetFile(name)
			f, err := parseBinvox(b)
			if err != nil {
				return false, "independent reader: " + err.Error()
			}
			if d := diffSets(p.vox(), f.Vox); d != "" {
				return false, "independent reader: " + d
			}
			if len(f.Vox) > 0 && (f.N != p.dims() || !p.windowed() && (f.T != p.Model.T || f.Scale != p.Model.scale())) {
				return false, fmt.Sprintf("independent reader: header %v %v %v", f.N, f.T, f.Scale)
			}
		}
		return true, ""
	}

	tries := 1
	if p.Twice {
		tries = 2
	}
	for try := 0; try < tries; try++ {
		var err error
		returned, left := false, 0
		pr := runLib(h, "writer", func() {
			left = leftBehind(func() { err = p.write(name) })
			returned = true
		})
		if !rt.WaitProcFor(pr, longWait) {
			c.Viol(prop, "hang", "Write did not return")
			return
		}
		if ci, st := pr.CrashInfo(); ci != "" {
			c.Viol(prop, "crash", "Write crashed: %s\n%s", ci, st)
			return
		}
		if left > 0 && p.Kind == "vshell" {
			c.Viol(prop, "goroutine-leak", "Write (error %v) left %d goroutine(s) behind", err, left)
		}
		power := rt.FaultFired("powerloss")
		success := returned && err == nil
		if try == 0 && !c.Faulty() && p.Full == 0 && returned && err != nil {
			c.Viol(prop, "spurious-error", "Write failed although nothing was wrong: %v", err)
		}
		got, exists := h.GetFile(name)
		isOld := exists == hasOld && (!hasOld || bytes.Equal(got, old))
		switch {
		case success && !power:
			if ok, why := verify(h); !ok {
				c.Viol(prop, "incomplete", "Write reported success but the file is not the complete model: %s", why)
			}
			c.Probe("write-succeeded")
			if p.windowed() {
				c.Probe("write-part")
			}
		default:
			c.Probe("write-failed")
			if isOld {
				c.Probe("old-content-kept")
				break
			}
			if ok, why := verify(h); !ok {
				c.Viol(prop, "torn", "after a failed or interrupted Write (error %v, killed %q) the target is neither the old content nor the complete model: %s", err, pr.Killed(), why)
			} else {
				c.Probe("new-content-after-failure")
			}
		}
		if success {
			break
		}
		h.SetCapacity(-1)
	}
	if len(c.Out.Viols) > 0 {
		return
	}
	// read under faults
	if _, ok := h.GetFile(name); !ok {
		return
	}
	if ok, _ := verify(h); !ok {
		return
	}
	var rerr error
	var d string
	left := 0
	pr := runLib(h, "reader", func() { left = leftBehind(func() { rerr, d = p.read(name) }) })
	if !rt.WaitProcFor(pr, longWait) {
		c.Viol(prop, "hang", "Read did not return")
		return
	}
	if ci, st := pr.CrashInfo(); ci != "" {
		c.Viol(prop, "crash", "Read crashed: %s\n%s", ci, st)
		return
	}
	if pr.Killed() == "" {
		if rerr == nil && d != "" {
			c.Viol(prop, "bad-read", "Read returned a model that is not the file's: %s", d)
		}
		if left > 0 && p.Kind == "vshell" {
			c.Viol(prop, "goroutine-leak", "Read (error %v) left %d goroutine(s) behind", rerr, left)
		}
		c.Probe("read-checked")
		if rerr != nil {
			c.Probe("read-error-reported")
		}
	}
}

func genFile(kind string) func(r *rt.Rand, tier string) any {
	return func(r *rt.Rand, tier string) any {
		big := 9
		if tier == "thorough" && r.Chance(0.3) {
			big = 24
		}
		p := fileParams{Kind: kind, Model: genBoxModel(r, big, true), Old: r.Intn(3), Twice: r.Chance(0.4)}
		if r.Chance(0.008) { // runs that do not fit 16 bits
			p.Model.N = [3]int{1 + r.Intn(6), 300 + r.Intn(40), 0}
			p.Model.N[2] = (66_000+r.Intn(80_000))/(p.Model.N[0]*p.Model.N[1]) + 1
			p.Model.Fill = []int{1, 3, 5}[r.Intn(3)]
		}
		if r.Chance(0.15) {
			p.Full = int64(1 + r.Intn(3000))
		}
		if kind == "vshell" {
			p.Masks = r.Intn(4)
			if r.Chance(0.04) { // empty runs beyond 65535 voxels
				p.Model.N = [3]int{40 + r.Intn(30), 40 + r.Intn(30), 50 + r.Intn(30)}
				p.Model.Fill = 3
			}
		}
		if r.Chance(0.25) { // only a part of the model
			for i, n := range p.Model.N {
				if n > 0 && r.Chance(0.6) {
					p.Win[i] = r.Intn(n)
					p.Win[3+i] = 1 + r.Intn(n-p.Win[i])
				}
			}
		}
		return p
	}
}

var fsFaults = []FaultKind{
	{Class: "fs.write", Proc: "writer", Actions: []string{"enospc", "eio", "crash", "powerloss"}, Weight: 4},
	{Class: "fs.write", Proc: "writer", Actions: []string{"short"}, Args: []int64{0, 1, 5, 50, 400}, Weight: 2},
	{Class: "fs.create", Proc: "writer", Actions: []string{"eacces", "enospc", "emfile", "crash", "powerloss"}, Weight: 1},
	{Class: "fs.open", Proc: "writer", Actions: []string{"eacces", "emfile", "crash"}, Weight: 1},
	{Class: "fs.sync", Proc: "writer", Actions: []string{"eio", "enospc", "crash", "powerloss"}, Weight: 2},
	{Class: "fs.close", Proc: "writer", Actions: []string{"eio", "enospc", "crash", "powerloss"}, Weight: 3},
	{Class: "fs.rename", Proc: "writer", Actions: []string{"eio", "eacces", "crash", "powerloss"}, Weight: 2},
	{Class: "fs.remove", Proc: "writer", Actions: []string{"eio", "crash"}, Weight: 1},
	{Class: "fs.stat", Proc: "writer", Actions: []string{"eio", "eacces"}, Weight: 1},
	{Class: "fs.write", Proc: "writer", Actions: []string{"diskfull"}, Args: []int64{0, 10, 100, 1000}, Weight: 1},
	{Class: "time", Proc: "writer", Actions: []string{"crash", "powerloss"}, Weight: 2},
	{Class: "sched", Proc: "writer", Actions: []string{"crash", "powerloss"}, Weight: 2},
	{Class: "fs.read", Proc: "reader", Actions: []string{"eio"}, Weight: 4},
	{Class: "fs.open", Proc: "reader", Actions: []string{"eacces", "emfile", "eio"}, Weight: 1},
}

// --- scenario: damaged files ---

type damageParams struct {
	Kind  string   `json:"kind"`
	Model boxModel `json:"model"`
	Masks int      `json:"masks"`
	Op    []dmg    `json:"op"`
	Win   [6]int   `json:"win"`
}

type dmg struct {
	Op string  `json:"op"` // cut, zero, flip, set, ins, del, head, grow
	At float64 `json:"at"`
	N  int     `json:"n"`
	V  int     `json:"v"`
}

var headWords = []string{"0 0 0", "-1 2 3", "999999 1 1", "1 1 1", "3 3", "4294967297 1 1", "99999999999999999999 1 1", "2147483647 2147483647 2147483647", "0 5 5", "5 0 5", "5 5 0", "x y z", "1e3 1 1", "9223372036854775807 9223372036854775807 9223372036854775807"}

func (d dmg) apply(b []byte) []byte {
	if len(b) == 0 {
		return b
	}
	at := int(d.At * float64(len(b)))
	if at >= len(b) {
		at = len(b) - 1
	}
	o := append([]byte{}, b...)
	switch d.Op {
	case "cut":
		return o[:at]
	case "zero":
		for i := at; i < len(o) && i < at+d.N; i++ {
			o[i] = 0
		}
	case "flip":
		o[at] ^= 1 << (d.V & 7)
	case "set":
		o[at] = byte(d.V)
	case "ins":
		return append(o[:at:at], append(bytes.Repeat([]byte{byte(d.V)}, d.N), b[at:]...)...)
	case "del":
		return append(o[:at:at], b[min(len(b), at+d.N):]...)
	case "head": // other dimensions
		s := string(o)
		i := strings.Index(s, "\ndim ")
		if i < 0 {
			return o
		}
		j := strings.Index(s[i+1:], "\n")
		if j < 0 {
			return o
		}
		return []byte(s[:i+5] + headWords[d.V%len(headWords)] + s[i+1+j:])
	case "num": // other translation or scale
		s := string(o)
		i := strings.Index(s, []string{"\ntranslate ", "\nscale "}[d.V&1])
		if i < 0 {
			return o
		}
		j := strings.Index(s[i+1:], " ")
		return []byte(s[:i+2+j] + []string{"NaN", "1e999", "-0", "0x1p-2", "..", "1 2"}[d.N%6] + s[i+2+j:])
	}
	return o
}

var declaredRE = regexp.MustCompile(`^dim (0|[1-9]\d*) (0|[1-9]\d*) (0|[1-9]\d*)$`)

func damageRun(c *Ctx, raw json.RawMessage) {
	p := decode[damageParams](raw)
	h := rt.NewHost("box", "10.0.0.1")
	fp := fileParams{Kind: p.Kind, Model: p.Model, Masks: p.Masks}
	// the valid file, made by the code under test
	var err error
	if !lib(c, "C13", h, "maker", func() { err = fp.write("/work/valid") }) {
		return
	}
	if err != nil {
		c.Viol("C13", "error", "writing a valid model failed: %v", err)
		return
	}
	valid, _ := h.GetFile("/work/valid")
	bad := valid
	grow := false
	for _, d := range p.Op {
		if d.Op == "grow" {
			grow = true
			continue
		}
		bad = d.apply(bad)
	}
	prefix := bytes.HasPrefix(valid, bad)
	if grow { // being written while it is read
		bad2 := bad
		h.PutFile("/work/bad", nil)
		w := runLib(h, "grower", func() {
			f, err := openAppend("/work/bad")
			if err != nil {
				return
			}
			for len(bad2) > 0 {
				n := 1 + rt.Env().Intn(40)
				if n > len(bad2) {
					n = len(bad2)
				}
				f.Write(bad2[:n])
				bad2 = bad2[n:]
			}
			f.Close()
		})
		defer func() { rt.WaitProcFor(w, longWait) }()
	} else {
		h.PutFile("/work/bad", bad)
	}
	type vox struct {
		k [3]int
		n uint32
	}
	var got []vox
	var n [3]int
	w := p.Win
	var rerr error
	if !lib(c, "C13", h, "reader", func() {
		if p.Kind == "vshell" {
			v, err := vshell.Read("/work/bad", w[0], w[1], w[2], w[3], w[4], w[5])
			if rerr = err; err == nil {
				n = [3]int{v.NX, v.NY, v.NZ}
				for _, x := range v.Voxels {
					got = append(got, vox{[3]int{x.X, x.Y, x.Z}, uint32(x.N)})
				}
			}
			return
		}
		b, err := binvox.Read("/work/bad", w[0], w[1], w[2], w[3], w[4], w[5])
		if rerr = err; err == nil {
			n = [3]int{b.NX, b.NY, b.NZ}
			for k := range b.WhiteVoxels {
				got = append(got, vox{[3]int{k.X, k.Y, k.Z}, 0})
			}
		}
	}) {
		return
	}
	if rerr != nil {
		c.Probe("damage-rejected")
		if len(p.Op) == 0 && w[0] < p.Model.N[0] && w[1] < p.Model.N[1] && w[2] < p.Model.N[2] && len(p.Model.vox()) > 0 {
			c.Viol("C13", "valid-rejected", "reading window %v of an undamaged file failed: %v", w, rerr)
		}
		return
	}
	c.Probe("damage-accepted")
	if l := strings.SplitN(string(bad), "\n", 3); len(l) == 3 {
		if d := declaredRE.FindStringSubmatch(l[1]); d != nil && strings.Join(d[1:], " ") != fmt.Sprintf("%d %d %d", n[0], n[1], n[2]) {
			c.Viol("C13", "other-dims", "a file that declares the dimensions %q was accepted as a model of %v", l[1], n)
		}
	}
	if prefix && !grow && insideRun(p.Kind, bad) {
		c.Viol("C13", "torn-accepted", "a file that ends inside its header or a run (after %d of %d bytes) was accepted as a model", len(bad), len(valid))
	}
	ok := vset{}
	mask := map[[3]int]uint32{}
	if p.Kind == "vshell" {
		for _, x := range fp.shellVoxels() {
			ok[[3]int{x.X, x.Y, x.Z}] = true
			mask[[3]int{x.X, x.Y, x.Z}] = uint32(x.N)
		}
	} else {
		ok = p.Model.vox()
	}
	seen := 0
	for _, v := range got {
		for a := range v.k {
			if v.k[a] < 0 || v.k[a] >= n[a] {
				c.Viol("C13", "out-of-dims", "voxel %v lies outside the declared dimensions %v", v.k, n)
			}
			if v.k[a] < w[a] || w[3+a] > 0 && v.k[a] >= w[a]+w[3+a] {
				c.Viol("C13", "out-of-window", "voxel %v lies outside the requested window %v", v.k, w)
			}
		}
		if prefix && !ok[v.k] {
			c.Viol("C13", "invented", "voxel %v is not in the valid file of which a prefix was read", v.k)
		}
		if prefix && p.Kind == "vshell" && mask[v.k] != v.n {
			c.Viol("C13", "invented-mask", "voxel %v has neighbours %#x, %#x in the valid file of which a prefix was read", v.k, v.n, mask[v.k])
		}
		seen++
	}
	if len(p.Op) == 0 { // undamaged: the window must be complete
		cnt := 0
		for k := range ok {
			in := true
			for a := range k {
				in = in && k[a] >= w[a] && (w[3+a] == 0 || k[a] < w[a]+w[3+a])
			}
			if in {
				cnt++
			}
		}
		if cnt != seen {
			c.Viol("C13", "window-incomplete", "window %v of a valid file has %d voxels, %d were returned", w, cnt, seen)
		}
	}
	if prefix {
		c.Probe("prefix-read")
	}
}

// insideRun tells whether a prefix of a valid file ends inside its header or a run.
func insideRun(kind string, b []byte) bool {
	i := bytes.Index(b, []byte("\ndata\n"))
	if i < 0 {
		return true
	}
	b = b[i+6:]
	if kind == "binvox" {
		return len(b)%2 != 0
	}
	for len(b) > 0 {
		n := 5
		if len(b) >= 4 {
			if v := binary.LittleEndian.Uint32(b); v == 0 || v == 0xffffffff {
				n = 6
			}
		}
		if len(b) < n {
			return true
		}
		b = b[n:]
	}
	return false
}

func genDamage(r *rt.Rand, tier string) any {
	p := damageParams{Kind: []string{"binvox", "vshell"}[r.Intn(2)], Model: genBoxModel(r, 8, true), Masks: r.Intn(4)}
	n := r.Intn(4)
	for i := 0; i < n; i++ {
		d := dmg{Op: []string{"cut", "cut", "cut", "zero", "flip", "set", "ins", "del", "head", "num"}[r.Intn(10)], At: r.Float(), N: 1 + r.Intn(60), V: r.Intn(256)}
		if r.Chance(0.5) && len(p.Model.vox()) > 0 { // hit the end of the header or the data
			d.At = 0.3 + 0.7*r.Float()
		}
		if d.Op == "zero" && r.Chance(0.5) {
			d.N = 512
		}
		p.Op = append(p.Op, d)
	}
	if n == 1 && r.Chance(0.3) {
		p.Op = []dmg{{Op: "cut", At: r.Float()}}
	}
	if r.Chance(0.2) {
		p.Op = append(p.Op, dmg{Op: "grow"})
	}
	if r.Chance(0.6) {
		for a := 0; a < 3; a++ {
			if r.Chance(0.6) {
				p.Win[a] = r.Intn(p.Model.N[a] + 1)
			}
			if r.Chance(0.6) {
				p.Win[3+a] = r.Intn(p.Model.N[a] + 3)
			}
		}
	}
	return p
}

// --- scenario: merging STL files with a worker pool ---

type stlIn struct {
	Tris  int     `json:"tris"`
	ASCII bool    `json:"ascii,omitempty"`
	Bad   string  `json:"bad,omitempty"` // missing, cut, empty, dir, vertex
	At    float64 `json:"at,omitempty"`
	Style int     `json:"style,omitempty"` // how the file is formatted; see stlStyled
}

type mergeParams struct {
	Files   []stlIn `json:"files"`
	Workers int     `json:"workers"`
	Dup     bool    `json:"dup,omitempty"` // the first file twice
}

// manyTris is a file with more triangles than 16 bits can count.
func manyTris(r *rt.Rand) stlIn { return stlIn{Tris: 65530 + r.Intn(20)} }

// manyTrisCfg keeps runs with such files short.
func manyTrisCfg(fs []stlIn, c *PlanCfg) {
	for _, f := range fs {
		if f.Tris > 60_000 {
			c.ReadChunk, c.MaxSteps = 0, 30_000_000
		}
	}
}

// stlTris makes the triangles of file i, all distinct.
func stlTris(i, n int) []tri {
	var out []tri
	for j := 0; j < n; j++ {
		x := float64(i*1000 + j)
		out = append(out, tri{{x, 0, float64(j)}, {x + 1, 0.5, float64(j)}, {x, 1, float64(j) + 0.25}})
	}
	return out
}

// put stores the file; it reports whether a reader must fail.
func (s stlIn) put(h *rt.Host, name string, ts []tri) (bad bool) {
	b := stlStyled(ts, s.ASCII, s.Style)
	switch s.Bad {
	case "missing":
		return true
	case "dir":
		h.Mkdir(name)
		return true
	case "empty":
		h.PutFile(name, nil)
		return true
	case "cut":
		at := int(s.At * float64(len(b)-12))
		if s.ASCII { // somewhere before the closing line
			end := bytes.LastIndex(b, []byte("endsolid"))
			at = min(at, end-1)
			if beg := bytes.LastIndex(b, []byte("solid t")); beg >= 0 && beg < end { // in the second solid
				at = max(at, beg+len("solid t "))
			}
		}
		h.PutFile(name, b[:at])
		return true
	case "vertex":
		if s.ASCII && len(ts) > 0 {
			b = bytes.Replace(b, []byte("vertex "), []byte("vertex q"), 1)
			h.PutFile(name, b)
			return true
		}
	}
	h.PutFile(name, b)
	return false
}

func triKey(t tri) string { return fmt.Sprint(t) }

func meshTris(m *gl.Mesh) []tri {
	if m == nil {
		return nil
	}
	var out []tri
	for _, t := range m.Triangles {
		var q tri
		for i, v := range []gl.Vector{t.V1.Position, t.V2.Position, t.V3.Position} {
			q[i] = vec{v.X, v.Y, v.Z}
		}
		out = append(out, q)
	}
	return out
}

// diffTris compares triangles as multisets.
func diffTris(want, got []tri) string {
	n := map[string]int{}
	for _, t := range want {
		n[triKey(t)]++
	}
	for _, t := range got {
		n[triKey(t)]--
	}
	miss, extra := 0, 0
	ex := ""
	for _, t := range append(append([]tri{}, want...), got...) {
		k := triKey(t)
		if n[k] > 0 {
			miss += n[k]
		} else {
			extra -= n[k]
		}
		if n[k] != 0 && ex == "" {
			ex = k
		}
		n[k] = 0
	}
	if miss+extra == 0 {
		return ""
	}
	return fmt.Sprintf("%d triangles missing, %d too many (of %d), e.g. %s", miss, extra, len(want), ex)
}

func mergeRun(c *Ctx, raw json.RawMessage) {
	p := decode[mergeParams](raw)
	h := rt.NewHost("box", "10.0.0.1")
	var names []string
	var want []tri
	mustFail, mayFail := false, false
	for i, f := range p.Files {
		name := fmt.Sprintf("/work/part-%d.stl", i)
		ts := stlTris(i, f.Tris)
		if f.put(h, name, ts) {
			mustFail = true
		}
		mayFail = mayFail || f.ASCII && f.Style == styleLong
		names = append(names, name)
		want = append(want, ts...)
	}
	if p.Dup && len(names) > 0 {
		names = append(names, names[0])
		want = append(want, stlTris(0, p.Files[0].Tris)...)
	}
	var mesh *gl.Mesh
	var err error
	left := 0
	pr := runLib(h, "merger", func() {
		left = leftBehind(func() { mesh, err = stl.Merge(names, p.Workers) })
	})
	if !rt.WaitProcFor(pr, longWait) {
		c.Viol("C10", "hang", "Merge of %d files with %d workers did not return", len(names), p.Workers)
		return
	}
	if ci, st := pr.CrashInfo(); ci != "" {
		c.Viol("C10", "crash", "Merge crashed: %s\n%s", ci, st)
		return
	}
	if left > 0 {
		c.Viol("C10", "goroutine-leak", "Merge left %d goroutine(s) behind", left)
	}
	if m := pr.MaxOpenFiles(); m > p.Workers && p.Workers > 0 {
		c.Viol("C10", "too-many-open", "Merge with %d workers had %d files open at once", p.Workers, m)
	}
	switch {
	case err == nil && mustFail && len(names) > 0:
		c.Viol("C10", "error-lost", "Merge succeeded although a file cannot be read completely")
	case err == nil:
		if d := diffTris(want, meshTris(mesh)); d != "" {
			c.Viol("C10", "triangles", "Merge returned wrong triangles: %s", d)
		}
		c.Probe("merged")
		if p.Workers > 1 && len(names) > 1 {
			c.Probe("merged-concurrently")
		}
	default:
		c.Probe("merge-error")
		if !mustFail && !mayFail && !c.Faulty() && p.Workers > 0 {
			c.Viol("C10", "spurious-error", "Merge failed although nothing was wrong: %v", err)
		}
	}
}

func genMerge(r *rt.Rand, tier string) any {
	p := mergeParams{Workers: 1 + r.Intn(5), Dup: r.Chance(0.15)}
	n := r.Intn(9)
	if tier == "thorough" && r.Chance(0.2) {
		n = r.Intn(30)
	}
	if r.Chance(0.1) {
		p.Workers = []int{0, -1, 20, 1}[r.Intn(4)]
	}
	same := 0
	if r.Chance(0.2) { // as many triangles in every file
		same = 1 + r.Intn(40)
	}
	for i := 0; i < n; i++ {
		f := stlIn{Tris: 1 + r.Intn(6), ASCII: r.Chance(0.35)}
		if r.Chance(0.1) {
			f.Tris = 10 + r.Intn(150)
		}
		if r.Chance(0.25) {
			f.Style = r.Intn(styles)
		}
		if same > 0 {
			f.Tris = same
		}
		if !f.ASCII && r.Chance(0.15) {
			f.Tris = 0
		}
		p.Files = append(p.Files, f)
	}
	if n > 0 && r.Chance(0.005) {
		p.Files = p.Files[:min(n, 4)]
		n = len(p.Files)
		p.Files[r.Intn(n)] = manyTris(r)
	}
	if n > 0 && r.Chance(0.35) {
		for k := 0; k < 1+r.Intn(2); k++ {
			f := &p.Files[r.Intn(n)]
			f.Bad = []string{"missing", "cut", "cut", "empty", "dir", "vertex"}[r.Intn(6)]
			f.At = r.Float()
			if f.Tris == 0 {
				f.Tris = 1
			}
		}
	}
	return p
}

func openAppend(name string) (*zos.File, error) {
	return zos.OpenFile(name, os.O_WRONLY|os.O_APPEND, 0)
}

func init() {
	for _, k := range []string{"binvox", "vshell"} {
		k := k
		prop := map[string]string{"binvox": "C11", "vshell": "C12"}[k]
		register(&Scenario{
			Name: k + "file", Run: fileRun, Gen: genFile(k), Hang: prop, Race: prop,
			Kinds: func(json.RawMessage) []FaultKind { return fsFaults },
			Shrink: func(raw json.RawMessage) []any {
				p := decode[fileParams](raw)
				var out []any
				for _, m := range p.Model.shrink() {
					q := p
					q.Model = m
					out = append(out, q)
				}
				if p.Old > 0 {
					q := p
					q.Old = 0
					out = append(out, q)
				}
				if p.Twice {
					q := p
					q.Twice = false
					out = append(out, q)
				}
				if p.Masks > 0 {
					q := p
					q.Masks = 0
					out = append(out, q)
				}
				return out
			},
		})
	}
	register(&Scenario{
		Name: "damage", Run: damageRun, Gen: genDamage, Hang: "C13",
		Shrink: func(raw json.RawMessage) []any {
			p := decode[damageParams](raw)
			var out []any
			for i := range p.Op {
				q := p
				q.Op = append(append([]dmg{}, p.Op[:i]...), p.Op[i+1:]...)
				out = append(out, q)
			}
			for _, m := range p.Model.shrink() {
				q := p
				q.Model = m
				out = append(out, q)
			}
			for i := range p.Win {
				if p.Win[i] != 0 {
					q := p
					q.Win[i] = 0
					out = append(out, q)
				}
			}
			return out
		},
	})
	register(&Scenario{
		Name: "mergestl", Run: mergeRun, Gen: genMerge, Hang: "C10", Race: "C10",
		Kinds: func(json.RawMessage) []FaultKind {
			return []FaultKind{
				{Class: "fs.open", Proc: "merger", Actions: []string{"eio", "eacces", "emfile", "enoent"}, Weight: 2},
				{Class: "fs.read", Proc: "merger", Actions: []string{"eio"}, Weight: 3},
				{Class: "fs.stat", Proc: "merger", Actions: []string{"eio"}, Weight: 1},
			}
		},
		Cfg: func(r *rt.Rand, raw json.RawMessage, c *PlanCfg) {
			if r.Chance(0.2) {
				c.NumCPU = []int{16, 32, 64}[r.Intn(3)]
			}
			manyTrisCfg(decode[mergeParams](raw).Files, c)
		},
		Shrink: func(raw json.RawMessage) []any {
			p := decode[mergeParams](raw)
			var out []any
			for i := range p.Files {
				q := p
				q.Files = append(append([]stlIn{}, p.Files[:i]...), p.Files[i+1:]...)
				out = append(out, q)
			}
			if p.Workers > 1 {
				q := p
				q.Workers--
				out = append(out, q)
			}
			return out
		},
	})
}

func whiteMap(s vset) binvox.WhiteVoxelMap {
	o := binvox.WhiteVoxelMap{}
	for _, k := range sortedVox(s) {
		o[binvox.Key{X: k[0], Y: k[1], Z: k[2]}] = struct{}{}
	}
	return o
}
