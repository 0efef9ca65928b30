package harness

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"

	rt "ZZSIM/rt"
)

// --- scenario: voxcut ---

// cutIn is an input file of voxcut.
type cutIn struct {
	Fill int     `json:"fill"`
	Seed uint64  `json:"seed"`
	Bad  string  `json:"bad,omitempty"` // missing, dir, head, odd, empty
	At   float64 `json:"at,omitempty"`
	// A cut has the grid of the base unless N is set: then it has its own
	// size (0,0,0: like an empty model) and starts Off (+ Jit) voxels from the base.
	Own bool       `json:"own,omitempty"`
	N   [3]int     `json:"n,omitempty"`
	Off [3]int     `json:"off,omitempty"`
	Jit [3]float64 `json:"jit,omitempty"`
}

// model is the cutting model of a base, and its voxels in the base's grid.
func (q cutIn) model(base boxModel) (boxModel, vset) {
	m := base
	m.Fill, m.Seed = q.Fill, q.Seed
	if !q.Own {
		return m, m.vox()
	}
	m.N = q.N
	for a := range m.T {
		m.T[a] += (float64(q.Off[a]) + q.Jit[a]) * m.VS
	}
	if m.scale() == 0 {
		return m, vset{}
	}
	return m, shifted(m.vox(), [3]int{-q.Off[0], -q.Off[1], -q.Off[2]})
}

// genOwnGrid gives some cuts a grid of their own.
func (q *cutIn) genOwnGrid(r *rt.Rand, base boxModel) {
	if !r.Chance(0.4) {
		return
	}
	q.Own = true
	noise := []float64{0, 0, 0, 1e-7, 1e-3, 0.05}[r.Intn(6)]
	for a := range q.N {
		n := base.N[a]
		q.N[a] = n
		if r.Chance(0.6) {
			q.N[a] = 1 + r.Intn(n+3)
		}
		switch r.Intn(6) {
		case 0, 1: // aligned
		case 2:
			q.Off[a] = 1 + r.Intn(n+1)
		case 3:
			q.Off[a] = -1 - r.Intn(q.N[a]+1)
		case 4:
			q.Off[a] = r.Intn(3) - 1
		case 5:
			q.Off[a] = n - q.N[a]
		}
		q.Jit[a] = noise * (2*r.Float() - 1)
	}
	if r.Chance(0.05) {
		q.N = [3]int{}
	}
}

type voxcutParams struct {
	Base     boxModel `json:"base"`
	BaseBad  string   `json:"base_bad,omitempty"`
	At       float64  `json:"at,omitempty"`
	Cuts     []cutIn  `json:"cuts"`
	Out      [3]bool  `json:"out"` // binvox, vox, stl
	Win      [6]int   `json:"win"`
	Manifold bool     `json:"manifold,omitempty"`
	Smooth   bool     `json:"smooth,omitempty"`
	Old      bool     `json:"old,omitempty"`
	Pipe     bool     `json:"pipe,omitempty"` // the outputs are named pipes
	Dirs     bool     `json:"dirs,omitempty"` // the cuts have the name of the base and folders of their own
	Full     int64    `json:"full,omitempty"`
}

// putBinvox stores a model; it reports whether reading it must fail.
func putBinvox(h *rt.Host, name string, m boxModel, bad string, at float64) bool {
	b := binvoxBytes(m.file())
	head := bytes.Index(b, []byte("\ndata\n")) + 6
	switch bad {
	case "missing":
		return true
	case "dir":
		h.Mkdir(name)
		return true
	case "empty":
		b = nil
	case "head":
		b = b[:int(at*float64(head-1))]
	case "odd":
		pairs := (len(b) - head) / 2
		b = b[:head+2*int(at*float64(pairs))+1]
	default:
		h.PutFile(name, b)
		return false
	}
	h.PutFile(name, b)
	return true
}

// windowed are the voxels of the window (absolute indices).
func windowed(s vset, w [6]int) vset {
	out := vset{}
	for v := range s {
		ok := true
		for a := range v {
			ok = ok && v[a] >= w[a] && (w[3+a] == 0 || v[a] < w[a]+w[3+a])
		}
		if ok {
			out[v] = true
		}
	}
	return out
}

func shifted(s vset, d [3]int) vset {
	out := vset{}
	for v := range s {
		out[[3]int{v[0] - d[0], v[1] - d[1], v[2] - d[2]}] = true
	}
	return out
}

// parseVox is an independent reader of vox files.
func parseVox(b []byte) (vset, [3]int, error) {
	var size [3]int
	u := func(i int) int { return int(binary.LittleEndian.Uint32(b[i:])) }
	if len(b) < 8+12+12+12+12+4 || string(b[:4]) != "VOX " || string(b[8:12]) != "MAIN" {
		return nil, size, fmt.Errorf("no vox header (%d bytes)", len(b))
	}
	if u(12) != 0 || u(16) != len(b)-20 {
		return nil, size, fmt.Errorf("MAIN declares %d bytes of children, there are %d", u(16), len(b)-20)
	}
	if string(b[20:24]) != "SIZE" || u(24) != 12 || u(28) != 0 {
		return nil, size, fmt.Errorf("bad SIZE chunk")
	}
	for a := range size {
		size[a] = u(32 + 4*a)
	}
	if string(b[44:48]) != "XYZI" || u(48) != len(b)-56 || u(52) != 0 {
		return nil, size, fmt.Errorf("bad XYZI chunk")
	}
	n := u(56)
	if len(b) != 60+4*n {
		return nil, size, fmt.Errorf("%d voxels declared, %d bytes", n, len(b))
	}
	out := vset{}
	for i := 0; i < n; i++ {
		d := b[60+4*i:]
		k := [3]int{int(d[0]), int(d[1]), int(d[2])}
		if out[k] {
			return nil, size, fmt.Errorf("voxel %v twice", k)
		}
		for a := range k {
			if k[a] >= size[a] {
				return nil, size, fmt.Errorf("voxel %v outside the size %v", k, size)
			}
		}
		out[k] = true
	}
	return out, size, nil
}

// checkCutFiles checks the outputs of a successful voxcut.
func checkCutFiles(c *Ctx, prop string, h *rt.Host, m boxModel, want vset, w [6]int, bin, vox, stlf string, manifold bool) {
	start := [3]int{w[0], w[1], w[2]}
	rel := shifted(want, start)
	if bin != "" {
		b, ok := h.GetFile(bin)
		if !ok {
			c.Viol(prop, "binvox-missing", "voxcut succeeded, but %s does not exist", bin)
			return
		}
		f, err := parseBinvox(b)
		if err != nil {
			c.Viol(prop, "binvox-bad", "voxcut succeeded, but %s: %v", bin, err)
			return
		}
		if !f.Complete && len(rel) > 0 {
			c.Viol(prop, "binvox-incomplete", "voxcut succeeded, but %s is not complete", bin)
		}
		if d := diffSets(rel, f.Vox); d != "" {
			c.Viol(prop, "binvox-voxels", "voxcut wrote wrong voxels to %s (window %v): %s", bin, w, d)
		}
		if w == [6]int{} && len(rel) > 0 && (f.N != m.N || f.T != m.T || f.Scale != m.scale()) {
			c.Viol(prop, "binvox-header", "voxcut wrote header %v %v %v to %s, want %v %v %v", f.N, f.T, f.Scale, bin, m.N, m.T, m.scale())
		}
		c.Probe("cut-binvox")
	}
	if vox != "" {
		b, ok := h.GetFile(vox)
		if !ok {
			c.Viol(prop, "vox-missing", "voxcut succeeded, but %s does not exist", vox)
			return
		}
		v, _, err := parseVox(b)
		if err != nil {
			c.Viol(prop, "vox-bad", "voxcut succeeded, but %s: %v", vox, err)
			return
		}
		if d := diffSets(rel, v); d != "" {
			c.Viol(prop, "vox-voxels", "voxcut wrote wrong voxels to %s (window %v): %s", vox, w, d)
		}
		c.Probe("cut-vox")
	}
	if stlf != "" {
		b, ok := h.GetFile(stlf)
		if !ok {
			c.Viol(prop, "stl-missing", "voxcut succeeded, but %s does not exist", stlf)
			return
		}
		ts, err := parseSTL(b)
		if err != nil {
			c.Viol(prop, "stl-bad", "voxcut succeeded, but %s: %v", stlf, err)
			return
		}
		if manifold {
			var want2 []tri
			lib(c, prop, rt.NewHost("oracle", "10.0.3.1"), "oracle", func() {
				q := m.bv()
				q.WhiteVoxels = whiteMap(want)
				want2 = meshTris(q.ManifoldMesh())
			})
			if d := diffTris(canonTris(f32Tris(want2)), canonTris(ts)); d != "" {
				c.Viol(prop, "stl-manifold", "voxcut wrote a wrong mesh to %s (window %v): %s", stlf, w, d)
			}
		} else {
			lo, hi := [3]int{-1, -1, -1}, [3]int{m.N[0] + 1, m.N[1] + 1, m.N[2] + 1}
			got := insideVoxels(ts, vec(m.T), m.VS, lo, hi)
			if d := diffSets(want, got); d != "" {
				c.Viol(prop, "stl-solid", "the mesh voxcut wrote to %s (window %v) does not enclose the voxels: %s", stlf, w, d)
			}
		}
		c.Probe("cut-stl")
	}
}

func f32Tris(ts []tri) []tri {
	out := make([]tri, len(ts))
	for i, t := range ts {
		for j, v := range t {
			for k := range v {
				out[i][j][k] = float64(float32(v[k]))
			}
		}
	}
	return out
}

// canonTris rotates each triangle so that its least corner comes first.
func canonTris(ts []tri) []tri {
	out := make([]tri, len(ts))
	less := func(a, b vec) bool {
		for k := range a {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return false
	}
	for i, t := range ts {
		for less(t[1], t[0]) || less(t[2], t[0]) {
			t = tri{t[1], t[2], t[0]}
		}
		out[i] = t
	}
	return out
}

func voxcutRun(c *Ctx, raw json.RawMessage) {
	p := decode[voxcutParams](raw)
	h := rt.NewHost("box", "10.0.0.1")
	h.Mkdir("/work")
	mustFail := putBinvox(h, "/work/base.binvox", p.Base, p.BaseBad, p.At)
	want := windowed(p.Base.vox(), p.Win)
	var args []string
	outs := [3]string{"out.binvox", "out.vox", "out.stl"}
	for i, o := range []string{"-obinvox", "-ovox", "-ostl"} {
		if p.Out[i] {
			args = append(args, o, outs[i])
			if p.Old {
				h.PutFile("/work/"+outs[i], oldOutput(p.Base.Seed))
			}
			if p.Pipe {
				h.PutPipe("/work/" + outs[i])
			}
			outs[i] = "/work/" + outs[i]
		} else {
			outs[i] = ""
		}
	}
	for i, o := range []string{"-sx", "-sy", "-sz", "-cx", "-cy", "-cz"} {
		if p.Win[i] != 0 {
			args = append(args, o, strconv.Itoa(p.Win[i]))
		}
	}
	if p.Manifold {
		args = append(args, "-manifold")
	}
	if p.Smooth {
		args = append(args, "-smooth", "30")
	}
	args = append(args, "base.binvox")
	for i, q := range p.Cuts {
		n := fmt.Sprintf("cut%d.binvox", i)
		if p.Dirs {
			n = fmt.Sprintf("d%d/base.binvox", i)
			h.Mkdir(fmt.Sprintf("/work/d%d", i))
		}
		m, vox := q.model(p.Base)
		if putBinvox(h, "/work/"+n, m, q.Bad, q.At) {
			if q.Bad != "missing" {
				mustFail = true
			}
		} else {
			before := len(want)
			for v := range vox {
				delete(want, v)
			}
			if q.Own && len(want) < before {
				c.Probe("cut-with-own-grid")
			}
		}
		args = append(args, n)
	}
	h.SyncAll()
	if p.Full > 0 {
		h.SetCapacity(p.Full)
	}
	noVox := false
	if p.Out[1] { // vox files are limited to 256 voxels in each direction
		for v := range want {
			for a := range v {
				noVox = noVox || v[a]-p.Win[a] > 255
			}
		}
	}
	pr := runTool(c, "C15", h, "voxcut", "voxcut", args...)
	if pr == nil {
		return
	}
	if exitOK(pr) {
		c.Probe("voxcut-succeeded")
		if mustFail {
			c.Viol("C15", "bad-input", "voxcut %v succeeded although an input cannot be read completely (base %q, cuts %v)", args, p.BaseBad, p.Cuts)
			return
		}
		if noVox {
			c.Viol("C15", "vox-size", "voxcut %v succeeded although its voxels do not fit into a vox file", args)
			return
		}
		for _, o := range outs {
			if p.Pipe && o != "" && !h.IsPipe(o) {
				c.Viol("C15", "pipe", "voxcut %v succeeded, but replaced the pipe %s it was to write into", args, o)
				return
			}
		}
		checkCutFiles(c, "C15", h, p.Base, want, p.Win, outs[0], outs[1], outs[2], p.Manifold)
		return
	}
	c.Probe("voxcut-failed")
	if !mustFail && !noVox && !c.Faulty() && p.Full == 0 && len(want) > 0 {
		c.Viol("C15", "spurious-failure", "voxcut %v failed although nothing is wrong and %d voxels remain: %s", args, len(want), howEnded(pr))
	}
}

func genVoxcut(r *rt.Rand, tier string) any {
	big := 8
	if tier == "thorough" && r.Chance(0.3) {
		big = 16
	}
	p := voxcutParams{Base: genBoxModel(r, big, r.Chance(0.1)), Old: r.Chance(0.3), Pipe: r.Chance(0.06), Dirs: r.Chance(0.15)}
	for n := r.Intn(4); n > 0; n-- {
		q := cutIn{Fill: []int{0, 1, 2, 2, 3, 3, 4, 5, 5}[r.Intn(9)], Seed: r.Uint64()}
		if q.Fill == 1 && r.Chance(0.8) {
			q.Fill = 5
		}
		q.genOwnGrid(r, p.Base)
		if r.Chance(0.15) {
			q.Bad = "missing"
		} else if r.Chance(0.12) {
			q.Bad = []string{"dir", "head", "odd", "odd", "empty"}[r.Intn(5)]
			q.At = r.Float()
		}
		p.Cuts = append(p.Cuts, q)
	}
	if r.Chance(0.08) {
		p.BaseBad = []string{"missing", "dir", "head", "odd", "odd", "empty"}[r.Intn(6)]
		p.At = r.Float()
	}
	k := 1 + r.Intn(7)
	for i := range p.Out {
		p.Out[i] = k>>i&1 != 0
	}
	if r.Chance(0.5) {
		for a := 0; a < 3; a++ {
			if r.Chance(0.6) {
				p.Win[a] = r.Intn(p.Base.N[a] + r.Intn(2))
			}
			if r.Chance(0.6) {
				p.Win[3+a] = 1 + r.Intn(p.Base.N[a]+2)
			}
		}
	}
	if p.Out[2] {
		p.Manifold, p.Smooth = r.Chance(0.3), r.Chance(0.2)
		if p.Base.Fill == 2 && max(p.Base.N[0], p.Base.N[1], p.Base.N[2]) > 100 {
			p.Base.Fill = 5
		}
	}
	if r.Chance(0.1) {
		p.Full = int64(1 + r.Intn(3000))
	}
	return p
}

// --- scenario: voxcut-dice ---

type cutDiceParams struct {
	Base boxModel `json:"base"`
	Cuts []cutIn  `json:"cuts"`
	Size int      `json:"size"`
	Out  [3]bool  `json:"out"`
	Dry  bool     `json:"dry,omitempty"`
	Bad  string   `json:"bad,omitempty"`
	Full int64    `json:"full,omitempty"`
	Pre  string   `json:"pre,omitempty"` // name prefix of the outputs
}

// tile is what one voxcut command is told to do.
type tile struct {
	win    [6]int
	out    [3]string
	inputs []string
}

func parseTile(args []string) (t tile, err error) {
	flags := map[string]func(string) error{}
	for i, n := range []string{"sx", "sy", "sz", "cx", "cy", "cz"} {
		i := i
		flags[n] = func(s string) (e error) { t.win[i], e = strconv.Atoi(s); return }
	}
	for i, n := range []string{"obinvox", "ovox", "ostl"} {
		i := i
		flags[n] = func(s string) error { t.out[i] = s; return nil }
	}
	for len(args) > 0 && strings.HasPrefix(args[0], "-") {
		n, v, eq := strings.Cut(strings.TrimLeft(args[0], "-"), "=")
		f := flags[n]
		if f == nil {
			return t, fmt.Errorf("unexpected option %q", args[0])
		}
		args = args[1:]
		if !eq {
			if len(args) == 0 {
				return t, fmt.Errorf("option %q without a value", n)
			}
			v, args = args[0], args[1:]
		}
		if err := f(v); err != nil {
			return t, err
		}
	}
	t.inputs = args
	return t, nil
}

// checkTiles checks that the commands tile the grid ("" if they do); a
// partial list may leave voxels uncovered.
func checkTiles(ts []tile, n [3]int, size int, out [3]bool, inputs []string, all bool) string {
	seen := map[[3]int]int{}
	names := map[string]bool{}
	for i, t := range ts {
		if fmt.Sprint(t.inputs) != fmt.Sprint(inputs) {
			return fmt.Sprintf("command %d has the inputs %v, want %v", i, t.inputs, inputs)
		}
		for k, o := range t.out {
			if (o != "") != out[k] {
				return fmt.Sprintf("command %d has the outputs %v, want %v", i, t.out, out)
			}
			if o != "" && names[o] {
				return fmt.Sprintf("command %d has the same output %q as an earlier one", i, o)
			}
			names[o] = true
		}
		var lo, hi [3]int
		for a := range lo {
			lo[a], hi[a] = t.win[a], n[a]
			if k := t.win[3+a]; k != 0 {
				hi[a] = min(n[a], lo[a]+k)
				if k > size {
					return fmt.Sprintf("command %d has a window of %d voxels, more than %d", i, k, size)
				}
			}
			if lo[a] < 0 || t.win[3+a] < 0 {
				return fmt.Sprintf("command %d has the window %v", i, t.win)
			}
		}
		for x := lo[0]; x < hi[0]; x++ {
			for y := lo[1]; y < hi[1]; y++ {
				for z := lo[2]; z < hi[2]; z++ {
					k := [3]int{x, y, z}
					if j, ok := seen[k]; ok {
						return fmt.Sprintf("voxel %v is covered by the commands %d and %d", k, j, i)
					}
					seen[k] = i
				}
			}
		}
	}
	if k := n[0] * n[1] * n[2]; all && len(seen) != k {
		return fmt.Sprintf("the %d commands cover %d of %d voxels", len(ts), len(seen), k)
	}
	return ""
}

func cutDiceRun(c *Ctx, raw json.RawMessage) {
	p := decode[cutDiceParams](raw)
	h := rt.NewHost("box", "10.0.0.1")
	h.Mkdir("/work")
	mustFail := putBinvox(h, "/work/base.binvox", p.Base, p.Bad, 0.5)
	inputs := []string{"base.binvox"}
	full := p.Base.vox()
	for i, q := range p.Cuts {
		n := fmt.Sprintf("cut%d.binvox", i)
		m, vox := q.model(p.Base)
		if !putBinvox(h, "/work/"+n, m, q.Bad, q.At) {
			for v := range vox {
				delete(full, v)
			}
		}
		inputs = append(inputs, n)
	}
	h.SyncAll()
	if p.Full > 0 {
		h.SetCapacity(p.Full)
	}
	args := []string{"-size", strconv.Itoa(p.Size)}
	if p.Dry {
		args = append(args, "-n")
	}
	any := false
	for i, o := range []string{"-obinvox", "-ovox", "-ostl"} {
		if p.Out[i] {
			args = append(args, o, p.Pre)
			any = true
		}
	}
	args = append(args, inputs...)
	pr := runTool(c, "C16", h, "dicer", "voxcut-dice", args...)
	if pr == nil {
		return
	}
	var kids []*rt.Proc
	for _, q := range rt.AllProcs() {
		if strings.HasPrefix(q.Name(), "dicer.") {
			kids = append(kids, q)
		}
	}
	ok := exitOK(pr)
	big := p.Size > p.Base.N[0] && p.Size > p.Base.N[1] && p.Size > p.Base.N[2]
	if ok && (p.Size < 1 || !any || mustFail) {
		c.Viol("C16", "bad-arguments", "voxcut-dice %v succeeded although it cannot do anything (base %q)", args, p.Bad)
		return
	}
	var ts []tile
	if p.Dry {
		if len(kids) > 0 {
			c.Viol("C16", "dry-run", "voxcut-dice %v ran %d commands", args, len(kids))
		}
		if !ok {
			c.Probe("dry-run-failed")
			if !c.Faulty() && !big && p.Size > 0 && any && !mustFail && p.Full == 0 {
				c.Viol("C16", "spurious-failure", "voxcut-dice %v failed though nothing is wrong: %s", args, howEnded(pr))
			}
			return
		}
		for _, l := range strings.Split(strings.TrimSuffix(pr.Stdout(), "\n"), "\n") {
			f := strings.Fields(l)
			if len(f) == 0 || strings.HasPrefix(l, "#") {
				continue
			}
			t, err := parseTile(f[1:])
			if err != nil || f[0] != "voxcut" {
				c.Viol("C16", "command", "voxcut-dice printed the command %q: %v", l, err)
				return
			}
			ts = append(ts, t)
		}
		if big && len(ts) == 0 {
			return
		}
		if d := checkTiles(ts, p.Base.N, p.Size, p.Out, inputs, true); d != "" {
			c.Viol("C16", "tiles", "voxcut-dice %v printed commands that do not tile the model %v: %s", args, p.Base.N, d)
		}
		c.Probe("dry-run")
		return
	}
	allOK := true
	failedAt := -1
	for i, q := range kids {
		if failedAt >= 0 && i > failedAt {
			c.Viol("C16", "went-on", "voxcut-dice started command %d after command %d had failed", i, failedAt)
			break
		}
		t, err := parseTile(q.Args()[1:])
		if err != nil {
			c.Viol("C16", "command", "voxcut-dice ran voxcut %v: %v", q.Args(), err)
			return
		}
		ts = append(ts, t)
		if !q.Dead() || !exitOK(q) {
			allOK = false
			failedAt = i
			c.Probe("tile-command-failed")
		}
	}
	if len(c.Out.Viols) > 0 {
		return
	}
	if d := checkTiles(ts, p.Base.N, p.Size, p.Out, inputs, ok && !big); d != "" {
		c.Viol("C16", "tiles", "voxcut-dice %v ran commands that do not tile the model %v: %s", args, p.Base.N, d)
		return
	}
	startFailed := rt.FaultFired("eagain") || rt.FaultFired("enomem") || rt.FaultFired("eacces")
	switch {
	case ok && !allOK:
		c.Viol("C16", "failure-lost", "voxcut-dice %v succeeded although a command failed", args)
	case ok:
		if big && len(ts) == 0 {
			return
		}
		c.Probe("dice-succeeded")
		for _, t := range ts {
			var o [3]string
			for i := range t.out {
				if t.out[i] != "" {
					o[i] = "/work/" + t.out[i]
				}
			}
			checkCutFiles(c, "C16", h, p.Base, windowed(full, t.win), t.win, o[0], o[1], o[2], false)
		}
	default:
		c.Probe("dice-failed")
		if allOK && !c.Faulty() && !startFailed && !big && p.Size > 0 && any && !mustFail {
			c.Viol("C16", "spurious-failure", "voxcut-dice %v failed although every command succeeded: %s", args, howEnded(pr))
		}
	}
}

func genCutDice(r *rt.Rand, tier string) any {
	p := cutDiceParams{Base: boxModel{Seed: r.Uint64(), VS: []float64{1, 0.5, 0.1}[r.Intn(3)]}, Pre: []string{"out", "a/../out", "tile-"}[r.Intn(3)], Dry: r.Chance(0.25)}
	p.Size = 1 + r.Intn(6)
	n := 3
	if tier == "thorough" {
		n = 4
	}
	for i := range p.Base.N {
		p.Base.N[i] = 1 + r.Intn(p.Size*n)
		if r.Chance(0.3) {
			p.Base.T[i] = float64(r.Intn(200)-100) * p.Base.VS
		}
	}
	p.Base.Fill = []int{1, 1, 1, 2, 2, 5, 3, 0}[r.Intn(8)]
	if p.Size == 1 && p.Base.Fill == 2 {
		p.Base.Fill = 1
	}
	for k := []int{0, 0, 1, 1, 1, 2, 2, 3, 5}[r.Intn(9)]; k > 0; k-- {
		q := cutIn{Fill: []int{0, 3, 3, 2, 5}[r.Intn(5)], Seed: r.Uint64()}
		q.genOwnGrid(r, p.Base)
		if r.Chance(0.15) {
			q.Bad = "missing"
		}
		p.Cuts = append(p.Cuts, q)
	}
	k := 1 + r.Intn(7)
	for i := range p.Out {
		p.Out[i] = k>>i&1 != 0
	}
	if r.Chance(0.05) {
		p.Bad = []string{"missing", "head", "empty", "dir"}[r.Intn(4)]
	}
	if r.Chance(0.03) {
		p.Size = -r.Intn(3)
	}
	if r.Chance(0.05) {
		p.Size += 2 + max(p.Base.N[0], p.Base.N[1], p.Base.N[2])
	}
	if r.Chance(0.02) {
		p.Out = [3]bool{}
	}
	if r.Chance(0.06) {
		p.Full = int64(r.Intn(6000) + 1)
	}
	if p.Pre == "a/../out" {
		p.Pre = "out"
	}
	return p
}

func init() {
	register(&Scenario{
		Name: "voxcut", Run: voxcutRun, Gen: genVoxcut, Hang: "C15",
		Kinds: func(json.RawMessage) []FaultKind { return toolFaults("voxcut", false) },
		Shrink: func(raw json.RawMessage) []any {
			p := decode[voxcutParams](raw)
			var out []any
			for i := range p.Cuts {
				q := p
				q.Cuts = append(append([]cutIn{}, p.Cuts[:i]...), p.Cuts[i+1:]...)
				out = append(out, q)
			}
			for _, m := range p.Base.shrink() {
				q := p
				q.Base = m
				out = append(out, q)
			}
			for i := range p.Win {
				if p.Win[i] != 0 {
					q := p
					q.Win[i] = 0
					out = append(out, q)
				}
			}
			for i := range p.Out {
				if p.Out[i] {
					q := p
					q.Out[i] = false
					out = append(out, q)
				}
			}
			if p.Old || p.Pipe || p.Dirs || p.Smooth || p.Manifold || p.Full > 0 {
				q := p
				q.Pipe = false
				q.Old, q.Dirs, q.Smooth, q.Manifold, q.Full = false, false, false, false, 0
				out = append(out, q)
			}
			return out
		},
	})
	kinds := append(toolFaults("dicer.voxcut*", true), toolFaults("dicer", true)...)
	kinds = append(kinds, FaultKind{Class: "exec.start", Proc: "dicer", Actions: []string{"enomem", "eagain", "eacces"}, Weight: 6})
	register(&Scenario{
		Name: "voxcutdice", Run: cutDiceRun, Gen: genCutDice, Hang: "C16",
		Kinds: func(json.RawMessage) []FaultKind { return kinds },
		Shrink: func(raw json.RawMessage) []any {
			p := decode[cutDiceParams](raw)
			var out []any
			for i := range p.Cuts {
				q := p
				q.Cuts = append(append([]cutIn{}, p.Cuts[:i]...), p.Cuts[i+1:]...)
				out = append(out, q)
			}
			for _, m := range p.Base.shrink() {
				q := p
				q.Base = m
				out = append(out, q)
			}
			for i := range p.Out {
				if p.Out[i] {
					q := p
					q.Out[i] = false
					out = append(out, q)
				}
			}
			return out
		},
	})
}
