package harness

import (
	"encoding/json"
	"fmt"
	"path"
	"strings"

	rt "ZZSIM/rt"
)

// --- scenario: stldice, then the script it prints ---

type pipeParams struct {
	stldiceParams
	Two bool `json:"two,omitempty"` // run everything again although it succeeded
}

// expected are the voxels of each region of the base that no cut takes away.
func (p pipeParams) expected(c *Ctx) (all vset, byRegion map[string]vset, ok bool) {
	all, byRegion = vset{}, map[string]vset{}
	var base vset
	cut := vset{}
	for i := -1; i < len(p.Cuts); i++ {
		w, ts := p.whole(), p.tris()
		if i >= 0 {
			ts = p.cutTris(i)
		}
		if !lib(c, "C23", rt.NewHost("oracle"+fmt.Sprint(i+1), fmt.Sprintf("10.0.1.%d", i+2)), "oracle", func() {
			if err := w.Voxelize(meshOf(ts)); err != nil {
				c.Viol("C23", "error", "voxelising the whole failed: %v", err)
			}
		}) {
			return nil, nil, false
		}
		if i < 0 {
			base = whites(w.WhiteVoxels)
			continue
		}
		for v := range whites(w.WhiteVoxels) {
			cut[v] = true
		}
	}
	s := p.step()
	for v := range base {
		k := fmt.Sprintf("-%02d-%02d-%02d", v[0]/s[0], v[1]/s[1], v[2]/s[2])
		if byRegion[k] == nil {
			byRegion[k] = vset{}
		}
		if !cut[v] {
			all[v] = true
			byRegion[k][v] = true
		}
	}
	return all, byRegion, len(c.Out.Viols) == 0
}

// pipe makes one attempt at everything. bad tells what failed that should not.
func (p pipeParams) pipe(c *Ctx, h *rt.Host, byRegion map[string]vset) (result string, bad string, ended bool) {
	losses := h.PowerLosses()
	d := runTool(c, "C23", h, "stldice", "stldice", p.args()...)
	if d == nil {
		return "", "", false
	}
	if !exitOK(d) {
		return "", fmt.Sprintf("stldice %v: %s", p.args(), howEnded(d)), true
	}
	var cuts [][]string
	var merge []string
	for _, l := range strings.Split(d.Stdout(), "\n") {
		f := strings.Fields(l)
		if len(f) == 0 || strings.HasPrefix(f[0], "#") {
			continue
		}
		switch {
		case f[0] == "voxcut" && merge == nil:
			cuts = append(cuts, f)
		case f[0] == "merge-stl" && merge == nil:
			merge = f
		default:
			c.Viol("C23", "script", "unexpected command in the script: %q", l)
			return "", "", false
		}
	}
	judge := func(f []string, q *rt.Proc) {
		out := "" // the output that is complete if voxcut succeeds
		for i := range f {
			if f[i] == "-ostl" && i+1 < len(f) {
				out = f[i+1]
			}
		}
		if len(cuts) == 1 && merge == nil {
			result = out
		}
		left := 0
		for k, v := range byRegion {
			if strings.Contains(out, k+".stl") {
				left = len(v)
			}
		}
		if !exitOK(q) && left > 0 && bad == "" {
			bad = fmt.Sprintf("%v, which should leave %d voxels: %s", f, left, howEnded(q))
		}
		if left == 0 {
			c.Probe("region-cut-away")
			if !exitOK(q) && result == out {
				result = ""
			}
		}
	}
	for _, f := range cuts {
		if h.PowerLosses() > losses { // That is the end of the script, too.
			break
		}
		q := runTool(c, "C23", h, "voxcut", "voxcut", f[1:]...)
		if q == nil {
			return "", "", false
		}
		judge(f, q)
	}
	if h.PowerLosses() > losses {
		return "", "power loss", true
	}
	if merge != nil {
		q := runTool(c, "C23", h, "merge-stl", "merge-stl", merge[1:]...)
		if q == nil {
			return "", "", false
		}
		left := 0
		for _, v := range byRegion {
			left += len(v)
		}
		if !exitOK(q) {
			if left > 0 && bad == "" {
				bad = fmt.Sprintf("%v: %s", merge, howEnded(q))
			}
		} else {
			for i := range merge {
				if merge[i] == "-prefix" && i+1 < len(merge) {
					result = merge[i+1] + ".stl"
				}
			}
		}
	}
	if h.PowerLosses() > losses {
		return "", "power loss", true
	}
	return result, bad, true
}

func pipeRun(c *Ctx, raw json.RawMessage) {
	p := decode[pipeParams](raw)
	names, data := p.files()
	box := rt.NewHost("box", "10.0.0.1")
	box.Mkdir("/work")
	for i, n := range names {
		box.PutFile("/work/"+n, data[i])
	}
	box.SyncAll()
	all, byRegion, ok := p.expected(c)
	if !ok {
		return
	}
	if p.Full > 0 {
		box.SetCapacity(p.Full)
	}
	check := func(try int, result string) {
		if result == "" {
			if len(all) > 0 {
				c.Viol("C23", "nothing", "attempt %d: every command succeeded, but %d voxels are in no STL file", try, len(all))
			}
			return
		}
		if !path.IsAbs(result) {
			result = "/work/" + result
		}
		b, ok := box.GetFile(result)
		if !ok {
			c.Viol("C23", "nothing", "attempt %d: every command succeeded, but there is no %s", try, result)
			return
		}
		ts, err := parseSTL(b)
		if err != nil {
			c.Viol("C23", "torn", "attempt %d: every command succeeded, but %s is damaged: %v", try, result, err)
			return
		}
		d := p.dims()
		got := insideVoxels(ts, p.mv(), p.k(), [3]int{-3, -3, -3}, [3]int{d[0] + 3, d[1] + 3, d[2] + 3})
		if s := diffSets(all, got); s != "" {
			c.Viol("C23", "result", "attempt %d: %s does not have the voxels of the base minus its cuts (division %v): %s", try, result, p.Div, s)
			return
		}
		c.Probe("pipeline-checked")
	}
	for try := 1; try <= 6; try++ {
		if try == 4 {
			rt.DisarmFaults()
			box.SetCapacity(-1)
		}
		result, bad, ended := p.pipe(c, box, byRegion)
		if !ended || len(c.Out.Viols) > 0 {
			return
		}
		if bad != "" {
			c.Probe("pipeline-failed")
			if try >= 4 || !c.Faulty() && p.Full == 0 {
				c.Viol("C23", "fails", "attempt %d: nothing is wrong any more, but a command fails: %s", try, bad)
				return
			}
			continue
		}
		check(try, result)
		if try > 1 {
			c.Probe("pipeline-resumed")
		}
		if !p.Two || len(c.Out.Viols) > 0 {
			return
		}
		p.Two = false
	}
}

func init() {
	register(&Scenario{
		Name: "pipeline", Run: pipeRun, Hang: "C23", Cfg: moreCPUs,
		Gen: func(r *rt.Rand, tier string) any {
			p := pipeParams{stldiceParams: genStldice(r, tier).(stldiceParams), Two: r.Chance(0.2)}
			if len(p.Cuts) == 0 && r.Chance(0.7) {
				p.Cuts = genCuts(r, p.E, 1)
				if p.Dec > 0 {
					offGridCuts(r, p.Cuts)
				}
			}
			return p
		},
		Shrink: func(raw json.RawMessage) []any {
			p := decode[pipeParams](raw)
			var out []any
			for _, s := range shrinkStldice(mustJSON(p.stldiceParams)) {
				q := p
				q.stldiceParams = s.(stldiceParams)
				out = append(out, q)
			}
			if p.Two {
				q := p
				q.Two = false
				out = append(out, q)
			}
			return out
		},
		Kinds: func(json.RawMessage) []FaultKind {
			out := toolFaults("stldice", true)
			for _, f := range toolFaults("voxcut", false) {
				f.Weight *= 2
				out = append(out, f)
			}
			for _, f := range toolFaults("merge-stl", false) {
				out = append(out, f)
			}
			return out
		},
	})
}
