package harness

import (
	"encoding/json"
	"fmt"
	"math"
	"path"
	"strconv"
	"strings"

	rt "ZZSIM/rt"
)

// --- scenario: binvox-dice ---

// binvoxDiceParams describes a run of binvox-dice. The script it prints is
// executed by an interpreter with models of binvox and voxcut: binvox
// voxelizes a box of its input into the first free one of a.binvox,
// a_1.binvox, ..., and voxcut combines such files.
type binvoxDiceParams struct {
	LL, UR [3]float64
	Fmt    int      `json:"fmt"` // notation of the box
	Factor int      `json:"factor"`
	Def    bool     `json:"def,omitempty"` // do not give -factor
	Sub    [3]int   `json:"sub"`           // 0 default, 1 true, 2 false
	Names  []string `json:"names"`
	Bad    string   `json:"bad,omitempty"`
	Word   int      `json:"word,omitempty"` // which coordinate is no number, and what it is
	Full   int64    `json:"full,omitempty"`
}

func (p binvoxDiceParams) mbb() string {
	v := func(a [3]float64, sep string) string {
		s := ""
		for i, x := range a {
			if i > 0 {
				s += sep
			}
			switch {
			case p.Fmt == 3:
				s += strconv.FormatFloat(x, 'e', -1, 64)
			case p.Fmt == 4:
				s += strconv.FormatFloat(x, 'f', -1, 64)
			default:
				s += strconv.FormatFloat(x, 'g', -1, 64)
			}
		}
		return s
	}
	switch p.Bad {
	case "no-mbb":
		return ""
	case "short":
		return fmt.Sprintf("(%g,%g)-(%g,%g)", p.LL[0], p.LL[1], p.UR[0], p.UR[1])
	case "word":
		w := make([]string, 6)
		for i := range w {
			w[i] = strconv.FormatFloat(append(p.LL[:], p.UR[:]...)[i], 'g', -1, 64)
		}
		w[p.Word%6] = []string{"x1", "1.2.3", "1e", "--1", "0x", "1..0", "+", "."}[p.Word/6%8]
		return fmt.Sprintf("(%s,%s,%s)-(%s,%s,%s)", w[0], w[1], w[2], w[3], w[4], w[5])
	}
	switch p.Fmt {
	case 1:
		return "[" + v(p.LL, ", ") + "] - [" + v(p.UR, ", ") + "]"
	case 2:
		return " ( " + v(p.LL, " , ") + " ) - ( " + v(p.UR, ",") + " ) "
	}
	return "(" + v(p.LL, ",") + ")-(" + v(p.UR, ",") + ")"
}

// binvoxBox is the part of the model in one file made by binvox.
type binvoxBox struct {
	src string
	box [6]float64
	use int
}

// checkBinvoxScript executes the script ("" if it does what it should).
func checkBinvoxScript(script string, p binvoxDiceParams, div [3]int) string {
	files := map[string]*binvoxBox{}
	outs := map[string]bool{}
	type region struct{ box [6]float64 }
	var regions []region
	for i, l := range strings.Split(script, "\n") {
		f := strings.Fields(l)
		if len(f) == 0 || strings.HasPrefix(f[0], "#") {
			continue
		}
		switch f[0] {
		case "binvox":
			b := &binvoxBox{}
			boxed := false
			for f = f[1:]; len(f) > 0 && strings.HasPrefix(f[0], "-"); {
				switch f[0] {
				case "-bb":
					if len(f) < 7 {
						return fmt.Sprintf("line %d: %q has an incomplete box", i+1, l)
					}
					for k := range b.box {
						x, err := strconv.ParseFloat(f[1+k], 64)
						if err != nil {
							return fmt.Sprintf("line %d: %q: %v", i+1, l, err)
						}
						b.box[k] = x
					}
					boxed = true
					f = f[7:]
				case "-d", "-t":
					if len(f) < 2 {
						return fmt.Sprintf("line %d: %q has an option without a value", i+1, l)
					}
					if d, err := strconv.Atoi(f[1]); f[0] == "-d" && (err != nil || d < 1 || d > 1024) {
						return fmt.Sprintf("line %d: %q: bad grid size", i+1, l)
					}
					f = f[2:]
				default:
					f = f[1:]
				}
			}
			if len(f) != 1 || !boxed {
				return fmt.Sprintf("line %d: %q does not name one input and a box", i+1, l)
			}
			b.src = f[0]
			stem := strings.TrimSuffix(f[0], path.Ext(f[0]))
			name := stem + ".binvox"
			for k := 1; files[name] != nil; k++ {
				name = fmt.Sprintf("%s_%d.binvox", stem, k)
			}
			files[name] = b
		case "voxcut":
			out := ""
			for f = f[1:]; len(f) > 1 && strings.HasPrefix(f[0], "-"); f = f[2:] {
				switch f[0] {
				case "-ostl", "-obinvox", "-ovox":
					out = f[0] + " " + f[1]
					if outs[out] {
						return fmt.Sprintf("line %d: %q overwrites the output of an earlier command", i+1, l)
					}
					outs[out] = true
				default:
					return fmt.Sprintf("line %d: %q has the unexpected option %q", i+1, l, f[0])
				}
			}
			if out == "" {
				return fmt.Sprintf("line %d: %q has no output", i+1, l)
			}
			if len(f) != len(p.Names) {
				return fmt.Sprintf("line %d: %q combines %d files, want %d", i+1, l, len(f), len(p.Names))
			}
			for k, n := range f {
				b := files[n]
				if b == nil {
					return fmt.Sprintf("line %d: %q reads %q, which no command has made", i+1, l, n)
				}
				if b.src != p.Names[k] {
					return fmt.Sprintf("line %d: %q: %q was made of %q, want %q", i+1, l, n, b.src, p.Names[k])
				}
				if b.use++; b.use > 1 {
					return fmt.Sprintf("line %d: %q uses %q again", i+1, l, n)
				}
				if first := files[f[0]]; b.box != first.box {
					return fmt.Sprintf("line %d: %q combines the box %v with the box %v", i+1, l, first.box, b.box)
				}
			}
			regions = append(regions, region{files[f[0]].box})
		default:
			return fmt.Sprintf("line %d: unexpected command %q", i+1, l)
		}
	}
	for n, b := range files {
		if b.use == 0 {
			return fmt.Sprintf("no command uses %q", n)
		}
	}
	// the regions are the cells of a regular grid over the box
	want := div[0] * div[1] * div[2]
	seen := map[[3]int]bool{}
	for _, r := range regions {
		var k [3]int
		for a := range k {
			d := p.UR[a] - p.LL[a]
			eps := 1e-9 * math.Max(d, math.Max(math.Abs(p.LL[a]), math.Abs(p.UR[a])))
			k[a] = int(math.Round((r.box[a] - p.LL[a]) / d * float64(div[a])))
			lo := p.LL[a] + d*float64(k[a])/float64(div[a])
			hi := p.LL[a] + d*float64(k[a]+1)/float64(div[a])
			if k[a] < 0 || k[a] >= div[a] || math.Abs(r.box[a]-lo) > eps || math.Abs(r.box[3+a]-hi) > eps {
				return fmt.Sprintf("the box %v is no cell of the model's box %v-%v divided by %v", r.box, p.LL, p.UR, div)
			}
		}
		if seen[k] {
			return fmt.Sprintf("cell %v is processed twice", k)
		}
		seen[k] = true
	}
	if len(seen) != want {
		return fmt.Sprintf("%d of %d cells are processed", len(seen), want)
	}
	return ""
}

func binvoxDiceRun(c *Ctx, raw json.RawMessage) {
	p := decode[binvoxDiceParams](raw)
	h := rt.NewHost("box", "10.0.0.1")
	h.Mkdir("/work")
	h.SyncAll()
	div := [3]int{1, 1, 1}
	args := []string{"-mbb", p.mbb()}
	fac := 8
	if !p.Def {
		fac = p.Factor
		args = append(args, "-factor", strconv.Itoa(fac))
	}
	for i, s := range p.Sub {
		if s == 1 || s == 0 && i < 2 {
			div[i] = fac
		}
		if s > 0 {
			args = append(args, fmt.Sprintf("-sub%c=%v", 'x'+i, s == 1))
		}
	}
	if p.Bad != "no-files" {
		args = append(args, p.Names...)
	}
	pr := runTool(c, "C22", h, "dicer", "binvox-dice", args...)
	if pr == nil {
		return
	}
	if ci, st := pr.CrashInfo(); ci != "" {
		c.Viol("C22", "crash", "binvox-dice %v crashed: %s\n%s", args, ci, st)
		return
	}
	if !exitOK(pr) {
		c.Probe("binvox-dice-failed")
		if p.Bad == "" && fac > 0 && !c.Faulty() {
			c.Viol("C22", "spurious-failure", "binvox-dice %v failed though nothing is wrong: %s", args, howEnded(pr))
		}
		return
	}
	if p.Bad != "" || fac < 1 {
		c.Viol("C22", "bad-arguments", "binvox-dice %v succeeded although it cannot dice anything (%s)", args, p.Bad)
		return
	}
	if d := checkBinvoxScript(pr.Stdout(), p, div); d != "" {
		c.Viol("C22", "script", "binvox-dice %v printed a wrong script: %s", args, d)
		return
	}
	c.Probe("binvox-dice-succeeded")
}

func genBinvoxDice(r *rt.Rand, tier string) any {
	p := binvoxDiceParams{Fmt: r.Intn(5), Factor: 1 + r.Intn(5), Def: r.Chance(0.1)}
	if r.Chance(0.1) {
		p.Factor = []int{8, 16, 7, 11}[r.Intn(4)]
	}
	if r.Chance(0.06) {
		p.Factor = -r.Intn(3)
	}
	for i := range p.Sub {
		p.Sub[i] = r.Intn(3)
	}
	if p.Factor > 8 {
		p.Sub[2] = 2
	}
	k := []float64{1, 0.1, 1e-3, 1e4, 1.0 / 3, 1e-8, 1e12}[r.Intn(7)]
	for i := range p.LL {
		p.LL[i] = float64(r.Intn(400)-300) * k
		p.UR[i] = p.LL[i] + float64(1+r.Intn(500))*k
		if r.Chance(0.1) {
			p.LL[i] = 0
			p.UR[i] = math.Max(p.UR[i], k)
		}
	}
	names := []string{"base.stl", "all-cuts.stl", "a%v.stl", "dir/part.stl", "x.y.stl", "100%.stl", "%d%s.stl", "stl.stl", "a_1.b.stl", "%[1]v.stl"}
	for i := range names {
		j := i + r.Intn(len(names)-i)
		names[i], names[j] = names[j], names[i]
	}
	p.Names = names[:1+r.Intn(4)]
	if r.Chance(0.06) {
		p.Bad = []string{"no-mbb", "short", "word", "word", "no-files"}[r.Intn(5)]
		p.Word = r.Intn(48)
	}
	return p
}

func init() {
	register(&Scenario{
		Name: "binvoxdice", Run: binvoxDiceRun, Gen: genBinvoxDice, Hang: "C22",
		Kinds: func(json.RawMessage) []FaultKind {
			return []FaultKind{{Class: "stdout.write", Proc: "dicer", Actions: []string{"enospc", "eio", "crash", "powerloss"}, Weight: 1},
				{Class: "sched", Proc: "dicer", Actions: []string{"crash"}, Weight: 1}}
		},
		Shrink: func(raw json.RawMessage) []any {
			p := decode[binvoxDiceParams](raw)
			var out []any
			if len(p.Names) > 1 {
				for i := range p.Names {
					q := p
					q.Names = append(append([]string{}, p.Names[:i]...), p.Names[i+1:]...)
					out = append(out, q)
				}
			}
			if p.Factor > 1 {
				q := p
				q.Factor--
				out = append(out, q)
			}
			for i := range p.Sub {
				if p.Sub[i] != 2 {
					q := p
					q.Sub[i] = 2
					out = append(out, q)
				}
			}
			if p.Fmt != 0 {
				q := p
				q.Fmt = 0
				out = append(out, q)
			}
			q := p
			q.LL, q.UR = [3]float64{}, [3]float64{1, 1, 1}
			if p.LL != q.LL || p.UR != q.UR {
				out = append(out, q)
			}
			return out
		},
	})
}
