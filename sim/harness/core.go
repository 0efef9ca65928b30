// Package harness drives the simulated programs: workloads, oracles, fault
// plans, search, minimisation and replay.
package harness

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	rt "ZZSIM/rt"
)

// Plan is one exactly repeatable execution.
type Plan struct {
	Property string          `json:"property"`
	Scenario string          `json:"scenario"`
	Params   json.RawMessage `json:"params"`
	Cfg      PlanCfg         `json:"cfg"`
	Faults   []*rt.Fault     `json:"faults,omitempty"`
	Race     bool            `json:"race,omitempty"`
}

// PlanCfg is the environment of a plan.
type PlanCfg struct {
	Seed       uint64   `json:"seed"`
	Policy     string   `json:"policy"`
	SwitchP    float64  `json:"switch_p"`
	SchedLimit int      `json:"sched_limit"`
	ReadChunk  int      `json:"read_chunk,omitempty"`
	NumCPU     int      `json:"num_cpu,omitempty"`
	SizeScale  int64    `json:"size_scale,omitempty"`
	LatencyNS  [2]int64 `json:"latency_ns,omitempty"`
	StepNS     int64    `json:"step_ns,omitempty"`
	MaxTimeS   int64    `json:"max_time_s,omitempty"`
	MaxSteps   int64    `json:"max_steps,omitempty"`
	MaxTicks   int64    `json:"max_ticks,omitempty"`
}

// Violation is a property seen broken.
type Violation struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	Detail   string `json:"detail"`
}

// Outcome is what one execution showed.
type Outcome struct {
	Viols   []Violation
	Res     *rt.Result
	Probes  map[string]int
	Span    int64  // simulated time (ns) at which timed faults are of interest; 0: all
	Skipped string // the run told nothing (the workload itself could not run)
}

// Ctx is passed to a scenario.
type Ctx struct {
	Plan   *Plan
	Out    *Outcome
	probes kv
}

// Viol reports a violation.
func (c *Ctx) Viol(prop, key, f string, a ...any) {
	for _, v := range c.Out.Viols {
		if v.Property == prop && v.Key == key {
			return
		}
	}
	d := fmt.Sprintf(f, a...)
	if len(d) > 3000 {
		d = d[:3000] + "..."
	}
	c.Out.Viols = append(c.Out.Viols, Violation{prop, key, d})
	rt.Tracef("VIOLATION %s %s: %s", prop, key, d)
}

// Probe counts that a condition was reached.
func (c *Ctx) Probe(k string) { c.probes.at(k).n++ }

// Faulty tells whether any fault of the plan fired so far.
func (c *Ctx) Faulty() bool { return rt.FaultFired("") }

// FaultKind is a kind of fault a scenario is subject to.
type FaultKind struct {
	Class   string // event class, or "sched", "time"
	Proc    string // process pattern ("" any)
	Actions []string
	Args    []int64
	Target  string
	Weight  int
}

// Scenario is a family of simulated runs.
type Scenario struct {
	Name string
	// Gen makes the parameters of a run.
	Gen func(r *rt.Rand, tier string) any
	// Run is the root task of the run.
	Run func(c *Ctx, raw json.RawMessage)
	// Kinds lists the faults to inject.
	Kinds func(raw json.RawMessage) []FaultKind
	// Hang and Race are the properties broken by a hang or a data race.
	Hang, Race string
	// Shrink proposes smaller parameters.
	Shrink func(raw json.RawMessage) []any
	// Cfg adjusts the environment.
	Cfg func(r *rt.Rand, raw json.RawMessage, c *PlanCfg)
}

var scenarios = map[string]*Scenario{}

func register(s *Scenario) { scenarios[s.Name] = s }

// Execute runs a plan.
func Execute(p *Plan, trace bool) *Outcome {
	s := scenarios[p.Scenario]
	if s == nil {
		fatal("unknown scenario %q", p.Scenario)
	}
	out := &Outcome{Probes: map[string]int{}}
	c := &Ctx{Plan: p, Out: out}
	rt.OnRPC = nil
	cfg := rt.Config{
		Seed: p.Cfg.Seed, Policy: p.Cfg.Policy, SwitchP: p.Cfg.SwitchP, SchedLimit: p.Cfg.SchedLimit,
		ReadChunk: p.Cfg.ReadChunk, NumCPU: p.Cfg.NumCPU, SizeScale: p.Cfg.SizeScale, LatencyNS: p.Cfg.LatencyNS,
		StepNS: p.Cfg.StepNS, MaxSteps: p.Cfg.MaxSteps, MaxTicks: p.Cfg.MaxTicks,
		MaxTime: time.Duration(p.Cfg.MaxTimeS) * time.Second,
		Faults:  p.Faults, Trace: trace,
	}
	out.Res = rt.Run(cfg, func() { s.Run(c, p.Params) })
	rt.OnRPC = nil
	for x := c.probes.first; x != nil; x = x.next {
		out.Probes[x.k] = int(x.n)
	}
	r := out.Res
	switch r.Verdict {
	case "", "done":
	case "harness-panic":
		fatal("harness panic in scenario %s: %s", p.Scenario, r.Detail)
	default:
		if s.Hang == "" {
			fatal("scenario %s: %s: %s", p.Scenario, r.Verdict, r.Detail)
		}
		c.Viol(s.Hang, r.Verdict, "the run ended with %s: %s", r.Verdict, r.Detail)
	}
	if r.Races > 0 { // Nothing can be relied on after a data race, whatever the property.
		prop := p.Property
		if prop == "" {
			prop = s.Race
		}
		c.Viol(prop, "data-race", "%d data race(s) reported by the race detector", r.Races)
	}
	return out
}

// pickFaults chooses n faults from the events a fault-free run had.
func pickFaults(r *rt.Rand, kinds []FaultKind, base *rt.Result, span int64, n int) []*rt.Fault {
	type cand struct {
		k     *FaultKind
		class string
		proc  string
		n     int
	}
	var keys []string
	for k := range base.Counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var cands []cand
	tot := 0
	for i := range kinds {
		k := &kinds[i]
		if k.Class == "time" {
			cands = append(cands, cand{k, "time", "", 0})
			tot += k.Weight
			continue
		}
		for _, key := range keys {
			at := strings.Index(key, "@")
			class, proc := key[:at], key[at+1:]
			if class != k.Class || k.Proc != "" && !matchProc(proc, k.Proc) || proc == "harness" {
				continue
			}
			cands = append(cands, cand{k, class, proc, base.Counters[key]})
			tot += k.Weight
		}
	}
	if len(cands) == 0 || tot == 0 {
		return nil
	}
	var out []*rt.Fault
	for ; n > 0; n-- {
		x := r.Intn(tot)
		var c cand
		for _, c = range cands {
			if x -= c.k.Weight; x < 0 {
				break
			}
		}
		f := &rt.Fault{Class: c.class, Proc: c.proc, Action: c.k.Actions[r.Intn(len(c.k.Actions))], Target: c.k.Target}
		if len(c.k.Args) > 0 {
			f.Arg = c.k.Args[r.Intn(len(c.k.Args))]
		} else {
			f.Arg = int64(r.Intn(1 << 20))
		}
		if c.class == "time" {
			f.Proc = ""
			if span == 0 {
				span = base.SimNS
			}
			f.AtNS = int64(r.Float() * float64(span))
			if r.Chance(0.5) { // most happens at the beginning
				f.AtNS = int64(math.Pow(float64(span+2), r.Float()))
			}
			if f.Target == "" {
				f.Target = c.k.Proc
			}
		} else {
			f.N = 1 + r.Intn(c.n)
		}
		out = append(out, f)
	}
	return out
}

func matchProc(name, pat string) bool {
	if strings.HasSuffix(pat, "*") {
		return strings.HasPrefix(name, pat[:len(pat)-1])
	}
	return name == pat
}

var policies = []string{"random", "random", "sticky", "sticky", "pct", "fifo", "lifo", "starve"}

func genCfg(r *rt.Rand, s *Scenario, raw json.RawMessage) PlanCfg {
	c := PlanCfg{Seed: r.Uint64(), Policy: policies[r.Intn(len(policies))], SchedLimit: -1, NumCPU: 1 + r.Intn(8)}
	switch c.Policy {
	case "sticky", "fifo", "lifo":
		c.SwitchP = []float64{0.5, 0.2, 0.05, 0.01}[r.Intn(4)]
	case "pct":
		c.SwitchP = []float64{0.02, 0.005, 0.001}[r.Intn(3)]
	}
	if r.Chance(0.5) {
		c.ReadChunk = []int{1, 2, 7, 100, 1000, 5000}[r.Intn(6)]
	}
	switch r.Intn(4) {
	case 0:
		c.LatencyNS = [2]int64{1000, 20_000}
	case 1:
		c.LatencyNS = [2]int64{50_000, 30_000_000}
	}
	if s.Cfg != nil {
		s.Cfg(r, raw, &c)
	}
	return c
}

func mustJSON(v any) json.RawMessage {
	b, err := json.Marshal(v)
	if err != nil {
		fatal("json: %v", err)
	}
	return b
}

func decode[T any](raw json.RawMessage) T {
	var v T
	if err := json.Unmarshal(raw, &v); err != nil {
		fatal("plan parameters: %v", err)
	}
	return v
}

func hashBytes(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	return h
}

func mix(a ...uint64) uint64 {
	h := uint64(0x9E3779B97F4A7C15)
	for _, x := range a {
		h ^= x
		h *= 0xff51afd7ed558ccd
		h ^= h >> 33
	}
	return h
}
