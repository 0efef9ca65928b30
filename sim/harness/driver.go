package harness

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	rt "ZZSIM/rt"
)

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "ERROR: "+f+"\n", a...)
	os.Exit(4)
}

// mixItem is one scenario of a property's search.
type mixItem struct {
	scen   string
	weight int
	faults int  // faulted variants per fault-free run (0: only fault-free)
	maxF   int  // faults per variant
	enum   bool // also enumerate single faults at every event
}

type propSpec struct {
	id       string
	items    []mixItem
	race     bool // run more in the race-detector build
	minIters int
}

var props = map[string]*propSpec{}

type lineMsg struct {
	Kind string `json:"kind"` // "viol", "done", "recycle"
	Plan *Plan  `json:"plan,omitempty"`
	Viol *Violation
	Next int
	S    *stats
}

type stats struct {
	Runs, Bases  int
	Steps, Decs  int64
	SimNS        int64
	Faults       map[string]int
	Probes       map[string]int
	Counters     map[string]int
	PerScen      map[string]int
	Hashes       map[uint64]struct{} `json:"-"`
	Distinct     []uint64
	Nontrivial   map[uint64]struct{} `json:"-"`
	Distinct2    []uint64
	Samples      []string
	FaultedFired int
	Iters        int
}

func newStats() *stats {
	return &stats{Faults: map[string]int{}, Probes: map[string]int{}, Counters: map[string]int{}, PerScen: map[string]int{}, Hashes: map[uint64]struct{}{}, Nontrivial: map[uint64]struct{}{}}
}

func (s *stats) add(p *Plan, o *Outcome) {
	r := o.Res
	s.Runs++
	s.PerScen[p.Scenario]++
	s.Steps += r.Steps
	s.Decs += int64(r.Decisions)
	s.SimNS += r.SimNS
	for _, f := range r.FiredAll {
		s.Faults[f]++
	}
	for k, n := range r.Stats {
		if strings.HasPrefix(k, "fault:") {
			continue
		}
		s.Faults[k] += n
	}
	if len(r.FiredAll) > 0 {
		s.FaultedFired++
	}
	for k, n := range o.Probes {
		s.Probes[k] += n
	}
	s.Hashes[mix(r.SchedHash, hashBytes([]byte(p.Scenario)))] = struct{}{}
	if r.Decisions > 1 || len(r.FiredAll) > 0 {
		s.Nontrivial[mix(r.Hash, hashBytes(p.Params))] = struct{}{}
	}
	if len(s.Samples) < 3 {
		b, _ := json.Marshal(p)
		if len(b) > 700 {
			b = append(b[:700], "..."...)
		}
		s.Samples = append(s.Samples, string(b))
	}
}

func (s *stats) merge(o *stats) {
	s.Runs += o.Runs
	s.Bases += o.Bases
	s.Steps += o.Steps
	s.Decs += o.Decs
	s.SimNS += o.SimNS
	s.FaultedFired += o.FaultedFired
	s.Iters += o.Iters
	for k, n := range o.Faults {
		s.Faults[k] += n
	}
	for k, n := range o.Probes {
		s.Probes[k] += n
	}
	for k, n := range o.PerScen {
		s.PerScen[k] += n
	}
	for _, h := range o.Distinct {
		s.Hashes[h] = struct{}{}
	}
	for _, h := range o.Distinct2 {
		s.Nontrivial[h] = struct{}{}
	}
	if len(s.Samples) < 8 {
		s.Samples = append(s.Samples, o.Samples...)
	}
}

// iterate performs search iteration i of a property: one generated workload,
// its fault-free run and faulted variants of it.
func iterate(sp *propSpec, seed uint64, i int, tier string, race bool, st *stats, report func(*Plan, Violation) bool) {
	r := rt.NewRand(mix(seed, hashBytes([]byte(sp.id)), uint64(i), map[bool]uint64{true: 77}[race]))
	tot := 0
	for _, it := range sp.items {
		tot += it.weight
	}
	x := r.Intn(tot)
	var it mixItem
	for _, it = range sp.items {
		if x -= it.weight; x < 0 {
			break
		}
	}
	s := scenarios[it.scen]
	params := mustJSON(s.Gen(r, tier))
	plan := &Plan{Property: sp.id, Scenario: it.scen, Params: params, Cfg: genCfg(r, s, params), Race: race}
	st.Iters++
	try := func(p *Plan) (*Outcome, bool) {
		notePlan(i, p)
		o := Execute(p, false)
		runSince.Store(0)
		st.add(p, o)
		if statHook != nil {
			statHook(p, o)
		}
		for _, v := range o.Viols {
			if v.Property == sp.id {
				if report(p, v) {
					return o, true
				}
			}
		}
		return o, false
	}
	base, stop := try(plan)
	st.Bases++
	if stop || it.faults == 0 || s.Kinds == nil {
		return
	}
	kinds := s.Kinds(params)
	if it.enum {
		for _, f := range enumFaults(kinds, base.Res, r) {
			p := *plan
			p.Faults = []*rt.Fault{f}
			if _, stop := try(&p); stop {
				return
			}
		}
	}
	for v := 0; v < it.faults; v++ {
		n := 1
		for n < it.maxF && r.Chance(0.45) {
			n++
		}
		p := *plan
		p.Faults = pickFaults(r, kinds, base.Res, base.Span, n)
		if len(p.Faults) == 0 {
			break
		}
		if r.Chance(0.3) {
			p.Cfg.Seed = r.Uint64()
		}
		if _, stop := try(&p); stop {
			return
		}
	}
}

// enumFaults lists a single fault at every event (a sample of large counts).
func enumFaults(kinds []FaultKind, base *rt.Result, r *rt.Rand) []*rt.Fault {
	var keys []string
	for k := range base.Counters {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var out []*rt.Fault
	for i := range kinds {
		k := &kinds[i]
		if k.Class == "time" || k.Class == "sched" {
			continue
		}
		for _, key := range keys {
			at := strings.Index(key, "@")
			class, proc := key[:at], key[at+1:]
			if class != k.Class || k.Proc != "" && !matchProc(proc, k.Proc) || proc == "harness" {
				continue
			}
			for _, a := range k.Actions {
				n := base.Counters[key]
				step := 1
				if n > 12 {
					step = n / 12
				}
				for x := 1 + r.Intn(step); x <= n; x += step {
					f := &rt.Fault{Class: class, Proc: proc, N: x, Action: a, Target: k.Target, Arg: int64(r.Intn(1 << 20))}
					if len(k.Args) > 0 {
						f.Arg = k.Args[r.Intn(len(k.Args))]
					}
					out = append(out, f)
				}
			}
		}
	}
	return out
}

// --- worker ---

// curPlan is the file in which a worker leaves the run it is about to make,
// for the driver to look into when the run takes the whole process down.
var curPlan string

// runSince is the wall-clock time at which the current run began (0: none).
var runSince atomic.Int64

type curRun struct {
	Iter int
	Plan *Plan
}

func notePlan(i int, p *Plan) {
	if curPlan == "" {
		return
	}
	os.WriteFile(curPlan, mustJSON(curRun{i, p}), 0600)
	runSince.Store(time.Now().UnixNano())
}

const (
	memLimit   = 3 << 30 // no run of the programs comes near
	runLimit   = 100 * time.Second
	replLimit  = 150 * time.Second
	exitMemory = 77
	exitStuck  = 78
)

func memUsed() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/total:bytes"}, {Name: "/memory/classes/heap/released:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64() - s[1].Value.Uint64()
}

// limits makes a run that devours memory, recurses without end or never comes
// back end this process, and not the machine.
func limits() {
	debug.SetMaxStack(256 << 20)
	if !rt.RaceEnabled {
		syscall.Setrlimit(syscall.RLIMIT_DATA, &syscall.Rlimit{Cur: memLimit, Max: memLimit})
	}
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			lim := uint64(memLimit)
			if rt.RaceEnabled {
				lim = lim * 3 / 2
			}
			if memUsed() > lim {
				fmt.Fprintln(os.Stderr, "fatal: the simulated programs need more memory than any run should")
				os.Exit(exitMemory)
			}
			if t := runSince.Load(); t != 0 && time.Since(time.Unix(0, t)) > runLimit {
				fmt.Fprintln(os.Stderr, "fatal: the run does not end")
				os.Exit(exitStuck)
			}
		}
	}()
}

func worker(sp *propSpec, seed uint64, from, step int, minIters int, deadline time.Time, tier string, race bool) {
	w := bufio.NewWriter(os.Stdout)
	send := func(m lineMsg) {
		b, err := json.Marshal(m)
		if err != nil {
			fatal("json: %v", err)
		}
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
	st := newStats()
	known := loadKnown()
	finish := func(kind string, next int) {
		for h := range st.Hashes {
			st.Distinct = append(st.Distinct, h)
		}
		for h := range st.Nontrivial {
			st.Distinct2 = append(st.Distinct2, h)
		}
		send(lineMsg{Kind: kind, S: st, Next: next})
	}
	stop := false
	for i := from; ; i += step {
		if i >= minIters && time.Now().After(deadline) {
			break
		}
		iterate(sp, seed, i, tier, race, st, func(p *Plan, v Violation) bool {
			if known.match(p, v) != "" {
				st.Probes["known-finding"]++
				send(lineMsg{Kind: "known", Plan: p, Viol: &v})
				return false
			}
			send(lineMsg{Kind: "viol", Plan: p, Viol: &v})
			stop = true
			return true
		})
		if stop { // the search goes on in a new process if the violation does not replay
			finish("recycle", i+step)
			os.Exit(0)
		}
		if memUsed() > 1<<30 || runtime.NumGoroutine() > 4000 {
			finish("recycle", i+step)
			os.Exit(0)
		}
	}
	finish("done", 0)
}

// --- known findings ---

type knownFinding struct {
	prop, key, scen, sub, text string
}

type knownList []knownFinding

// loadKnown reads the known-findings file: lines
// "known: property=C00 key=K[|K...] scenario=S params~SUBSTRING -- text".
func loadKnown() knownList {
	var out knownList
	b, err := os.ReadFile(os.Getenv("ZZ_KNOWN"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var k knownFinding
		head, text, _ := strings.Cut(l[7:], " -- ")
		k.text = text
		for _, f := range strings.Fields(head) {
			switch {
			case strings.HasPrefix(f, "property="):
				k.prop = f[9:]
			case strings.HasPrefix(f, "key="):
				k.key = f[4:]
			case strings.HasPrefix(f, "scenario="):
				k.scen = f[9:]
			case strings.HasPrefix(f, "params~"):
				k.sub = f[7:]
			}
		}
		out = append(out, k)
	}
	return out
}

func (l knownList) match(p *Plan, v Violation) string {
	for _, k := range l {
		if k.prop == v.Property && slices.Contains(strings.Split(k.key, "|"), v.Key) && (k.scen == "" || k.scen == p.Scenario) && (k.sub == "" || bytes.Contains(p.Params, []byte(k.sub))) {
			return k.text
		}
	}
	return ""
}

// --- driver ---

type runArgs struct {
	prop, tier, evidence, replays string
	seed                          uint64
	seconds                       float64
	workers                       int
	raceBin                       string
}

// Main is the entry point of the harness binary.
func Main() {
	registerBins()
	registerAll()
	prop := flag.String("prop", "", "property to check")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	seconds := flag.Float64("seconds", 40, "time budget")
	workers := flag.Int("workers", runtime.NumCPU(), "worker processes")
	raceBin := flag.String("racebin", "", "race-detector build of this program")
	evidence := flag.String("evidence", "", "evidence file to write")
	replays := flag.String("replays", "/verif/replays", "directory for replay files")
	replay := flag.String("replay", "", "replay file to execute")
	trace := flag.Bool("trace", false, "print the trace of a replay")
	wk := flag.String("worker", "", "internal")
	det := flag.Int("determinism", 0, "run this many iterations and print event hashes")
	cur := flag.String("curplan", "", "internal")
	one := flag.String("iter", "", "debug: run one search iteration N or N,race and print outcomes")
	flag.Parse()
	if *replay != "" {
		os.Exit(doReplay(*replay, *trace))
	}
	sp := props[*prop]
	if sp == nil {
		fatal("no such property %q", *prop)
	}
	switch {
	case *wk != "":
		// from,step,min,deadline-unix-ms,race
		f := strings.Split(*wk, ",")
		n := make([]int64, len(f))
		for i := range f {
			n[i], _ = strconv.ParseInt(f[i], 10, 64)
		}
		curPlan = *cur
		limits()
		worker(sp, *seed, int(n[0]), int(n[1]), int(n[2]), time.UnixMilli(n[3]), *tier, n[4] == 1)
	case *det > 0:
		st := newStats()
		for i := 0; i < *det; i++ {
			iterateHash(sp, *seed, i, *tier, st)
		}
	case *one != "":
		f := strings.Split(*one, ",")
		i, _ := strconv.Atoi(f[0])
		st := newStats()
		iterate(sp, *seed, i, *tier, len(f) > 1, st, func(p *Plan, v Violation) bool {
			b, _ := json.Marshal(p)
			fmt.Printf("%s\n%v\n", b, v)
			return false
		})
		fmt.Println(st.Runs, st.Probes, st.Faults)
	default:
		os.Exit(drive(sp, runArgs{*prop, *tier, *evidence, *replays, *seed, *seconds, *workers, *raceBin}))
	}
}

// iterateHash prints the hash of every run of an iteration.
func iterateHash(sp *propSpec, seed uint64, i int, tier string, st *stats) {
	statHook = func(p *Plan, o *Outcome) {
		fmt.Printf("%d %s %016x %016x %d %d %v %v\n", i, p.Scenario, o.Res.Hash, o.Res.SchedHash, o.Res.Steps, o.Res.SimNS, o.Res.FiredAll, o.Viols)
	}
	iterate(sp, seed, i, tier, rt.RaceEnabled, st, func(*Plan, Violation) bool { return false })
	statHook = nil
}

var statHook func(p *Plan, o *Outcome)

type found struct {
	plan *Plan
	viol Violation
	race bool
}

func drive(sp *propSpec, a runArgs) int {
	start := time.Now()
	deadline := start.Add(time.Duration(a.seconds * float64(time.Second)))
	hard := start.Add(time.Duration(a.seconds*float64(time.Second))*3 + 420*time.Second)
	total := newStats()
	var raceStats *stats
	var mu sync.Mutex
	var first *found
	var knownSeen = map[string]string{}
	var workerErr error
	unreplayed, restarts := 0, 0
	tmp, err := os.MkdirTemp("", "zzsearch")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	known := loadKnown()
	var cmds []*exec.Cmd
	killAll := func() {
		for _, c := range cmds {
			if c.Process != nil {
				c.Process.Kill()
			}
		}
	}
	nrace := 0
	if a.raceBin != "" {
		nrace = a.workers / 4
		if sp.race {
			nrace = a.workers / 2
		}
		if nrace == 0 {
			nrace = 1
		}
		raceStats = newStats()
	}
	nplain := a.workers - nrace
	if nplain < 1 {
		nplain = 1
	}
	var wg sync.WaitGroup
	runWorker := func(bin string, race bool, k, n, min int) {
		defer wg.Done()
		from := k
		for {
			rf := "0"
			if race {
				rf = "1"
			}
			cmd := exec.Command(bin, "-prop", sp.id, "-tier", a.tier, "-seed", fmt.Sprint(a.seed), "-worker", fmt.Sprintf("%d,%d,%d,%d,%s", from, n, min, deadline.UnixMilli(), rf))
			planFile := filepath.Join(tmp, fmt.Sprintf("%s-%d", rf, k))
			cmd.Args = append(cmd.Args, "-curplan", planFile)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=200", "GORACE=halt_on_error=0 exitcode=0 history_size=2")
			var stderr bytes.Buffer
			cmd.Stderr = &limited{b: &stderr, n: 1 << 16}
			out, err := cmd.StdoutPipe()
			if err != nil {
				mu.Lock()
				workerErr = err
				mu.Unlock()
				return
			}
			mu.Lock()
			if first != nil {
				mu.Unlock()
				return
			}
			if err := cmd.Start(); err != nil {
				workerErr = err
				mu.Unlock()
				return
			}
			cmds = append(cmds, cmd)
			mu.Unlock()
			rd := bufio.NewReaderSize(out, 1<<20)
			done, next, showErr := false, -1, false
			for {
				l, err := rd.ReadBytes('\n')
				if len(l) > 0 && l[0] == '{' {
					var m lineMsg
					if json.Unmarshal(l, &m) == nil {
						replays := false
						if m.Kind == "viol" {
							for k := 0; k < 3 && !replays; k++ {
								o := execIn(bin, m.Plan, false)
								replays = o != nil && o.has(*m.Viol)
							}
						}
						mu.Lock()
						switch m.Kind {
						case "viol":
							if !replays {
								// A report of the race detector that depends on what its
								// process did before, or a defect of this harness: a
								// violation has to replay to count.
								unreplayed++
								if os.Getenv("ZZ_DEBUG") != "" {
									fmt.Fprintf(os.Stderr, "unreplayed: %s %s: %s\n%s\n", m.Viol.Property, m.Viol.Key, m.Viol.Detail, mustJSON(m.Plan))
									showErr = true
								}
							} else if first == nil {
								first = &found{m.Plan, *m.Viol, race}
							}
						case "known":
							if t := known.match(m.Plan, *m.Viol); t != "" {
								knownSeen[t] = m.Viol.Property
							}
						case "done", "recycle":
							done = true
							if m.Kind == "recycle" {
								next = m.Next
							}
							if race {
								raceStats.merge(m.S)
							} else {
								total.merge(m.S)
							}
						}
						stop := first != nil
						mu.Unlock()
						if stop {
							mu.Lock()
							killAll()
							mu.Unlock()
						}
					}
				}
				if err == io.EOF {
					break
				}
				if err != nil {
					break
				}
			}
			err = cmd.Wait()
			mu.Lock()
			if showErr {
				fmt.Fprintf(os.Stderr, "%s\n", stderr.String())
			}
			if died := !done && first == nil; died {
				// A run took the process down. If it does so again, alone in a
				// new process, that is what the simulated programs do.
				mu.Unlock()
				var c curRun
				b, rerr := os.ReadFile(planFile)
				if rerr == nil {
					rerr = json.Unmarshal(b, &c)
				}
				var v *Violation
				if rerr == nil {
					if o := execIn(bin, c.Plan, false); o != nil {
						if v = o.get(Violation{Property: sp.id, Key: "process-crash"}); v == nil {
							v = o.get(Violation{Property: sp.id, Key: "real-hang"})
						}
					}
				}
				mu.Lock()
				switch restarts++; {
				case v != nil:
					if first == nil {
						first = &found{c.Plan, *v, race}
						killAll()
					}
				case rerr != nil || restarts > 20:
					workerErr = fmt.Errorf("worker failed: %v\n%s", err, stderr.String())
				default:
					next = c.Iter + n
				}
			}
			fnd := first != nil
			mu.Unlock()
			if fnd || next < 0 {
				return
			}
			from = next
		}
	}
	for k := 0; k < nplain; k++ {
		wg.Add(1)
		go runWorker(self, false, k, nplain, sp.minIters)
	}
	for k := 0; k < nrace; k++ {
		wg.Add(1)
		go runWorker(a.raceBin, true, k, nrace, sp.minIters/8)
	}
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(time.Until(hard)):
		mu.Lock()
		killAll()
		mu.Unlock()
		fatal("the search did not end in time")
	}
	if first == nil && workerErr != nil {
		fatal("%v", workerErr)
	}
	for t, p := range knownSeen {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p, t)
	}
	var viol *found
	if first != nil {
		viol = first
	}
	res := map[string]any{}
	code := 0
	if viol != nil {
		bin := self
		if viol.race {
			bin = a.raceBin
		}
		fmt.Printf("found: %s %s: %s\n", viol.viol.Property, viol.viol.Key, viol.viol.Detail)
		plan, tried := viol.plan, 0
		if viol.viol.Key != "real-hang" {
			plan, tried = minimise(bin, viol.plan, viol.viol, 60*time.Second)
		}
		os.MkdirAll(a.replays, 0755)
		name := filepath.Join(a.replays, fmt.Sprintf("%s-%s-%x.json", sp.id, sanitize(viol.viol.Key), mix(hashBytes(mustJSON(plan)))&0xffffffff))
		o := execIn(bin, plan, true)
		for k := 0; k < 8 && (o == nil || !o.has(viol.viol)); k++ {
			if k == 1 {
				plan = viol.plan
			}
			o = execIn(bin, plan, true)
		}
		switch {
		case o != nil && o.has(viol.viol):
			rep := map[string]any{"property": sp.id, "seed": a.seed, "violation": o.get(viol.viol), "plan": plan, "event_hash": fmt.Sprintf("%016x", o.Hash), "steps": o.Steps, "sched_decisions": o.Decisions, "fired": o.Fired, "minimisation_runs": tried, "trace": o.Trace}
			b, _ := json.MarshalIndent(rep, "", " ")
			if err := os.WriteFile(name, b, 0644); err != nil {
				fatal("%v", err)
			}
			fmt.Printf("detail: %s\n", o.get(viol.viol).Detail)
			fmt.Printf("faults: %s\n", mustJSON(plan.Faults))
			fmt.Printf("VIOLATION property=%s replay=%s\n", sp.id, name)
			code = 1
			res["violation"] = rep["violation"]
		case viol.viol.Key == "data-race":
			// The detector's shadow memory forgets: a report that does not come
			// again is not counted.
			fmt.Printf("not counted: the data race did not replay\n")
			unreplayed++
		default:
			fatal("the violation %v of %s did not replay", viol.viol, mustJSON(plan))
		}
	}
	if a.evidence != "" {
		writeEvidence(sp, a, total, raceStats, start, code, unreplayed, restarts)
	}
	return code
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= '0' && r <= '9' || r == '-' || r >= 'A' && r <= 'Z' {
			return r
		}
		return '_'
	}, s)
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if r := l.n - l.b.Len(); r > 0 {
		l.b.Write(p[:min(r, len(p))])
	}
	return len(p), nil
}

// --- replay in a fresh process ---

type replayOut struct {
	Viols     []Violation
	Hash      uint64
	Steps     int64
	Decisions int
	Fired     []string
	Trace     []string
	Races     string
}

func (o *replayOut) has(v Violation) bool { return o.get(v) != nil }

func (o *replayOut) get(v Violation) *Violation {
	for i := range o.Viols {
		if o.Viols[i].Property == v.Property && o.Viols[i].Key == v.Key {
			return &o.Viols[i]
		}
	}
	return nil
}

func execIn(bin string, p *Plan, trace bool) *replayOut {
	f, err := os.CreateTemp("", "zzplan")
	if err != nil {
		fatal("%v", err)
	}
	defer os.Remove(f.Name())
	f.Write(mustJSON(p))
	f.Close()
	cmd := exec.Command(bin, "-replay", f.Name())
	if trace {
		cmd.Args = append(cmd.Args, "-trace")
	}
	cmd.Env = append(os.Environ(), "ZZ_INTERNAL=1", "GORACE=halt_on_error=0 exitcode=0 history_size=2")
	var se bytes.Buffer
	cmd.Stderr = &limited{b: &se, n: 1 << 15}
	var so bytes.Buffer
	cmd.Stdout = &so
	if err := cmd.Start(); err != nil {
		fatal("%v", err)
	}
	var late atomic.Bool
	tm := time.AfterFunc(replLimit, func() { late.Store(true); cmd.Process.Kill() })
	werr := cmd.Wait()
	tm.Stop()
	var o replayOut
	if json.Unmarshal(so.Bytes(), &o) != nil {
		if werr == nil {
			return nil
		}
		if ee, ok := werr.(*exec.ExitError); ok && ee.ExitCode() == 4 {
			return nil // fatal: this program's own trouble
		}
		v := Violation{Property: p.Property, Key: "process-crash", Detail: "a run takes the whole process down (a fatal error no program can recover from: memory exhausted, stack overflow, a map written twice at once)"}
		if late.Load() || strings.Contains(se.String(), "fatal: the run does not end") {
			v.Key, v.Detail = "real-hang", fmt.Sprintf("a run does not end within %v of real time", runLimit)
		}
		lines := strings.Split(strings.TrimSpace(se.String()), "\n")
		v.Detail += "; " + werr.Error() + ": " + strings.Join(lines[:min(4, len(lines))], " / ")
		o = replayOut{Viols: []Violation{v}, Trace: lines[:min(200, len(lines))]}
		return &o
	}
	o.Races = se.String()
	if trace && strings.Contains(o.Races, "DATA RACE") {
		o.Trace = append(o.Trace, strings.Split(o.Races, "\n")...)
	}
	return &o
}

func doReplay(file string, trace bool) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var rep struct {
		Plan      *Plan      `json:"plan"`
		EventHash string     `json:"event_hash"`
		Violation *Violation `json:"violation"`
	}
	var p *Plan
	if json.Unmarshal(b, &rep) == nil && rep.Plan != nil {
		p = rep.Plan
	} else {
		p = &Plan{}
		if err := json.Unmarshal(b, p); err != nil {
			fatal("%v", err)
		}
	}
	internal := os.Getenv("ZZ_INTERNAL") != ""
	if v := rep.Violation; v != nil && !internal && (v.Key == "process-crash" || v.Key == "real-hang") {
		self, err := os.Executable()
		if err != nil {
			fatal("%v", err)
		}
		if o := execIn(self, p, trace); o != nil && o.has(*v) {
			fmt.Printf("violation %s %s: %s\nVIOLATION property=%s replay=%s\n", v.Property, v.Key, o.get(*v).Detail, v.Property, file)
			return 1
		}
		return 0
	}
	if internal {
		limits()
		runSince.Store(time.Now().UnixNano())
	}
	o := Execute(p, trace)
	if internal {
		os.Stdout.Write(mustJSON(replayOut{Viols: o.Viols, Hash: o.Res.Hash, Steps: o.Res.Steps, Decisions: o.Res.Decisions, Fired: o.Res.FiredAll, Trace: tail(o.Res.Trace, 400)}))
		return 0
	}
	for _, l := range o.Res.Trace {
		fmt.Println(l)
	}
	fmt.Printf("verdict %q steps %d decisions %d simulated %v fired %v probes %v counters %v hash %016x\n", o.Res.Verdict, o.Res.Steps, o.Res.Decisions, time.Duration(o.Res.SimNS), o.Res.FiredAll, o.Probes, o.Res.Counters, o.Res.Hash)
	code := 0
	for _, v := range o.Viols {
		fmt.Printf("violation %s %s: %s\n", v.Property, v.Key, v.Detail)
		if rep.Violation == nil || v.Property == rep.Violation.Property && v.Key == rep.Violation.Key {
			code = 1
			fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, file)
		}
	}
	if rep.EventHash != "" {
		fmt.Printf("event hash matches the recorded run: %v\n", rep.EventHash == fmt.Sprintf("%016x", o.Res.Hash))
	}
	return code
}

func tail(s []string, n int) []string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// minimise shrinks a failing plan while the same violation persists.
func minimise(bin string, p *Plan, v Violation, budget time.Duration) (*Plan, int) {
	end := time.Now().Add(budget)
	tried := 0
	cur := *p
	check := func(q Plan) bool {
		if time.Now().After(end) {
			return false
		}
		tried++
		o := execIn(bin, &q, false)
		if o != nil && o.has(v) {
			cur = q
			return true
		}
		return false
	}
	// drop faults
	for again := true; again; {
		again = false
		for i := range cur.Faults {
			q := cur
			q.Faults = append(append([]*rt.Fault{}, cur.Faults[:i]...), cur.Faults[i+1:]...)
			if check(q) {
				again = true
				break
			}
		}
	}
	// plainer environment
	shrinkEnv := func() {
		q := cur
		q.Cfg.ReadChunk = 0
		if cur.Cfg.ReadChunk != 0 {
			check(q)
		}
		q = cur
		q.Cfg.LatencyNS = [2]int64{}
		if cur.Cfg.LatencyNS != [2]int64{} {
			check(q)
		}
		// fewer free scheduling decisions
		q = cur
		q.Cfg.SchedLimit = 0
		if cur.Cfg.SchedLimit != 0 && !check(q) {
			o := execIn(bin, &cur, false)
			hi := 1 << 20
			if o != nil {
				hi = o.Decisions
			}
			if cur.Cfg.SchedLimit > 0 {
				hi = cur.Cfg.SchedLimit
			}
			lo := 0
			for k := 0; k < 14 && hi-lo > 1; k++ {
				mid := (lo + hi) / 2
				q := cur
				q.Cfg.SchedLimit = mid
				if check(q) {
					hi = mid
				} else {
					lo = mid
				}
			}
		}
	}
	s := scenarios[p.Scenario]
	for round := 0; round < 6 && s.Shrink != nil; round++ {
		any := false
		for _, c := range s.Shrink(cur.Params) {
			q := cur
			q.Params = mustJSON(c)
			if bytes.Equal(q.Params, cur.Params) {
				continue
			}
			if check(q) {
				any = true
				break
			}
		}
		if !any {
			break
		}
	}
	shrinkEnv()
	// smaller fault positions
	for i := range cur.Faults {
		for cur.Faults[i].N > 1 {
			q := cur
			q.Faults = append([]*rt.Fault{}, cur.Faults...)
			f := *cur.Faults[i]
			f.N /= 2
			q.Faults[i] = &f
			if !check(q) {
				break
			}
		}
	}
	return &cur, tried
}

// --- evidence ---

func writeEvidence(sp *propSpec, a runArgs, st, rs *stats, start time.Time, code, unreplayed, restarts int) {
	el := time.Since(start).Seconds()
	if rs != nil {
		for _, k := range rs.Samples {
			if len(st.Samples) < 10 {
				st.Samples = append(st.Samples, k)
			}
		}
	}
	runs, steps, sim, decs := st.Runs, st.Steps, st.SimNS, st.Decs
	fired := st.FaultedFired
	faults, probes := map[string]int{}, map[string]int{}
	for k, n := range st.Faults {
		faults[k] += n
	}
	for k, n := range st.Probes {
		probes[k] += n
	}
	if rs != nil {
		runs += rs.Runs
		steps += rs.Steps
		sim += rs.SimNS
		decs += rs.Decs
		fired += rs.FaultedFired
		for k, n := range rs.Faults {
			faults[k] += n
		}
		for k, n := range rs.Probes {
			probes[k] += n
		}
		for h := range rs.Hashes {
			st.Hashes[h^1] = struct{}{}
		}
		for h := range rs.Nontrivial {
			st.Nontrivial[h^1] = struct{}{}
		}
	}
	samples := []any{}
	for _, s := range st.Samples {
		samples = append(samples, s)
	}
	if len(samples) == 0 {
		samples = append(samples, "none finished")
	}
	viols := 0
	if code == 1 {
		viols = 1
	}
	ev := map[string]any{
		"property":   sp.id,
		"tier":       a.tier,
		"seed":       a.seed,
		"level":      "exploration",
		"wall_s":     el,
		"violations": viols,
		"assumptions": []string{
			"the simulator's clones of the standard library (os, sync, channels, time, context, net, os/exec, grpc) behave like the originals within what the programs use",
			"no code outside the listed real components influences the property",
			"seeded search: a clean run is evidence, not proof",
		},
		"coverage": map[string]any{
			"evaluations":             runs,
			"distinct_nontrivial":     len(st.Nontrivial),
			"rule":                    "each case is one simulated run generated from the seed: a workload, a schedule policy and a fault plan; it is non-trivial if it made more than one free scheduling decision or a fault fired in it; distinct cases differ in the hash of their event log or in their workload",
			"samples":                 samples,
			"iterations":              st.Iters,
			"runs_per_hour":           int(float64(runs) / el * 3600),
			"seeds_per_hour":          int(float64(st.Iters) / el * 3600),
			"simulated_seconds":       float64(sim) / 1e9,
			"scheduler_steps":         steps,
			"scheduling_decisions":    decs,
			"runs_with_faults_fired":  fired,
			"faults_fired":            faults,
			"violations_not_replayed": unreplayed,
			"workers_restarted":       restarts,
			"conditions_reached":      probes,
			"distinct_interleavings":  len(st.Hashes),
			"interleaving_measure":    "hash of the sequence of scheduled task ids of a run",
			"runs_per_scenario":       st.PerScen,
			"race_detector_runs":      raceRuns(rs),
			"components_real_code":    componentsOf(sp),
			"components_stubbed":      stubsOf(sp),
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(a.evidence), 0755)
	if err := os.WriteFile(a.evidence, b, 0644); err != nil {
		fatal("%v", err)
	}
}

func raceRuns(rs *stats) int {
	if rs == nil {
		return 0
	}
	return rs.Runs
}
