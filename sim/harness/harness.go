// Package harness turns scenarios into a check: seeded batches of simulated
// runs over several worker processes, minimised and replayed violations, and
// an evidence file.
package harness

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"verif.local/sim/simrt"
)

// Scenario is one kind of simulated run.
type Scenario struct {
	Name      string
	Weight    int   // share of the runs (default 1)
	StepLimit int64 // default 400k
	// Run is the root task.  It draws its workload and faults through simrt,
	// and reports violations through Violate.
	Run func(h *H)
	// DeadlockOK: a run that ends with nothing runnable while the root waits is not a violation.
	DeadlockOK bool
	// PanicOK classifies a panic as legitimate.
	PanicOK func(msg, stack string) bool
	// Tune adjusts the scheduling configuration.
	Tune func(c *simrt.Config)
	// Reset restores package-level state between runs.
	Reset func()
}

// Prop is one property's check.
type Prop struct {
	ID          string
	Rule        string // how cases are made and what makes one non-trivial
	Assumptions []string
	Real        []string // components that run real code
	Stub        []string // components replaced by a stub
	Scenarios   []Scenario
	MustProbe   []string // probes that have to be hit at least once per batch
	QuickSec    int      // wall-clock budget of the exploration, seconds
	ThoroughSec int
	QuickRuns   int // upper bound on runs
	Setup       func()
}

// H is the per-run handle.
type H struct {
	Scn        string
	nontrivial bool
	class, msg string
	sample     []string
	summary    string
}

// NonTrivial marks the run as one that exercised what the property is about.
func (h *H) NonTrivial() { h.nontrivial = true }

// Sample records a line describing the workload of this run.
func (h *H) Sample(format string, args ...any) {
	if len(h.sample) < 60 {
		h.sample = append(h.sample, fmt.Sprintf(format, args...))
	}
}

// Violate reports a violation of the given class and ends the run.
func (h *H) Violate(class, format string, args ...any) {
	if h.class == "" {
		h.class = class
		h.msg = fmt.Sprintf(format, args...)
		simrt.Logf("VIOLATION %s: %s", class, h.msg)
	}
	simrt.Fail("%s", h.class+": "+h.msg)
}

// Check is Violate when cond is false.
func (h *H) Check(cond bool, class, format string, args ...any) {
	if !cond {
		h.Violate(class, format, args...)
	}
}

type result struct {
	Class   string
	Msg     string
	Outcome simrt.Outcome
	Sim     *simrt.Sim
	H       *H
	Rec     simrt.Record
}

func runOne(p *Prop, sc *Scenario, d *simrt.Decisions, keepLog bool) result {
	if sc.Reset != nil {
		sc.Reset()
	}
	cfg := simrt.NewConfig(d)
	cfg.StepLimit = sc.StepLimit
	if cfg.StepLimit == 0 {
		cfg.StepLimit = 400_000
	}
	if sc.Tune != nil {
		sc.Tune(&cfg)
	}
	h := &H{Scn: sc.Name}
	s, o := simrt.Run(cfg, d, keepLog, func() { sc.Run(h) })
	r := result{Outcome: o, Sim: s, H: h, Rec: d.Rec}
	switch o.Kind {
	case "fail":
		r.Class, r.Msg = h.class, h.msg
	case "panic":
		if sc.PanicOK == nil || !sc.PanicOK(o.Msg, o.Stack) {
			r.Class = "panic"
			r.Msg = o.Msg + "\n" + o.Stack
			if strings.Contains(o.Msg, "simrt:") || onlyHarness(o.Stack) {
				r.Class = "HARNESS"
			}
		}
	case "deadlock":
		if !sc.DeadlockOK {
			r.Class = "deadlock"
			r.Msg = "no task can make progress: " + strings.Join(o.Blocked, "; ")
		}
	case "steplimit":
		r.Class = "livelock"
		r.Msg = o.Msg + "\n" + o.Stack
	}
	return r
}

func onlyHarness(stack string) bool {
	for _, l := range strings.Split(stack, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "/") {
			// first frame with a file
			if strings.Contains(l, "/simrt/") || strings.Contains(l, "/src/runtime/") {
				continue
			}
			return strings.Contains(l, "/sim/props/") || strings.Contains(l, "/sim/harness/")
		}
	}
	return false
}

func (p *Prop) pick(d uint64) *Scenario {
	tot := 0
	for i := range p.Scenarios {
		w := p.Scenarios[i].Weight
		if w == 0 {
			w = 1
		}
		tot += w
	}
	x := int((d * 0x9E3779B97F4A7C15 >> 33) % uint64(tot))
	for i := range p.Scenarios {
		w := p.Scenarios[i].Weight
		if w == 0 {
			w = 1
		}
		if x < w {
			return &p.Scenarios[i]
		}
		x -= w
	}
	return nil
}

func (p *Prop) scenario(name string) *Scenario {
	for i := range p.Scenarios {
		if p.Scenarios[i].Name == name {
			return &p.Scenarios[i]
		}
	}
	return nil
}

// Replay is the file format of a violation.
type Replay struct {
	Property string       `json:"property"`
	Scenario string       `json:"scenario"`
	Seed     uint64       `json:"seed"`
	Class    string       `json:"class"`
	Message  string       `json:"message"`
	LogHash  string       `json:"log_hash"`
	Record   simrt.Record `json:"record"`
	Trace    []string     `json:"trace"`
	Orig     int          `json:"decisions_before_minimisation"`
	Final    int          `json:"decisions_after_minimisation"`
}

// Known is one entry of known-findings.json.
type Known struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Match    string `json:"match"`
	What     string `json:"what"`
}

type workerOut struct {
	Runs, NonTrivial         int
	ByScn                    map[string]int
	Inter                    []uint64
	Faults, Probes           map[string]int64
	SimNs                    int64
	Steps, Switches, Preempt int64
	Kinds                    map[string]int
	DetChecks, DetBad        int
	Viol                     []Replay
	Known                    map[string]int
	Samples                  []string
	Harness                  []string
	MaxTasks                 int
	LastSeed                 uint64
}

var realOut = os.Stdout

// Main runs the check described by p.
func Main(p Prop) {
	tier := flag.String("tier", "quick", "")
	seed := flag.Uint64("seed", 1, "")
	worker := flag.Int("worker", -1, "")
	nworkers := flag.Int("workers", 8, "")
	budget := flag.Int("budget", 0, "seconds")
	maxRuns := flag.Int("runs", 0, "")
	replay := flag.String("replay", "", "")
	minimise := flag.String("minimise", "", "")
	evidence := flag.String("evidence", "", "")
	outdir := flag.String("replays", ".", "")
	known := flag.String("known", "", "")
	one := flag.String("one", "", "run a single seed of a scenario and print its log")
	dump := flag.Int("hashes", 0, "print the log hashes of the first N seeds")
	flag.Parse()

	// Output of the code under test is discarded; harness output goes to realOut.
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = null
	log.SetOutput(io.Discard)
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(200)
	if p.Setup != nil {
		p.Setup()
	}
	if p.QuickSec == 0 {
		p.QuickSec = 40
	}
	if p.ThoroughSec == 0 {
		p.ThoroughSec = 600
	}
	if *budget == 0 {
		*budget = p.QuickSec
		if *tier == "thorough" {
			*budget = p.ThoroughSec
		}
	}
	kn := loadKnown(*known, p.ID)
	switch {
	case *dump > 0:
		for i := uint64(0); i < uint64(*dump); i++ {
			sd := *seed*1_000_003 + i
			sc := p.pick(sd)
			r := runOne(&p, sc, simrt.NewDecisions(sd), false)
			fmt.Fprintf(realOut, "%d %s %016x %s %d\n", sd, sc.Name, r.Sim.LogHash(), r.Outcome.Kind, r.Sim.Steps())
		}
	case *replay != "":
		os.Exit(doReplay(&p, *replay))
	case *minimise != "":
		doMinimise(&p, *minimise)
	case *one != "":
		sc := p.scenario(*one)
		if sc == nil {
			sc = p.pick(*seed)
		}
		r := runOne(&p, sc, simrt.NewDecisions(*seed), true)
		for _, l := range r.Sim.Log() {
			fmt.Fprintln(realOut, l)
		}
		fmt.Fprintln(realOut, sc.Name, r.Outcome.Kind, r.Class, r.Msg, r.Sim.Steps(), r.Sim.Elapsed(), r.Outcome.Blocked, r.Sim.Probes(), r.Sim.Faults())
	case *worker >= 0:
		doWorker(&p, *seed, *worker, *nworkers, time.Duration(*budget)*time.Second, *maxRuns, kn)
	default:
		os.Exit(master(&p, *tier, *seed, *nworkers, *budget, *maxRuns, *evidence, *outdir, *known, kn))
	}
}

func loadKnown(path, id string) []Known {
	if path == "" {
		return nil
	}
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var f struct {
		Findings []Known `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		os.Exit(2)
	}
	var r []Known
	for _, k := range f.Findings {
		if k.Property == id && k.Class != "generate" {
			r = append(r, k)
		}
	}
	return r
}

func matchKnown(kn []Known, class, msg string) string {
	for _, k := range kn {
		if k.Class == class {
			if ok, _ := regexp.MatchString(k.Match, msg); ok {
				return k.What
			}
		}
	}
	return ""
}

func doWorker(p *Prop, seed uint64, w, n int, budget time.Duration, maxRuns int, kn []Known) {
	out := workerOut{ByScn: map[string]int{}, Faults: map[string]int64{}, Probes: map[string]int64{}, Kinds: map[string]int{}, Known: map[string]int{}}
	start := time.Now()
	inter := map[uint64]bool{}
	classes := map[string]int{}
	// watchdog: a run that hangs in unsimulated code is an error of the check
	tick := make(chan uint64, 1)
	go func() {
		cur := uint64(0)
		for {
			select {
			case cur = <-tick:
			case <-time.After(60 * time.Second):
				buf := make([]byte, 1<<16)
				k := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "watchdog: seed %d hangs\n%s\n", cur, buf[:k])
				os.Exit(3)
			}
		}
	}()
	for i := 0; ; i++ {
		if time.Since(start) > budget || maxRuns > 0 && i*n+w >= maxRuns {
			break
		}
		sd := seed*1_000_003 + uint64(i*n+w)
		out.LastSeed = sd
		select {
		case tick <- sd:
		default:
		}
		sc := p.pick(sd)
		r := runOne(p, sc, simrt.NewDecisions(sd), false)
		out.Runs++
		out.ByScn[sc.Name]++
		out.Kinds[r.Outcome.Kind]++
		out.SimNs += r.Sim.Elapsed()
		out.Steps += r.Sim.Steps()
		out.Switches += r.Sim.Switches()
		out.Preempt += r.Sim.Preemptions()
		if r.Sim.NTasks() > out.MaxTasks {
			out.MaxTasks = r.Sim.NTasks()
		}
		for k, v := range r.Sim.Faults() {
			out.Faults[k] += v
		}
		for k, v := range r.Sim.Probes() {
			out.Probes[k] += v
		}
		if r.H.nontrivial {
			out.NonTrivial++
			inter[r.Sim.InterHash()] = true
			if len(out.Samples) < 3 && i%7 == 3 {
				out.Samples = append(out.Samples, fmt.Sprintf("seed %d, %s, %d steps, %d switches: %s", sd, sc.Name, r.Sim.Steps(), r.Sim.Switches(), strings.Join(r.H.sample, "; ")))
			}
		}
		if i%200 == 50 {
			r2 := runOne(p, sc, simrt.NewDecisions(sd), false)
			out.DetChecks++
			if r2.Sim.LogHash() != r.Sim.LogHash() || r2.Class != r.Class {
				out.DetBad++
			}
		}
		if r.Class == "HARNESS" {
			if len(out.Harness) < 3 {
				out.Harness = append(out.Harness, fmt.Sprintf("seed %d %s: %s", sd, sc.Name, r.Msg))
			}
			continue
		}
		if r.Class != "" {
			if k := matchKnown(kn, r.Class, r.Msg); k != "" {
				out.Known[k]++
				continue
			}
			key := r.Class + sc.Name
			classes[key]++
			if classes[key] <= 2 {
				out.Viol = append(out.Viol, Replay{Property: p.ID, Scenario: sc.Name, Seed: sd, Class: r.Class, Message: r.Msg, Record: r.Rec, LogHash: fmt.Sprintf("%016x", r.Sim.LogHash())})
			}
			if len(out.Viol) >= 4 {
				break
			}
			// enough to report; keep going only briefly
			if len(out.Viol) > 0 && time.Since(start) > budget/4 {
				break
			}
		}
	}
	for k := range inter {
		out.Inter = append(out.Inter, k)
	}
	json.NewEncoder(realOut).Encode(out)
}

func master(p *Prop, tier string, seed uint64, n, budget, maxRuns int, evidence, outdir, knownPath string, kn []Known) int {
	start := time.Now()
	self, _ := os.Executable()
	type res struct {
		o   workerOut
		err error
	}
	ch := make(chan res, n)
	for w := 0; w < n; w++ {
		go func(w int) {
			cmd := exec.Command(self, "-worker", fmt.Sprint(w), "-workers", fmt.Sprint(n), "-seed", fmt.Sprint(seed), "-tier", tier, "-budget", fmt.Sprint(budget), "-runs", fmt.Sprint(maxRuns), "-known", knownPath)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
			cmd.Stderr = os.Stderr
			b, err := cmd.Output()
			var o workerOut
			if err == nil {
				err = json.Unmarshal(b, &o)
			}
			ch <- res{o, err}
		}(w)
	}
	tot := workerOut{ByScn: map[string]int{}, Faults: map[string]int64{}, Probes: map[string]int64{}, Kinds: map[string]int{}, Known: map[string]int{}}
	inter := map[uint64]bool{}
	failed := ""
	for i := 0; i < n; i++ {
		r := <-ch
		if r.err != nil {
			failed = r.err.Error()
			continue
		}
		o := r.o
		tot.Runs += o.Runs
		tot.NonTrivial += o.NonTrivial
		tot.SimNs += o.SimNs
		tot.Steps += o.Steps
		tot.Switches += o.Switches
		tot.Preempt += o.Preempt
		tot.DetChecks += o.DetChecks
		tot.DetBad += o.DetBad
		if o.MaxTasks > tot.MaxTasks {
			tot.MaxTasks = o.MaxTasks
		}
		add(tot.ByScn, o.ByScn)
		add(tot.Faults, o.Faults)
		add(tot.Probes, o.Probes)
		add(tot.Kinds, o.Kinds)
		add(tot.Known, o.Known)
		for _, k := range o.Inter {
			inter[k] = true
		}
		tot.Viol = append(tot.Viol, o.Viol...)
		tot.Samples = append(tot.Samples, o.Samples...)
		tot.Harness = append(tot.Harness, o.Harness...)
	}
	explore := time.Since(start)
	sort.Slice(tot.Viol, func(i, j int) bool {
		if len(tot.Viol[i].Record.Sched) != len(tot.Viol[j].Record.Sched) {
			return len(tot.Viol[i].Record.Sched) < len(tot.Viol[j].Record.Sched)
		}
		return tot.Viol[i].Seed < tot.Viol[j].Seed
	})
	reported := 0
	unrep := 0
	var paths []string
	seenClass := map[string]bool{}
	for _, v := range tot.Viol {
		key := v.Scenario + "/" + v.Class
		if seenClass[key] || reported >= 3 {
			continue
		}
		os.MkdirAll(outdir, 0o755)
		path := filepath.Join(outdir, fmt.Sprintf("%s-%s-%d.json", p.ID, v.Scenario, v.Seed))
		writeReplay(path, v)
		// reproduce and minimise in a fresh process, then replay the result in another one
		cmd := exec.Command(self, "-minimise", path)
		cmd.Stderr = os.Stderr
		if err := cmd.Run(); err != nil {
			unrep++
			fmt.Fprintf(os.Stderr, "%s: seed %d (%s) did not reproduce in a fresh process: %v\n", p.ID, v.Seed, v.Class, err)
			continue
		}
		if err := exec.Command(self, "-replay", path).Run(); exitCode(err) != 1 {
			unrep++
			fmt.Fprintf(os.Stderr, "%s: minimised replay %s did not reproduce\n", p.ID, path)
			continue
		}
		seenClass[key] = true
		reported++
		paths = append(paths, path)
		var fin Replay
		b, _ := os.ReadFile(path)
		json.Unmarshal(b, &fin)
		fmt.Fprintf(realOut, "%s: %s in scenario %s (seed %d, %d -> %d decisions)\n  %s\n", p.ID, fin.Class, fin.Scenario, fin.Seed, fin.Orig, fin.Final, strings.ReplaceAll(fin.Message, "\n", "\n  "))
		fmt.Fprintf(realOut, "VIOLATION property=%s replay=%s\n", p.ID, path)
	}
	for _, k := range kn {
		// every listed finding is announced, reproduced in this batch or not
		fmt.Fprintf(realOut, "KNOWN-FINDING: property=%s %s (reproduced %d times in this batch)\n", p.ID, k.What, tot.Known[k.What])
	}
	code := 0
	if reported > 0 {
		code = 1
	} else if failed != "" {
		fmt.Fprintf(os.Stderr, "%s: worker failed: %s\n", p.ID, failed)
		code = 2
	} else if len(tot.Harness) > 0 {
		fmt.Fprintf(os.Stderr, "%s: harness error: %s\n", p.ID, strings.Join(tot.Harness, "\n"))
		code = 2
	} else if unrep > 0 {
		code = 2
	} else if tot.Runs == 0 || tot.NonTrivial == 0 {
		fmt.Fprintf(os.Stderr, "%s: nothing was explored\n", p.ID)
		code = 2
	}
	if code == 0 && tot.DetBad > 0 {
		fmt.Fprintf(os.Stderr, "%s: warning: %d of %d repeated runs differed\n", p.ID, tot.DetBad, tot.DetChecks)
	}
	if code == 0 {
		for _, m := range p.MustProbe {
			if tot.Probes[m] == 0 {
				fmt.Fprintf(os.Stderr, "%s: warning: probe %q was never hit\n", p.ID, m)
			}
		}
	}
	if evidence != "" {
		if len(tot.Samples) > 6 {
			tot.Samples = tot.Samples[:6]
		}
		if len(tot.Samples) == 0 {
			tot.Samples = []string{fmt.Sprintf("seeds %d.. (%d runs)", seed*1_000_003, tot.Runs)}
		}
		hrs := explore.Hours()
		ev := map[string]any{
			"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
			"coverage": map[string]any{
				"evaluations": tot.Runs, "distinct_nontrivial": len(inter), "rule": p.Rule + " A run counts as distinct when the hash of its sequence of task switches (task, source site) differs; it counts as non-trivial when the scenario reached the behaviour described here.",
				"samples": tot.Samples, "nontrivial_runs": tot.NonTrivial, "runs_by_scenario": tot.ByScn, "outcomes": tot.Kinds,
				"runs_per_hour": int(float64(tot.Runs) / hrs), "seeds_per_hour": int(float64(tot.Runs) / hrs),
				"simulated_seconds": float64(tot.SimNs) / 1e9, "scheduler_steps": tot.Steps, "task_switches": tot.Switches, "preemptions": tot.Preempt,
				"faults_injected": tot.Faults, "probes_hit": tot.Probes, "max_tasks_in_a_run": tot.MaxTasks,
				"determinism_rechecks": tot.DetChecks, "determinism_mismatches": tot.DetBad,
				"components_real": p.Real, "components_stub": p.Stub, "first_seed": seed * 1_000_003, "workers": n, "known_findings_hit": tot.Known, "replays": paths,
			},
			"assumptions": p.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": reported,
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Dir(evidence), 0o755)
		if err := os.WriteFile(evidence, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Fprintf(realOut, "%s: %d runs (%d non-trivial, %d distinct interleavings), %.0f simulated s, %d steps, faults %v, %.1fs\n", p.ID, tot.Runs, tot.NonTrivial, len(inter), float64(tot.SimNs)/1e9, tot.Steps, tot.Faults, time.Since(start).Seconds())
	return code
}

func add[V int | int64](a, b map[string]V) {
	for k, v := range b {
		a[k] += v
	}
}

func exitCode(err error) int {
	if err == nil {
		return 0
	}
	if e, ok := err.(*exec.ExitError); ok {
		return e.ExitCode()
	}
	return -1
}

func writeReplay(path string, v Replay) {
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
}

func doReplay(p *Prop, path string) int {
	var v Replay
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, &v)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	sc := p.scenario(v.Scenario)
	if sc == nil {
		fmt.Fprintln(os.Stderr, "unknown scenario", v.Scenario)
		return 2
	}
	r := runOne(p, sc, simrt.ReplayDecisions(v.Record), true)
	for _, l := range r.Sim.Log() {
		fmt.Fprintln(realOut, l)
	}
	if r.Class == "" {
		fmt.Fprintln(realOut, "no violation")
		return 0
	}
	same := fmt.Sprintf("%016x", r.Sim.LogHash()) == v.LogHash && r.Class == v.Class
	fmt.Fprintf(realOut, "violation: %s: %s\nidentical to the recorded execution: %v\n", r.Class, r.Msg, same)
	if !same {
		return 4
	}
	return 1
}

func countRec(r simrt.Record) int {
	n := len(r.Sched)
	for _, s := range r.Streams {
		n += len(s)
	}
	return n
}

func doMinimise(p *Prop, path string) {
	var v Replay
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, &v)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	sc := p.scenario(v.Scenario)
	deadline := time.Now().Add(40 * time.Second)
	go func() {
		time.Sleep(100 * time.Second)
		os.Exit(3)
	}()
	// run the seed itself first: the record must describe the same execution
	r0 := runOne(p, sc, simrt.NewDecisions(v.Seed), false)
	if r0.Class != v.Class {
		os.Exit(5)
	}
	v.Message = r0.Msg
	best := r0.Rec
	v.Orig = countRec(best)
	try := func(rec simrt.Record) bool {
		if time.Now().After(deadline) {
			return false
		}
		r := runOne(p, sc, simrt.ReplayDecisions(rec), false)
		if r.Class == v.Class {
			// keep what the run really used
			best = rec
			return true
		}
		return false
	}
	if !try(best) {
		// replay through the record fails: fall back on the seed
		fmt.Fprintln(os.Stderr, "record replay differs from seed")
		os.Exit(6)
	}
	for pass := 0; pass < 4 && time.Now().Before(deadline); pass++ {
		before := countRec(best)
		minStreams(&best, try)
		minSched(&best, try)
		minValues(&best, try)
		if countRec(best) == before {
			break
		}
	}
	r := runOne(p, sc, simrt.ReplayDecisions(best), true)
	v.Record = best
	v.Class, v.Message = r.Class, r.Msg
	v.Final = countRec(best)
	v.LogHash = fmt.Sprintf("%016x", r.Sim.LogHash())
	v.Trace = r.Sim.Log()
	if len(v.Trace) > 400 {
		v.Trace = v.Trace[len(v.Trace)-400:]
	}
	writeReplay(path, v)
}

func cloneRec(r simrt.Record) simrt.Record {
	c := simrt.Record{Sched: append([]simrt.SchedDec{}, r.Sched...), Streams: map[string][]simrt.Choice{}}
	for k, v := range r.Streams {
		c.Streams[k] = append([]simrt.Choice{}, v...)
	}
	return c
}

func minSched(best *simrt.Record, try func(simrt.Record) bool) {
	for size := len(best.Sched); size >= 1; size /= 2 {
		for i := 0; i < len(best.Sched); {
			c := cloneRec(*best)
			j := i + size
			if j > len(c.Sched) {
				j = len(c.Sched)
			}
			c.Sched = append(c.Sched[:i], c.Sched[j:]...)
			if try(c) {
				continue
			}
			i += size
		}
	}
}

func streamNames(r simrt.Record) []string {
	var ns []string
	for k := range r.Streams {
		ns = append(ns, k)
	}
	sort.Strings(ns)
	return ns
}

func minStreams(best *simrt.Record, try func(simrt.Record) bool) {
	for _, n := range streamNames(*best) {
		c := cloneRec(*best)
		delete(c.Streams, n)
		if try(c) {
			continue
		}
		for size := len(best.Streams[n]); size >= 1; size /= 2 {
			for i := 0; i < len(best.Streams[n]); {
				c := cloneRec(*best)
				l := c.Streams[n]
				j := i + size
				if j > len(l) {
					j = len(l)
				}
				c.Streams[n] = append(l[:i:i], l[j:]...)
				if try(c) {
					continue
				}
				i += size
			}
		}
	}
}

func minValues(best *simrt.Record, try func(simrt.Record) bool) {
	for _, n := range streamNames(*best) {
		for i := 0; i < len(best.Streams[n]); i++ {
			for {
				v := best.Streams[n][i].Val
				if v <= 1 {
					break
				}
				ok := false
				for _, nv := range []int64{1, v / 2, v - 1} {
					if nv >= v || nv < 1 {
						continue
					}
					c := cloneRec(*best)
					c.Streams[n][i].Val = nv
					if try(c) {
						ok = true
						break
					}
				}
				if !ok || v > 1<<32 {
					break
				}
			}
		}
	}
}
