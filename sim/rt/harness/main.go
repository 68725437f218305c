// Command harness runs the simulated executions of a property's check.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/go-stomp/stomp/v3/zzverif/sim"
)

func main() {
	log.SetOutput(io.Discard)
	debug.SetGCPercent(400)
	if len(os.Args) < 2 {
		fatalf("usage: harness check|worker|replay|run|shrink ...")
	}
	cmd := os.Args[1]
	os.Args = append(os.Args[:1], os.Args[2:]...)
	switch cmd {
	case "check":
		check()
	case "worker":
		worker()
	case "shrinkworker":
		shrinkWorker()
	case "replay":
		replay()
	case "determinism":
		determinism()
	case "trace":
		trace()
	default:
		fatalf("unknown command %q", cmd)
	}
}

// family says how the plans of a property are drawn.
type family struct {
	scenarios []string // drawn from uniformly (repeat for weight)
	quick     int      // executions of the quick tier
	level     string
	real      []string
	stub      []string
	rule      string
}

var families = map[string]*family{}

func hash64(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

// planOf draws the i-th plan of a property.
func planOf(prop string, seed uint64, i int) *Plan {
	f := families[prop]
	if f == nil {
		fatalf("no check for property %q", prop)
	}
	r := sim.NewRand(seed*0x9e3779b97f4a7c15 ^ hash64(prop) ^ uint64(i)*0xd1342543de82ef95)
	r.Uint64()
	p := &Plan{Prop: prop, Seed: r.Uint64(), K: map[string]int64{}}
	p.Scenario = f.scenarios[r.Intn(len(f.scenarios))]
	genSched(p, r)
	scenarios[p.Scenario].gen(p, r)
	// the same representation as a plan read back from a file
	return p.clone()
}

// Report is what a worker hands to the coordinator.
type Report struct {
	Runs     int              `json:"runs"`
	Ops      int64            `json:"ops"`
	Trivial  int              `json:"trivial"`
	Sim      float64          `json:"sim"`
	Steps    int64            `json:"steps"`
	Switch   int64            `json:"switch"`
	Freezes  int64            `json:"freezes"`
	Caps     int              `json:"caps"`
	Counts   map[string]int64 `json:"counts"`
	RunsWith map[string]int64 `json:"runs_with"`
	Hashes   []uint64         `json:"hashes"`
	Known    map[string]int64 `json:"known"`
	Bad      *Plan            `json:"bad"`
	BadV     *Violation       `json:"badv"`
	BadI     int              `json:"badi"`
	Err      string           `json:"err"`
	Samples  []string         `json:"samples"`
}

func startWatchdog() {
	go func() {
		last, same := int64(-1), 0
		for {
			time.Sleep(2 * time.Second)
			p := sim.Progress()
			if p == last && sim.Active() {
				same++
				if same == 10 {
					buf := make([]byte, 1<<20)
					n := runtime.Stack(buf, true)
					fatalf("watchdog: no progress for 20 s\n%s", buf[:n])
				}
			} else {
				same = 0
			}
			last = p
		}
	}()
}

func worker() {
	prop := flag.String("prop", "", "")
	seed := flag.Uint64("seed", 1, "")
	w := flag.Int("w", 0, "")
	n := flag.Int("n", 1, "")
	runs := flag.Int("runs", 1000, "")
	wall := flag.Float64("wall", 30, "")
	known := flag.String("known", "", "")
	all := flag.Bool("all", false, "go on after a violation and count classes")
	anyProp := flag.Bool("any", false, "stop at a violation of any property")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	startWatchdog()
	kf := loadKnown(*known)
	rep := &Report{Counts: map[string]int64{}, RunsWith: map[string]int64{}, Known: map[string]int64{}}
	start := time.Now()
	seen := map[uint64]bool{}
	classes := map[string]int{}
	first := map[string]int{}
	for i := *w; i < *runs; i += *n {
		if time.Since(start).Seconds() > *wall {
			break
		}
		p := planOf(*prop, *seed, i)
		o := Execute(p, false)
		rep.Runs++
		rep.Ops += int64(o.Ops)
		rep.Sim += o.Stats.Now.Seconds()
		rep.Steps += o.Stats.Steps
		rep.Switch += o.Stats.Switches
		rep.Freezes += o.Stats.Freezes
		if o.Stats.StepCap {
			rep.Caps++
		}
		for k, v := range o.Counts {
			rep.Counts[k] += v
			rep.RunsWith[k]++
		}
		if o.Ops > 0 && (len(o.Rec.D) > 0 || len(o.Rec.P) > 0 || len(p.Faults) > 0) {
			if !seen[o.Stats.Hash] {
				seen[o.Stats.Hash] = true
				rep.Hashes = append(rep.Hashes, o.Stats.Hash)
			}
		} else {
			rep.Trivial++
		}
		if len(rep.Samples) < 2 && *w < 2 {
			rep.Samples = append(rep.Samples, describe(p, o, i))
		}
		if o.Err != "" {
			b, _ := json.Marshal(p)
			rep.Err = fmt.Sprintf("run %d: %s\nplan: %s", i, o.Err, b)
			break
		}
		stop := false
		for k := range o.Viol {
			v := &o.Viol[k]
			if v.Prop != *prop && !*anyProp {
				continue
			}
			if id := kf.match(v); id != "" {
				rep.Known[id]++
				continue
			}
			if *all {
				classes[v.Class]++
				if _, ok := first[v.Class]; !ok {
					first[v.Class] = i
					fmt.Fprintf(os.Stderr, "run %d [%s] %s: %s\n", i, p.Scenario, v.Class, v.Msg)
				}
				continue
			}
			rep.Bad, rep.BadV, rep.BadI = p, v, i
			stop = true
			break
		}
		if stop {
			break
		}
	}
	if *all {
		for _, c := range sortedKeys(classes) {
			fmt.Fprintf(os.Stderr, "worker %d: %6d x %s (first run %d)\n", *w, classes[c], c, first[c])
		}
	}
	json.NewEncoder(os.Stdout).Encode(rep)
}

func describe(p *Plan, o *Outcome, i int) string {
	var acts []string
	for _, a := range p.Actors {
		s := a.Kind
		for j, op := range a.Ops {
			if j == 12 {
				s += fmt.Sprintf(" …(%d ops)", len(a.Ops))
				break
			}
			s += " " + op.Op
			if op.S != "" {
				s += "(" + op.S + ")"
			}
		}
		acts = append(acts, s)
	}
	fb, _ := json.Marshal(p.Faults)
	return fmt.Sprintf("run %d: scenario %s, strategy %d switch %d‰ pgap %d, actors [%s], network faults %s; %d scheduling steps, %d switches, %v simulated, %d operations, trace %016x",
		i, p.Scenario, p.Sched.Strategy, p.Sched.Switch, p.Sched.PGap, strings.Join(acts, "; "), fb,
		o.Stats.Steps, o.Stats.Switches, o.Stats.Now, o.Ops, o.Stats.Hash)
}

type knownList []knownEntry

type knownEntry struct{ prop, class, text string }

// loadKnown reads lines "known: property=<id> class=<class> :: <text>".
func loadKnown(path string) knownList {
	var out knownList
	if path == "" {
		return nil
	}
	f, err := os.Open(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil
		}
		fatalf("%v", err)
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	for s.Scan() {
		l := s.Text()
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		prop, rest, _ := strings.Cut(l, " class=")
		class, text, ok := strings.Cut(rest, " :: ")
		if !ok {
			fatalf("malformed line in %s: %s", path, s.Text())
		}
		out = append(out, knownEntry{prop, strings.TrimSpace(class), text})
	}
	return out
}

func (k knownList) match(v *Violation) string {
	for _, e := range k {
		if e.prop == v.Prop && e.class == v.Class {
			return e.class
		}
	}
	return ""
}

func check() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "VERIF_SEED")
	verif := flag.String("verif", "/verif", "directory of the framework")
	workers := flag.Int("workers", 8, "")
	runs := flag.Int("runs", 0, "")
	wall := flag.Float64("wall", 0, "")
	build := flag.Float64("built", 0, "seconds spent building")
	flag.Parse()
	f := families[*prop]
	if f == nil {
		fatalf("no check for property %q", *prop)
	}
	fmt.Printf("seed %d property %s tier %s\n", *seed, *prop, *tier)
	n, limit := f.quick, 75.0
	if *tier == "thorough" {
		n, limit = f.quick*40, 780.0
	}
	if *runs > 0 {
		n = *runs
	}
	if *wall > 0 {
		limit = *wall
	}
	start := time.Now()
	known := filepath.Join(*verif, "known-findings.txt")
	kf := loadKnown(known)
	reps := make([]*Report, *workers)
	var wg sync.WaitGroup
	for i := range reps {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			reps[i] = &Report{}
			args := []string{"worker", "-prop", *prop, "-seed", fmt.Sprint(*seed), "-w", fmt.Sprint(i), "-n", fmt.Sprint(*workers),
				"-runs", fmt.Sprint(n), "-wall", fmt.Sprint(limit), "-known", known}
			out, err := runSelf(args, time.Duration(limit+60)*time.Second)
			if err != nil {
				reps[i].Err = "worker: " + err.Error()
				return
			}
			if err := json.Unmarshal(out, reps[i]); err != nil {
				reps[i].Err = "worker: " + err.Error()
			}
		}(i)
	}
	wg.Wait()
	tot := &Report{Counts: map[string]int64{}, RunsWith: map[string]int64{}, Known: map[string]int64{}, BadI: -1}
	hashes := map[uint64]bool{}
	for _, r := range reps {
		tot.Runs += r.Runs
		tot.Ops += r.Ops
		tot.Trivial += r.Trivial
		tot.Sim += r.Sim
		tot.Steps += r.Steps
		tot.Switch += r.Switch
		tot.Freezes += r.Freezes
		tot.Caps += r.Caps
		for k, v := range r.Counts {
			tot.Counts[k] += v
		}
		for k, v := range r.RunsWith {
			tot.RunsWith[k] += v
		}
		for k, v := range r.Known {
			tot.Known[k] += v
		}
		for _, h := range r.Hashes {
			hashes[h] = true
		}
		tot.Samples = append(tot.Samples, r.Samples...)
		if r.Err != "" && tot.Err == "" {
			tot.Err = r.Err
		}
		if r.Bad != nil && (tot.Bad == nil || r.BadI < tot.BadI) {
			tot.Bad, tot.BadV, tot.BadI = r.Bad, r.BadV, r.BadI
		}
	}
	searchWall := time.Since(start).Seconds()
	code := 0
	violations := 0
	if tot.Bad != nil {
		violations = 1
		path, err := reportViolation(tot.Bad, tot.BadV, tot.BadI, *seed, *verif, *workers)
		if err != nil {
			writeEvidence(f, tot, len(hashes), *prop, *tier, *seed, *verif, searchWall, *build, time.Since(start).Seconds(), violations)
			fatalf("%v", err)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		code = 1
	} else if tot.Err != "" {
		fatalf("%s", tot.Err)
	}
	for _, e := range kf {
		if e.prop != *prop {
			continue
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s [%d of %d runs]\n", *prop, e.text, tot.Known[e.class], tot.Runs)
	}
	writeEvidence(f, tot, len(hashes), *prop, *tier, *seed, *verif, searchWall, *build, time.Since(start).Seconds(), violations)
	fmt.Printf("%s: %d runs, %d distinct, %.0f s simulated, %.1f s wall\n", *prop, tot.Runs, len(hashes), tot.Sim, searchWall)
	os.Exit(code)
}

func runSelf(args []string, limit time.Duration) ([]byte, error) {
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	c := exec.Command(self, args...)
	var errb strings.Builder
	c.Stderr = &errb
	out, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	t := time.AfterFunc(limit, func() { c.Process.Kill() })
	b, _ := io.ReadAll(out)
	err = c.Wait()
	t.Stop()
	if err != nil {
		return b, fmt.Errorf("%v: %s", err, errb.String())
	}
	return b, nil
}

func writeEvidence(f *family, t *Report, distinct int, prop, tier string, seed uint64, verif string, search, build, wall float64, violations int) {
	faults := map[string]int64{}
	probes := map[string]int64{}
	for k, v := range t.Counts {
		if strings.HasPrefix(k, "fault.") {
			faults[strings.TrimPrefix(k, "fault.")] = v
		} else {
			probes[k] = v
		}
	}
	faults["task freezes"] = t.Freezes
	runsWith := map[string]int64{}
	for k, v := range t.RunsWith {
		runsWith[k] = v
	}
	if len(t.Samples) > 4 {
		t.Samples = t.Samples[:4]
	}
	hours := search / 3600
	if hours == 0 {
		hours = 1
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": f.level,
		"wall_s": wall, "violations": violations,
		"coverage": map[string]any{
			"evaluations":         t.Runs,
			"distinct_nontrivial": distinct,
			"rule": f.rule + " One run is one plan (workload, link qualities, faults, scheduling strategy) drawn from VERIF_SEED and the run number, executed once. " +
				"It counts as non-trivial if at least one workload operation finished and at least one scheduling decision differed from first-come-first-served or a network fault was planned; " +
				"runs are distinct if the hash over every context switch (task, virtual time) and every noted observation differs.",
			"samples":                t.Samples,
			"trivial_runs":           t.Trivial,
			"runs_per_hour":          int64(float64(t.Runs) / hours),
			"seeds_per_hour":         int64(float64(t.Runs) / hours),
			"simulated_seconds":      t.Sim,
			"workload_operations":    t.Ops,
			"scheduling_steps":       t.Steps,
			"context_switches":       t.Switch,
			"runs_cut_at_step_limit": t.Caps,
			"faults_fired":           faults,
			"probes":                 probes,
			"runs_with":              runsWith,
			"known_findings_seen":    t.Known,
			"real_components":        f.real,
			"stub_components":        f.stub,
			"interleaving_measure":   "hash over the sequence of (task, virtual time) context switches and noted observations",
			"search_seconds":         search,
			"build_seconds":          build,
		},
		"assumptions": []string{
			"Go's memory model is approximated by sequential consistency at statement granularity; data races that need torn or reordered memory accesses are not simulated.",
			"The network delivers bytes in order and unaltered until it fails (TCP).",
		},
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatalf("%v", err)
	}
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o777)
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o666); err != nil {
		fatalf("%v", err)
	}
}

// determinism runs plans twice in this process and prints their hashes, so
// that processes can be compared.
func determinism() {
	prop := flag.String("prop", "", "")
	seed := flag.Uint64("seed", 1, "")
	from := flag.Int("from", 0, "")
	to := flag.Int("to", 100, "")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	startWatchdog()
	props := []string{*prop}
	if *prop == "" {
		props = nil
		for k := range families {
			props = append(props, k)
		}
		sort.Strings(props)
	}
	bad := 0
	for _, pr := range props {
		for i := *from; i < *to; i++ {
			p := planOf(pr, *seed, i)
			a := Execute(p, false)
			b := Execute(p, true)
			q := p.clone()
			q.Sched.Replay = &a.Rec
			c := Execute(q, false)
			if a.Stats.Hash != b.Stats.Hash || a.Stats.Steps != b.Stats.Steps {
				fmt.Printf("%s run %d: two executions differ: %x %x\n", pr, i, a.Stats.Hash, b.Stats.Hash)
				bad++
				if bad <= 3 {
					a = Execute(p, true)
					for j := range b.Log {
						if j >= len(a.Log) || a.Log[j] != b.Log[j] {
							fmt.Printf("  line %d\n", j)
							for x := max(0, j-3); x <= j+1; x++ {
								if x < len(a.Log) {
									fmt.Printf("  a %s\n", a.Log[x])
								}
								if x < len(b.Log) {
									fmt.Printf("  b %s\n", b.Log[x])
								}
							}
							break
						}
					}
				}
			}
			if a.Stats.Hash != c.Stats.Hash {
				fmt.Printf("%s run %d: replay of the recorded schedule differs: %x %x\n", pr, i, a.Stats.Hash, c.Stats.Hash)
				bad++
			}
			fmt.Printf("H %s %d %x\n", pr, i, a.Stats.Hash)
			if a.Err != "" {
				fmt.Println(a.Err)
				bad++
			}
		}
	}
	if bad > 0 {
		fatalf("%d differences", bad)
	}
}

// trace executes one run of a property with its log.
func trace() {
	prop := flag.String("prop", "", "")
	seed := flag.Uint64("seed", 1, "")
	run := flag.Int("run", 0, "")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	startWatchdog()
	p := planOf(*prop, *seed, *run)
	b, _ := json.MarshalIndent(p, "", " ")
	fmt.Println(string(b))
	r := Execute(p, true)
	for _, l := range r.Log {
		fmt.Println(l)
	}
	for _, v := range r.Viol {
		fmt.Printf("%s %s: %s\n", v.Prop, v.Class, v.Msg)
	}
	fmt.Println(r.Err)
}
