package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"time"

	"github.com/go-stomp/stomp/v3/zzverif/sim"
)

// Replay is the file a violation is reported with.
type Replay struct {
	Property  string    `json:"property"`
	Violation Violation `json:"violation"`
	FoundBy   string    `json:"found_by"`
	Hash      string    `json:"hash"`
	Plan      *Plan     `json:"plan"`
	Log       []string  `json:"log"`
}

type shrinker struct {
	prop, class string
	deadline    time.Time
	tries       int
	best        *Plan
}

// fails executes a plan and returns whether the violation persists.
func (s *shrinker) fails(p *Plan) bool {
	if time.Now().After(s.deadline) {
		return false
	}
	s.tries++
	o := Execute(p, false)
	return o.Err == "" && o.find(s.prop, s.class) != nil
}

// try looks for a scheduling under which the smaller plan still fails.
func (s *shrinker) try(p *Plan) bool {
	if s.fails(p) {
		s.best = p
		return true
	}
	if p.Sched.Replay != nil {
		return false
	}
	seed := p.Sched.Seed
	for k := 0; k < 6; k++ {
		q := p.clone()
		q.Sched.Seed = seed + uint64(k)*7919 + 1
		if s.fails(q) {
			s.best = q
			return true
		}
	}
	return false
}

func (s *shrinker) edit(f func(p *Plan) bool) bool {
	p := s.best.clone()
	if !f(p) {
		return false
	}
	return s.try(p)
}

func (s *shrinker) plan() {
	for round := 0; round < 6; round++ {
		before := s.best.size()
		// actors
		for i := len(s.best.Actors) - 1; i >= 0; i-- {
			s.edit(func(p *Plan) bool {
				if i >= len(p.Actors) || len(p.Actors) == 1 || len(p.Actors[i].Ops) == 0 {
					return false
				}
				p.Actors[i].Ops = nil // keep the actor: indices refer to it
				return true
			})
		}
		// operations, in halves and then one by one
		for i := range s.best.Actors {
			for n := len(s.best.Actors[i].Ops); n > 0; n /= 2 {
				for at := len(s.best.Actors[i].Ops) - n; at >= 0; at -= n {
					s.edit(func(p *Plan) bool {
						ops := p.Actors[i].Ops
						if at+n > len(ops) {
							return false
						}
						p.Actors[i].Ops = append(append([]Op(nil), ops[:at]...), ops[at+n:]...)
						return true
					})
				}
			}
		}
		// faults
		for i := len(s.best.Faults) - 1; i >= 0; i-- {
			s.edit(func(p *Plan) bool {
				if i >= len(p.Faults) {
					return false
				}
				p.Faults = append(p.Faults[:i], p.Faults[i+1:]...)
				return true
			})
		}
		// knobs and numbers
		if round == 0 {
			s.edit(func(p *Plan) bool {
				for i := range p.Links {
					p.Links[i].Chunk, p.Links[i].Short, p.Links[i].Window = 0, 0, 0
				}
				return len(p.Links) > 0
			})
			s.edit(func(p *Plan) bool {
				for i := range p.Links {
					p.Links[i].Latency, p.Links[i].Jitter = 0, 0
				}
				return len(p.Links) > 0
			})
			s.edit(func(p *Plan) bool {
				ok := p.Sched.FrzGap > 0
				p.Sched.FrzGap, p.Sched.FrzNum = 0, 0
				return ok
			})
			s.edit(func(p *Plan) bool {
				ok := p.Sched.PGap > 0
				p.Sched.PGap = 0
				return ok
			})
			s.edit(func(p *Plan) bool {
				ok := p.Sched.Strategy != 0 || p.Sched.Switch != 0
				p.Sched.Strategy, p.Sched.Switch = 0, 0
				return ok
			})
		}
		for i := range s.best.Actors {
			s.edit(func(p *Plan) bool {
				ok := false
				for j := range p.Actors[i].Ops {
					if p.Actors[i].Ops[j].D != 0 {
						p.Actors[i].Ops[j].D = 0
						ok = true
					}
				}
				return ok
			})
			for j := range s.best.Actors[i].Ops {
				s.edit(func(p *Plan) bool {
					o := &p.Actors[i].Ops[j]
					ok := o.D != 0
					o.D = 0
					return ok
				})
			}
		}
		for _, k := range sortedKeys(s.best.K) {
			s.edit(func(p *Plan) bool {
				ok := p.K[k] != 0
				delete(p.K, k)
				return ok
			})
		}
		if s.best.size() == before && round > 0 {
			break
		}
		if time.Now().After(s.deadline) {
			break
		}
	}
}

// schedule replaces the generator by the recorded decisions and removes
// those that do not matter.
func (s *shrinker) schedule() {
	o := Execute(s.best, false)
	p := s.best.clone()
	rec := o.Rec
	p.Sched.Replay = &rec
	if !s.fails(p) {
		return // keep the seeded schedule; it is as exact, only not as small
	}
	s.best = p
	for n := len(s.best.Sched.Replay.P); n > 0; n /= 2 {
		for at := len(s.best.Sched.Replay.P) - n; at >= 0; at -= n {
			s.edit(func(p *Plan) bool {
				r := p.Sched.Replay
				if at+n > len(r.P) {
					return false
				}
				r.P = append(append([]sim.Preempt(nil), r.P[:at]...), r.P[at+n:]...)
				return true
			})
		}
	}
	for n := len(s.best.Sched.Replay.D); n > 0; n /= 2 {
		for at := len(s.best.Sched.Replay.D) - n; at >= 0; at -= n {
			s.edit(func(p *Plan) bool {
				r := p.Sched.Replay
				if at+n > len(r.D) {
					return false
				}
				r.D = append(append([]sim.Dec(nil), r.D[:at]...), r.D[at+n:]...)
				return true
			})
		}
	}
}

// shrinkWorker reads a plan and a class and writes the smaller plan.
func shrinkWorker() {
	in := flag.String("in", "", "")
	class := flag.String("class", "", "")
	wall := flag.Float64("wall", 45, "")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	startWatchdog()
	b, err := os.ReadFile(*in)
	if err != nil {
		fatalf("%v", err)
	}
	p := &Plan{}
	if err := json.Unmarshal(b, p); err != nil {
		fatalf("%v", err)
	}
	s := &shrinker{prop: p.Prop, class: *class, best: p, deadline: time.Now().Add(time.Duration(*wall * float64(time.Second) * 0.7))}
	s.plan()
	s.deadline = time.Now().Add(time.Duration(*wall * float64(time.Second) * 0.3))
	s.schedule()
	json.NewEncoder(os.Stdout).Encode(s.best)
}

// reportViolation minimises the plan, writes the replay file and makes sure
// that it fails the same way in fresh processes.
func reportViolation(p *Plan, v *Violation, i int, seed uint64, verif string, workers int) (string, error) {
	dir := filepath.Join(verif, "replays")
	if err := os.MkdirAll(dir, 0o777); err != nil {
		return "", err
	}
	orig := filepath.Join(dir, fmt.Sprintf("%s-%d-orig.json", p.Prop, seed))
	b, _ := json.Marshal(p)
	if err := os.WriteFile(orig, b, 0o666); err != nil {
		return "", err
	}
	fmt.Printf("run %d (seed %d): %s: %s\n", i, seed, v.Class, v.Msg)
	best := p
	out, err := runSelf([]string{"shrinkworker", "-in", orig, "-class", v.Class, "-wall", "45"}, 150*time.Second)
	if err == nil {
		q := &Plan{}
		if json.Unmarshal(out, q) == nil && q.Scenario != "" {
			best = q
		}
	} else {
		fmt.Fprintf(os.Stderr, "minimisation failed: %v\n", err)
	}
	for _, cand := range []*Plan{best, p} {
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", p.Prop, seed))
		r := &Replay{Property: p.Prop, Violation: *v, FoundBy: fmt.Sprintf("VERIF_SEED=%d run %d", seed, i), Plan: cand}
		b, _ := json.MarshalIndent(r, "", " ")
		if err := os.WriteFile(path, b, 0o666); err != nil {
			return "", err
		}
		if _, err := runSelf([]string{"replay", "-fill", path}, 60*time.Second); err != nil {
			continue
		}
		if _, err := runSelf([]string{"replay", path}, 60*time.Second); err != nil {
			continue
		}
		os.Remove(orig)
		var rr Replay
		if b, err := os.ReadFile(path); err == nil && json.Unmarshal(b, &rr) == nil {
			n := len(rr.Log)
			k := 0
			if n > 60 {
				k = n - 60
			}
			for _, l := range rr.Log[k:] {
				fmt.Println("  " + l)
			}
			fmt.Printf("minimised: %s\n", rr.Violation.Msg)
		}
		return path, nil
	}
	return "", fmt.Errorf("a violation (%s: %s) did not replay in a fresh process; plan kept in %s", v.Class, v.Msg, orig)
}

// replay runs a replay file; it succeeds if the violation occurs with the
// recorded hash.
func replay() {
	fill := flag.Bool("fill", false, "record hash, message and log")
	trace := flag.Bool("trace", false, "print every context switch")
	flag.Parse()
	runtime.GOMAXPROCS(1)
	startWatchdog()
	path := flag.Arg(0)
	b, err := os.ReadFile(path)
	if err != nil {
		fatalf("%v", err)
	}
	r := &Replay{}
	if err := json.Unmarshal(b, r); err != nil {
		fatalf("%v", err)
	}
	if *trace {
		sim.Trace = func(s string) { fmt.Println("    " + s) }
	}
	o := Execute(r.Plan, true)
	h := fmt.Sprintf("%016x", o.Stats.Hash)
	v := o.find(r.Property, r.Violation.Class)
	if !*fill {
		for _, l := range o.Log {
			fmt.Println(l)
		}
	}
	if o.Err != "" {
		fatalf("%s", o.Err)
	}
	if v == nil {
		fatalf("%s: no violation %q (saw %v), hash %s", path, r.Violation.Class, o.Viol, h)
	}
	if *fill {
		r.Violation, r.Hash, r.Log = *v, h, o.Log
		b, _ := json.MarshalIndent(r, "", " ")
		if err := os.WriteFile(path, b, 0o666); err != nil {
			fatalf("%v", err)
		}
		return
	}
	if r.Hash != "" && r.Hash != h {
		fatalf("%s: different execution: hash %s, recorded %s", path, h, r.Hash)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
	fmt.Printf("%s: %s\n", v.Class, v.Msg)
	if os.Getenv("VERIF_REPLAY_EXIT") == "1" {
		os.Exit(1)
	}
}
