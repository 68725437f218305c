package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"github.com/go-stomp/stomp/v3/zzverif/resetall"
	"github.com/go-stomp/stomp/v3/zzverif/sim"
	"github.com/go-stomp/stomp/v3/zzverif/simnet"
)

// Plan is everything that decides one simulated execution, apart from the
// code under test.
type Plan struct {
	Prop     string           `json:"prop"`
	Scenario string           `json:"scenario"`
	Seed     uint64           `json:"seed"`
	Sched    sim.Config       `json:"sched"`
	K        map[string]int64 `json:"k,omitempty"`
	Links    []simnet.LinkCfg `json:"links,omitempty"` // per link, the last one for all further links
	Faults   []simnet.Fault   `json:"faults,omitempty"`
	Actors   []Actor          `json:"actors,omitempty"`
}

// Actor is one party of the workload with its script.
type Actor struct {
	Kind string           `json:"kind"`
	K    map[string]int64 `json:"k,omitempty"`
	Ops  []Op             `json:"ops,omitempty"`
}

// Op is one step of a script; what A, B, C, S mean depends on Op.
type Op struct {
	Op string `json:"op"`
	D  int64  `json:"d,omitempty"` // delay before it, ns
	A  int64  `json:"a,omitempty"`
	B  int64  `json:"b,omitempty"`
	C  int64  `json:"c,omitempty"`
	E  int64  `json:"e,omitempty"`
	S  string `json:"s,omitempty"`
}

func (a *Actor) k(name string) int64 { return a.K[name] }

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

// size orders plans for the shrinker.
func (p *Plan) size() int {
	n := 0
	for _, a := range p.Actors {
		n += 3 + 2*len(a.Ops)
		for _, o := range a.Ops {
			if o.D != 0 {
				n++
			}
		}
	}
	return n + 3*len(p.Faults)
}

// Violation is a broken property.
type Violation struct {
	Prop  string `json:"prop"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
}

// Outcome is what one execution showed.
type Outcome struct {
	Viol    []Violation
	Stats   sim.Stats
	Counts  map[string]int64
	Rec     sim.Schedule
	Log     []string
	Err     string // trouble of the harness itself
	Ops     int
	Trivial bool
}

// Ctx is the environment of a scenario while it runs.
type Ctx struct {
	P       *Plan
	out     *Outcome
	verbose bool
	net     *simnet.Network
	rng     *sim.Rand
}

// Fail records a violation.
func (c *Ctx) Fail(prop, class, format string, a ...any) {
	for _, v := range c.out.Viol {
		if v.Prop == prop && v.Class == class {
			return
		}
	}
	v := Violation{prop, class, fmt.Sprintf(format, a...)}
	c.out.Viol = append(c.out.Viol, v)
	if c.verbose {
		c.Log("VIOLATION %s %s: %s", prop, class, v.Msg)
	}
}

// Log adds a line to the report of a replay.
func (c *Ctx) Log(format string, a ...any) {
	if !c.verbose {
		return
	}
	sim.Quiet(func() {
		c.out.Log = append(c.out.Log, fmt.Sprintf("%12v %-14s ", sim.Now(), sim.CurName())+fmt.Sprintf(format, a...))
	})
}

// Note makes an observation part of the identity of the execution.
func (c *Ctx) Note(s string) { sim.Note(s) }

// Done counts a finished workload operation.
func (c *Ctx) Done() { c.out.Ops++ }

type scenario struct {
	gen func(p *Plan, r *sim.Rand)
	run func(c *Ctx)
	// crashOf maps a panic to a known finding or "".
}

var scenarios = map[string]*scenario{}

// link returns the configuration of a link.
func (p *Plan) link(i int) simnet.LinkCfg {
	if len(p.Links) == 0 {
		return simnet.LinkCfg{}
	}
	if i >= len(p.Links) {
		i = len(p.Links) - 1
	}
	return p.Links[i]
}

// Execute runs a plan.
func Execute(p *Plan, verbose bool) *Outcome {
	sc := scenarios[p.Scenario]
	if sc == nil {
		return &Outcome{Err: "unknown scenario " + p.Scenario}
	}
	out := &Outcome{}
	c := &Ctx{P: p, out: out, verbose: verbose, rng: sim.NewRand(p.Seed ^ 0xda7a)}
	resetall.Reset()
	sim.TakeCounts()
	c.net = simnet.New(p.Seed)
	c.net.Cfg = p.link
	c.net.Faults = p.Faults
	simnet.Default = c.net
	if p.K["large"] > 0 {
		p.Sched.Instant, p.Sched.MaxSteps = 15000000, 40000000
	}
	var crash *sim.Crash
	out.Stats, crash, out.Rec = sim.Run(p.Sched, func() { sc.run(c) })
	out.Counts = sim.TakeCounts()
	if crash != nil {
		if crash.Site == "unknown" {
			out.Err = fmt.Sprintf("panic in the harness (task %s): %s\n%s", crash.Task, crash.Value, crash.Stack)
			return out
		}
		site := crash.Site
		if i := strings.LastIndex(site, "/"); i >= 0 {
			site = site[i+1:]
		}
		if verbose {
			out.Log = append(out.Log, "PANIC in "+crash.Task+": "+crash.Value, crash.Stack)
		}
		out.Viol = append(out.Viol, Violation{p.Prop, "panic in " + site, "panic: " + crash.Value + " in task " + crash.Task})
	}
	if out.Stats.Livelock {
		out.Viol = append(out.Viol, Violation{p.Prop, "livelock", "a goroutine spins without end at " + out.Stats.Now.String()})
	}
	return out
}

// find returns the violation of the plan's property, if any.
func (o *Outcome) find(prop, class string) *Violation {
	for i := range o.Viol {
		if o.Viol[i].Prop == prop && (class == "" || o.Viol[i].Class == class) {
			return &o.Viol[i]
		}
	}
	return nil
}

func fatalf(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "ERROR: "+format+"\n", a...)
	os.Exit(3)
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

const (
	us = int64(time.Microsecond)
	ms = int64(time.Millisecond)
	sc = int64(time.Second)
)

func pick[T any](r *sim.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

// genSched draws a scheduling strategy.
func genSched(p *Plan, r *sim.Rand) {
	s := &p.Sched
	s.Seed = r.Uint64()
	switch r.Intn(10) {
	case 0, 1:
		s.Switch = 0
	case 2, 3, 4, 5, 6:
		s.Switch = pick(r, 20, 100, 300, 600)
	default:
		s.Strategy = 1
		s.Depth = 1 + r.Intn(6)
		s.PCTLen = pick(r, 300, 1000, 3000, 8000)
	}
	if r.Intn(2) == 0 {
		s.PGap = pick(r, 4, 12, 40, 150, 600)
	}
	s.OldTimer = r.Intn(2) == 0
}

// genFreeze lets the scheduler take the processor away from a task for a while.
func genFreeze(p *Plan, r *sim.Rand, num int, max int64) {
	s := &p.Sched
	if s.PGap == 0 {
		s.PGap = pick(r, 10, 40, 150)
	}
	s.FrzGap = pick(r, 2, 6, 20)
	s.FrzNum = num
	s.FrzMax = max
}

// genLink draws the quality of a link.
func genLink(r *sim.Rand) simnet.LinkCfg {
	l := simnet.LinkCfg{}
	switch r.Intn(4) {
	case 0:
	case 1:
		l.Latency = int64(r.Intn(int(ms)))
	case 2:
		l.Latency = int64(r.Intn(int(2 * ms)))
		l.Jitter = int64(r.Intn(int(5 * ms)))
	case 3:
		l.Latency = int64(r.Intn(int(40 * ms)))
		l.Jitter = int64(r.Intn(int(20 * ms)))
	}
	switch r.Intn(5) {
	case 0:
		l.Chunk = 1 + r.Intn(4)
	case 1:
		l.Chunk = 5 + r.Intn(40)
	case 2:
		l.Chunk = 200
	}
	if r.Intn(3) == 0 {
		l.Short = pick(r, 50, 300, 800)
	}
	if r.Intn(4) == 0 {
		l.Window = pick(r, 64, 200, 1000, 5000)
	}
	return l
}

func dur(ns int64) time.Duration { return time.Duration(ns) }
