// Package sim is a deterministic simulator for Go programs whose goroutines,
// channels, locks, timers and I/O have been redirected to it (see
// ../../rewrite). Every simulated goroutine ("task") is a parked goroutine and
// exactly one of them runs at a time; which one runs next, when a statement is
// preempted, which ready case a select takes, in which order simultaneous
// events fire and in which order a map is iterated are decisions taken from
// one seeded generator or from a recorded schedule. Time is virtual and only
// moves when no task can run.
package sim

import (
	"fmt"
	"math"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Config says how one execution is scheduled.
type Config struct {
	Seed     uint64    `json:"seed"`
	Strategy int       `json:"strategy"`           // 0 random walk, 1 priorities with change points (PCT)
	Switch   int       `json:"switch,omitempty"`   // per mille chance to switch task at a synchronisation operation
	PGap     int       `json:"pgap,omitempty"`     // mean number of statements between preemptions, 0: never
	Depth    int       `json:"depth,omitempty"`    // PCT change points
	PCTLen   int       `json:"pctlen,omitempty"`   // PCT: expected number of scheduling points
	FrzGap   int       `json:"frzgap,omitempty"`   // mean number of preemption points between freezes of a task, 0: never
	FrzMax   int64     `json:"frzmax,omitempty"`   // longest freeze, ns
	FrzNum   int       `json:"frznum,omitempty"`   // at most that many freezes
	OldTimer bool      `json:"oldtimer,omitempty"` // timer channels as before Go 1.23 (asynctimerchan=1)
	MaxSteps int64     `json:"maxsteps,omitempty"`
	Instant  int64     `json:"instant,omitempty"` // steps at one moment that are not too many yet
	Replay   *Schedule `json:"replay,omitempty"`  // follow this instead of the generator
}

// Schedule is the sparse record of an execution: every decision that is not
// listed takes its default (go on with the same task, first come first served).
type Schedule struct {
	D []Dec     `json:"d,omitempty"`
	P []Preempt `json:"p,omitempty"`
}

// Dec says that the N-th decision took alternative V.
type Dec struct {
	N int64 `json:"n"`
	V int   `json:"v"`
}

// Preempt says that the task running at the N-th statement was preempted in
// favour of the V-th waiting task, or frozen for F ns of virtual time.
type Preempt struct {
	N int64 `json:"n"`
	V int   `json:"v,omitempty"`
	F int64 `json:"f,omitempty"`
}

// Task is a simulated goroutine.
type Task struct {
	ID    int
	Site  string // where it was started; "" for tasks of the harness
	Name  string
	Group int
	wake  chan struct{}
	gone  chan struct{}
	What  string // what it waits for; "" when runnable
	prio  int64
	ended bool
	since int64
	fired int
}

type event struct {
	at  int64
	seq int64
	fn  func()
	idx int
}

// Crash is a panic (or fatal error) in a task.
type Crash struct {
	Task  string
	Value string
	Stack string
	Site  string
}

// Stats describes a finished execution.
type Stats struct {
	Steps     int64
	PCount    int64
	Decisions int64
	Switches  int64
	Freezes   int64
	FrozenNS  int64
	Tasks     int
	Now       time.Duration
	Hash      uint64
	Livelock  bool
	StepCap   bool
}

var (
	cur      *Task
	tasks    []*Task
	runq     []*Task
	events   []*event
	nowNS    int64
	evSeq    int64
	taskSeq  int
	cfg      Config
	rng      Rand
	active   bool
	dying    bool
	stopping bool
	crash    *Crash
	endCh    = make(chan struct{}, 1)
	stats    Stats
	hash     uint64
	pcount   int64
	pnext    int64 = math.MaxInt64 // statement count at which P takes the slow path
	prePos   int
	pPreempt int64 // next sampled preemption
	decN     int64
	decPos   int
	rec      Schedule
	idleT    *Task // task waiting for quiescence
	idleAt   int64
	changes  map[int64]bool
	frozen   int
	lowPrio  int64
	started  time.Time
	// Trace, when set, receives a line per context switch and event.
	Trace func(string)
)

const (
	pCheck       = 20000 // statements between checks of the step limits
	instantLimit = 3000000
)

// Epoch is the virtual wall clock at the start of an execution.
var Epoch = time.Date(2021, 3, 14, 1, 59, 26, 0, time.UTC)

// Rand is a small deterministic generator (splitmix64).
type Rand struct{ s uint64 }

// NewRand returns a generator with the given seed.
func NewRand(seed uint64) *Rand { return &Rand{seed} }

func (r *Rand) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a number in [0,n).
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Int63n returns a number in [0,n).
func (r *Rand) Int63n(n int64) int64 {
	if n <= 1 {
		return 0
	}
	return int64(r.Uint64() % uint64(n))
}

// Mille is true with probability p/1000.
func (r *Rand) Mille(p int) bool { return int(r.Uint64()%1000) < p }

// Fork derives an independent generator.
func (r *Rand) Fork(salt uint64) *Rand {
	return &Rand{r.Uint64() ^ (salt+1)*0xd6e8feb86659fd93}
}

func mix(v uint64) {
	hash ^= v
	hash *= 0x100000001b3
	hash ^= hash >> 29
}

// Note mixes an observation into the hash of the execution.
func Note(s string) {
	for i := 0; i < len(s); i++ {
		hash ^= uint64(s[i])
		hash *= 0x100000001b3
	}
	if Trace != nil {
		Trace("note " + s)
	}
}

// Run executes root as the first task of a fresh simulation and returns when
// root has returned, when nothing can happen any more or when a task panicked.
// All tasks are gone when it returns.
func Run(c Config, root func()) (Stats, *Crash, Schedule) {
	if active {
		panic("sim: nested Run")
	}
	cfg = c
	rng = Rand{c.Seed ^ 0x5eed5eed5eed5eed}
	tasks, runq, events = nil, nil, nil
	nowNS, evSeq, taskSeq = 0, 0, 0
	dying, stopping, crash = false, false, nil
	stats, hash, pcount = Stats{}, 0xcbf29ce484222325, 0
	prePos, decN, decPos, rec = 0, 0, 0, Schedule{}
	idleT, frozen, lowPrio, lastMove = nil, 0, 0, 0
	changes = nil
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 20000000
	}
	if cfg.Replay == nil && cfg.Strategy == 1 {
		changes = map[int64]bool{}
		l := cfg.PCTLen
		if l <= 0 {
			l = 2000
		}
		for i := 0; i < cfg.Depth; i++ {
			changes[int64(rng.Intn(l))] = true
		}
	}
	samplePreempt()
	armP()
	active = true
	started = time.Now()
	select {
	case <-endCh:
	default:
	}
	t := newTask("", "root", 0, func() { root(); stopNow() })
	dropRun(t)
	cur = t
	t.wake <- struct{}{}
	<-endCh
	// kill phase
	dying = true
	pnext = 0
	for len(tasks) > 0 {
		t := tasks[len(tasks)-1]
		cur = t
		select {
		case t.wake <- struct{}{}:
		default:
		}
		<-t.gone
	}
	dying, active = false, false
	pnext = math.MaxInt64
	cur = nil
	stats.PCount = pcount
	stats.Decisions = decN
	stats.Tasks = taskSeq
	stats.Now = time.Duration(nowNS)
	stats.Hash = hash
	cr := crash
	r := rec
	tasks, runq, events = nil, nil, nil
	return stats, cr, r
}

func armP() {
	pnext = pcount + pCheck
	if cfg.Replay != nil {
		for prePos < len(cfg.Replay.P) && cfg.Replay.P[prePos].N <= pcount {
			prePos++
		}
		if prePos < len(cfg.Replay.P) && cfg.Replay.P[prePos].N < pnext {
			pnext = cfg.Replay.P[prePos].N
		}
	} else if pPreempt < pnext {
		pnext = pPreempt
	}
}

func samplePreempt() {
	if cfg.PGap <= 0 || cfg.Replay != nil {
		pPreempt = math.MaxInt64
		return
	}
	pPreempt = pcount + 1 + int64(rng.Intn(2*cfg.PGap))
}

// P marks a statement boundary: the running task may be preempted here.
func P() {
	pcount++
	if pcount >= pnext {
		slowP()
	}
}

// Quiet runs f, which does not block, without letting it influence the
// schedule: code under test that f calls to format a value passes no P.
func Quiet(f func()) {
	n, next := pcount, pnext
	pnext = math.MaxInt64
	f()
	pcount, pnext = n, next
}

func slowP() {
	if !active {
		pnext = math.MaxInt64
		return
	}
	if dying {
		runtime.Goexit()
	}
	if cur == nil {
		armP()
		return
	}
	stats.Steps++
	if checkLimits() {
		return
	}
	if cfg.Replay != nil {
		if prePos < len(cfg.Replay.P) && cfg.Replay.P[prePos].N == pcount {
			p := cfg.Replay.P[prePos]
			prePos++
			armP()
			if p.F > 0 {
				freeze(p.F)
			} else if len(runq) > 0 {
				v := p.V
				if v >= len(runq) {
					v = len(runq) - 1
				}
				rec.P = append(rec.P, Preempt{N: pcount, V: v})
				preemptTo(v)
			}
			return
		}
		armP()
		return
	}
	if pcount >= pPreempt {
		samplePreempt()
		armP()
		if cfg.FrzGap > 0 && frozen < cfg.FrzNum && rng.Intn(cfg.FrzGap) == 0 {
			freeze(1 + rng.Int63n(cfg.FrzMax))
			return
		}
		if len(runq) > 0 {
			v := rng.Intn(len(runq))
			if cfg.Strategy == 1 {
				v = topPrio()
				if rng.Intn(3) != 0 && runq[v].prio < cur.prio {
					return
				}
			}
			rec.P = append(rec.P, Preempt{N: pcount, V: v})
			preemptTo(v)
		}
		return
	}
	armP()
}

func freeze(d int64) {
	frozen++
	stats.Freezes++
	stats.FrozenNS += d
	rec.P = append(rec.P, Preempt{N: pcount, F: d})
	t := cur
	at(nowNS+d, func() { ready(t) })
	block("frozen by the scheduler")
}

func checkLimits() bool {
	if pcount-lastMove > instantLimit && pcount-lastMove > cfg.Instant {
		stats.Livelock = true
		stopFrom()
		return true
	}
	if pcount > cfg.MaxSteps {
		stats.StepCap = true
		stopFrom()
		return true
	}
	return false
}

var lastMove int64

// choose takes one of n alternatives; 0 is the default.
func choose(n int, sample func(n int) int) int {
	if n <= 1 {
		return 0
	}
	k := decN
	decN++
	v := 0
	if cfg.Replay != nil {
		d := cfg.Replay.D
		for decPos < len(d) && d[decPos].N < k {
			decPos++
		}
		if decPos < len(d) && d[decPos].N == k {
			v = d[decPos].V
			decPos++
			if v >= n {
				v = n - 1
			}
		}
	} else {
		v = sample(n)
	}
	if v != 0 {
		rec.D = append(rec.D, Dec{k, v})
	}
	return v
}

func uniform(n int) int { return rng.Intn(n) }

// Choose takes one of n alternatives as part of the schedule.
func Choose(n int) int { return choose(n, uniform) }

func topPrio() int {
	b := 0
	for i, t := range runq {
		if t.prio > runq[b].prio {
			b = i
		}
	}
	return b
}

func newTask(site, name string, group int, f func()) *Task {
	taskSeq++
	t := &Task{ID: taskSeq, Site: site, Name: name, Group: group, wake: make(chan struct{}, 1), gone: make(chan struct{})}
	if cfg.Replay == nil {
		t.prio = int64(rng.Uint64() >> 2)
	}
	tasks = append(tasks, t)
	go t.main(f)
	ready(t)
	return t
}

func (t *Task) main(f func()) {
	<-t.wake
	defer t.exit()
	if dying {
		return
	}
	f()
}

func (t *Task) exit() {
	if r := recover(); r != nil && !dying && crash == nil {
		st := string(debug.Stack())
		crash = &Crash{Task: t.String(), Value: fmt.Sprint(r), Stack: st, Site: PanicSite(st)}
		stopping = true
	}
	t.ended = true
	for i, x := range tasks {
		if x == t {
			tasks = append(tasks[:i], tasks[i+1:]...)
			break
		}
	}
	if dying {
		close(t.gone)
		return
	}
	close(t.gone)
	if stopping {
		cur = nil
		endCh <- struct{}{}
		return
	}
	schedule(nil)
}

// PanicSite extracts the innermost frame of the code under test from a stack.
func PanicSite(st string) string {
	lines := strings.Split(st, "\n")
	seen := false
	for i, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen || i+1 >= len(lines) {
			continue
		}
		if strings.Contains(l, "go-stomp/stomp") && !strings.Contains(l, "zzverif/") {
			f := l
			if j := strings.LastIndex(f, "("); j > 0 {
				f = f[:j]
			}
			return f
		}
	}
	return "unknown"
}

func (t *Task) String() string {
	n := t.Name
	if n == "" {
		n = "go@" + t.Site
	}
	return fmt.Sprintf("%s#%d", n, t.ID)
}

func ready(t *Task) {
	t.What = ""
	runq = append(runq, t)
}

func dropRun(t *Task) {
	for i, x := range runq {
		if x == t {
			runq = append(runq[:i], runq[i+1:]...)
			return
		}
	}
}

func takeRun(i int) *Task {
	t := runq[i]
	copy(runq[i:], runq[i+1:])
	runq[len(runq)-1] = nil
	runq = runq[:len(runq)-1]
	return t
}

func stopFrom() {
	stopping = true
	endCh <- struct{}{}
	t := cur
	<-t.wake
	runtime.Goexit()
}

// stopNow ends the simulation when the calling task returns.
func stopNow() { stopping = true }

// Stop ends the simulation at once.
func Stop() { stopFrom() }

// Yield is a scheduling point.
func Yield() {
	if !active {
		return
	}
	if dying {
		runtime.Goexit()
	}
	t := cur
	if t == nil {
		return
	}
	stats.Steps++
	if len(runq) == 0 {
		if len(events) == 0 || events[0].at > nowNS {
			return
		}
	}
	n := 1 + len(runq)
	due := len(events) > 0 && events[0].at <= nowNS
	if due {
		n++
	}
	k := choose(n, sampleYield)
	if k == 0 {
		return
	}
	if due && k == n-1 {
		fireOne()
		return
	}
	preemptTo(k - 1)
}

func sampleYield(n int) int {
	if cfg.Strategy == 1 {
		if changes[stats.Steps] {
			lowPrio--
			cur.prio = lowPrio
		}
		if n-1 > len(runq) && rng.Intn(2) == 0 { // a due event
			return n - 1
		}
		if len(runq) == 0 {
			return 0
		}
		b := topPrio()
		if runq[b].prio > cur.prio {
			return b + 1
		}
		return 0
	}
	if rng.Mille(cfg.Switch) {
		return 1 + rng.Intn(n-1)
	}
	return 0
}

func preemptTo(i int) {
	t := cur
	next := takeRun(i)
	runq = append(runq, t)
	switchTo(t, next)
}

func switchTo(t, next *Task) {
	cur = next
	stats.Switches++
	mix(uint64(next.ID)<<32 ^ uint64(nowNS))
	if Trace != nil {
		Trace(fmt.Sprintf("t=%v p=%d d=%d run %s", time.Duration(nowNS), pcount, decN, next))
	}
	next.wake <- struct{}{}
	<-t.wake
	if dying {
		runtime.Goexit()
	}
}

// block parks the running task until somebody makes it ready.
func block(what string) {
	if dying {
		runtime.Goexit()
	}
	t := cur
	if t == nil {
		panic("sim: blocking operation outside a task: " + what)
	}
	t.What = what
	t.since = nowNS
	stats.Steps++
	schedule(t)
}

// schedule hands the processor to the next task. self is the task giving it
// up (parked, possibly made ready by an event meanwhile) or nil when it ends.
func schedule(self *Task) {
	cur = nil
	for {
		if stopping {
			endCh <- struct{}{}
			if self != nil {
				<-self.wake
				runtime.Goexit()
			}
			return
		}
		due := len(events) > 0 && events[0].at <= nowNS
		if due && (len(runq) == 0 || choose(2, uniform) == 0) {
			fireOne()
			continue
		}
		if len(runq) > 0 {
			break
		}
		if idleT != nil && (len(events) == 0 || events[0].at > idleAt) {
			t := idleT
			idleT = nil
			if len(events) > 0 && idleAt > nowNS {
				nowNS = idleAt
			}
			ready(t)
			continue
		}
		if len(events) == 0 {
			stopping = true
			continue
		}
		if events[0].at > nowNS {
			nowNS = events[0].at
			lastMove = pcount
		}
		fireOne()
	}
	k := choose(len(runq), sampleNext)
	next := takeRun(k)
	if next == self {
		cur = self
		mix(uint64(next.ID)<<32 ^ uint64(nowNS))
		return
	}
	if self == nil {
		cur = next
		stats.Switches++
		mix(uint64(next.ID)<<32 ^ uint64(nowNS))
		if Trace != nil {
			Trace(fmt.Sprintf("t=%v p=%d d=%d run %s", time.Duration(nowNS), pcount, decN, next))
		}
		next.wake <- struct{}{}
		return
	}
	switchTo(self, next)
}

func sampleNext(n int) int {
	if cfg.Strategy == 1 {
		return topPrio()
	}
	if cfg.Switch == 0 {
		return 0
	}
	return rng.Intn(n)
}

// fireOne runs one of the events with the smallest time.
func fireOne() {
	n := 0
	if len(events) > 1 {
		n = tied()
	}
	i := 0
	if n > 1 {
		i = tiedIndex(choose(n, uniform))
	}
	e := events[i]
	removeEvent(i)
	if Trace != nil {
		Trace(fmt.Sprintf("t=%v event %d", time.Duration(nowNS), e.seq))
	}
	saved := cur
	cur = nil
	e.fn()
	cur = saved
}

// tiedBuf holds the heap positions of the events due at the same instant as
// the first.
var tiedBuf []int

// tied counts the events due at the same instant as the first.
func tied() int {
	at := events[0].at
	tiedBuf = append(tiedBuf[:0], 0)
	for i := 0; i < len(tiedBuf); i++ {
		for c := 2*tiedBuf[i] + 1; c <= 2*tiedBuf[i]+2 && c < len(events); c++ {
			if events[c].at == at {
				tiedBuf = append(tiedBuf, c)
			}
		}
	}
	return len(tiedBuf)
}

// tiedIndex finds the k-th oldest of them.
func tiedIndex(k int) int {
	if k == 0 {
		return 0
	}
	sort.Slice(tiedBuf, func(i, j int) bool { return events[tiedBuf[i]].seq < events[tiedBuf[j]].seq })
	return tiedBuf[k]
}

func less(a, b *event) bool { return a.at < b.at || a.at == b.at && a.seq < b.seq }

func at(t int64, fn func()) *event {
	if t < nowNS {
		t = nowNS
	}
	evSeq++
	e := &event{at: t, seq: evSeq, fn: fn, idx: len(events)}
	events = append(events, e)
	up(e.idx)
	return e
}

func swap(i, j int) {
	events[i], events[j] = events[j], events[i]
	events[i].idx, events[j].idx = i, j
}

func up(i int) {
	for i > 0 {
		p := (i - 1) / 2
		if !less(events[i], events[p]) {
			return
		}
		swap(i, p)
		i = p
	}
}

func down(i int) {
	for {
		c := 2*i + 1
		if c >= len(events) {
			return
		}
		if c+1 < len(events) && less(events[c+1], events[c]) {
			c++
		}
		if !less(events[c], events[i]) {
			return
		}
		swap(i, c)
		i = c
	}
}

func removeEvent(i int) {
	e := events[i]
	last := len(events) - 1
	swap(i, last)
	events[last] = nil
	events = events[:last]
	if i < last {
		down(i)
		up(i)
	}
	e.idx = -1
}

// Event is a cancellable callback.
type Event struct{ e *event }

// Cancel prevents the callback; it reports whether it was still pending.
func (ev Event) Cancel() bool {
	if ev.e == nil || ev.e.idx < 0 || ev.e.idx >= len(events) || events[ev.e.idx] != ev.e {
		return false
	}
	removeEvent(ev.e.idx)
	return true
}

// Pending tells whether the callback is still to come.
func (ev Event) Pending() bool {
	return ev.e != nil && ev.e.idx >= 0 && ev.e.idx < len(events) && events[ev.e.idx] == ev.e
}

// After calls fn (which must not block) at now+d.
func After(d time.Duration, fn func()) Event {
	if !active || dying {
		return Event{}
	}
	t := nowNS + int64(d)
	if d > 0 && t < nowNS {
		t = math.MaxInt64
	}
	return Event{at(t, fn)}
}

// Now is the virtual time since the start of the execution.
func Now() time.Duration { return time.Duration(nowNS) }

// WallNow is the virtual wall clock.
func WallNow() time.Time { return Epoch.Add(time.Duration(nowNS)) }

// OldTimer tells whether timers behave as before Go 1.23.
func OldTimer() bool { return cfg.OldTimer }

// Sleep suspends the calling task.
func Sleep(d time.Duration) {
	if d <= 0 {
		Yield()
		return
	}
	if dying {
		runtime.Goexit()
	}
	t := cur
	After(d, func() { ready(t) })
	block("sleep")
}

// Go starts a task from the code under test.
func Go(site string, f func()) {
	if dying || !active {
		return
	}
	g := 0
	if cur != nil {
		g = cur.Group
	}
	newTask(site, "", g, f)
	if cur != nil {
		Yield()
	}
}

// GoTimer starts the task of a time.AfterFunc in the given group.
func GoTimer(group int, f func()) {
	if dying || !active {
		return
	}
	newTask("timer", "", group, f)
}

// Start starts a task of the harness.
func Start(name string, group int, f func()) *Task {
	if dying || !active {
		return nil
	}
	return newTask("", name, group, f)
}

// Group returns the group of the running task.
func Group() int {
	if cur == nil {
		return 0
	}
	return cur.Group
}

// SetGroup puts the running task, and tasks it starts from now on, in group g.
func SetGroup(g int) { cur.Group = g }

// CurName names the running task.
func CurName() string {
	if cur == nil {
		return "-"
	}
	return cur.String()
}

// Ended tells whether the task is over.
func (t *Task) Ended() bool { return t.ended }

// Quiesce blocks until no other task can run and no event is due before the
// given delay has passed; it reports whether nothing at all is pending.
func Quiesce(max time.Duration) bool {
	if dying {
		runtime.Goexit()
	}
	if idleT != nil {
		panic("sim: two tasks wait for quiescence")
	}
	idleT = cur
	idleAt = nowNS + int64(max)
	block("quiescence")
	return len(events) == 0
}

// Blocked describes the tasks that are alive, other than the caller.
type Blocked struct {
	ID    int
	Site  string
	Name  string
	Group int
	What  string
	Since time.Duration
}

// Alive lists the living tasks other than the caller.
func Alive() []Blocked {
	var out []Blocked
	for _, t := range tasks {
		if t == cur {
			continue
		}
		out = append(out, Blocked{t.ID, t.Site, t.Name, t.Group, t.What, time.Duration(t.since)})
	}
	return out
}

func (b Blocked) String() string {
	n := b.Name
	if n == "" {
		n = "goroutine started at " + b.Site
	}
	w := b.What
	if w == "" {
		w = "runnable"
	}
	return fmt.Sprintf("%s: %s since %v", n, w, b.Since)
}

// Dying is true while the tasks of a finished execution are being removed.
func Dying() bool { return dying }

// Active is true while a simulation runs.
func Active() bool { return active && !dying }

// BlockForever is select{}.
func BlockForever() {
	block("select {}")
	panic("sim: woke from select {}")
}

// Fatal records an unrecoverable runtime error of the code under test.
func Fatal(msg string) {
	if dying {
		return
	}
	if crash == nil {
		st := string(debug.Stack())
		crash = &Crash{Task: CurName(), Value: "fatal error: " + msg, Stack: st, Site: fatalSite(st)}
	}
	stopFrom()
}

func fatalSite(st string) string { return PanicSite("panic(\n\n" + st) }

// Progress returns a counter that moves while a simulation makes progress.
func Progress() int64 { return pcount + stats.Steps + decN }
