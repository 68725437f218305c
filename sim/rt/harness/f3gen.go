package main

import (
	"fmt"
	"strings"
	"syscall"
	"time"

	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/server"
	"github.com/go-stomp/stomp/v3/zzverif/sim"
	"github.com/go-stomp/stomp/v3/zzverif/simnet"
)

var serverReal = []string{"server.Server and its request processor", "server/client connections, subscriptions, transactions", "server/queue", "server/topic", "frame.Reader, frame.Writer"}
var serverStub = []string{"network (simnet)", "clients (raw scripted STOMP peers of the harness)", "goroutine scheduler, channels, locks, timers, clock (simulator)"}

func init() {
	scenarios["server"] = &scenario{gen: genServer, run: runServer}
	for _, id := range []string{"S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08", "S09", "S14", "S15"} {
		families[id] = &family{scenarios: []string{"server"}, quick: map[string]int{"S09": 6000, "S15": 6000}[id], level: "exploration", real: serverReal, stub: serverStub,
			rule: "Several raw clients run generated scripts (subscribe, send, bursts, acknowledge, reject, transactions, unsubscribe, disconnect, drop) against the server while links fail or stall; then everything is drained through a fresh consumer."}
		if families[id].quick == 0 {
			families[id].quick = 14000
		}
	}
}

// simStore is a queue storage that can fail; the harness's own, so that what
// it holds is known.
type simStore struct {
	w       *world
	q       map[string][]*frame.Frame
	calls   int64
	failAt  map[int64]bool
	until   int64
	mille   int
	eff     int
	delay   int64
	rng     *sim.Rand
	started int
	early   bool
	off     bool
}

var errStore = fmt.Errorf("storage: simulated I/O error")

func (s *simStore) fails(f *frame.Frame, op string) bool {
	s.calls++
	if s.started == 0 {
		s.early = true
	}
	if s.off || s.calls > s.until || !s.rng.Mille(s.mille) {
		return false
	}
	sim.Count("fault.storage." + op)
	s.w.c.Log("storage: %s fails", op)
	if f != nil {
		if m := s.w.of(f); m != nil {
			m.stErr = true
		}
	}
	return true
}

// of finds the message of a frame.
func (w *world) of(f *frame.Frame) (m *msg) {
	sim.Quiet(func() {
		if m = w.byBody[f.Header.Get("uid")]; m == nil {
			m = w.byBody[string(f.Body)]
		}
	})
	return m
}

func (s *simStore) Enqueue(queue string, f *frame.Frame) error {
	s.slow()
	bad := s.fails(f, "enqueue")
	if !bad || s.effect() {
		s.q[queue] = append(s.q[queue], f)
	}
	if bad {
		return errStore
	}
	return nil
}

func (s *simStore) Requeue(queue string, f *frame.Frame) error {
	s.slow()
	bad := s.fails(f, "requeue")
	if !bad || s.effect() {
		s.q[queue] = append([]*frame.Frame{f}, s.q[queue]...)
	}
	if bad {
		return errStore
	}
	return nil
}

func (s *simStore) Dequeue(queue string) (*frame.Frame, error) {
	s.slow()
	l := s.q[queue]
	if s.fails(nil, "dequeue") {
		if len(l) > 0 && s.effect() {
			// removed, but the answer was lost
			s.q[queue] = l[1:]
			if m := s.w.of(l[0]); m != nil {
				m.stErr = true
			}
		}
		return nil, errStore
	}
	if len(l) == 0 {
		return nil, nil
	}
	s.q[queue] = l[1:]
	return l[0], nil
}

// effect decides whether an operation that reports an error takes effect all
// the same, as when the answer of a remote storage is lost.
func (s *simStore) effect() bool {
	if s.eff == 0 || !s.rng.Mille(s.eff) {
		return false
	}
	sim.Count("fault.storage.effect")
	return true
}

// slow makes an operation take its time.
func (s *simStore) slow() {
	if s.delay > 0 && !s.off && s.rng.Mille(300) {
		sim.Count("fault.storage.slow")
		sim.Sleep(time.Duration(s.rng.Int63n(s.delay)))
	}
}

func (s *simStore) Start() { s.started++; s.q = map[string][]*frame.Frame{} }
func (s *simStore) Stop()  {}

func genServer(p *Plan, r *sim.Rand) {
	prop := p.Prop
	nq, nt := 1+r.Intn(3), r.Intn(3)
	nc := 2 + r.Intn(4)
	wantTopic := prop == "S05" || prop == "S15" || prop == "S09"
	if wantTopic && nt == 0 {
		nt = 1 + r.Intn(2)
	}
	if prop == "S03" || prop == "S01" || prop == "S04" {
		nq = 1 + r.Intn(2)
	}
	var dests []string
	for i := 0; i < nq; i++ {
		dests = append(dests, pick(r, "/queue/q", "/queue/q", "/queueq")+fmt.Sprint(i))
	}
	for i := 0; i < nt; i++ {
		dests = append(dests, pick(r, "/topic/t", "/topic/t", "t", "/q")+fmt.Sprint(i))
	}
	switch r.Intn(8) {
	case 0:
		// names that differ in little from others
		for i := 1; i < len(dests); i++ {
			if b := dests[r.Intn(i)]; r.Intn(2) == 0 {
				d := pick(r, strings.ToUpper(b), b[:1]+strings.ToUpper(b[1:2])+b[2:], b[:len(b)-1]+strings.ToUpper(b[len(b)-1:]), b+"/", b+" ", " "+b, b+"/"+b, b+"0", "/"+b, b+":", b+"\n", b+"*", b+"/>", b[:len(b)-1])
				ok := d != "" && isQueue(d) == (i < nq)
				for _, e := range dests {
					ok = ok && e != d
				}
				if ok {
					dests[i] = d
				}
			}
		}
	}
	dest := func() string {
		if nt > 0 && (r.Intn(3) == 0 || wantTopic && r.Intn(2) == 0) {
			return dests[nq+r.Intn(nt)]
		}
		return dests[r.Intn(nq)]
	}
	if prop == "S14" || r.Intn(6) == 0 {
		p.K["store"] = 1
		if prop == "S14" && r.Intn(6) > 0 {
			p.K["stmille"] = int64(pick(r, 30, 100, 300, 1000))
			p.K["stuntil"] = int64(5 + r.Intn(120))
			p.K["steff"] = int64(pick(r, 0, 0, 300, 1000))
		}
		if r.Intn(4) == 0 {
			p.K["stslow"] = pick(r, 100*us, 2*ms, 10*ms)
		}
	}
	p.K["hb"] = int64(pick(r, 0, 0, 1000, 5000))
	p.K["serve"] = int64(pick(r, 0, 0, 0, 1, 2, 3, 4))
	txy := prop == "S06" || r.Intn(3) == 0
	bursty := prop == "S09" || prop == "S15" || r.Intn(5) == 0
	burst := func() int64 {
		if bursty {
			return int64(pick(r, 3, 20, 40, 60, 160, 260))
		}
		return int64(1 + r.Intn(8))
	}
	rc := func() int64 {
		if prop == "S07" {
			return int64(r.Intn(4) / 1 & 1)
		}
		return int64(r.Intn(3) / 2)
	}
	delay := func() int64 {
		switch r.Intn(6) {
		case 0:
			return r.Int63n(20 * ms)
		case 1:
			return r.Int63n(300 * us)
		}
		return 0
	}
	faulty := r.Intn(3) > 0
	stuck := prop == "S15" && r.Intn(2) == 0 // the server gets to feel it that a client does not read
	stuckDest := dest()
	if nt > 0 && r.Intn(3) > 0 {
		stuckDest = dests[nq+r.Intn(nt)]
	}
	nbad := 0
	if prop == "S08" || r.Intn(8) == 0 {
		nbad = 1 + r.Intn(2)
	}
	for ci := 0; ci < nc; ci++ {
		a := Actor{Kind: "client", K: map[string]int64{"policy": int64(r.Intn(4)), "nacks": int64(r.Intn(8))}}
		a.K["ver"] = int64(pick(r, 11, 12, 12))
		a.K["stomp"] = int64(r.Intn(2))
		a.K["rcpt"] = int64(pick(r, 0, 0, 0, 0, 1, 1, 2, 3, 3, 4, 5))
		if r.Intn(3) == 0 {
			a.K["think"] = r.Int63n(5 * ms)
		}
		if r.Intn(2) == 0 {
			a.K["start"] = r.Int63n(30 * ms)
		}
		if stuck && ci == nc-1 {
			delete(a.K, "start")
		}
		if r.Intn(5) == 0 {
			a.K["cy"] = int64(pick(r, 10, 100, 2000))
		}
		role := r.Intn(4) // 0 producer 1 consumer 2,3 mixed
		n := 2 + r.Intn(14)
		nsub, txopen, txn := 0, map[int64]bool{}, int64(0)
		var subs []int64
		var qsub []int64
		for k := 0; k < n; k++ {
			o := Op{D: delay(), C: rc()}
			x := r.Intn(100)
			if k < 2 && role >= 1 {
				x = 0
			}
			if role == 0 && x < 25 {
				x = 30
			}
			if role == 1 && x >= 25 && x < 60 {
				x = pick(r, 0, 62, 70, 88)
			}
			switch {
			case x < 15 && nsub < 5: // subscribe
				nsub++
				o.Op, o.S, o.A, o.B = "sub", dest(), int64(nsub), int64(r.Intn(4))
				if prop == "S04" && r.Intn(3) > 0 {
					o.B = int64(1 + r.Intn(2))
				}
				subs = append(subs, o.A)
				qsub = append(qsub, o.A)
			case x < 25 && len(subs) > 0: // unsubscribe, maybe again
				i := r.Intn(len(subs))
				o.Op, o.A = "unsub", subs[i]
				again := false
				for _, q := range qsub {
					again = again || q == o.A
				}
				if again && r.Intn(2) == 0 {
					o.C = 1
					a.Ops = append(a.Ops, o)
					o = Op{Op: "sub", S: dest(), A: o.A, B: int64(r.Intn(4)), C: rc()}
				} else {
					subs = append(subs[:i:i], subs[i+1:]...)
				}
			case x < 60: // send
				o.Op, o.S = "burst", dest()
				o.A, o.E = burst(), int64(pick(r, 0, 5, 20, 100))
				if r.Intn(40) == 0 {
					o.A, o.E = o.A%24+1, 5000
				}
				if txy && len(txopen) > 0 && r.Intn(3) > 0 {
					o.B = anyKey(r, txopen)
				}
			case x < 68:
				o.Op, o.A, o.E = "wait", int64(1+r.Intn(5)), r.Int63n(200*ms)
			case x < 78:
				o.Op, o.A, o.E = pick(r, "ack", "ack", "nack"), int64(r.Intn(4)), int64(r.Intn(4))
				if txy && len(txopen) > 0 && r.Intn(2) > 0 {
					o.B = anyKey(r, txopen)
				}
			case x < 82:
				o.Op, o.A, o.B = "ackbad", int64(r.Intn(20)), int64(r.Intn(2))
			case x < 90 && txy || x < 84:
				if len(txopen) > 0 && r.Intn(2) == 0 {
					o.A = anyKey(r, txopen)
					o.Op = pick(r, "commit", "commit", "abort")
					delete(txopen, o.A)
				} else {
					txn++
					o.Op, o.A = "begin", txn%3+1
					if txopen[o.A] {
						o.Op, o.A = "sleep", r.Int63n(3*ms)
					} else {
						txopen[o.A] = true
					}
				}
			case x < 94:
				o.Op, o.A = "pause", r.Int63n(50*ms)
			case x < 97:
				o.Op = "sync"
			default:
				o.Op, o.A = "sleep", r.Int63n(50*ms)
			}
			a.Ops = append(a.Ops, o)
		}
		for _, t := range range3(txopen) {
			if r.Intn(3) > 0 {
				a.Ops = append(a.Ops, Op{Op: pick(r, "commit", "commit", "abort"), A: int64(t), C: rc()})
			}
		}
		if prop == "S15" && ci == nc-1 || prop == "S15" && r.Intn(6) == 0 {
			// this one stops reading at some moment, or stops within a frame
			pos := 1 + r.Intn(len(a.Ops))
			o := Op{Op: "stall"}
			rest := append([]Op(nil), a.Ops[pos:]...)
			a.Ops = append(a.Ops[:pos:pos], o)
			if r.Intn(2) == 0 {
				a.Ops = append(a.Ops, rest...)
			} else if r.Intn(2) == 0 {
				a.Ops = append(a.Ops, Op{Op: "raw", S: pick(r, "SEND\ndestination:/que", "SEND\ndestination:/queue/q0\ncontent-length:10\n\nab", "S", "SUBSCRIBE\nid:1")})
			}
			if len(subs) == 0 || r.Intn(2) == 0 {
				a.Ops = append([]Op{{Op: "sub", S: dest(), A: 9, B: int64(r.Intn(4))}}, a.Ops...)
			}
			if stuck && ci == nc-1 {
				a.Ops = append([]Op{{Op: "sub", S: stuckDest, A: 8, B: int64(r.Intn(4))}}, a.Ops...)
			}
		} else {
			switch r.Intn(6) {
			case 0, 1:
				a.Ops = append(a.Ops, Op{Op: "disconnect", D: delay()})
			case 2:
				a.Ops = append(a.Ops, Op{Op: "close", D: delay()})
			case 3:
				a.Ops = append(a.Ops, Op{Op: "drop", D: delay()})
			}
		}
		if stuck && ci < nc-1 && r.Intn(2) == 0 {
			pos := r.Intn(len(a.Ops))
			a.Ops = append(a.Ops[:pos:pos], append([]Op{{Op: "burst", S: stuckDest, A: int64(pick(r, 20, 60, 100, 200)), E: int64(pick(r, 0, 100)), C: int64(r.Intn(2)), D: r.Int63n(60 * ms)}}, a.Ops[pos:]...)...)
		}
		p.Actors = append(p.Actors, a)
		l := genLink(r)
		if stuck && ci == nc-1 {
			l = simnet.LinkCfg{Window: pick(r, 64, 300, 2000)}
		} else if l.Window > 0 && (int64(l.Window) < (l.Latency+l.Jitter)/ms*1000 || r.Intn(2) == 0) {
			l.Window = 0 // too slow for the volume
		}
		if l.Chunk > 0 && l.Chunk < 20 && bursty {
			l.Chunk = 200
		}
		p.Links = append(p.Links, l)
		if faulty && r.Intn(3) == 0 {
			f := simnet.Fault{Link: ci, Dir: r.Intn(2), Kind: pick(r, "rst", "rst", "lost", "fin", "werr", "black", "stall")}
			if r.Intn(2) == 0 {
				f.Off = 50 + r.Int63n(3000)
			} else {
				f.At = 1 + r.Int63n(60*ms)
			}
			if f.Kind == "stall" {
				f.Dur = r.Int63n(3 * sc)
			}
			p.Faults = append(p.Faults, f)
		}
	}
	for k := 0; k < nbad; k++ {
		a := Actor{Kind: "client", K: map[string]int64{"ver": int64(pick(r, 11, 12)), "start": r.Int63n(20 * ms), "policy": int64(r.Intn(3)), "rcpt": int64(pick(r, 0, 0, 1, 2, 3, 4))}}
		if r.Intn(5) == 0 {
			a.Kind = "raw"
		} else {
			for i := r.Intn(5); i > 0; i-- {
				switch r.Intn(3) {
				case 0:
					a.Ops = append(a.Ops, Op{Op: "sub", S: dest(), A: int64(i), B: int64(r.Intn(4)), C: rc(), D: delay()})
				case 1:
					a.Ops = append(a.Ops, Op{Op: "burst", S: dest(), A: 1 + r.Int63n(4), C: rc(), D: delay()})
				case 2:
					a.Ops = append(a.Ops, Op{Op: "wait", A: 1, E: r.Int63n(20 * ms)})
				}
			}
		}
		for i := 1 + r.Intn(2); i > 0; i-- {
			o := Op{Op: "bad", A: int64(pick(r, 0, 0, 0, 1, 1, 2, 3)), B: r.Int63n(100), C: int64(r.Intn(2)), D: delay(), E: int64(r.Intn(2))}
			if o.A == 3 {
				o.E = 1 + r.Int63n(60)
			}
			a.Ops = append(a.Ops, o)
		}
		if r.Intn(3) == 0 {
			a.Ops = append(a.Ops, Op{Op: pick(r, "close", "drop"), D: delay()})
		}
		p.Actors = append(p.Actors, a)
		p.Links = append(p.Links, genLink(r))
	}
	p.Links = append(p.Links, simnet.LinkCfg{})
	if r.Intn(30) == 0 {
		p.enlarge(r, dests, nq)
	}
	if r.Intn(4) == 0 {
		genFreeze(p, r, 1+r.Intn(5), pick(r, ms, 30*ms, 500*ms))
	}
}

// enlarge makes something unusually large.
func (p *Plan) enlarge(r *sim.Rand, dests []string, nq int) {
	var cs []int // candidates
	for i, a := range p.Actors {
		if a.Kind == "client" {
			cs = append(cs, i)
		}
	}
	actor := func() (int, *Actor) {
		i := cs[r.Intn(len(cs))]
		p.Links[i].Chunk, p.Links[i].Window = 0, 0
		return i, &p.Actors[i]
	}
	insert := func(a *Actor, pos int, ops ...Op) {
		a.Ops = append(a.Ops[:pos:pos], append(ops, a.Ops[pos:]...)...)
	}
	some := func() string { return dests[r.Intn(len(dests))] }
	kind := r.Intn(9)
	if p.Prop == "S09" && r.Intn(3) == 0 {
		kind = 8
	}
	p.K["large"] = int64(kind) + 1
	switch kind {
	case 8: // many subscriptions of one connection get something at once
		n := int64(15 + r.Intn(60))
		i, a := actor()
		var ops []Op
		for s := int64(0); s < n; s++ {
			ops = append(ops, Op{Op: "sub", S: some(), A: 20 + s, B: int64(r.Intn(4))})
		}
		ops = append(ops, Op{Op: "sleep", A: 20 * ms})
		for k := r.Intn(20); k > 0; k-- {
			ops = append(ops, Op{Op: "burst", S: some(), A: 1 + r.Int63n(4), E: 5})
		}
		insert(a, 0, ops...)
		if r.Intn(2) == 0 {
			p.Links[i] = simnet.LinkCfg{Latency: r.Int63n(10 * ms), Window: pick(r, 0, 500, 2000)}
		}
		for k := 1 + r.Intn(3); k > 0; k-- {
			_, b := actor()
			insert(b, 0, Op{Op: "sleep", A: 20 * ms})
			for j := 0; j < 2; j++ {
				d, m := some(), 2*n
				if !isQueue(d) {
					m = 20
				}
				insert(b, 1, Op{Op: "burst", S: d, A: 1 + r.Int63n(m), E: 5})
			}
		}
	case 0: // subscriptions
		_, a := actor()
		var ops []Op
		for n := int64(6 + r.Intn(40)); n > 0; n-- {
			ops = append(ops, Op{Op: "sub", S: some(), A: 20 + n, B: int64(r.Intn(4)), C: int64(r.Intn(8) / 7)})
		}
		insert(a, 0, ops...)
	case 1: // destinations
		names := append([]string(nil), dests...)
		for n := 8 + r.Intn(50); n > 0; n-- {
			names = append(names, fmt.Sprint(pick(r, "/queue/l", "/queue/l", "/topic/l", "l"), n))
		}
		for k := 1 + r.Intn(3); k > 0; k-- {
			_, a := actor()
			var ops []Op
			for i := range names {
				d := names[(i*7+k)%len(names)]
				if r.Intn(3) > 0 {
					ops = append(ops, Op{Op: "sub", S: d, A: 20 + int64(i), B: int64(r.Intn(4))})
				}
			}
			for _, d := range names {
				ops = append(ops, Op{Op: "burst", S: d, A: 1 + r.Int63n(3), E: 5, C: int64(r.Intn(8) / 7)})
			}
			insert(a, r.Intn(len(a.Ops)+1), ops...)
		}
	case 2: // transactions
		_, a := actor()
		n := int64(4 + r.Intn(30))
		var ops []Op
		for t := n; t > 0; t-- {
			ops = append(ops, Op{Op: "begin", A: 20 + t, C: int64(r.Intn(8) / 7)})
		}
		for k := 2 * n; k > 0; k-- {
			ops = append(ops, Op{Op: "burst", S: some(), A: 1 + r.Int63n(2), B: 21 + r.Int63n(n)})
		}
		for t := n; t > 0; t-- {
			ops = append(ops, Op{Op: pick(r, "commit", "commit", "abort"), A: 20 + t, C: int64(r.Intn(8) / 7)})
		}
		insert(a, r.Intn(len(a.Ops)+1), ops...)
	case 3: // frames in a transaction
		_, a := actor()
		insert(a, r.Intn(len(a.Ops)+1), Op{Op: "begin", A: 20}, Op{Op: "burst", S: some(), A: 1 + r.Int63n(400), B: 20}, Op{Op: "burst", S: some(), A: 1 + r.Int63n(50), B: 20},
			Op{Op: pick(r, "commit", "commit", "abort"), A: 20, C: 1})
	case 4: // connections
		last := p.Links[len(p.Links)-1]
		p.Links = p.Links[:len(p.Actors)]
		for n := 10 + r.Intn(80); n > 0; n-- {
			a := Actor{Kind: "client", K: map[string]int64{"ver": int64(pick(r, 11, 12)), "start": r.Int63n(60 * ms), "policy": int64(r.Intn(4)), "stomp": int64(r.Intn(2))}}
			if r.Intn(2) == 0 {
				a.Ops = append(a.Ops, Op{Op: "sub", S: some(), A: 1, B: int64(r.Intn(4))})
			}
			if r.Intn(2) == 0 {
				a.Ops = append(a.Ops, Op{Op: "burst", S: some(), A: 1 + r.Int63n(2), C: int64(r.Intn(2))})
			}
			if r.Intn(4) > 0 {
				a.Ops = append(a.Ops, Op{Op: pick(r, "disconnect", "close", "drop"), D: r.Int63n(10 * ms)})
			}
			p.Actors = append(p.Actors, a)
			p.Links = append(p.Links, simnet.LinkCfg{})
		}
		p.Links = append(p.Links, last)
	case 5: // headers
		p.K["hdrs"] = pick(r, int64(10), 25, 60, 150)
		p.K["hdrlen"] = pick(r, int64(0), 0, 4096, 9000, 70000)
		if p.K["hdrlen"] > 0 {
			p.K["hdrs"] = int64(r.Intn(3))
		}
		p.plainLinks()
	case 6: // bodies
		p.plainLinks()
		for k := 1 + r.Intn(4); k > 0; k-- {
			_, a := actor()
			insert(a, r.Intn(len(a.Ops)+1), Op{Op: "burst", S: some(), A: 1 + r.Int63n(3), E: pick(r, int64(32768), 65536, 70000, 140000, 1<<20+7), C: int64(r.Intn(2))})
		}
	case 7: // time
		t := pick(r, int64(2*60), 11*60, 3700, 86500, 30*86400) * sc
		for i := range p.Actors {
			a := &p.Actors[i]
			delete(a.K, "cy")
			if len(a.Ops) > 0 && r.Intn(3) > 0 {
				insert(a, 1+r.Intn(len(a.Ops)), Op{Op: "sleep", A: t})
				p.K["settle"] = t + 70*sc
			}
		}
	}
}

// plainLinks makes the links fast.
func (p *Plan) plainLinks() {
	for i := range p.Links {
		if p.Links[i].Window < 64 || p.Links[i].Window > 2000 {
			p.Links[i] = simnet.LinkCfg{Latency: p.Links[i].Latency}
		}
	}
}

// anyKey picks a key of a small set in a reproducible way.
func anyKey(r *sim.Rand, m map[int64]bool) int64 {
	var ks []int64
	for k := int64(0); k < 10; k++ {
		if m[k] {
			ks = append(ks, k)
		}
	}
	return ks[r.Intn(len(ks))]
}

// range3 lists the keys of a small set in order.
func range3(m map[int64]bool) []int {
	var ks []int
	for k := 0; k < 10; k++ {
		if m[int64(k)] {
			ks = append(ks, k)
		}
	}
	return ks
}

func runServer(c *Ctx) {
	p := c.P
	obsSeq = 0
	w := &world{c: c, p: p, byBody: map[string]*msg{}}
	s := &server.Server{HeartBeat: dur(p.K["hb"] * ms)}
	if p.K["store"] == 1 {
		w.store = &simStore{w: w, q: map[string][]*frame.Frame{}, rng: sim.NewRand(p.Seed ^ 0x5704e), mille: int(p.K["stmille"]), eff: int(p.K["steff"]), delay: p.K["stslow"], until: p.K["stuntil"]}
		s.QueueStorage = w.store
	}
	n := len(p.Actors)
	c.net.Cfg = func(i int) simnet.LinkCfg {
		if i >= 1000 {
			return simnet.LinkCfg{}
		}
		return p.link(i)
	}
	c.net.OnFault = func(link int, f simnet.Fault) {
		if f.Kind != "stall" && link < n {
			w.cl[link].disturb()
		}
	}
	if p.K["auth"] > 0 {
		s.Authenticator = simAuth{w}
	}
	w.startServer(s)
	if p.Scenario == "srvlogin" {
		w.acceptWatch()
	}
	var tasks []*sim.Task
	for i := range p.Actors {
		cl := w.newCli(i, fmt.Sprintf("c%d", i), &p.Actors[i])
		if p.Actors[i].Kind == "accepterr" {
			tasks = append(tasks, sim.Start(cl.name, 0, func() {
				for _, o := range p.Actors[i].Ops {
					sim.Sleep(dur(o.D))
					for k := int64(0); k < o.A; k++ {
						w.lst.Inject(simnet.TempErr(int(o.B + k)))
					}
				}
			}))
			continue
		}
		tasks = append(tasks, sim.Start(cl.name, 0, cl.script))
	}
	// run the scripts and let things settle
	settle := p.K["settle"]
	if settle == 0 {
		settle = 70 * sc
	}
	sim.Quiesce(dur(settle))
	for i := 0; i < 40 && w.lastFrame+dur(5*sc) > sim.Now(); i++ {
		sim.Quiesce(dur(10 * sc)) // there is still something going on
	}
	for i, t := range tasks {
		if !t.Ended() {
			cl := w.cl[i]
			if cl.healthy() || cl.conn != nil && cl.badSent == nil && cl.disturbed == 0 && !cl.stalled {
				w.fail("S09 S15 S07"+w.faultProps(), "client stuck", "%s is still busy after %v: %s", cl.name, dur(settle), blockedIn(t))
			}
		}
	}
	if w.store != nil {
		w.store.off = true
		if w.store.early {
			w.fail("S14", "storage not started", "the queue storage was used before it was started")
		}
		if p.K["stmille"] > 0 {
			w.probe()
		}
	}
	w.midCheck("after the scripts")
	if w.acceptCheck != nil {
		w.acceptCheck()
		w.lateReceipts()
	}
	// everybody goes
	for i, cl := range w.cl {
		if cl.conn == nil {
			continue
		}
		cl.close(i%2 == 0 || cl.disturbed > 0 || cl.pe.writeErr != nil)
		if cl.disturbed > 0 {
			cl.conn.Link().Reset(syscall.ECONNRESET)
		}
		cl.pe.paused = false
		cl.pe.wl.WakeAll()
	}
	sim.Quiesce(dur(10 * sc))
	for _, cl := range w.cl {
		if cl.conn != nil && !cl.gone() {
			w.fail("S08 S09", "server keeps a dead connection", "%s has gone but the server has not closed its end", cl.name)
		}
	}
	w.drainAll()
	w.finalCheck()
	w.leakCheck()
}

func blockedIn(t *sim.Task) string {
	if t.What == "" {
		return "runnable"
	}
	return t.What
}

// probe sends one more message to every queue after storage errors are over.
func (w *world) probe() {
	c := w.newCli(900, "probe", nil)
	sim.Start("probe", 0, func() {
		if c.dial() != nil || !c.connect() {
			return
		}
		for _, q := range w.queues() {
			c.sendMsg(q, 3, "", true)
		}
	})
	sim.Quiesce(dur(20 * sc))
}
