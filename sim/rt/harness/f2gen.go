package main

import (
	"github.com/go-stomp/stomp/v3/zzverif/sim"
	"github.com/go-stomp/stomp/v3/zzverif/simnet"
)

var clientReal = []string{"stomp.Conn with its read and process loops", "stomp.Subscription", "stomp.Transaction", "connect and negotiation", "id allocation", "frame.Reader, frame.Writer"}
var clientStub = []string{"network (simnet)", "STOMP server (scripted broker of the harness)", "goroutine scheduler, channels, locks, timers, clock (simulator)"}

func init() {
	scenarios["client"] = &scenario{gen: genClientAny, run: runClient}
	for id, n := range map[string]int{"C02": 16000, "C03": 12000, "C04": 12000, "C05": 14000, "C06": 12000, "C07": 12000, "C08": 12000, "C09": 12000, "C10": 8000, "C11": 8000, "C13": 14000, "C14": 10000} {
		families[id] = &family{scenarios: []string{"client"}, quick: n, level: "exploration", real: clientReal, stub: clientStub,
			rule: "Several tasks run generated scripts (send, receipts, subscribe, acknowledge, transactions, unsubscribe, disconnect) over client connections to a scripted broker that answers, delays, repeats, omits, reorders, refuses, sends nonsense, falls silent or goes away, while links fail or stall; afterwards fresh calls probe every connection and each is torn down."}
	}
}

func genClientAny(p *Plan, r *sim.Rand) {
	genClient(p, r)
	if r.Intn(30) == 0 {
		p.enlargeClient(r)
	}
	if p.Prop == "C14" && r.Intn(500) == 0 {
		p.K["ids"] = pick(r, int64(5000), 35000, 70000, 110000)
	}
}

// enlargeClient makes something unusually large.
func (p *Plan) enlargeClient(r *sim.Rand) {
	conn, hb := -1, false
	nconn := 0
	for i, a := range p.Actors {
		if a.Kind == "conn" {
			nconn++
			if _, ok := a.K["hbh"]; ok {
				hb = true
			}
			if conn < 0 || r.Intn(2) == 0 {
				conn = i
			}
		}
	}
	if conn < 0 || conn != nconn-1 && p.Actors[nconn-1].Kind != "conn" {
		return
	}
	k := p.Actors[conn].K
	user := func(ops ...Op) {
		p.Actors = append(p.Actors, Actor{Kind: "user", K: map[string]int64{"conn": int64(conn)}, Ops: ops})
	}
	broker := func(ops ...Op) {
		p.Actors = append(p.Actors, Actor{Kind: "broker", K: map[string]int64{"conn": int64(conn)}, Ops: ops})
	}
	kind := r.Intn(8)
	if hb {
		kind = r.Intn(3)
	} else if kind >= 3 {
		for i := range p.Links {
			p.Links[i] = simnet.LinkCfg{Latency: p.Links[i].Latency}
		}
	}
	if r.Intn(3) > 0 {
		for _, x := range []string{"mst", "rct", "dct", "uct"} {
			k[x] = pick(r, 10*sc, 20*sc, 0)
			if hb && k[x] == 0 {
				k[x] = 2 * sc
			}
		}
	}
	p.K["large"] = int64(kind) + 1
	sub := func(slot int64) Op {
		return Op{Op: "sub", A: slot, B: int64(r.Intn(3)), C: int64(r.Intn(8)), E: 100 * int64(r.Intn(4))}
	}
	switch kind {
	case 0: // waiting for many receipts at once
		for n := 10 + r.Intn(50); n > 0; n-- {
			o := Op{Op: "send", A: int64(r.Intn(10)), B: 1, C: int64(1 + r.Intn(3))}
			if r.Intn(4) == 0 {
				o.D = r.Int63n(5 * ms)
			}
			user(o)
		}
	case 1: // subscriptions
		n := int64(6 + r.Intn(40))
		var ops, msgs []Op
		for s := int64(0); s < n; s++ {
			ops = append(ops, sub(10+s))
		}
		for i := 2 * n; i > 0; i-- {
			msgs = append(msgs, Op{Op: "msg", A: 10 + r.Int63n(n), B: 1 + r.Int63n(3), C: 3, D: pick(r, 0, 0, ms)})
		}
		msgs[0].D = 100 * ms
		for i := r.Int63n(n); i > 0; i-- {
			ops = append(ops, Op{Op: "unsub", A: 10 + r.Int63n(n), D: pick(r, 0, 0, 10*ms)})
		}
		user(ops...)
		broker(msgs...)
		if r.Intn(2) == 0 {
			broker(msgs...)
		}
	case 2: // transactions
		n := int64(5 + r.Intn(30))
		var ops []Op
		for t := int64(0); t < n; t++ {
			ops = append(ops, Op{Op: "begin", A: 10 + t})
		}
		for i := 2 * n; i > 0; i-- {
			ops = append(ops, Op{Op: "txsend", A: 10 + r.Int63n(n), C: 3})
		}
		for t := int64(0); t < n; t++ {
			ops = append(ops, Op{Op: pick(r, "commit", "abort"), A: 10 + t, B: int64(r.Intn(4) / 3)})
		}
		for i := 10 * r.Intn(30); i > 0; i-- {
			ops = append(ops, Op{Op: "txsend", A: 10 + r.Int63n(n), C: 3})
		}
		user(ops...)
	case 3: // messages
		user(sub(10), sub(11))
		var msgs []Op
		for i := 1 + r.Intn(8); i > 0; i-- {
			msgs = append(msgs, Op{Op: "msg", A: int64(10 + r.Intn(2)), B: 1 + r.Int63n(400), C: r.Int63n(20), D: pick(r, 0, 0, ms)})
		}
		msgs[0].D = 100 * ms
		broker(msgs...)
		user(Op{Op: "send", A: 3, C: 1 + r.Int63n(800), B: 2 * int64(r.Intn(2)), D: pick(r, 0, 100*ms)})
	case 4: // headers
		p.K["hdrs"] = pick(r, int64(10), 25, 60, 150)
		p.K["hdrlen"] = pick(r, int64(0), 0, 4096, 9000, 70000)
		if p.K["hdrlen"] > 0 {
			p.K["hdrs"] = int64(1 + r.Intn(2))
		}
		user(sub(10), Op{Op: "send", A: 10, C: 5})
		broker(Op{Op: "msg", A: 10, B: 5, C: 3, D: 100 * ms, E: 4})
	case 5: // bodies
		size := func() int64 { return pick(r, int64(32768), 65536, 70000, 140000, 1<<20+7) }
		user(sub(10))
		user(Op{Op: "send", A: size(), C: 1 + r.Int63n(3), B: int64(r.Intn(4))}, Op{Op: "send", A: 3, C: 2})
		broker(Op{Op: "msg", A: 10, B: 1 + r.Int63n(3), C: size(), E: pick(r, int64(0), 4), D: 100 * ms}, Op{Op: "msg", A: 10, B: 3, C: 3})
	case 6: // time
		t := pick(r, int64(2*60), 11*60, 3700, 86500, 30*86400) * sc
		n := 0
		for i := range p.Actors {
			a := &p.Actors[i]
			if a.Kind == "conn" || len(a.Ops) == 0 || n > 0 && r.Intn(2) == 0 {
				continue
			}
			a.Ops[r.Intn(len(a.Ops))].D += t
			n++
		}
		p.K["settle"] = t + 200*sc
	case 7: // connections
		if p.Prop != "C14" || nconn > 4 {
			return
		}
		m := 5 + r.Intn(30)
		var cs []Actor
		links := append([]simnet.LinkCfg(nil), p.Links[:nconn]...)
		for i := 0; i < m; i++ {
			cs = append(cs, Actor{Kind: "conn", K: map[string]int64{"ver": int64(pick(r, 10, 11, 12)), "td": int64(r.Intn(5)), "rdel": 10 * ms}})
			links = append(links, simnet.LinkCfg{})
			p.Actors = append(p.Actors, Actor{Kind: "user", K: map[string]int64{"conn": int64(nconn + i)}, Ops: []Op{sub(1), {Op: "begin", A: 1}, {Op: "send", A: 3, B: 1, C: 2}, {Op: "txsend", A: 1, C: 3}, {Op: "commit", A: 1}, {Op: "unsub", A: 1}}})
		}
		p.Links = append(links, p.Links[nconn:]...)
		p.Actors = append(append(append([]Actor(nil), p.Actors[:nconn]...), cs...), p.Actors[nconn:]...)
	}
}

func genClient(p *Plan, r *sim.Rand) {
	prop := p.Prop
	is := func(ids ...string) bool {
		for _, id := range ids {
			if id == prop {
				return true
			}
		}
		return false
	}
	hb := is("C10", "C11") || r.Intn(8) == 0
	nconn := 1
	if is("C14") {
		nconn = 1 + r.Intn(4)
	} else if r.Intn(8) == 0 {
		nconn = 2
	}
	delay := func() int64 {
		switch r.Intn(6) {
		case 0:
			return r.Int63n(20 * ms)
		case 1:
			return r.Int63n(300 * us)
		case 2:
			if r.Intn(4) == 0 {
				return r.Int63n(3 * sc)
			}
		}
		return 0
	}
	var users, brokers []Actor
	var conns []Actor
	anyUnsub := false
	freeze := int64(0)
	if r.Intn(5) == 0 {
		genFreeze(p, r, 1+r.Intn(4), pick(r, ms, 10*ms, 100*ms))
		freeze = int64(p.Sched.FrzNum) * p.Sched.FrzMax
	}
	faulty := r.Intn(3) > 0
	if hb {
		faulty = r.Intn(4) == 0
	}
	for ci := 0; ci < nconn; ci++ {
		k := map[string]int64{"ver": int64(pick(r, 0, 10, 11, 11, 12, 12, 12)), "td": int64(r.Intn(5))}
		l := genLink(r)
		if hb {
			genBeat(p, r, k, &l, freeze, nconn == 1)
		}
		if l.Window == 0 && is("C02", "C04", "C05", "C10") && r.Intn(3) == 0 {
			l.Window = pick(r, 300, 1000)
		}
		if l.Window > 0 && l.Window < 400 {
			l.Window = 400 // room for the connect frame
		}
		p.Links = append(p.Links, l)
		rtt := 2*(l.Latency+l.Jitter) + 3*ms
		for _, t := range []string{"mst", "rct", "dct", "uct"} {
			if r.Intn(2) == 0 && !hb {
				continue
			}
			k[t] = pick(r, 3*ms, 50*ms, rtt+freeze, 3*rtt+freeze+100*ms, 500*ms, 2*sc, 2*sc, 0)
			if hb && k[t] == 0 {
				k[t] = 2 * sc
			}
		}
		if r.Intn(4) == 0 {
			k["rcap"] = int64(1 + r.Intn(3))
		}
		if r.Intn(3) == 0 {
			k["wcap"] = int64(1 + r.Intn(3))
		}
		if r.Intn(6) == 0 {
			k["rbuf"] = int64(pick(r, 600, 5000))
		}
		if r.Intn(6) == 0 {
			k["wbuf"] = int64(pick(r, 16, 100, 5000))
		}
		if r.Intn(10) == 0 {
			k["plain"] = 1
		}
		k["stats"] = int64(r.Intn(2))
		k["ackh"] = int64(r.Intn(2))
		k["log"] = int64(r.Intn(4))
		// the broker's manners
		if is("C03") || r.Intn(3) == 0 {
			for _, x := range []string{"rlate", "rnever", "rwrong", "rerr", "rswap", "rdup"} {
				if r.Intn(3) == 0 {
					k[x] = int64(pick(r, 100, 300, 700))
					if x == "rerr" {
						k[x] /= 4
					}
				}
			}
		}
		k["rdel"] = pick(r, 10*ms, 100*ms, sc, 4*sc)
		if is("C09", "C03") || r.Intn(3) == 0 {
			k["dmode"] = int64(r.Intn(7))
		}
		if is("C08") && r.Intn(2) == 0 || r.Intn(5) == 0 {
			k["umode"] = int64(r.Intn(3))
		}
		if is("C08") || r.Intn(4) == 0 {
			k["umsgs"] = int64(r.Intn(4))
		}
		if is("C06", "C07", "C08") && r.Intn(2) == 0 || r.Intn(5) == 0 {
			k["auto"] = int64(pick(r, 1, 2, 5, 20, 45))
			k["autosz"] = int64(pick(r, 0, 10, 200))
		}
		conns = append(conns, Actor{Kind: "conn", K: k})
		// the users
		nu := 1 + r.Intn(4)
		subslots := 0
		tx := is("C13") || r.Intn(4) == 0
		wsub := 15
		if is("C06", "C07", "C08", "C13", "C11") {
			wsub = 35
		}
		if is("C02", "C03", "C14", "C10") {
			wsub = 8
		}
		badpol := func() int64 {
			if r.Intn(5) > 0 {
				return 0
			}
			return int64(pick(r, 1, 1, 2, 3, 4))
		}
		for ui := 0; ui < nu; ui++ {
			a := Actor{Kind: "user", K: map[string]int64{"conn": int64(ci)}}
			n := 1 + r.Intn(10)
			txopen := int64(-1)
			for i := 0; i < n; i++ {
				o := Op{D: delay()}
				x := r.Intn(100)
				if i == 0 && r.Intn(2) == 0 && wsub > 10 {
					x = 0
				}
				switch {
				case x < wsub: // subscribe
					o.Op, o.A, o.B = "sub", int64(subslots%3), int64(r.Intn(3))
					if is("C13") && r.Intn(3) > 0 {
						o.B = int64(1 + r.Intn(2))
					}
					if r.Intn(3) == 0 {
						o.A = int64(r.Intn(3))
					}
					subslots++
					for _, f := range []int64{1, 2, 4, 8, 32, 64} {
						if r.Intn(5) == 0 && (f != 8 || r.Intn(3) == 0) {
							o.C |= f
						}
					}
					how := int64(0)
					if r.Intn(2) == 0 {
						how = int64(pick(r, 1, 2, 3, 4))
					}
					o.E = badpol() + 100*how
				case x < wsub+30: // send
					o.Op, o.A, o.C = "send", int64(pick(r, 0, 1, 5, 30, 300, 3000)), int64(pick(r, 1, 1, 1, 2, 5, 25))
					if o.A > 100 && o.C > 5 {
						o.C = 2
					}
					for _, f := range []int64{2, 4, 8, 16} {
						if r.Intn(4) == 0 {
							o.B |= f
						}
					}
					if r.Intn(3) == 0 || is("C03", "C04") && r.Intn(2) == 0 {
						o.B |= int64(pick(r, 1, 1, 1, 33))
						o.C = int64(pick(r, 1, 1, 2, 3))
					}
				case x < wsub+45 && tx:
					switch {
					case txopen < 0 || r.Intn(5) == 0:
						txopen = int64(r.Intn(3))
						o.Op, o.A = "begin", txopen
					case r.Intn(3) > 0:
						o.Op, o.A, o.C = "txsend", txopen, int64(pick(r, 0, 3, 50))
						if r.Intn(5) == 0 {
							o.B |= int64(pick(r, 1, 1, 33))
						}
						if r.Intn(5) == 0 {
							o.B |= 16
						}
					default:
						o.Op, o.A, o.B = pick(r, "commit", "commit", "abort"), txopen, int64(r.Intn(2))
						if o.B == 1 && r.Intn(2) == 0 {
							// once more, in case it fails
							a.Ops = append(a.Ops, o)
							o.D = delay()
						}
					}
				case x < wsub+55: // acknowledge
					o.Op, o.A, o.B = pick(r, "ack", "ack", "nack"), int64(r.Intn(3)), int64(r.Intn(3))
					if r.Intn(6) == 0 {
						o.C = 1 // and keep it for another time
					}
					if tx && txopen >= 0 && r.Intn(2) == 0 {
						o.E = 1 + txopen
					}
				case x < wsub+62:
					o.Op, o.A, o.B = "unsub", int64(r.Intn(3)), int64(r.Intn(2))
					anyUnsub = true
				case x < wsub+65:
					o.Op, o.A, o.B, o.C = pick(r, "refused", "refused", "alien"), int64(r.Intn(3)), int64(r.Intn(4)), int64(r.Intn(4))
				default:
					o.Op = "sleep"
					o.D = pick(r, r.Int63n(ms), r.Int63n(30*ms), r.Int63n(2*sc))
				}
				a.Ops = append(a.Ops, o)
				if o.Op == "unsub" && r.Intn(3) == 0 {
					a.Ops = append(a.Ops, Op{Op: "unsub", A: o.A, D: delay()})
				}
			}
			if is("C08") && r.Intn(2) == 0 {
				a.Ops = append(a.Ops, Op{Op: "unsub", A: int64(r.Intn(3)), D: delay()})
				anyUnsub = true
			}
			if is("C09") && r.Intn(3) > 0 || r.Intn(8) == 0 {
				a.Ops = append(a.Ops, Op{Op: pick(r, "disc", "disc", "disc", "must"), D: delay()})
				for r.Intn(3) == 0 {
					a.Ops = append(a.Ops, Op{Op: pick(r, "disc", "must", "send"), A: 3, D: delay()})
				}
			}
			users = append(users, a)
		}
		// the broker's own initiatives
		for bi := r.Intn(3); bi >= 0; bi-- {
			a := Actor{Kind: "broker", K: map[string]int64{"conn": int64(ci)}}
			n := r.Intn(8)
			for i := 0; i < n; i++ {
				o := Op{D: delay()}
				x := r.Intn(100)
				switch {
				case x < 55:
					o.Op, o.A, o.B, o.C, o.E = "msg", int64(r.Intn(3)), int64(pick(r, 1, 1, 2, 5, 20, 45)), int64(pick(r, 0, 5, 100, 2000)), int64(r.Intn(8))
					if o.C > 500 && o.B > 5 {
						o.B = 3
					}
					if r.Intn(15) == 0 {
						o.E |= 8
					}
				case x < 65:
					o.Op, o.A = "stray", int64(r.Intn(2))
				case x < 75:
					o.Op, o.A, o.B = "rcpt", int64(r.Intn(3)), int64(r.Intn(2))
				case x < 80:
					o.Op = "odd"
				case x < 90:
					o.Op, o.A = "hb", int64(1+r.Intn(3))
				default:
					o.Op = "nop"
				}
				a.Ops = append(a.Ops, o)
			}
			brokers = append(brokers, a)
		}
		// the catastrophe
		if is("C06", "C05", "C04", "C11") && r.Intn(4) > 0 || r.Intn(4) == 0 {
			o := Op{D: pick(r, r.Int63n(ms), r.Int63n(30*ms), r.Int63n(300*ms), r.Int63n(3*sc))}
			switch r.Intn(9) {
			case 0, 1:
				o.Op, o.A, o.B = "err", int64(r.Intn(4)/3), int64(r.Intn(2))
			case 2:
				o.Op = "norid"
			case 3:
				o.Op = "garbage"
			case 4:
				o.Op = "fin"
			case 5:
				o.Op = "rst"
			case 6:
				o.Op, o.A = "pause", pick(r, 100*ms, 3*sc, 30*sc)
			case 7, 8:
				o.Op, o.A = "silent", int64(r.Intn(2))
			}
			if is("C11") && hb && r.Intn(2) == 0 {
				o.Op, o.A = "silent", int64(r.Intn(2))
			}
			brokers = append(brokers, Actor{Kind: "broker", K: map[string]int64{"conn": int64(ci)}, Ops: []Op{o}})
		}
		if faulty && r.Intn(2) == 0 {
			f := simnet.Fault{Link: ci, Dir: r.Intn(2), Kind: pick(r, "rst", "lost", "fin", "werr", "black", "stall", "stall")}
			if r.Intn(3) == 0 {
				f.At = 5*ms + l.Latency*2 + l.Jitter*2 + r.Int63n(200*ms)
			} else {
				// not while connecting
				f.Off = 400 + pick(r, r.Int63n(300), r.Int63n(5000))
			}
			if f.Kind == "stall" {
				f.Dur = r.Int63n(3 * sc)
				if hb {
					f.Dur = r.Int63n(k["sx"]*ms/2 + 1)
				}
			}
			if f.Kind == "fin" && f.Dir == 0 {
				f.Kind = "rst"
			}
			p.Faults = append(p.Faults, f)
		}
	}
	if anyUnsub {
		for i := range brokers {
			for j := range brokers[i].Ops {
				if o := &brokers[i].Ops[j]; o.Op == "rcpt" {
					o.B = 0
				}
			}
		}
	}
	p.Actors = append(append(conns, users...), brokers...)
}

// genBeat draws heart-beat parameters and a link fast enough for them.
func genBeat(p *Plan, r *sim.Rand, k map[string]int64, l *simnet.LinkCfg, freeze int64, single bool) {
	k["hbh"] = 1
	if r.Intn(10) == 0 {
		k["hbh"] = 0
	}
	v := func() int64 { return int64(pick(r, 100, 200, 500, 1000, 1000, 3000)) }
	k["cx"], k["cy"], k["sx"], k["sy"] = v(), v(), v(), v()
	for _, x := range []string{"cy", "sx", "sy"} {
		if r.Intn(7) == 0 {
			k[x] = 0
		}
	}
	if r.Intn(12) == 0 {
		k["cx"], k["sy"] = 0, 0
	}
	if r.Intn(15) == 0 {
		k["nobeat"] = 1
	}
	k["beatmode"] = int64(r.Intn(4))
	l.Latency = r.Int63n(20 * ms)
	l.Jitter = r.Int63n(20 * ms)
	if l.Chunk > 0 && l.Chunk < 20 {
		l.Chunk = 20
	}
	least := 2*(l.Latency+l.Jitter+freeze) + 10*ms
	switch r.Intn(4) {
	case 0:
		k["hberr"] = least
	case 1:
		k["hberr"] = least + 200*ms
	case 2:
		k["hberr"] = least + sc
	}
	for _, x := range []string{"sx", "sy"} {
		if v := k[x] * ms; v >= least && r.Intn(6) == 0 {
			k["hberr"] = v
		}
	}
	if r.Intn(4) == 0 {
		k["grace"] = int64(pick(r, 100, 150, 300))
	}
	big := int64(1)
	if single && r.Intn(12) == 0 {
		// minutes and hours (not beside connections whose intervals are short)
		big = int64(pick(r, 10, 30, 600, 3600, 100000))
		for _, x := range []string{"cx", "cy", "sx", "sy"} {
			if big > 30 || r.Intn(3) > 0 {
				k[x] *= big
			}
		}
	}
	p.K["settle"] = max(p.K["settle"], 10*sc*big)
	p.K["probe"] = max(p.K["probe"], 15*sc*big)
	p.K["tdq"] = max(p.K["tdq"], 20*sc*big)
}
