package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/go-stomp/stomp/v3/zzverif/sim"
	"github.com/go-stomp/stomp/v3/zzverif/simnet"
)

// Heart-beats, logins and accept errors: further workloads of the server
// scenario.

func init() {
	scenarios["srvhb"] = &scenario{gen: genSrvHb, run: runServer}
	scenarios["srvlogin"] = &scenario{gen: genSrvLogin, run: runServer}
	for _, id := range []string{"S10", "S11"} {
		families[id] = &family{scenarios: []string{"srvhb"}, quick: 40000, level: "exploration", real: serverReal, stub: serverStub,
			rule: "Several raw clients with generated heart-beat wishes exchange messages with the server, keep their own promises or fall silent at some point, within a frame or between frames; one may stop reading."}
	}
	for _, id := range []string{"S12", "S13"} {
		families[id] = &family{scenarios: []string{"srvlogin"}, quick: 60000, level: "exploration", real: serverReal, stub: serverStub,
			rule: "Raw clients log in with acceptable and unacceptable connect frames, frames before and behind the connect frame, while others are being served and the listener fails transiently."}
	}
}

// users are the accounts of the simulated authenticator.
var users = [][2]string{{"ann", "p1"}, {"bob", "p2"}, {"eve", "p3"}, {"", "none"}, {"dan", ""}}

type simAuth struct{ w *world }

func (a simAuth) Authenticate(login, passcode string) bool {
	sim.Yield()
	return authOK(login, passcode)
}

func authOK(login, passcode string) bool {
	for _, u := range users {
		if u[0] == login && u[1] == passcode {
			return true
		}
	}
	return false
}

// announced looks at the heart-beat values of CONNECTED.
func (c *cli) announced(f *HF) {
	hb := f.get("heart-beat")
	if hb == "" {
		hb = "0,0"
	}
	if n, err := fmt.Sscanf(hb, "%d,%d", &c.sx, &c.sy); n != 2 || err != nil {
		c.w.fail("S10 S12", "bad heart-beat header", "%s got %v", c.name, f)
		return
	}
	if c.a == nil || c.rejected {
		return
	}
	min := c.w.p.K["hb"]
	if min == 0 {
		min = 60000
	}
	if cy := c.a.k("cy"); cy > 0 && (c.sx < cy || c.sx < min) {
		c.w.fail("S10", "interval too short", "%s asked for a heart-beat every %d ms, the server's minimum is %d ms, and it announced %d ms", c.name, cy, min, c.sx)
	}
}

// slack is how long the plan may keep tasks from running.
func (w *world) slack() time.Duration {
	return dur(int64(w.p.Sched.FrzNum)*w.p.Sched.FrzMax) + dur(2*ms)
}

// beatCheck: the wire to the client has not been silent for longer than announced.
func (c *cli) beatCheck() {
	if !c.connected || !c.hbWant || c.sx <= 0 || c.errored || c.endSeq > 0 || c.disturbed > 0 && !c.hush || c.stalled || c.gone() {
		return
	}
	if gap := sim.Now() - c.lastWire; gap > dur(c.sx*ms)+c.w.slack() {
		c.w.fail("S10", "heart-beat late", "the server announced a heart-beat every %d ms to %s and sent nothing for %v", c.sx, c.name, gap)
	}
}

// promise is how often the client has to send something.
func (c *cli) promise() time.Duration {
	cx := c.a.k("cx")
	if cx == 0 {
		return 0
	}
	if c.sy > cx {
		cx = c.sy
	}
	return dur(cx * ms)
}

// beater keeps the client's promise.
func (c *cli) beater() {
	iv := c.promise()
	if iv <= 0 {
		return
	}
	for !c.quit && !c.pe.ended && c.endSeq == 0 && !c.hush && c.pe.writeErr == nil {
		wait := c.lastSent + iv - sim.Now()
		if wait > 0 {
			sim.Sleep(wait)
			continue
		}
		c.mu.Lock()
		if !c.hush && c.endSeq == 0 && c.lastSent+iv <= sim.Now() && c.pe.writeErr == nil {
			c.pe.sendBytes([]byte("\n"), "heart-beat")
			c.lastSent = sim.Now()
		}
		c.mu.Unlock()
	}
}

// slowFrame sends a frame in parts, each within the promised time.
func (c *cli) slowFrame(o *Op) {
	iv := c.promise()
	if iv == 0 {
		iv = dur(o.B)
	}
	m, f := c.w.newMsg(c, o.S, 5, c.w.p.Seed)
	c.receipt(f, o.C == 1)
	b := f.encode(false)
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.pe.ended || c.pe.writeErr != nil || c.endSeq > 0 || c.hush {
		return
	}
	rec := &outF{idx: len(c.out), seq: nextSeq(), f: f, m: m}
	if rec.receipt, rec.wants = f.lookup("receipt"); rec.wants {
		c.byRcpt[rec.receipt] = rec
	}
	c.out = append(c.out, rec)
	m.out = rec
	c.nOrd++
	m.ord, m.eff = c.nOrd, rec.seq
	n := int(o.A)
	for i := 0; i < n && !c.pe.ended; i++ {
		part := b[len(b)*i/n : len(b)*(i+1)/n]
		if c.pe.sendBytes(part, fmt.Sprintf("part %d of %v", i, f)) != nil {
			c.disturb()
			return
		}
		c.lastSent = sim.Now()
		if i < n-1 {
			sim.Sleep(iv)
		}
	}
	c.w.c.Done()
}

// goSilent makes the client stop sending for ever while it goes on reading.
func (c *cli) goSilent() {
	iv := c.promise()
	if iv == 0 || c.hush {
		return
	}
	c.mu.Lock()
	c.hush = true
	c.hushAt = sim.Now()
	c.mu.Unlock()
	c.disturb()
	c.w.c.Log("%s goes silent", c.name)
	sim.Count("client.silent")
	at := 4*iv + dur(sc) + c.w.slack()
	sim.After(at, func() {
		if !c.gone() && c.endSeq == 0 {
			c.w.fail("S11", "silent client kept", "%s, which has to send every %v, has been silent for %v and is still connected", c.name, iv, at)
		}
	})
}

// connectForms are connect frames and what is to become of them.
type connectForm struct {
	head []string
	ver  string // "": must be refused
}

var connectForms = []connectForm{
	{[]string{"accept-version", "1.2"}, "1.2"},
	{[]string{"accept-version", "1.1"}, "1.1"},
	{[]string{"accept-version", "1.0,1.1,1.2"}, "1.2"},
	{[]string{"accept-version", "1.2,1.1"}, "1.2"},
	{[]string{"accept-version", "1.1,1.0"}, "1.1"},
	{[]string{"accept-version", "1.1,2.0"}, "1.1"},
	{[]string{"accept-version", "1.2,9.9,1.1"}, "1.2"},
	{[]string{"accept-version", "2.0"}, ""},
	{[]string{"accept-version", "1.3"}, ""},
	{[]string{"accept-version", "1"}, ""},
	{[]string{"accept-version", "1.20"}, ""},
	{[]string{"accept-version", ""}, ""},
	{[]string{"accept-version", "1.2", "heart-beat", "0,0"}, "1.2"},
	{[]string{"accept-version", "1.2", "heart-beat", "0,200"}, "1.2"},
	{[]string{"accept-version", "1.2", "heart-beat", "x,0"}, ""},
	{[]string{"accept-version", "1.2", "heart-beat", "5"}, ""},
	{[]string{"accept-version", "1.2", "heart-beat", "-1,0"}, ""},
	{[]string{"accept-version", "1.2", "heart-beat", "1,2,3"}, ""},
	{[]string{"accept-version", "1.2", "receipt", "con"}, ""},
}

func init() {
	// lists of versions in any order
	names := []string{"1.2", "1.1", "1.0", "2.0", "0.9", "10.1", "1.20"}
	var list func(l []string)
	list = func(l []string) {
		ver := ""
		for _, v := range l {
			if v == "1.2" || v == "1.1" && ver == "" {
				ver = v
			}
		}
		if len(l) > 1 {
			connectForms = append(connectForms, connectForm{[]string{"accept-version", strings.Join(l, ",")}, ver})
		}
		for i, v := range names {
			if len(l) < 2 || len(l) == 2 && (i < 3 || i == 5) {
				list(append(l[:len(l):len(l)], v))
			}
		}
	}
	list(nil)
}

// login connects in the way the actor's numbers say.
func (c *cli) login() {
	w, k := c.w, c.a.k
	form := connectForms[int(k("form"))%len(connectForms)]
	cmd := "CONNECT"
	if k("stomp") == 1 {
		cmd = "STOMP"
	}
	f := mk(cmd, form.head...)
	f.with("host", "h")
	want := form.ver
	if hb, ok := f.lookup("heart-beat"); ok && hb == "0,200" {
		c.hbWant = true
	}
	if w.p.K["auth"] > 0 {
		var l, p string
		hl, hp := true, true
		u := users[int(k("user"))%len(users)]
		l, p = u[0], u[1]
		switch k("cred") {
		case 0, 1, 2, 3:
		case 4:
			p = users[(int(k("user"))+1)%len(users)][1]
		case 5:
			p += "x"
		case 6:
			p = strings.ToUpper(p)
		case 7:
			l, p = p, l
		case 8:
			p, hp = "", false
		case 9:
			l, hl = "", false
		case 10:
			l, p, hl, hp = "", "", false, false
		case 11:
			l = l + " "
		case 12:
			l = "nobody"
		case 13:
			l, p, hp = l+":"+p, "", false
		case 14:
			l, p, hl = "", l+":"+p, false
		}
		if hl {
			f.with("login", l)
		}
		if hp {
			f.with("passcode", p)
		}
		if !authOK(l, p) {
			want = ""
		}
	} else if k("cred") < 6 {
		f.with("login", "whoever").with("passcode", "whatever")
	}
	if k("pre") == 1 {
		c.pe.sendBytes([]byte("\n\n"), "heart-beats")
	}
	pre := k("pre") >= 2
	if want == "" || pre {
		c.rejected = true
	}
	c.wantVer = want
	mark := func(o *outF) {
		if c.badSent == nil && c.rejected {
			o.bad = true
			c.badSent, c.badAt = o, sim.Now()
		}
	}
	if pre {
		g := pick(sim.NewRand(uint64(k("pre"))), mk("SUBSCRIBE", "id", "s1", "destination", "/queue/q0"), mk("DISCONNECT", "receipt", "dd"), mk("BEGIN", "transaction", "t1"),
			mk("SEND", "destination", "/queue/q0"), mk("UNSUBSCRIBE", "id", "s1"), mk("ACK", "id", "1", "message-id", "1", "subscription", "s1"))
		if g.Cmd == "SEND" {
			_, g = w.newMsg(c, "/queue/q0", 4, w.p.Seed)
			w.msgs[len(w.msgs)-1].rej = true
		}
		c.send(g, mark)
		if k("gap") > 0 {
			sim.Sleep(dur(k("gap")))
		}
	}
	c.ver = pickVer(c.a)
	if strings.Contains(want, "1.") {
		c.ver = want
	}
	c.send(f, mark)
	if k("pipe") == 0 {
		c.pe.await(dur(30*sc), func() bool { return len(c.pe.frames("")) > 0 })
	}
	c.nackLeft = 3
	sim.Start(c.name+".ack", 0, c.acker)
}

// acceptWatch checks that the server goes on accepting after errors.
func (w *world) acceptWatch() {
	var last time.Duration
	pending := false
	check := func() {
		if !pending {
			return
		}
		if d := sim.Now() - last; d > dur(6*sc)+w.slack() {
			w.fail("S13", "accept delayed", "after a transient accept error at %v the server did not accept for %v", last, d)
		}
	}
	w.lst.OnAccept = func(failed bool) {
		check()
		pending = failed
		if failed {
			last = sim.Now()
		}
	}
	w.acceptCheck = check
}

// lateReceipts: sessions in place are served without delay.
func (w *world) lateReceipts() {
	for _, c := range w.cl {
		if !c.healthy() || c.a == nil {
			continue
		}
		for _, o := range c.out {
			if o.wants && o.rseq > 0 && o.rat-maxDur(o.at, c.connAt) > dur(2*sc)+w.slack() {
				w.fail("S13 S12", "existing session disturbed", "%s sent %v at %v and got the receipt only at %v", c.name, o.f, o.at, o.rat)
			}
		}
	}
}

func genSrvHb(p *Plan, r *sim.Rand) {
	p.K["serve"] = int64(pick(r, 0, 0, 1, 2))
	p.K["hb"] = int64(pick(r, 20, 50, 200, 1000, 3000))
	if r.Intn(12) == 0 {
		p.K["hb"] = pick(r, int64(30_000), 60_000, 600_000, 3_600_000, 100_000_000)
	}
	hb := p.K["hb"]
	nc := 2 + r.Intn(4)
	dests := []string{"/queue/q0", "/queue/q1", "/topic/t0"}
	stall := p.Prop == "S10" && r.Intn(4) == 0
	horizon := pick(r, int64(3), 10, 30) * hb * ms
	if horizon > 30*sc && hb < 10_000 {
		horizon = 30 * sc
	}
	p.K["settle"] = horizon + 15*hb*ms + 3*sc
	if stall {
		p.K["settle"] += 22 * sc
	}
	for ci := 0; ci < nc; ci++ {
		a := Actor{Kind: "client", K: map[string]int64{"policy": int64(r.Intn(4)), "nacks": int64(r.Intn(4)), "ver": int64(pick(r, 11, 12)), "stomp": int64(r.Intn(2))}}
		wish := func() int64 {
			switch r.Intn(6) {
			case 0, 1:
				return 0
			case 2:
				return 1 + r.Int63n(hb)
			case 3:
				return hb
			default:
				return 1 + r.Int63n(3*hb)
			}
		}
		a.K["cx"], a.K["cy"] = wish(), wish()
		if p.Prop == "S10" && a.K["cy"] == 0 && r.Intn(2) == 0 {
			a.K["cy"] = 1 + r.Int63n(2*hb)
		}
		if p.Prop == "S11" && a.K["cx"] == 0 && r.Intn(2) == 0 {
			a.K["cx"] = 1 + r.Int63n(2*hb)
		}
		if r.Intn(2) == 0 {
			a.K["start"] = r.Int63n(5*hb*ms + 1)
		}
		if r.Intn(4) == 0 {
			a.K["think"] = r.Int63n(hb*ms + 1)
		}
		n := 1 + r.Intn(10)
		nsub := int64(0)
		gap := func() int64 {
			switch r.Intn(5) {
			case 0:
				return 0
			case 1:
				return r.Int63n(horizon/int64(n)/4 + 1)
			case 2:
				return hb * ms / 2
			}
			return r.Int63n(hb*ms/2 + 1)
		}
		quiet := p.Prop == "S11" && r.Intn(3) == 0
		for k := 0; k < n; k++ {
			o := Op{D: gap(), C: int64(r.Intn(3) / 2)}
			switch x := r.Intn(10); {
			case x < 3 && nsub < 3:
				nsub++
				o.Op, o.S, o.A, o.B = "sub", dests[r.Intn(3)], nsub, int64(r.Intn(4))
			case x < 7:
				o.Op, o.S, o.A, o.E = "burst", dests[r.Intn(3)], int64(1+r.Intn(4)), int64(pick(r, 0, 20, 200))
			case x < 8 && a.K["cx"] > 0:
				o.Op, o.S, o.A = "slow", dests[r.Intn(3)], int64(2+r.Intn(5))
			case x < 9:
				o.Op, o.A = pick(r, "ack", "nack"), int64(r.Intn(3))
			default:
				o.Op, o.A = "sleep", gap()
			}
			a.Ops = append(a.Ops, o)
		}
		if quiet || r.Intn(4) == 0 {
			a.Ops = append(a.Ops, Op{Op: "hush", D: gap()})
			if r.Intn(2) == 0 && a.K["cx"] > 0 {
				// silent within a frame
				a.Ops[len(a.Ops)-1] = Op{Op: "raw", D: gap(), S: pick(r, "SEND\ndestination:/queue/q0\ncontent-length:10\n\nab", "S", "SUBSCRIBE\nid:1")}
				a.Ops = append(a.Ops, Op{Op: "hush"})
			}
		} else {
			a.Ops = append(a.Ops, Op{Op: "sleep", A: r.Int63n(horizon/2 + 1)})
			if r.Intn(3) == 0 {
				a.Ops = append(a.Ops, Op{Op: pick(r, "disconnect", "close", "drop")})
			}
		}
		l := simnet.LinkCfg{}
		if r.Intn(2) == 0 {
			// the server's clock for the client starts with CONNECT
			l.Latency = r.Int63n(hb * ms / 4)
			l.Jitter = r.Int63n(hb * ms / 4)
			if l.Latency > 50*ms {
				l.Latency = 50 * ms
			}
			if l.Jitter > 750*ms {
				l.Jitter = 750 * ms
			}
		}
		switch r.Intn(3) {
		case 0:
			l.Chunk = 1 + r.Intn(30)
		}
		if stall && ci == 0 {
			// stops reading while others flood it
			a.K["cx"], a.K["cy"], a.K["start"] = 0, 0, 0
			a.Ops = []Op{{Op: "sub", S: dests[r.Intn(3)], A: 1, B: int64(pick(r, 0, 3))}, {Op: "sub", S: dests[r.Intn(3)], A: 2, B: 0}, {Op: "sync", D: hb * ms}, {Op: "stall"}}
			l = simnet.LinkCfg{Window: 64}
		}
		p.Actors = append(p.Actors, a)
		p.Links = append(p.Links, l)
	}
	if stall {
		a := Actor{Kind: "client", K: map[string]int64{"ver": 12, "start": r.Int63n(4*hb*ms + 1)}}
		for k := 1 + r.Intn(3); k > 0; k-- {
			a.Ops = append(a.Ops, Op{Op: "burst", S: dests[r.Intn(3)], A: int64(pick(r, 20, 40, 80)), E: 30, D: r.Int63n(4*hb*ms + 1)})
		}
		p.Actors = append(p.Actors, a)
	}
	p.Links = append(p.Links, simnet.LinkCfg{})
	if r.Intn(5) == 0 {
		genFreeze(p, r, 1+r.Intn(4), pick(r, ms, 10*ms))
		if hb < 100 {
			p.Sched.FrzNum = 0
		}
	}
}

func genSrvLogin(p *Plan, r *sim.Rand) {
	p.K["serve"] = int64(pick(r, 0, 0, 1, 2, 3, 4))
	p.K["hb"] = int64(pick(r, 0, 1000))
	if p.Prop == "S12" && r.Intn(4) > 0 || r.Intn(3) == 0 {
		p.K["auth"] = 1
	}
	dests := []string{"/queue/q0", "/queue/q1", "/topic/t0"}
	span := pick(r, ms, 30*ms, 10*sc)
	delay := func() int64 {
		if r.Intn(2) == 0 {
			return 0
		}
		return r.Int63n(span)
	}
	work := func(a *Actor, n int) {
		nsub := int64(0)
		for k := 0; k < n; k++ {
			o := Op{D: delay(), C: int64(r.Intn(2))}
			switch x := r.Intn(10); {
			case x < 4 && nsub < 3:
				nsub++
				o.Op, o.S, o.A, o.B = "sub", dests[r.Intn(3)], nsub, int64(r.Intn(4))
			case x < 9:
				o.Op, o.S, o.A, o.E = "burst", dests[r.Intn(3)], int64(1+r.Intn(3)), int64(pick(r, 0, 20))
			default:
				o.Op, o.A, o.B, o.C = "ackbad", 1001, 0, 0
			}
			a.Ops = append(a.Ops, o)
		}
	}
	end := func(a *Actor) {
		switch r.Intn(5) {
		case 0:
			a.Ops = append(a.Ops, Op{Op: "disconnect", D: delay()})
		case 1:
			a.Ops = append(a.Ops, Op{Op: "drop", D: delay()})
		}
	}
	for n := 1 + r.Intn(3); n > 0; n-- {
		a := Actor{Kind: "client", K: map[string]int64{"policy": int64(r.Intn(3)), "ver": int64(pick(r, 11, 12)), "start": delay()}}
		work(&a, 2+r.Intn(6))
		if r.Intn(6) == 0 {
			a.Ops = append(a.Ops, Op{Op: "bad", B: int64(pick(r, 19, 20)), C: int64(r.Intn(2))})
		} else {
			end(&a)
		}
		p.Actors = append(p.Actors, a)
		p.Links = append(p.Links, smallLink(r))
	}
	nl := 1 + r.Intn(4)
	if p.Prop == "S13" {
		nl = r.Intn(6)
	}
	for ; nl > 0; nl-- {
		a := Actor{Kind: "login", K: map[string]int64{"policy": int64(r.Intn(3)), "start": delay(), "stomp": int64(r.Intn(2)), "pipe": int64(r.Intn(2)), "ver": 12}}
		a.K["form"] = int64(r.Intn(pick(r, 19, len(connectForms))))
		if r.Intn(2) == 0 {
			a.K["form"] = int64(r.Intn(7))
		}
		a.K["user"] = int64(r.Intn(len(users)))
		a.K["cred"] = int64(r.Intn(15))
		switch r.Intn(5) {
		case 0:
			a.K["pre"] = 1
		case 1:
			a.K["pre"] = int64(2 + r.Intn(30))
			a.K["gap"] = int64(pick(r, 0, 0, ms, 100*ms))
		}
		work(&a, r.Intn(5))
		end(&a)
		p.Actors = append(p.Actors, a)
		p.Links = append(p.Links, smallLink(r))
	}
	if p.Prop == "S13" || r.Intn(6) == 0 {
		a := Actor{Kind: "accepterr"}
		for k := 1 + r.Intn(2); k > 0; k-- {
			a.Ops = append(a.Ops, Op{Op: "err", D: delay(), A: int64(1 + r.Intn(pick(r, 3, 8))), B: int64(r.Intn(3))})
		}
		p.Actors = append(p.Actors, a)
	}
	p.Links = append(p.Links, simnet.LinkCfg{})
	if r.Intn(5) == 0 {
		genFreeze(p, r, 1+r.Intn(4), pick(r, ms, 30*ms))
	}
}

func maxDur(a, b time.Duration) time.Duration {
	if a > b {
		return a
	}
	return b
}

func smallLink(r *sim.Rand) simnet.LinkCfg {
	l := simnet.LinkCfg{}
	if r.Intn(2) == 0 {
		l.Latency = r.Int63n(30 * ms)
		l.Jitter = r.Int63n(10 * ms)
	}
	if r.Intn(2) == 0 {
		l.Chunk = 1 + r.Intn(40)
	}
	return l
}
