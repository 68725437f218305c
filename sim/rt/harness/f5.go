package main

import (
	"fmt"
	"sort"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/server"
	"github.com/go-stomp/stomp/v3/zzverif/sim"
	"github.com/go-stomp/stomp/v3/zzverif/simnet"
)

// The whole system: clients of the library talk to the server of the
// repository over a network that is slow, fragments, and fails.

func init() {
	scenarios["e2e"] = &scenario{gen: genE2EAny, run: runE2E}
	families["E01"] = &family{scenarios: []string{"e2e"}, quick: 12000, level: "exploration",
		real: append(append([]string{}, clientReal...), serverReal...),
		stub: []string{"network (simnet)", "user code of the clients", "goroutine scheduler, channels, locks, timers, clock (simulator)"},
		rule: "Two to five clients of the library dial the server of the repository; their tasks subscribe, send, acknowledge, reject, use transactions, unsubscribe and disconnect, while links are slow, fragment, stall and fail; then everything is drained through a fresh client."}
}

type eworld struct {
	c      *Ctx
	cls    []*ecli
	byBody map[string]*emsg
	msgs   []*emsg
	subs   []*esub
	txs    []*etx
	tok    int
	stage  int // 1 once everything has settled
	dirty  map[string]bool
	dialed map[string]*ecli
}

// ecli is a client of the library and its connection.
type ecli struct {
	w       *eworld
	i       int
	name    string
	a       *Actor
	conn    *stomp.Conn
	dialErr error
	ready   bool
	wl      sim.WaitList
	link    *simnet.Link
	faulted bool
	closing int // Disconnect or MustDisconnect was called
	discOK  bool
	gone    bool
	tasks   int
	wp      parser
	subs    map[string]*esub
	slots   map[int64]*esub
	held    []*erec
}

type emsg struct {
	id    int
	dest  string
	ctype string
	body  string
	hdr   [][2]string
	prod  string
	cl    *ecli
	rcpt  bool
	start int
	done  int // the call has returned
	err   error
	tx    *etx
	hands []*ehand
	recs  []*erec
}

// ehand is a message on its way from the server to a subscription.
type ehand struct {
	m   *emsg
	s   *esub
	seq int
}

type erec struct {
	m    *emsg
	s    *esub
	seq  int
	raw  *stomp.Message
	ack  int // the call was made
	ackE int // the call has returned
	nack bool
	tx   *etx
}

type esub struct {
	cl     *ecli
	id     string
	dest   string
	mode   stomp.AckMode
	pol    int64
	start  int
	ok     bool
	fenced int
	unsub  int
	unsubE int
	s      *stomp.Subscription
	recs   []*erec
	hands  []*ehand
	ended  bool
	nacks  int64
	think  int64
	drain  bool
}

type etx struct {
	cl     *ecli
	msgs   []*emsg
	recs   []*erec
	commit int
	abort  int
	done   int
	err    error
	rcpt   bool
}

func (w *eworld) fail(class, format string, a ...any) { w.c.Fail("E01", class, format, a...) }

func (m *emsg) String() string { return fmt.Sprintf("message %d (%s to %s)", m.id, m.prod, m.dest) }
func (s *esub) String() string {
	return fmt.Sprintf("subscription %s of %s on %s", s.id, s.cl.name, s.dest)
}

// good: the connection works and nobody has begun to end it.
func (cl *ecli) good() bool { return cl.conn != nil && !cl.faulted && cl.closing == 0 }

// call runs one operation of the client and checks that it succeeds if it has to.
func (cl *ecli) call(what string, f func() error) error {
	w := cl.w
	who := sim.CurName()
	start := sim.Now()
	if w.c.verbose {
		w.c.Log("%s: %s", who, what)
	}
	err := f()
	nextSeq()
	w.c.Done()
	if w.c.verbose {
		w.c.Log("%s: %s returns %v", who, what, err)
	}
	w.c.Note(who + what[:3] + fmt.Sprint(err == nil))
	if err != nil && cl.good() {
		w.fail("operation fails", "%s of %s, called at %v, returns %q at %v on a healthy connection", what, who, start, err.Error(), sim.Now())
	}
	return err
}

func (cl *ecli) dial() {
	w, k := cl.w, cl.a.k
	opts := logOpts(k("log"))
	switch k("ver") {
	case 11:
		opts = append(opts, stomp.ConnOpt.AcceptVersion(stomp.V11))
	case 12:
		opts = append(opts, stomp.ConnOpt.AcceptVersion(stomp.V12))
	case 13:
		opts = append(opts, stomp.ConnOpt.AcceptVersion(stomp.V10, stomp.V11))
	}
	if k("stomp") == 1 {
		opts = append(opts, stomp.ConnOpt.UseStomp)
	}
	if k("hb") == 1 {
		opts = append(opts, stomp.ConnOpt.HeartBeat(dur(k("hbs")), dur(k("hbr"))))
	}
	if k("noto") == 1 {
		opts = append(opts, stomp.ConnOpt.MsgSendTimeout(0), stomp.ConnOpt.RcvReceiptTimeout(0),
			stomp.ConnOpt.DisconnectReceiptTimeout(0), stomp.ConnOpt.UnsubscribeReceiptTimeout(0))
	}
	if k("chan") == 1 {
		opts = append(opts, stomp.ConnOpt.ReadChannelCapacity(1), stomp.ConnOpt.WriteChannelCapacity(1))
	}
	if k("auth") == 1 {
		opts = append(opts, stomp.ConnOpt.Login("user", "pass:word\\"))
	}
	addr := fmt.Sprintf("10.0.1.%d:61613", cl.i+1)
	w.dialed[addr] = cl
	if w.c.verbose {
		w.c.Log("%s dials", cl.name)
	}
	conn, err := stomp.Dial("tcp", addr, opts...)
	nextSeq()
	w.c.Done()
	w.c.Log("%s: dial returns %v", cl.name, err)
	if err != nil && !cl.faulted {
		w.fail("cannot connect", "%s: %v", cl.name, err)
	}
	if err == nil {
		want := stomp.V12
		if k("ver") == 11 || k("ver") == 13 {
			want = stomp.V11
		}
		if conn.Version() != want {
			w.fail("wrong version", "%s speaks %s, expected %s", cl.name, conn.Version(), want)
		}
		cl.conn = conn
	}
	cl.dialErr = err
	cl.ready = true
	cl.wl.WakeAll()
}

// watch sees what the server sends to the client.
func (cl *ecli) watch(l *simnet.Link) {
	cl.link = l
	l.B.OnSent(func(b []byte) {
		cl.wp.buf = append(cl.wp.buf, b...)
		for f := cl.wp.next(); f != nil; f = cl.wp.next() {
			if f.Cmd != "MESSAGE" {
				continue
			}
			m, s := cl.w.byBody[string(f.Body)], cl.subs[f.get("subscription")]
			if x := cl.w.byBody[f.get("uid")]; x != nil {
				m = x
			}
			if m == nil || m.body != string(f.Body) {
				cl.w.fail("message altered", "the server sends %v to %s, whose body nobody sent", f, cl.name)
				continue
			}
			if s == nil {
				// Subscribe has not returned yet
				for _, x := range cl.w.subs {
					if x.cl == cl && x.id == "" && x.dest == m.dest {
						s = x
						break
					}
				}
			}
			if s == nil {
				cl.w.fail("message for no subscription", "the server sends %v to %s", f, cl.name)
				continue
			}
			h := &ehand{m: m, s: s, seq: nextSeq()}
			cl.w.c.Note(fmt.Sprint("h", cl.i, m.id))
			if cl.w.c.verbose {
				cl.w.c.Log("server hands %v to %v", m, s)
			}
			m.handed(h)
		}
	})
}

// handed judges that the server gives the message to somebody (again).
func (m *emsg) handed(h *ehand) {
	w := m.cl.w
	if t := m.tx; t != nil {
		if t.abort > 0 {
			w.fail("aborted message delivered", "%v", m)
		} else if t.commit == 0 {
			w.fail("visible before commit", "%v", m)
		}
	}
	if h.s.dest != m.dest {
		w.fail("wrong destination", "%v is delivered to %v", m, h.s)
	}
	if isQueue(m.dest) {
		if n := len(m.hands); n > 0 {
			if ok, why := m.hands[n-1].releasable(); !ok {
				w.fail("delivered twice", "%v was delivered to %v and is delivered to %v, although %s", m, m.hands[n-1].s, h.s, why)
			}
		}
	} else {
		for _, x := range m.hands {
			if x.s == h.s {
				w.fail("delivered twice", "%v is delivered twice to %v", m, h.s)
			}
		}
		if m.confirmed() > 0 && m.confirmed() < h.s.start {
			w.fail("delivered to a later subscriber", "%v is delivered to %v, which did not exist when it was confirmed", m, h.s)
		}
	}
	m.hands = append(m.hands, h)
	h.s.hands = append(h.s.hands, h)
}

// rec is the latest reception that belongs to the hand.
func (h *ehand) rec() *erec {
	var r *erec
	for _, x := range h.m.recs {
		if x.s == h.s && x.seq > h.seq {
			r = x
		}
	}
	return r
}

// settled: 0 not at all, 1 by an acknowledgement that might get lost, 2 for sure.
func (h *ehand) settled() int {
	if h.s.mode == stomp.AckAuto {
		return 2
	}
	r := h.rec()
	if r == nil || r.ack == 0 || r.nack {
		return 0
	}
	cl := h.s.cl
	if cl.faulted {
		return 1
	}
	gone := h.s.unsub // a subscription that is gone holds nothing
	if r.tx != nil {
		if r.tx.commit == 0 || r.tx.abort > 0 {
			return 0
		}
		if gone > 0 && gone < r.tx.done || r.tx.done == 0 || r.tx.err != nil || cl.closing > 0 && (cl.closing < r.tx.done || !cl.discOK) {
			return 1
		}
		return 2
	}
	if gone > 0 && gone < r.ackE || r.ackE == 0 || cl.closing > 0 && (cl.closing < r.ackE || !cl.discOK) {
		return 1
	}
	return 2
}

func (h *ehand) releasable() (bool, string) {
	if h.s.cl.faulted {
		return true, ""
	}
	switch h.settled() {
	case 2:
		return false, "it was acknowledged"
	case 1:
		return true, ""
	}
	if r := h.rec(); r != nil && r.ack > 0 && r.nack && (r.tx == nil || r.tx.commit > 0) {
		return true, ""
	}
	if h.s.unsub > 0 || h.s.cl.closing > 0 {
		return true, ""
	}
	return false, "its consumer still holds it"
}

// confirmed tells since when the sender knows that the message is accepted, 0
// if it does not know.
func (m *emsg) confirmed() int {
	done, err, rcpt := m.done, m.err, m.rcpt
	if m.tx != nil {
		if m.tx.commit == 0 {
			return 0
		}
		done, err, rcpt = m.tx.done, m.tx.err, m.tx.rcpt
	}
	if done == 0 || err != nil || m.err != nil || !rcpt {
		return 0
	}
	return done
}

// accepted: the server must have the message, at the end.
func (m *emsg) accepted() bool {
	if m.confirmed() > 0 {
		return true
	}
	done, err := m.done, m.err
	if m.tx != nil {
		if m.tx.commit == 0 {
			return false
		}
		done, err = m.tx.done, m.tx.err
	}
	cl := m.cl
	return done > 0 && err == nil && m.err == nil && !cl.faulted && (cl.closing == 0 || cl.discOK && done < cl.closing)
}

func (cl *ecli) newMsg(prod, dest string, size int64, flags int64, tx *etx) (*emsg, []func(*frame.Frame) error) {
	w := cl.w
	m := &emsg{id: len(w.msgs) + 1, dest: dest, prod: prod, cl: cl, tx: tx}
	r := sim.NewRand(w.c.P.Seed ^ uint64(m.id)*7919)
	m.body = fmt.Sprintf("m%d:", m.id) + string(genBody(r, int(size), flags&2 == 0))
	if flags&4 != 0 {
		m.hdr = append(m.hdr, [2]string{"x-" + genText(r, 3, false), genText(r, 8, false)})
		if r.Intn(2) == 0 {
			m.hdr = append(m.hdr, userHeader(r))
		}
	}
	if n := int(w.c.P.K["hdrs"]); n > 0 && r.Intn(3) == 0 {
		for i := 0; i < n; i++ {
			m.hdr = append(m.hdr, [2]string{fmt.Sprint("h", i), longText(r, int(w.c.P.K["hdrlen"]))})
		}
	}
	if flags&8 != 0 {
		m.ctype = "text/" + genText(r, 4, false)
	}
	w.msgs = append(w.msgs, m)
	if r.Intn(6) == 0 {
		// known by a header, with a body like that of others
		uid := fmt.Sprintf("uid:%d", m.id)
		m.hdr = append(m.hdr, [2]string{"uid", uid})
		w.byBody[uid] = m
		m.body = pick(r, "", "", "\n", "x", "m1:")
	} else {
		w.byBody[m.body] = m
	}
	if tx != nil {
		tx.msgs = append(tx.msgs, m)
	}
	// from here on, code of the repository runs and others may run too
	var opts []func(*frame.Frame) error
	if flags&1 != 0 && tx == nil {
		m.rcpt = true
		opts = append(opts, stomp.SendOpt.Receipt)
	}
	if flags&2 != 0 {
		opts = append(opts, stomp.SendOpt.NoContentLength)
	}
	for _, e := range m.hdr {
		opts = append(opts, stomp.SendOpt.Header(e[0], e[1]))
	}
	if r.Intn(6) == 0 {
		// a message relayed from elsewhere, with headers that are the server's
		for _, h := range [][2]string{{"message-id", "7"}, {"subscription", "1"}, {"id", "1"}, {"ack", "2"}} {
			if r.Intn(2) == 0 {
				opts = append(opts, stomp.SendOpt.Header(h[0], h[1]))
			}
		}
	}
	return m, opts
}

func (cl *ecli) send(dest string, size, flags int64) error {
	m, opts := cl.newMsg(sim.CurName(), dest, size, flags, nil)
	b := []byte(m.body)
	m.start = nextSeq()
	err := cl.call(fmt.Sprintf("send of %v, receipt %v", m, m.rcpt), func() error { return cl.conn.Send(dest, m.ctype, b, opts...) })
	m.done, m.err = nextSeq(), err
	// the buffer is the caller's again
	for i := range b {
		b[i] = '!'
	}
	return err
}

func (cl *ecli) subscribe(slot int64, dest string, mode stomp.AckMode, o *Op) *esub {
	w := cl.w
	if s := cl.slots[slot]; s != nil {
		return nil
	}
	s := &esub{cl: cl, dest: dest, mode: mode, pol: o.C, think: o.E, nacks: 5, start: nextSeq()}
	own := o.B >= 8
	for _, x := range w.subs {
		// two unknown identifiers could not be told apart
		own = own || x.cl == cl && x.dest == dest && x.id == ""
	}
	w.subs = append(w.subs, s)
	cl.slots[slot] = s
	var opts []func(*frame.Frame) error
	if own {
		s.id = fmt.Sprintf("own:%d", slot)
		cl.subs[s.id] = s
		opts = append(opts, stomp.SubscribeOpt.Id(s.id))
	}
	err := cl.call("subscribe "+dest+" "+mode.String(), func() error {
		sub, err := cl.conn.Subscribe(dest, mode, opts...)
		s.s = sub
		return err
	})
	if err != nil {
		return s
	}
	s.id = s.s.Id()
	cl.subs[s.id] = s
	s.ok = true
	sim.Start(fmt.Sprintf("%s.cons%d", cl.name, len(w.subs)), 0, s.consume)
	return s
}

func (s *esub) consume() {
	cl, w := s.cl, s.cl.w
	n := 0
	for {
		var m *stomp.Message
		ok := true
		if hash64(s.dest)%3 == 0 {
			var err error
			m, err = s.s.Read()
			if isErr(err, stomp.ErrCompletedSubscription) {
				ok = false
			} else if err != nil {
				m = &stomp.Message{Err: err}
			}
		} else {
			m, ok = s.s.C.Recv2()
		}
		seq := nextSeq()
		if !ok {
			s.ended = true
			if cl.good() && s.unsub == 0 {
				w.fail("subscription ended", "%v ended on a healthy connection", s)
			}
			return
		}
		if m == nil {
			w.fail("nil message", "%v", s)
			return
		}
		if m.Err != nil {
			if cl.good() {
				w.fail("subscription ended", "%v got error %q on a healthy connection", s, m.Err.Error())
			}
			continue
		}
		x := w.byBody[string(m.Body)]
		if y := w.byBody[m.Header.Get("uid")]; y != nil {
			x = y
		}
		if w.c.verbose {
			w.c.Log("%v gets %q", s, m.Body)
		}
		if x == nil || x.body != string(m.Body) {
			w.fail("message altered", "%v got a body that nobody sent: %q", s, m.Body)
			continue
		}
		ct := x.ctype
		bad := ""
		switch {
		case m.Destination != x.dest:
			bad = fmt.Sprintf("destination %q", m.Destination)
		case m.ContentType != ct:
			bad = fmt.Sprintf("content type %q instead of %q", m.ContentType, ct)
		case m.Conn != cl.conn || m.Subscription != s.s:
			bad = "links to another connection or subscription"
		case m.ShouldAck() != (s.mode != stomp.AckAuto):
			bad = "wrong ShouldAck"
		}
		for _, e := range x.hdr {
			if v, ok := m.Header.Contains(e[0]); !ok || v != e[1] {
				bad = fmt.Sprintf("header %q is %q instead of %q", e[0], v, e[1])
			}
		}
		if bad != "" {
			w.fail("message altered", "%v arrives at %v with %s", x, s, bad)
		}
		hn, rn := 0, 1
		for _, h := range s.hands {
			if h.m == x {
				hn++
			}
		}
		for _, r := range s.recs {
			if r.m == x {
				rn++
			}
		}
		if rn > hn {
			w.fail("received twice", "%v got %v %d times, the server sent it %d times", s, x, rn, hn)
		}
		r := &erec{m: x, s: s, seq: seq, raw: m}
		x.recs = append(x.recs, r)
		s.recs = append(s.recs, r)
		w.c.Note(fmt.Sprint("r", cl.i, x.id))
		n++
		if s.mode == stomp.AckAuto {
			continue
		}
		if !isQueue(s.dest) && s.pol != 3 {
			// an acknowledgement for a topic has no effect, but is allowed
			cl.ackNow(r, false)
			continue
		}
		if s.think > 0 {
			sim.Sleep(dur(s.think))
		}
		switch {
		case s.pol == 1 && n%3 == 0 && s.nacks > 0:
			s.nacks--
			cl.ackNow(r, true)
		case s.pol == 2 && n%2 == 0 || s.pol == 3:
			cl.held = append(cl.held, r)
		default:
			cl.ackNow(r, false)
		}
	}
}

func (cl *ecli) ackNow(r *erec, nack bool) {
	if r.s.unsub > 0 || cl.closing > 0 {
		return
	}
	r.nack = nack
	r.ack = nextSeq()
	if nack {
		cl.call("nack of "+r.m.String(), func() error { return cl.conn.Nack(r.raw) })
	} else {
		cl.call("ack of "+r.m.String(), func() error { return cl.conn.Ack(r.raw) })
	}
	r.ackE = nextSeq()
}

// takeHeld picks a message that was set aside.
func (cl *ecli) takeHeld() *erec {
	for len(cl.held) > 0 {
		r := cl.held[0]
		cl.held = cl.held[1:]
		if r.s.unsub == 0 {
			return r
		}
	}
	return nil
}

func (cl *ecli) transaction(o *Op) {
	t := &etx{cl: cl}
	w := cl.w
	w.txs = append(w.txs, t)
	var tx *stomp.Transaction
	if cl.call("begin", func() error {
		var err error
		tx, err = cl.conn.BeginWithError()
		return err
	}) != nil {
		return
	}
	for i := int64(0); i < o.A; i++ {
		m, opts := cl.newMsg(sim.CurName(), o.S, 3, o.C, t)
		m.start = nextSeq()
		m.err = cl.call(fmt.Sprintf("tx send of %v", m), func() error { return tx.Send(m.dest, m.ctype, []byte(m.body), opts...) })
		m.done = nextSeq()
		if i == 0 {
			if r := cl.takeHeld(); r != nil {
				r.tx, r.nack = t, o.C&16 != 0
				r.ack = nextSeq()
				t.recs = append(t.recs, r)
				cl.call(fmt.Sprintf("tx settle of %v, nack %v", r.m, r.nack), func() error {
					if r.nack {
						return tx.Nack(r.raw)
					}
					return tx.Ack(r.raw)
				})
				r.ackE = nextSeq()
			}
		}
	}
	sim.Sleep(dur(o.E))
	switch o.B {
	case 0, 1, 2, 3:
		t.commit = nextSeq()
		t.rcpt = o.B&1 == 1
		t.err = cl.call("commit", func() error {
			if t.rcpt {
				return tx.CommitWithReceipt()
			}
			return tx.Commit()
		})
		t.done = nextSeq()
	case 4, 5:
		t.abort = nextSeq()
		t.err = cl.call("abort", func() error {
			if o.B == 5 {
				return tx.AbortWithReceipt()
			}
			return tx.Abort()
		})
		t.done = nextSeq()
	}
}

func (cl *ecli) disconnect(must bool) {
	if cl.closing > 0 || cl.conn == nil {
		return
	}
	// what holds on a healthy connection must hold for its end as well
	healthy := !cl.faulted
	cl.closing = nextSeq()
	w := cl.w
	w.c.Log("%s disconnects, must %v", cl.name, must)
	var err error
	if must {
		err = cl.conn.MustDisconnect()
	} else {
		err = cl.conn.Disconnect()
	}
	w.c.Log("%s: disconnect returns %v", cl.name, err)
	w.c.Done()
	cl.gone = true
	cl.discOK = !must && err == nil && !cl.faulted
	if err != nil && healthy && !cl.faulted {
		w.fail("operation fails", "disconnect of %s returns %q on a healthy connection", cl.name, err.Error())
	}
	nextSeq()
}

func (cl *ecli) script(ops []Op, main bool) {
	if !main {
		for !cl.ready {
			cl.wl.Wait("connection")
		}
	}
	if cl.conn == nil {
		return
	}
	for i := range ops {
		o := &ops[i]
		sim.Sleep(dur(o.D))
		if cl.closing > 0 {
			return
		}
		switch o.Op {
		case "sub":
			cl.subscribe(o.A, o.S, stomp.AckMode(o.B%3), o)
		case "send":
			for k := int64(0); k < o.A; k++ {
				if cl.send(o.S, o.E, o.C) != nil {
					break
				}
			}
		case "fence":
			// what was asked for before has been processed afterwards
			var l []*esub
			for _, s := range cl.w.subs {
				if s.cl == cl && s.ok && s.fenced == 0 {
					l = append(l, s)
				}
			}
			if cl.send("/topic/nobody", 0, 1) == nil {
				for _, s := range l {
					s.fenced = nextSeq()
				}
			}
		case "tx":
			cl.transaction(o)
		case "settle":
			if r := cl.takeHeld(); r != nil {
				cl.ackNow(r, o.B == 1)
			}
		case "unsub":
			s := cl.slots[o.A]
			if s == nil || !s.ok || s.unsub > 0 {
				continue
			}
			s.unsub = nextSeq()
			cl.w.dirty[s.dest] = true
			err := cl.call("unsubscribe "+s.id, func() error { return s.s.Unsubscribe() })
			s.unsubE = nextSeq()
			if err == nil && s.s.Active() {
				cl.w.fail("operation without effect", "%v is active after Unsubscribe", s)
			}
		case "sleep":
			sim.Sleep(dur(o.A))
		case "disc":
			for _, s := range cl.w.subs {
				if s.cl == cl {
					cl.w.dirty[s.dest] = true
				}
			}
			cl.disconnect(o.B == 1)
		}
	}
}

type eAuth struct{}

func (eAuth) Authenticate(l, p string) bool { return l == "user" && p == "pass:word\\" }

func runE2E(c *Ctx) {
	obsSeq = 0
	p := c.P
	w := &eworld{c: c, byBody: map[string]*emsg{}, dirty: map[string]bool{}, dialed: map[string]*ecli{}}
	srv := &server.Server{HeartBeat: dur(p.K["hb"])}
	if p.K["log"] == 0 {
		srv.Log = nullLog{}
	}
	if p.K["auth"] == 1 {
		srv.Authenticator = eAuth{}
	}
	ln, err := c.net.Listen(srvAddr)
	if err != nil {
		panic(err)
	}
	users := map[int64][]*Actor{}
	for i := range p.Actors {
		a := &p.Actors[i]
		if a.Kind == "client" {
			cl := &ecli{w: w, i: len(w.cls), name: fmt.Sprintf("c%d", len(w.cls)), a: a, subs: map[string]*esub{}, slots: map[int64]*esub{}}
			w.cls = append(w.cls, cl)
		} else {
			users[a.k("of")] = append(users[a.k("of")], a)
		}
	}
	n := len(w.cls)
	drain := &ecli{w: w, i: 99, name: "drain", a: &Actor{K: map[string]int64{"noto": 1, "hb": 1, "auth": p.K["auth"]}}, subs: map[string]*esub{}, slots: map[int64]*esub{}}
	for _, cl := range append(append([]*ecli{}, w.cls...), drain) {
		addr := fmt.Sprintf("10.0.1.%d:61613", cl.i+1)
		c.net.Alias(addr, ln, cl.i)
	}
	c.net.OnDial = func(address string, l *simnet.Link) { w.dialed[address].watch(l) }
	c.net.OnFault = func(link int, f simnet.Fault) {
		if f.Kind != "stall" && link < n {
			w.cls[link].faulted = true
			for _, s := range w.subs {
				if s.cl == w.cls[link] {
					w.dirty[s.dest] = true
				}
			}
		}
	}
	sim.Start("server", 100, func() { srv.Serve(ln) })
	sim.Quiesce(0)
	var tasks []*sim.Task
	start := func(name string, f func()) { tasks = append(tasks, sim.Start(name, 0, f)) }
	for _, cl := range w.cls {
		start(cl.name, func() {
			sim.Sleep(dur(cl.a.k("at")))
			cl.dial()
			cl.script(cl.a.Ops, true)
		})
		for j, a := range users[int64(cl.i)] {
			start(fmt.Sprintf("%s.%d", cl.name, j+1), func() { cl.script(a.Ops, false) })
		}
	}
	w.settle()
	for _, t := range tasks {
		if !t.Ended() {
			w.fail("operation never ends", "%s, %s", t.Name, blockedIn(t))
		}
	}
	w.midCheck()
	// everybody goes, and what they hold goes back
	w.stage = 1
	for _, s := range w.subs {
		if s.mode != stomp.AckAuto {
			w.dirty[s.dest] = true
		}
	}
	for _, cl := range w.cls {
		if cl.conn != nil && !cl.gone {
			sim.Start(cl.name+".end", 0, func() { cl.disconnect(cl.faulted) })
		}
	}
	w.settle()
	for _, cl := range w.cls {
		if cl.conn != nil && !cl.gone {
			w.fail("operation never ends", "disconnect of %s", cl.name)
		}
		for _, s := range w.subs {
			if s.cl == cl && s.ok && !s.ended {
				w.fail("subscription never ends", "%v, although its connection is closed", s)
			}
		}
	}
	// what is left
	dests := map[string]bool{}
	for _, m := range w.msgs {
		if isQueue(m.dest) {
			dests[m.dest] = true
		}
	}
	var dl []string
	for d := range dests {
		dl = append(dl, d)
	}
	sort.Strings(dl)
	sim.Start("drain", 0, func() {
		drain.dial()
		if drain.conn == nil {
			return
		}
		for i, d := range dl {
			if s := drain.subscribe(int64(i), d, stomp.AckAuto, &Op{}); s != nil {
				s.drain = true
			}
		}
	})
	w.settle()
	w.finalCheck()
	sim.Start("drain.end", 0, func() { drain.disconnect(false) })
	w.settle()
	sim.Stop()
}

// settle waits until nothing happens any more.
func (w *eworld) settle() {
	quiet := 0
	step := dur(w.c.P.K["step"])
	for i := 0; i < 400 && quiet < 2; i++ {
		n := obsSeq
		sim.Quiesce(step)
		if obsSeq == n {
			quiet++
		} else {
			quiet = 0
		}
	}
}

// midCheck: nothing is left to do for the server.
func (w *eworld) midCheck() {
	for _, m := range w.msgs {
		if isQueue(m.dest) {
			free := len(m.hands) == 0
			if !free || !m.accepted() {
				continue
			}
			for _, s := range w.subs {
				if s.dest == m.dest && s.ok && s.unsub == 0 && s.cl.good() && s.idle() {
					w.fail("ready subscription starves", "%v was accepted, but %v does not get it", m, s)
				}
			}
			continue
		}
		for _, s := range w.subs {
			if s.dest != m.dest || !s.ok || s.unsub > 0 || !s.cl.good() {
				continue
			}
			got := 0
			for _, r := range m.recs {
				if r.s == s {
					got++
				}
			}
			if got == 0 && s.fenced > 0 && m.start > s.fenced && m.accepted() {
				w.fail("topic message not delivered", "%v was accepted, but %v, which was there before, does not get it", m, s)
			}
		}
	}
	for _, s := range w.subs {
		if s.ok && s.cl.good() && s.unsub == 0 {
			s.all()
		}
	}
	w.order()
}

// all: everything the server sent to the subscription has arrived.
func (s *esub) all() {
	if len(s.recs) != len(s.hands) {
		for _, h := range s.hands {
			if h.rec() == nil {
				s.cl.w.fail("message lost by the client", "the server sent %v to %v, whose user does not get it", h.m, s)
				return
			}
		}
	}
	for i, h := range s.hands {
		if i < len(s.recs) && s.recs[i].m != h.m {
			s.cl.w.fail("order changed by the client", "%v got %v where the server sent %v", s, s.recs[i].m, h.m)
			return
		}
	}
}

// idle: the subscription holds no message.
func (s *esub) idle() bool {
	if s.mode == stomp.AckAuto || len(s.recs) == 0 {
		return len(s.hands) == len(s.recs)
	}
	r := s.recs[len(s.recs)-1]
	return len(s.hands) == len(s.recs) && r.ack > 0 && r.ackE > 0 && (r.tx == nil || r.tx.commit > 0 && r.tx.done > 0 && r.tx.err == nil)
}

// order: messages of one task to one destination arrive in order, unless
// something was returned to the queue.
func (w *eworld) order() {
	for _, s := range w.subs {
		if isQueue(s.dest) && (w.dirty[s.dest] || s.mode != stomp.AckAuto && s.pol == 1) {
			continue
		}
		nack := false
		for _, r := range s.recs {
			nack = nack || r.nack
		}
		for _, o := range w.subs {
			if o.dest == s.dest {
				for _, r := range o.recs {
					nack = nack || r.nack
				}
			}
		}
		if isQueue(s.dest) && nack {
			continue
		}
		last := map[string]*emsg{}
		for _, h := range s.hands {
			if h.m.tx != nil {
				continue
			}
			if l := last[h.m.prod]; l != nil && l.id > h.m.id {
				w.fail("out of order", "%v got %v after %v", s, h.m, l)
			}
			last[h.m.prod] = h.m
		}
	}
}

func (w *eworld) finalCheck() {
	for _, m := range w.msgs {
		if !isQueue(m.dest) {
			continue
		}
		k := len(m.hands)
		if k == 0 {
			if m.accepted() {
				w.fail("accepted message lost", "%v was accepted and never delivered", m)
			}
			continue
		}
		if h := m.hands[k-1]; h.settled() == 0 {
			w.fail("returned message lost", "%v, delivered to %v and not acknowledged, is not delivered again", m, h.s)
		}
	}
	for _, s := range w.subs {
		if s.drain || s.unsubE > 0 && !s.cl.faulted && (s.cl.closing == 0 || s.cl.closing > s.unsubE) {
			s.all()
		}
	}
	for _, t := range w.txs {
		if t.commit == 0 {
			continue
		}
		some := false
		var miss *emsg
		for _, m := range t.msgs {
			if !isQueue(m.dest) || m.err != nil {
				continue
			}
			if len(m.hands) > 0 {
				some = true
			} else {
				miss = m
			}
		}
		if some && miss != nil {
			w.fail("transaction torn", "of a transaction of %s, some messages were delivered, but not %v", t.cl.name, miss)
		}
	}
	w.order()
}

func genE2EAny(p *Plan, r *sim.Rand) {
	genE2E(p, r)
	if r.Intn(25) == 0 {
		p.enlargeE2E(r)
	}
}

// enlargeE2E makes something unusually large.
func (p *Plan) enlargeE2E(r *sim.Rand) {
	var cs []int
	var dests []string
	for i, a := range p.Actors {
		if a.Kind == "client" {
			cs = append(cs, i)
		}
		for _, o := range a.Ops {
			if o.S != "" {
				dests = append(dests, o.S)
			}
		}
	}
	if len(dests) == 0 {
		return
	}
	some := func() string { return dests[r.Intn(len(dests))] }
	insert := func(ops ...Op) {
		a := &p.Actors[cs[r.Intn(len(cs))]]
		pos := r.Intn(len(a.Ops) + 1)
		a.Ops = append(a.Ops[:pos:pos], append(ops, a.Ops[pos:]...)...)
	}
	kind := r.Intn(7)
	p.K["large"] = int64(kind) + 1
	if kind != 4 && kind != 6 {
		for i := range p.Links {
			p.Links[i] = simnet.LinkCfg{Latency: min(p.Links[i].Latency, 50*ms)}
		}
	}
	switch kind {
	case 0: // bodies
		for n := 1 + r.Intn(3); n > 0; n-- {
			insert(Op{Op: "send", S: some(), A: 1 + r.Int63n(3), C: int64(r.Intn(16)), E: pick(r, int64(32768), 65536, 70000, 140000, 1<<20+7)})
		}
	case 1: // messages
		for n := 1 + r.Intn(4); n > 0; n-- {
			insert(Op{Op: "send", S: some(), A: 1 + r.Int63n(300), C: int64(r.Intn(16)), E: 3})
		}
	case 2: // transactions
		for n := 1 + r.Intn(3); n > 0; n-- {
			insert(Op{Op: "tx", S: some(), A: 1 + r.Int63n(200), B: int64(r.Intn(6)), C: int64(r.Intn(32))})
		}
	case 3: // subscriptions
		var ops []Op
		for n := int64(5 + r.Intn(40)); n > 0; n-- {
			ops = append(ops, Op{Op: "sub", S: pick(r, some(), fmt.Sprint("/topic/l", n)), A: 50 + n, B: int64(r.Intn(3)), C: int64(r.Intn(4))})
		}
		ops = append(ops, Op{Op: "fence"})
		for n := int64(r.Intn(40)); n > 0; n-- {
			ops = append(ops, Op{Op: "send", S: fmt.Sprint("/topic/l", n), A: 1})
		}
		insert(ops...)
	case 4: // connections
		links := append([]simnet.LinkCfg(nil), p.Links[:len(cs)]...)
		var cls []Actor
		for n := 6 + r.Intn(30); n > 0; n-- {
			a := Actor{Kind: "client", K: map[string]int64{"ver": int64(pick(r, 0, 11, 12)), "stomp": int64(r.Intn(2)), "auth": p.K["auth"], "at": r.Int63n(40 * ms)}}
			if r.Intn(2) == 0 {
				a.Ops = append(a.Ops, Op{Op: "sub", S: some(), A: 1, B: int64(r.Intn(3))})
			}
			if r.Intn(2) == 0 {
				a.Ops = append(a.Ops, Op{Op: "send", S: some(), A: 1 + r.Int63n(2), C: int64(r.Intn(2))})
			}
			if r.Intn(2) == 0 {
				a.Ops = append(a.Ops, Op{Op: "disc", B: int64(r.Intn(2)), D: r.Int63n(10 * ms)})
			}
			cls = append(cls, a)
			links = append(links, simnet.LinkCfg{})
		}
		p.Links = append(links, p.Links[len(cs):]...)
		p.Actors = append(append(append([]Actor(nil), p.Actors[:len(cs)]...), cls...), p.Actors[len(cs):]...)
	case 5: // headers
		p.K["hdrs"] = pick(r, int64(10), 25, 60, 150)
		p.K["hdrlen"] = pick(r, int64(0), 0, 4096, 9000, 70000)
		if p.K["hdrlen"] > 0 {
			p.K["hdrs"] = int64(1 + r.Intn(2))
		}
	case 6: // time
		t := pick(r, int64(11*60), 3700, 86500) * sc
		for n := 1 + r.Intn(3); n > 0; n-- {
			insert(Op{Op: "sleep", A: t})
		}
		p.K["step"] = 4*t + 100*sc
	}
}

func genE2E(p *Plan, r *sim.Rand) {
	nc := 2 + r.Intn(4)
	nq, nt := 1+r.Intn(2), r.Intn(3)
	var dests []string
	for i := 0; i < nq; i++ {
		dests = append(dests, pick(r, "/queue/q", "/queue/q", "/queue:q\\")+fmt.Sprint(i))
	}
	for i := 0; i < nt; i++ {
		dests = append(dests, pick(r, "/topic/t", "t", "/topic:\n")+fmt.Sprint(i))
	}
	dest := func() string { return dests[r.Intn(len(dests))] }
	slow := r.Intn(5) == 0
	p.K["step"] = 40 * sc
	p.K["hb"] = pick(r, 0, 0, 10*sc, 30*sc)
	p.K["auth"] = int64(r.Intn(4) / 3)
	p.K["log"] = int64(r.Intn(4) / 3)
	delay := func() int64 {
		switch r.Intn(6) {
		case 0:
			return r.Int63n(20 * ms)
		case 1:
			return r.Int63n(300 * us)
		case 2:
			if slow {
				return r.Int63n(10 * sc)
			}
		}
		return 0
	}
	if r.Intn(5) == 0 {
		genFreeze(p, r, 1+r.Intn(4), pick(r, ms, 10*ms, 100*ms))
	}
	faulty := r.Intn(2) == 0
	var extra []Actor
	for ci := 0; ci < nc; ci++ {
		a := Actor{Kind: "client", K: map[string]int64{"ver": int64(pick(r, 0, 0, 11, 12, 13)), "stomp": int64(r.Intn(2)), "auth": p.K["auth"], "chan": int64(r.Intn(4) / 3)}}
		if r.Intn(3) == 0 {
			a.K["log"] = int64(r.Intn(4))
		}
		if r.Intn(2) == 0 {
			a.K["at"] = r.Int63n(30 * ms)
		}
		switch r.Intn(4) {
		case 0:
			a.K["hb"] = 1 // none
		case 1:
			a.K["hb"], a.K["hbs"], a.K["hbr"] = 1, pick(r, 0, 10*sc, 20*sc), pick(r, 0, 10*sc, 20*sc)
		}
		if slow || r.Intn(3) == 0 {
			a.K["noto"] = 1
		}
		nu := r.Intn(3)
		nsub := int64(0)
		gen := func(n int, first bool) (ops []Op) {
			for k := 0; k < n; k++ {
				o := Op{D: delay()}
				x := r.Intn(100)
				if first && k == 0 && r.Intn(3) > 0 {
					x = 0
				}
				switch {
				case x < 18:
					nsub++
					o.Op, o.S, o.A, o.B, o.C = "sub", dest(), nsub, int64(r.Intn(3)), int64(r.Intn(4))
					if r.Intn(4) == 0 {
						o.B += 9
					}
					if r.Intn(3) == 0 {
						o.E = r.Int63n(20 * ms)
					}
					ops = append(ops, o)
					if r.Intn(2) == 0 {
						ops = append(ops, Op{Op: "fence"})
					}
					continue
				case x < 55:
					o.Op, o.S, o.A, o.C = "send", dest(), int64(1+r.Intn(6)), int64(r.Intn(16))
					if r.Intn(10) == 0 {
						o.A = int64(10 + r.Intn(50))
					}
					o.E = int64(pick(r, 0, 3, 30, 100))
					if r.Intn(20) == 0 {
						o.E, o.A = 9000, 1+o.A%3
					}
				case x < 68:
					o.Op, o.S, o.A, o.B, o.C = "tx", dest(), int64(1+r.Intn(4)), int64(r.Intn(8)), int64(r.Intn(32))
					if r.Intn(2) == 0 {
						o.E = r.Int63n(10 * ms)
					}
				case x < 76:
					o.Op, o.B = "settle", int64(r.Intn(3)/2)
				case x < 84 && nsub > 0:
					o.Op, o.A = "unsub", 1+r.Int63n(nsub)
				case x < 90:
					o.Op = "fence"
				default:
					o.Op, o.A = "sleep", r.Int63n(60*ms)
				}
				ops = append(ops, o)
			}
			return ops
		}
		a.Ops = gen(2+r.Intn(9), true)
		for u := 0; u < nu; u++ {
			extra = append(extra, Actor{Kind: "user", K: map[string]int64{"of": int64(ci)}, Ops: gen(1+r.Intn(7), false)})
		}
		switch r.Intn(5) {
		case 0, 1:
			a.Ops = append(a.Ops, Op{Op: "disc", D: delay()})
		case 2:
			a.Ops = append(a.Ops, Op{Op: "disc", B: 1, D: delay()})
		}
		p.Actors = append(p.Actors, a)
		l := genLink(r)
		if slow {
			l.Latency, l.Jitter = r.Int63n(4*sc), r.Int63n(2*sc)
			l.Window = 0
		}
		// with little room in the network, client and server can both wait
		// for the other to take what they send, until the server gives up
		l.Window = 0
		p.Links = append(p.Links, l)
		if faulty && r.Intn(2) == 0 {
			f := simnet.Fault{Link: ci, Dir: r.Intn(2), Kind: pick(r, "rst", "rst", "lost", "fin", "werr", "stall")}
			if r.Intn(2) == 0 {
				f.Off = 30 + r.Int63n(3000)
			} else {
				f.At = 1 + r.Int63n(80*ms)
				if slow {
					f.At = 1 + r.Int63n(60*sc)
				}
			}
			if f.Kind == "stall" {
				f.Dur = r.Int63n(3 * sc)
			}
			p.Faults = append(p.Faults, f)
		}
	}
	p.Actors = append(p.Actors, extra...)
	p.Links = append(p.Links, simnet.LinkCfg{})
}
