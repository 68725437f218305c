package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/server"
	"github.com/go-stomp/stomp/v3/zzverif/sim"
	"github.com/go-stomp/stomp/v3/zzverif/simnet"
)

// Scenario server: the bundled server, unmodified but for the rewrite, against
// raw clients whose scripts come from the plan. Every byte the server hands to
// a transport is observed ("the wire") and a model of what each message,
// subscription and transaction may do is kept alongside.

// msg is a message some client sent.
type msg struct {
	id    int
	dest  string
	prod  *cli
	ord   int // order among the messages of its producer, once effective
	tx    *txn
	hdr   [][2]string // destination, content headers and user headers as sent
	body  string
	eff   int // when the SEND or COMMIT that makes it effective was sent, 0: not yet
	out   *outF
	recs  []*deliv
	stErr bool // a storage operation on it failed
	rej   bool // sent on a connection that must not be accepted
}

// confirmed tells when the server was first seen to have processed the frame
// that makes the message effective (0: never).
func (m *msg) confirmed() int {
	if m.tx != nil {
		if m.tx.commit == nil {
			return 0
		}
		return m.tx.commit.conf
	}
	if m.out == nil {
		return 0
	}
	return m.out.conf
}

// deliv is one delivery of a message on the wire.
type deliv struct {
	m       *msg
	c       *cli
	s       *ssub
	mid     string
	ack     string
	seq     int
	at      time.Duration
	settle  *outF // the ACK or NACK frame
	nack    bool
	settled int // when the settlement became effective (sent, or its COMMIT sent), 0: not
	got     bool
}

// done tells when the server was seen to have processed the settlement.
func (d *deliv) confirmed() bool {
	if d.settled == 0 {
		return false
	}
	if d.settle.tx != nil {
		return d.settle.tx.commit != nil && d.settle.tx.commit.conf > 0
	}
	return d.settle.conf > 0
}

// ssub is one subscription from SUBSCRIBE to UNSUBSCRIBE.
type ssub struct {
	c      *cli
	id     string
	dest   string
	ack    string
	sub    *outF
	unsub  *outF
	closed bool // the RECEIPT of the UNSUBSCRIBE is on the wire
	recs   []*deliv
	hasSet bool
}

func (s *ssub) auto() bool { return s.ack == "" || s.ack == "auto" }

type txn struct {
	name   string
	c      *cli
	begin  *outF
	commit *outF
	abort  *outF
	msgs   []*msg
	sets   []*deliv
}

// outF is a frame a client sent.
type outF struct {
	idx     int
	seq     int
	f       *HF
	receipt string
	wants   bool // asks for a receipt
	rseq    int  // RECEIPT on the wire
	at, rat time.Duration
	conf    int // first time the server is known to have processed it
	bad     bool
	malf    bool
	sure    bool // malformed, and complete enough to see that
	tx      *txn
	s       *ssub
	m       *msg
	d       *deliv
}

// cli is one raw client connection.
type cli struct {
	w         *world
	i         int
	name      string
	a         *Actor
	pe        *peer
	conn      *simnet.Conn
	ver       string
	mu        sim.Mutex
	out       []*outF
	byRcpt    map[string]*outF
	wp        parser
	wire      []*HF
	wireMsgs  []*deliv
	gotMsgs   int
	mids      map[string]bool
	subs      map[string][]*ssub
	txs       map[string]*txn
	lastRcpt  int // index of the latest frame with a RECEIPT on the wire
	errored   bool
	errFrame  *HF
	connected bool // CONNECTED on the wire
	connSeq   int
	connAt    time.Duration
	disturbed int // when something went wrong with, or ended, the connection
	endSeq    int
	badSent   *outF
	leave     *outF // the DISCONNECT
	stalled   bool
	finished  bool
	nOrd      int
	held      []*deliv // received and, as far as the client is concerned, not settled
	ackq      []func()
	ackw      sim.WaitList
	nackLeft  int64
	rcptN     int
	seen      int
	hbWant    bool
	lastWire  time.Duration
	quit      bool
	badAt     time.Duration
	// sessions with special requirements
	rejected bool   // the connect must be refused
	wantVer  string // the version to announce, if it must be accepted
	hush     bool   // has gone silent on purpose
	hushAt   time.Duration
	lastSent time.Duration
	sx, sy   int64 // announced heart-beats, ms
}

type world struct {
	lastFrame   time.Duration // when the last frame was sent, by anyone
	c           *Ctx
	p           *Plan
	lst         *simnet.Listener
	cl          []*cli
	msgs        []*msg
	byBody      map[string]*msg
	subs        []*ssub // in order of SUBSCRIBE sent
	dests       []string
	base        map[int]bool
	store       *simStore
	draining    bool
	served      int
	acceptCheck func()
}

const srvAddr = "10.0.0.2:61613"

func nextSeq() int { obsSeq++; return obsSeq }

type nullLog struct{}

// logOpts chooses the logger of a client: one that does nothing, or the
// standard logger, whose output main discards.
func logOpts(how int64) []func(*stomp.Conn) error {
	switch how {
	case 1:
		return []func(*stomp.Conn) error{stomp.ConnOpt.Logger(nil)}
	case 2:
		return nil
	}
	return []func(*stomp.Conn) error{stomp.ConnOpt.Logger(nullLog{})}
}

func (nullLog) Debugf(string, ...interface{})   {}
func (nullLog) Infof(string, ...interface{})    {}
func (nullLog) Warningf(string, ...interface{}) {}
func (nullLog) Errorf(string, ...interface{})   {}
func (nullLog) Debug(string)                    {}
func (nullLog) Info(string)                     {}
func (nullLog) Warning(string)                  {}
func (nullLog) Error(string)                    {}

func isQueue(dest string) bool { return strings.HasPrefix(dest, "/queue") }

// fail records the same violation for several properties.
func (w *world) fail(props, class, format string, a ...any) {
	for _, p := range strings.Fields(props) {
		w.c.Fail(p, class, format, a...)
	}
}

// startServer starts the server and remembers its standing tasks.
func (w *world) startServer(s *server.Server) bool {
	listen := func() *simnet.Listener {
		l, err := w.c.net.Listen(srvAddr)
		if err != nil {
			panic(err)
		}
		return l
	}
	mode := w.p.K["serve"]
	if plain := s.Authenticator == nil && s.QueueStorage == nil && s.HeartBeat == 0; !plain && mode > 2 {
		mode = 1
	}
	if w.p.Seed%4 != 0 {
		s.Log = nullLog{} // else the standard logger, whose output main discards
	}
	sim.Start("server", 100, func() {
		switch mode {
		case 1:
			s.Addr = srvAddr
			s.ListenAndServe()
		case 2:
			s.ListenAndServe()
		case 3:
			server.ListenAndServe(srvAddr)
		case 4:
			server.Serve(listen())
		default:
			s.Serve(listen())
		}
	})
	sim.Quiesce(0)
	if w.lst = w.c.net.Listener(srvAddr); w.lst == nil {
		sim.Quiesce(dur(30 * sc)) // it may be frozen
	}
	if w.lst = w.c.net.Listener(srvAddr); w.lst == nil {
		w.fail("S09 S12 S13", "server not serving", "nothing listens on %s after the server was started", srvAddr)
		w.lst = listen()
	}
	w.base = map[int]bool{}
	for _, b := range sim.Alive() {
		w.base[b.ID] = true
	}
	return true
}

func (w *world) newCli(i int, name string, a *Actor) *cli {
	c := &cli{w: w, i: i, name: name, a: a, byRcpt: map[string]*outF{}, mids: map[string]bool{}, subs: map[string][]*ssub{}, txs: map[string]*txn{}, lastRcpt: -1}
	w.cl = append(w.cl, c)
	return c
}

// dial opens the connection and starts the reading task.
func (c *cli) dial() error {
	conn, err := c.w.c.net.DialAs(srvAddr, c.i)
	if err != nil {
		return err
	}
	c.conn = conn
	conn.Link().B.OnSent(c.onSent)
	c.pe = newPeer(c.w.c, c.name, conn, 0)
	c.pe.onFrame = c.onFrame
	c.pe.start()
	return nil
}

func (c *cli) disturb() {
	if c.disturbed == 0 {
		c.disturbed = nextSeq()
	}
}

// send writes a frame, recording it first.
func (c *cli) send(f *HF, fill func(o *outF)) *outF {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.pe.ended || c.pe.writeErr != nil || c.endSeq > 0 || c.hush {
		return nil
	}
	o := &outF{idx: len(c.out), seq: nextSeq(), f: f, at: sim.Now()}
	if r, ok := f.lookup("receipt"); ok {
		o.receipt, o.wants = r, true
		c.byRcpt[r] = o
	}
	c.out = append(c.out, o)
	if fill != nil {
		fill(o)
	}
	if c.pe.send(f) != nil {
		c.disturb()
	}
	c.lastSent = sim.Now()
	c.w.lastFrame = sim.Now()
	c.w.c.Done()
	return o
}

func (c *cli) receipt(f *HF, want bool) *HF {
	if want {
		c.rcptN++
		r := fmt.Sprintf("r%d.%d", c.i, c.rcptN)
		k := int64(0)
		if c.a != nil {
			k = c.a.k("rcpt")
		}
		switch k {
		case 0:
		case 1:
			r = strconv.Itoa(c.rcptN)
		case 2:
			r = fmt.Sprintf("%d:\\n\n %c ", c.rcptN, 'a'+rune(c.i%20))
		default:
			if c.rcptN == int(k)-2 {
				r = "" // an empty text is as good as any other
			}
		}
		if c.rcptN%4 == 1 {
			f.H = append([][2]string{{"receipt", r}}, f.H...)
		} else {
			f.with("receipt", r)
		}
	}
	return f
}

// confirm notes that the server has processed all frames up to o.
func (c *cli) confirm(o *outF) {
	n := nextSeq()
	i := o.idx
	if b := c.badSent; b != nil && b.malf && b.idx < i {
		i = b.idx // what followed may have been taken for part of it
	}
	for ; i >= 0 && c.out[i].conf == 0; i-- {
		c.out[i].conf = n
	}
}

func (c *cli) onSent(b []byte) {
	c.beatCheck()
	c.lastWire = sim.Now()
	c.wp.buf = append(c.wp.buf, b...)
	for f := c.wp.next(); f != nil; f = c.wp.next() {
		f.Seq, f.At = nextSeq(), sim.Now()
		c.wire = append(c.wire, f)
		c.onWire(f)
	}
	if c.wp.err != nil {
		c.w.fail("S01 S05 S07 S10", "malformed output", "the server sent malformed bytes to %s: %v", c.name, c.wp.err)
	}
}

// faultProps names the properties that are about what this run does to the server.
func (w *world) faultProps() string {
	s := ""
	for _, c := range w.cl {
		if c.badSent != nil {
			s = " S08"
		}
	}
	if w.store != nil && w.store.mille > 0 {
		s += " S14"
	}
	return s
}

// kindProps names the properties that promise the effect of a valid frame.
func kindProps(cmd string) string {
	switch cmd {
	case "ACK", "NACK":
		return "S04 S07"
	case "BEGIN", "COMMIT", "ABORT":
		return "S06 S07"
	case "SUBSCRIBE", "UNSUBSCRIBE":
		return "S02 S05 S07"
	case "SEND":
		return "S02 S05 S06 S07"
	}
	return "S07 S12"
}

// onWire looks at a complete frame the server has handed to the transport.
func (c *cli) onWire(f *HF) {
	w := c.w
	if f.Cmd != "" {
		w.lastFrame = sim.Now()
	}
	if w.c.verbose {
		w.c.Log("wire to %s: %v", c.name, f)
	}
	if c.rejected && f.Cmd != "ERROR" {
		w.fail("S12", "served without connection", "%s, whose connect is not acceptable, got %v", c.name, f)
		return
	}
	if c.errored && f.Cmd != "" {
		w.fail("S08 S12", "frame after ERROR", "the server sent %v to %s after an ERROR frame", f, c.name)
	}
	switch f.Cmd {
	case "":
		if !c.hbWant {
			w.fail("S10", "unwanted heart-beat", "%s asked for no heart-beats and got one", c.name)
		}
	case "CONNECTED":
		if c.connected {
			w.fail("S12 S07", "second CONNECTED", "%s got a second CONNECTED", c.name)
		}
		c.connected = true
		c.connSeq, c.connAt = f.Seq, sim.Now()
		if len(c.out) > 0 {
			c.confirm(c.out[0])
		}
		if c.wantVer != "" && f.get("version") != c.wantVer {
			w.fail("S12", "wrong version", "the server answered %v with %v, the highest common version is %s", c.out[0].f, f, c.wantVer)
		}
		c.announced(f)
		if c.out[0].bad {
			w.fail("S12 S08", "bad connect accepted", "the server answered %v with %v", c.out[0].f, f)
		}
	case "RECEIPT":
		id := f.get("receipt-id")
		o := c.byRcpt[id]
		if o == nil {
			w.fail("S07", "receipt invented", "%s got %v, which it never asked for", c.name, f)
			return
		}
		if o.rseq > 0 {
			w.fail("S07", "receipt twice", "%s got the receipt %s twice", c.name, id)
			return
		}
		if o.bad {
			w.fail("S07 S08", "receipt for a rejected frame", "%s got a receipt for the invalid frame %v", c.name, o.f)
		}
		for i := c.lastRcpt + 1; i < o.idx; i++ {
			if p := c.out[i]; p.wants && p.rseq == 0 && !(p.f.Cmd == "CONNECT") {
				w.fail("S07", "receipt skipped or out of order", "%s got the receipt of %v before that of %v", c.name, o.f, p.f)
				break
			}
		}
		o.rseq, o.rat = f.Seq, sim.Now()
		if o.idx > c.lastRcpt {
			c.lastRcpt = o.idx
		}
		c.confirm(o)
		if o.s != nil && o.s.unsub == o {
			o.s.closed = true
		}
	case "ERROR":
		c.errored = true
		c.errFrame = f
		if rid, ok := f.lookup("receipt-id"); ok {
			o := c.byRcpt[rid]
			switch {
			case o == nil:
				w.fail("S07", "error with unknown receipt-id", "%s got %v", c.name, f)
			case o.rseq > 0:
				w.fail("S07", "receipt and error for one frame", "%s got a receipt and then %v for %v", c.name, f, o.f)
			}
			if o != nil && !o.bad && !o.malf {
				w.fail(kindProps(o.f.Cmd), "valid frame rejected", "%s sent %v and got %v", c.name, o.f, f)
			}
			return
		}
		if c.badSent == nil {
			// which frame it was is not said: the first one not known to be processed
			cmd := "?"
			for _, o := range c.out {
				if o.conf == 0 {
					cmd = o.f.Cmd
					if cmd == "SEND" && o.wants {
						continue
					}
					break
				}
			}
			w.fail(kindProps(cmd)+" S09", "unexpected ERROR", "%s, which sent nothing invalid, got %v (oldest unconfirmed frame: %s)", c.name, f, cmd)
		} else if c.badSent.wants && c.badSent.conf == 0 {
			w.fail("S07", "error without receipt-id", "%s sent %v and got %v", c.name, c.badSent.f, f)
		}
	case "MESSAGE":
		c.onMessage(f)
	default:
		w.fail("S08 S07", "unexpected command", "%s got %v from the server", c.name, f)
	}
}

// effective tells whether the message may be visible by now.
func (m *msg) effective() bool { return m.eff > 0 }

// releasable tells whether the server may by now have got the message back
// from the consumer of this delivery.
func (d *deliv) releasable() (bool, string) {
	if d.s.auto() {
		return false, "it was delivered to a subscription with automatic acknowledgement"
	}
	if d.settled > 0 && !d.nack {
		if d.confirmed() {
			return false, "it was acknowledged and the acknowledgement confirmed"
		}
		if b := d.c.leave; b != nil && b.seq < d.settled {
			return true, "" // nothing that follows a DISCONNECT needs to be processed
		}
		if b := d.c.badSent; b != nil && b.seq < d.settled || d.c.disturbed > 0 || d.c.endSeq > 0 && d.c.conn.Link().B.WriteFailed() {
			return true, "" // the acknowledgement may not have been processed
		}
		return false, "it was acknowledged"
	}
	if d.settled > 0 && d.nack {
		return true, ""
	}
	if d.s.unsub != nil || d.c.disturbed > 0 || d.c.endSeq > 0 || d.c.errored || d.c.badSent != nil {
		return true, ""
	}
	return false, "its consumer still holds it"
}

func (c *cli) onMessage(f *HF) {
	w := c.w
	m := w.byBody[string(f.Body)]
	if x := w.byBody[f.get("uid")]; x != nil {
		m = x
	}
	sid := f.get("subscription")
	if b := c.badSent; b != nil && b.malf && len(c.subs[sid]) == 0 {
		return // it may have subscribed by what it sent
	}
	if m == nil || m.body != string(f.Body) {
		w.fail("S01 S05 S14 S06", "message altered", "%s got %v, whose body nobody sent", c.name, f)
		return
	}
	var s *ssub
	for _, x := range c.subs[sid] {
		if !x.closed {
			s = x
			break
		}
	}
	if s == nil {
		w.fail("S01 S05", "message for no subscription", "%s got %v but has no subscription %q", c.name, f, sid)
		return
	}
	q := isQueue(m.dest)
	tag := "S05"
	if q {
		tag = "S01"
	}
	if s.dest != m.dest {
		w.fail(tag+" S14", "wrong destination", "message %d was sent to %s and delivered to subscription %s of %s on %s", m.id, m.dest, sid, c.name, s.dest)
		return
	}
	// headers
	var user [][2]string
	var mid, ack string
	for _, e := range f.H {
		switch e[0] {
		case "message-id":
			mid = e[1]
		case "ack":
			ack = e[1]
		case "subscription", "id":
		default:
			user = append(user, e)
		}
	}
	if !sameList(user, m.hdr) {
		w.fail(tag+" S14", "headers altered", "message %d was sent with headers %q and delivered with %q", m.id, m.hdr, user)
	}
	if mid == "" || c.mids[mid] {
		w.fail(tag+" S04", "message-id not unique", "%s got message-id %q twice or empty", c.name, mid)
	}
	c.mids[mid] = true
	if c.ver == "1.2" && !s.auto() && ack == "" {
		w.fail("S04", "no ack header", "%s got %v without ack header for a subscription that needs acknowledgement", c.name, f)
	}
	d := &deliv{m: m, c: c, s: s, mid: mid, ack: ack, seq: f.Seq, at: sim.Now()}
	c.wireMsgs = append(c.wireMsgs, d)
	w.c.Note(fmt.Sprint("w", c.i, sid, m.id))
	if !m.effective() {
		t := m.tx
		switch {
		case m.rej:
			w.fail("S12", "effect without connection", "message %d, sent by %s, whose connect is not acceptable, was delivered to %s", m.id, m.prod.name, c.name)
		case t != nil && t.abort != nil:
			w.fail("S06", "aborted message delivered", "message %d of aborted transaction %s was delivered to %s", m.id, t.name, c.name)
		default:
			w.fail("S06", "visible before commit", "message %d of transaction %s was delivered to %s before the commit was sent", m.id, t.name, c.name)
		}
	}
	if q {
		w.queueDelivery(d)
	} else {
		w.topicDelivery(d)
	}
	m.recs = append(m.recs, d)
	s.recs = append(s.recs, d)
}

func sameList(a, b [][2]string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (w *world) queueDelivery(d *deliv) {
	m := d.m
	if n := len(m.recs); n > 0 {
		p := m.recs[n-1]
		if ok, why := p.releasable(); !ok {
			props := "S01"
			if p.settled > 0 {
				props += " S02 S04"
				if p.settle.tx != nil {
					props += " S06"
				}
			} else if p.c.anySettled() {
				props += " S04"
			}
			w.fail(props, "delivered again", "message %d was delivered to %s (sub %s) and is now delivered to %s (sub %s) although %s", m.id, p.c.name, p.s.id, d.c.name, d.s.id, why)
		}
	}
	if !d.s.auto() {
		for _, p := range d.s.recs {
			if p.settled == 0 {
				props := "S04"
				if p.settle != nil {
					props += " S06"
				}
				w.fail(props, "message before settlement", "subscription %s of %s got message %d although message %d is not settled", d.s.id, d.c.name, m.id, p.m.id)
				break
			}
		}
	}
	// first-in first-out: how many older messages of the producer has nobody seen?
	if len(m.recs) == 0 {
		others := 0
		var waiting []*ssub
		for _, s := range w.subs {
			if s.dest == m.dest && s != d.s {
				others++
				waiting = append(waiting, s)
			}
		}
		over := 0
		var which *msg
		for _, o := range w.msgs {
			if o.prod == m.prod && o.dest == m.dest && o.eff > 0 && o.ord < m.ord && len(o.recs) == 0 && !o.stErr {
				over++
				which = o
			}
		}
		if over > others {
			w.fail("S03", "overtaken", "message %d was delivered before %d older messages of %s to %s that nobody has had, such as %d; only %d other subscriptions could hold one", m.id, over, m.prod.name, m.dest, which.id, others)
		}
		// a rejected message comes first when there is only one subscription
		if others == 0 {
			if k := len(d.s.recs); k > 0 {
				p := d.s.recs[k-1]
				if p.settled > 0 && p.nack && !p.m.stErr {
					w.fail("S03", "returned message overtaken", "message %d, returned by the only subscription on %s, was overtaken by %d, which was never handed out", p.m.id, m.dest, m.id)
				}
			}
		}
		if w.draining && !m.stErr {
			w.drainOrder(d)
		}
	}
	// the same connection: strict order unless another subscription may have
	// held the older message unseen
	if len(m.recs) == 0 {
		for _, p := range d.c.wireMsgs {
			if p == d || p.m.dest != m.dest || p.m.prod != m.prod || p.m.ord < m.ord || p.m.recs[0] != p {
				continue
			}
			excused := m.stErr
			for _, s := range w.subs {
				if s.dest == m.dest && s != d.s && (s.unsub != nil || s.c.disturbed > 0 || s.c.endSeq > 0 || s.c.errored || s.c.badSent != nil) {
					excused = true // it may have had the older message in flight
				}
			}
			if !excused {
				w.fail("S03", "out of order", "message %d of %s was delivered to %s after the younger message %d", m.id, m.prod.name, d.c.name, p.m.id)
			}
			break
		}
	}
}

func (c *cli) anySettled() bool {
	for _, d := range c.wireMsgs {
		if d.settled > 0 {
			return true
		}
	}
	return false
}

// drainOrder: while the queue is emptied into one fresh consumer, messages
// that had been handed out and came back precede those that had not.
func (w *world) drainOrder(d *deliv) {
	var back *msg
	for _, m := range w.msgs {
		if m.dest == d.m.dest && len(m.recs) > 0 && !m.stErr {
			l := m.recs[len(m.recs)-1]
			if !l.c.drain() && !l.s.auto() && !(l.settled > 0 && !l.nack) {
				back = m
			}
		}
	}
	if back == nil {
		return
	}
	slack, over := 0, 1
	for _, s := range w.subs {
		if s.dest != d.m.dest || s.c.drain() {
			continue
		}
		n := len(s.recs)
		if n == 0 || s.auto() || s.recs[n-1].settled > 0 {
			slack++
		}
	}
	for _, r := range d.s.recs {
		if len(r.m.recs) == 1 {
			over++
		}
	}
	if over > slack {
		w.fail("S03", "returned message overtaken", "message %d had been handed out and returned to %s, but %d messages that had never been handed out precede it (at most %d can have been in flight), such as %d", back.id, d.m.dest, over, slack, d.m.id)
	}
}

func (c *cli) drain() bool { return c.i >= 1000 }

func (w *world) topicDelivery(d *deliv) {
	m := d.m
	for _, p := range m.recs {
		if p.s == d.s {
			w.fail("S05", "topic message twice", "message %d was delivered twice to subscription %s of %s", m.id, d.s.id, d.c.name)
		}
	}
	if c := m.confirmed(); c > 0 && c < d.s.sub.seq {
		w.fail("S05", "old topic message", "message %d was confirmed before %s subscribed as %s and still delivered to it", m.id, d.c.name, d.s.id)
	}
	for _, p := range d.s.recs {
		if p.m.prod == m.prod && p.m.ord > m.ord {
			w.fail("S05", "topic order", "subscription %s of %s got message %d of %s after the younger %d", d.s.id, d.c.name, m.id, m.prod.name, p.m.id)
			break
		}
	}
}

// onFrame sees what the client receives.
func (c *cli) onFrame(f *HF) {
	if f.Cmd == "ERROR" {
		c.quit = true
	}
	if f.Cmd != "MESSAGE" {
		return
	}
	if c.gotMsgs >= len(c.wireMsgs) {
		return
	}
	d := c.wireMsgs[c.gotMsgs]
	if d.mid != f.get("message-id") {
		return // unknown message on the wire, already reported
	}
	c.gotMsgs++
	d.got = true
	if d.s.auto() || !isQueue(d.m.dest) {
		return
	}
	c.held = append(c.held, d)
	pol := int64(0)
	if c.a != nil {
		pol = c.a.k("policy")
	}
	h := (uint64(d.m.id)*0x9e3779b97f4a7c15 + uint64(len(c.wireMsgs))*0xd1342543de82ef95 + uint64(c.i)) >> 20
	switch pol {
	case 0:
		return
	case 1:
	case 2:
		if h%3 == 0 {
			return
		}
	case 3:
		if h%4 == 0 {
			return
		}
	}
	nack := pol == 3 && h%5 < 2 && c.nackLeft > 0
	if nack {
		c.nackLeft--
	}
	c.ackq = append(c.ackq, func() { c.settle(d, nack, "", h%3 == 0, int64(h>>8)) })
	c.ackw.WakeAll()
}

// acker sends the acknowledgements the policy decided on.
func (c *cli) acker() {
	for {
		for len(c.ackq) == 0 {
			if c.quit || c.pe.ended || c.endSeq > 0 {
				return
			}
			c.ackw.Wait("harness acker")
		}
		f := c.ackq[0]
		c.ackq = c.ackq[1:]
		if d := c.a.k("think"); d > 0 {
			sim.Sleep(dur(d))
		}
		f()
	}
}

func (c *cli) unhold(d *deliv) bool {
	for i, x := range c.held {
		if x == d {
			c.held = append(c.held[:i:i], c.held[i+1:]...)
			return true
		}
	}
	return false
}

// settle sends an ACK or NACK for a delivery.
func (c *cli) settle(d *deliv, nack bool, tx string, rcpt bool, form int64) {
	if !c.unhold(d) || d.s.unsub != nil {
		return
	}
	cmd := "ACK"
	if nack {
		cmd = "NACK"
	}
	f := mk(cmd)
	if c.ver == "1.2" {
		id := d.ack
		if id == "" {
			id = d.mid
		}
		f.with("id", id)
		if form%4 == 1 {
			f.with("message-id", d.mid)
			f.with("subscription", d.s.id)
		}
	} else {
		f.with("subscription", d.s.id)
		f.with("message-id", d.mid)
	}
	t := c.txs[tx]
	if t != nil {
		f.with("transaction", tx)
	}
	c.receipt(f, rcpt)
	c.send(f, func(o *outF) {
		o.d, o.tx = d, t
		d.settle, d.nack = o, nack
		d.s.hasSet = true
		if t != nil {
			t.sets = append(t.sets, d)
		} else if d.s.unsub == nil { // otherwise it went back to the queue meanwhile
			d.settled = o.seq
		}
	})
}

// connect does the handshake of a well-behaved client.
func (c *cli) connect() bool {
	c.ver = pickVer(c.a)
	f := mk("CONNECT", "accept-version", c.ver, "host", "h")
	if c.a != nil && c.a.k("stomp") == 1 {
		f.Cmd = "STOMP"
	}
	if c.a != nil && (c.a.k("cx") > 0 || c.a.k("cy") > 0) {
		f.with("heart-beat", fmt.Sprintf("%d,%d", c.a.k("cx"), c.a.k("cy")))
		c.hbWant = c.a.k("cy") > 0
	}
	c.wantVer = c.ver
	if c.w.p.K["auth"] > 0 {
		u := c.i % 3
		f.with("login", users[u][0]).with("passcode", users[u][1])
	}
	if c.send(f, nil) == nil {
		return false
	}
	ok := c.pe.await(dur(120*sc), func() bool { return len(c.pe.frames("")) > 0 })
	return ok && c.pe.frames("")[0].Cmd == "CONNECTED"
}

func pickVer(a *Actor) string {
	if a != nil && a.k("ver") == 11 {
		return "1.1"
	}
	return "1.2"
}

func (w *world) newMsg(c *cli, dest string, size int64, salt uint64) (*msg, *HF) {
	m := &msg{id: len(w.msgs) + 1, dest: dest, prod: c}
	r := sim.NewRand(salt ^ uint64(m.id)*7919)
	body := fmt.Sprintf("m%d:", m.id) + string(genBody(r, int(size), false))
	f := mk("SEND")
	m.hdr = append(m.hdr, [2]string{"destination", dest})
	switch r.Intn(5) {
	case 4:
		for i := 1 + r.Intn(2); i > 0; i-- {
			m.hdr = append(m.hdr, userHeader(r))
		}
	case 0:
		m.hdr = append(m.hdr, [2]string{"content-type", "text/plain"})
	case 1:
		m.hdr = append(m.hdr, [2]string{"x-" + genText(r, 4, false), genText(r, 6, false)})
	case 2:
		m.hdr = append(m.hdr, [2]string{"k", "1"}, [2]string{"k", "2"})
	}
	if n := w.p.K["hdrs"]; n > 0 && r.Intn(4) == 0 {
		for i := int64(0); i < n; i++ {
			m.hdr = append(m.hdr, [2]string{"h" + strconv.FormatInt(i, 10), genText(r, r.Intn(8), false)})
		}
	}
	if n := w.p.K["hdrlen"]; n > 0 && r.Intn(4) == 0 {
		m.hdr = append(m.hdr, [2]string{"long", genText(r, int(n), false)})
	}
	key := body
	if r.Intn(6) == 0 {
		// known by a header, with a body like that of others
		key = fmt.Sprintf("uid:%d", m.id)
		m.hdr = append(m.hdr, [2]string{"uid", key})
		body = pick(r, "", "", "\n", "x", "m1:")
	}
	if r.Intn(2) == 0 {
		if len(body) > 2 {
			body += "\x00end"
		}
		m.hdr = append(m.hdr, [2]string{"content-length", strconv.Itoa(len(body))})
	}
	m.body = body
	f.H = append(f.H, m.hdr...)
	if r.Intn(6) == 0 {
		// a message relayed from elsewhere, with headers that are the server's
		for _, h := range [][2]string{{"message-id", "7"}, {"subscription", "s1"}, {"id", "1"}, {"ack", "2"}} {
			if r.Intn(2) == 0 {
				f.H = append(f.H, h)
			}
		}
	}
	f.Body = []byte(body)
	w.msgs = append(w.msgs, m)
	if key[0] == 'm' {
		key = body
	}
	w.byBody[key] = m
	return m, f
}

func (c *cli) sendMsg(dest string, size int64, tx string, rcpt bool) *outF {
	m, f := c.w.newMsg(c, dest, size, c.w.p.Seed)
	t := c.txs[tx]
	if t != nil {
		// anywhere among the headers
		f.H = append(f.H[:1:1], append([][2]string{{"transaction", tx}}, f.H[1:]...)...)
	}
	c.receipt(f, rcpt)
	return c.send(f, func(o *outF) {
		o.m, o.tx = m, t
		m.out = o
		if c.rejected {
			m.rej = true
		} else if t == nil {
			c.nOrd++
			m.ord, m.eff = c.nOrd, o.seq
		} else {
			m.tx = t
			t.msgs = append(t.msgs, m)
		}
	})
}

func (c *cli) subscribe(id, dest, ack string, rcpt bool) {
	f := mk("SUBSCRIBE", "id", id, "destination", dest)
	if ack != "" {
		f.with("ack", ack)
	}
	c.receipt(f, rcpt)
	c.send(f, func(o *outF) {
		s := &ssub{c: c, id: id, dest: dest, ack: ack, sub: o}
		o.s = s
		c.subs[id] = append(c.subs[id], s)
		c.w.subs = append(c.w.subs, s)
	})
}

func (c *cli) current(id string) *ssub {
	l := c.subs[id]
	if len(l) == 0 {
		return nil
	}
	return l[len(l)-1]
}

func (c *cli) unsubscribe(id string, rcpt bool) {
	s := c.current(id)
	if s == nil || s.unsub != nil {
		return
	}
	f := mk("UNSUBSCRIBE", "id", id)
	c.receipt(f, rcpt)
	c.send(f, func(o *outF) {
		s.unsub = o
		o.s = s
		for i := 0; i < len(c.held); {
			if c.held[i].s == s {
				c.held = append(c.held[:i:i], c.held[i+1:]...)
			} else {
				i++
			}
		}
	})
}

func (c *cli) txOp(cmd, name string, rcpt bool) {
	t := c.txs[name]
	if (t == nil) != (cmd == "BEGIN") {
		return
	}
	f := mk(cmd, "transaction", name)
	c.receipt(f, rcpt)
	c.send(f, func(o *outF) {
		switch cmd {
		case "BEGIN":
			t = &txn{name: name, c: c, begin: o}
			c.txs[name] = t
			o.tx = t
		case "COMMIT":
			t.commit = o
			delete(c.txs, name)
			for _, m := range t.msgs {
				c.nOrd++
				m.ord, m.eff = c.nOrd, o.seq
			}
			for _, d := range t.sets {
				if d.s.unsub == nil { // otherwise it went back to the queue
					d.settled = o.seq
				}
			}
		case "ABORT":
			t.abort = o
			delete(c.txs, name)
		}
	})
}

// close ends the connection from the client's side.
func (c *cli) close(abort bool) {
	if c.conn == nil || c.endSeq > 0 {
		return
	}
	c.endSeq = nextSeq()
	c.quit = true
	c.ackw.WakeAll()
	if abort {
		c.disturb()
		c.conn.Abort()
	} else {
		c.conn.Close()
	}
}

var ackModes = []string{"", "client", "client-individual", "auto"}

// script executes the operations of the actor.
func (c *cli) script() {
	w := c.w
	defer func() { c.finished = true }()
	if d := c.a.k("start"); d > 0 {
		sim.Sleep(dur(d))
	}
	if err := c.dial(); err != nil {
		w.fail("S09 S12 S13", "dial refused", "%s could not connect: %v", c.name, err)
		return
	}
	c.nackLeft = c.a.k("nacks")
	if c.a.Kind == "login" {
		c.login()
	} else if c.a.Kind == "client" {
		if !c.connect() {
			return
		}
		sim.Start(c.name+".ack", 0, c.acker)
		if c.a.k("cx") > 0 {
			sim.Start(c.name+".beat", 0, c.beater)
		}
	} else {
		c.ver = pickVer(c.a)
	}
	for i := range c.a.Ops {
		if c.pe.ended || c.quit {
			return
		}
		c.op(&c.a.Ops[i])
	}
}

func (c *cli) op(o *Op) {
	if o.D > 0 {
		sim.Sleep(dur(o.D))
	}
	rc := o.C == 1
	switch o.Op {
	case "sub":
		id := fmt.Sprintf("s%d", o.A)
		if s := c.current(id); s != nil && (s.unsub == nil || !s.unsub.wants) {
			return
		}
		c.subscribe(id, o.S, ackModes[o.B&3], rc)
	case "unsub":
		c.unsubscribe(fmt.Sprintf("s%d", o.A), rc)
	case "send":
		tx := ""
		if o.B > 0 {
			tx = fmt.Sprintf("t%d", o.B)
		}
		c.sendMsg(o.S, o.A, tx, rc)
	case "burst":
		tx := ""
		if o.B > 0 {
			tx = fmt.Sprintf("t%d", o.B)
		}
		for k := int64(0); k < o.A && !c.pe.ended && !c.quit; k++ {
			c.sendMsg(o.S, o.E, tx, rc && (k == o.A-1 || k%16 == 5))
		}
	case "ack", "nack":
		if len(c.held) == 0 {
			c.pe.await(dur(500*ms), func() bool { return len(c.held) > 0 })
		}
		if len(c.held) == 0 {
			return
		}
		tx := ""
		if o.B > 0 {
			tx = fmt.Sprintf("t%d", o.B)
		}
		c.settle(c.held[int(o.A)%len(c.held)], o.Op == "nack", tx, rc, o.E)
	case "ackbad":
		// unknown, already settled or somebody else's id
		id := strconv.FormatInt(1000000+o.A, 10)
		var old []*deliv
		for _, d := range c.wireMsgs {
			if d.settled > 0 && d.got || d.s.auto() && d.got {
				old = append(old, d)
			}
		}
		if o.A%2 == 0 && len(old) > 0 {
			id = old[int(o.A/2)%len(old)].mid
		}
		cmd := "ACK"
		if o.B == 1 {
			cmd = "NACK"
		}
		f := mk(cmd)
		if c.ver == "1.2" {
			f.with("id", id)
		} else {
			f.with("subscription", "s1").with("message-id", id)
		}
		c.receipt(f, rc)
		c.send(f, nil)
	case "begin", "commit", "abort":
		c.txOp(strings.ToUpper(o.Op), fmt.Sprintf("t%d", o.A), rc)
	case "sleep":
		sim.Sleep(dur(o.A))
	case "wait":
		n := c.gotMsgs + int(o.A)
		c.pe.await(dur(o.E), func() bool { return c.gotMsgs >= n })
	case "sync":
		// wait for all receipts
		c.pe.await(dur(30*sc), func() bool {
			for _, f := range c.out {
				if f.wants && f.rseq == 0 {
					return false
				}
			}
			return true
		})
	case "pause":
		c.pe.pauseUntil = sim.Now() + dur(o.A)
	case "stall":
		c.stalled = true
		c.pe.paused = true
	case "disconnect":
		f := mk("DISCONNECT")
		c.receipt(f, true)
		r := c.send(f, func(o *outF) { c.leave = o })
		if r != nil {
			c.pe.await(dur(30*sc), func() bool { return r.rseq > 0 && c.hasReceipt(r.receipt) })
		}
		c.close(false)
	case "close":
		c.close(false)
	case "drop":
		c.close(true)
	case "hush":
		c.goSilent()
	case "slow":
		c.slowFrame(o)
	case "raw", "bad":
		c.badOp(o)
	default:
		panic("unknown op " + o.Op)
	}
}

func (c *cli) hasReceipt(id string) bool {
	for _, f := range c.pe.in {
		if f.Cmd == "RECEIPT" && f.get("receipt-id") == id {
			return true
		}
	}
	return false
}

// badFrames are invalid requests in well-formed frames.
var badFrames = []func(c *cli) *HF{
	func(c *cli) *HF { return mk("SEND") },
	func(c *cli) *HF { return mk("SUBSCRIBE", "id", "b1") },
	func(c *cli) *HF { return mk("SUBSCRIBE", "destination", "/queue/q0") },
	func(c *cli) *HF { return mk("SUBSCRIBE", "id", "b2", "destination", "/queue/q0", "ack", "bogus") },
	func(c *cli) *HF { return mk("UNSUBSCRIBE", "id", "nope") },
	func(c *cli) *HF { return mk("UNSUBSCRIBE") },
	func(c *cli) *HF { return mk("ACK") },
	func(c *cli) *HF { return mk("ACK", "message-id", "x1", "subscription", "s1", "id", "x1") },
	func(c *cli) *HF { return mk("NACK") },
	func(c *cli) *HF { return mk("BEGIN") },
	func(c *cli) *HF { return mk("COMMIT", "transaction", "never") },
	func(c *cli) *HF { return mk("ABORT", "transaction", "never") },
	func(c *cli) *HF { return mk("COMMIT") },
	func(c *cli) *HF { return mk("SEND", "destination", "/queue/q0", "transaction", "never") },
	func(c *cli) *HF {
		return mk("ACK", "message-id", "1", "id", "1", "subscription", "s1", "transaction", "never")
	},
	func(c *cli) *HF {
		return mk("MESSAGE", "destination", "/queue/q0", "message-id", "1", "subscription", "s1")
	},
	func(c *cli) *HF { return mk("RECEIPT", "receipt-id", "1") },
	func(c *cli) *HF { return mk("ERROR", "message", "x") },
	func(c *cli) *HF { return mk("CONNECTED", "version", "1.2") },
	func(c *cli) *HF { return mk("CONNECT", "accept-version", "1.2", "host", "h") },
	func(c *cli) *HF { return mk("STOMP", "accept-version", "1.2", "host", "h") },
	func(c *cli) *HF { return mk("SEND", "destination", "", "transaction", "") },
	func(c *cli) *HF { return c.repeatSub(true) },
	func(c *cli) *HF { return c.repeatSub(true) },
	func(c *cli) *HF { return c.repeatSub(false) },
	func(c *cli) *HF { return mk("UNSUBSCRIBE", "id", c.pastSub()) },
	func(c *cli) *HF {
		for _, n := range []string{"t1", "t2", "t3"} {
			if t := c.txs[n]; t != nil {
				return mk("BEGIN", "transaction", n)
			}
		}
		return mk("COMMIT", "transaction", "t1")
	},
	func(c *cli) *HF { return mk("NACK", "message-id", "-1", "subscription", "s1", "id", "-1") },
	func(c *cli) *HF {
		return mk("NACK", "message-id", "1", "id", "1", "subscription", "s1", "transaction", "never")
	},
	func(c *cli) *HF { return mk("ABORT") },
}

// repeatSub makes a SUBSCRIBE with the id of a subscription that exists.
func (c *cli) repeatSub(same bool) *HF {
	for _, s := range c.w.subs {
		if s.c == c && s.unsub == nil {
			f := mk("SUBSCRIBE", "id", s.id)
			if same {
				f.with("destination", s.dest)
				if s.ack != "" {
					f.with("ack", s.ack)
				}
			} else {
				f.with("destination", "/queue/q0")
			}
			return f
		}
	}
	return mk("SUBSCRIBE", "id", "b3")
}

// pastSub is the id of a subscription that does not exist any more.
func (c *cli) pastSub() string {
	for _, s := range c.w.subs {
		if s.c == c && c.current(s.id).unsub != nil {
			return s.id
		}
	}
	return "none"
}

// badBytes are malformed.
var badBytes = []string{
	"BOGUS\n\n\x00",
	"SEND\ndestination\n\n\x00",
	"SEND\ndestination:/queue/q0\ncontent-length:3\n\nabcdef\x00",
	"SEND\ndestination:/queue/q0\ncontent-length:-5\n\nabc\x00",
	"SEND\ndestination:/queue/q0\ncontent-length:99999999999999999999\n\nabc\x00",
	"SEND\ndestination:/queue/q0\ncontent-length:9223372036854775807\n\nabc\x00",
	"SEND\ndestination:/queue/q0\ncontent-length:18446744073709551615\n\nabc\x00",
	"SEND\ndestination:/queue/q0\ncontent-length:abc\n\nabc\x00",
	"send\ndestination:/queue/q0\n\nabc\x00",
	" SEND\ndestination:/queue/q0\n\nabc\x00",
	"SEND \ndestination:/queue/q0\n\nabc\x00",
	":\n:\n\n\x00",
	"SENDX\n\n\x00",
	"\xff\xfe\xfd\xfc\n\n\x00",
	"SEND\ndestination:/queue/q0\ncontent-length:0\n\nabc\x00",
	"SEND\ndestination:/queue/q0\ncontent-length:\n\nabc\x00",
	"SEND\ndestination:/queue/q0\ncontent-length:2 \n\nab\x00",
	"SEND\ndestination:/queue/q0\ncontent-length:0x2\n\nab\x00",
	"SUBSCRIBE\nid:b4\ndestination:/queue/q0\ncontent-length:1\n\n\x00\x01\x00",
	"ACK\nid\nmessage-id:1\nsubscription:s1\n\n\x00",
	"BEGIN\n:t1\n\n\x00",
	// the end of these is not in sight
	"\x00\x00\x00",
	"GET / HTTP/1.1\r\nHost: x\r\n\r\n",
}

// nSure of them are complete.
var nSure = len(badBytes) - 2

// vague are byte strings whose meaning is left open: anything but harm to
// others is accepted.
var vague = []string{
	"SEND\ndestination:/queue/zz\nx:a\\qb\n\nabc\x00",
	"SEND\ndestination:/queue/zz\nx:a\\\n\nabc\x00",
	"SEND\r\ndestination:/queue/zz\r\n\r\nabc\x00\r\n",
	"\n\n\r\n\n",
	"SEND\n:/queue/zz\ndestination:/queue/zz\n\nabc\x00",
	"SEND\ndestination:/queue/zz\ncontent-length:0\n\n\x00",
	"ACK\nmessage-id:99999999999999999999999\nid:99999999999999999999999\nsubscription:1\n\n\x00",
	"SUBSCRIBE\nid:\ndestination:/queue/zz\n\n\x00",
	"SEND\ndestination:/queue/zz\ncontent-length:5\n\nab",
	"SEND\ndestination:/que",
	"SUBSCRIBE\nid:v\ndestination:\nack:auto\n\n\x00",
	"BEGIN\ntransaction:\n\n\x00COMMIT\ntransaction:\n\n\x00",
	"DISCONNECT\n\n\x00SEND\ndestination:/queue/zz\n\nafter\x00",
}

// badOp misbehaves.
func (c *cli) badOp(o *Op) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.pe.ended || c.pe.writeErr != nil || c.endSeq > 0 || c.hush {
		return
	}
	rec := &outF{idx: len(c.out), seq: nextSeq(), bad: true}
	var b []byte
	switch {
	case o.Op == "raw":
		rec.malf = true
		b = []byte(o.S)
	case o.A == 0:
		f := badFrames[int(o.B)%len(badFrames)](c)
		if o.C == 1 {
			c.receipt(f, true)
			rec.receipt, rec.wants = f.get("receipt"), true
			c.byRcpt[rec.receipt] = rec
		}
		rec.f = f
		if len(c.out) == 0 && (f.Cmd == "CONNECT" || f.Cmd == "STOMP") {
			rec.malf, rec.bad = true, false // valid as a first frame
		}
		b = f.encode(o.E == 1)
	case o.A == 1:
		rec.malf = true
		b = []byte(badBytes[int(o.B)%len(badBytes)])
		rec.sure = c.badSent == nil && int(o.B)%len(badBytes) < nSure
	case o.A == 2:
		rec.malf = true
		b = []byte(vague[int(o.B)%len(vague)])
	default:
		rec.malf = true
		r := sim.NewRand(uint64(o.B) * 77)
		b = genBody(r, int(o.E), true)
	}
	if b := c.badSent; rec.malf || b != nil && b.malf {
		// what follows might be taken for part of it
		rec.malf, rec.bad = true, false
	}
	if rec.f == nil {
		rec.f = &HF{Cmd: "malformed", Body: b}
	}
	c.out = append(c.out, rec)
	if c.badSent == nil {
		c.badSent = rec
		c.badAt = sim.Now()
	}
	sim.Count("client.misbehaved")
	c.pe.sendBytes(b, rec.f.String())
	c.w.c.Done()
}

// healthy: nothing is wrong with the connection and it is meant to be open.
func (c *cli) healthy() bool {
	return c.conn != nil && c.connected && !c.errored && c.disturbed == 0 && c.endSeq == 0 && c.badSent == nil && !c.pe.ended && !c.stalled
}

// midCheck: nothing moves any more; every promise to a healthy client must
// have been kept.
func (w *world) midCheck(when string) {
	for _, c := range w.cl {
		if c.conn == nil {
			continue
		}
		if c.badSent == nil && c.disturbed == 0 && c.endSeq == 0 && !c.stalled && !c.errored {
			if c.pe.ended {
				props := "S08 S09 S11 S13 S15" + w.faultProps()
				for _, o := range c.out {
					if o.wants && o.rseq == 0 {
						props += " S07"
						break
					}
				}
				for _, s := range w.subs {
					if s.c == c && s.unsub == nil && !isQueue(s.dest) {
						props += " S05"
						break
					}
				}
				w.fail(props, "healthy client disconnected", "%s: the server ended the connection of %s, which did nothing wrong", when, c.name)
				continue
			}
			if len(c.out) > 0 && !c.connected {
				w.fail("S09 S13 S15 S12 S08", "no CONNECTED", "%s: %s still waits for CONNECTED", when, c.name)
				continue
			}
		}
		if b := c.badSent; b != nil && c.disturbed == 0 && c.endSeq == 0 && !c.stalled && c.connected {
			props := "S08"
			if b.f.Cmd == "CONNECT" || b.f.Cmd == "STOMP" {
				props += " S12"
			}
			switch {
			case b.malf:
				if b.sure && !c.pe.ended {
					w.fail("S08", "malformed data accepted", "%s: %s sent %q and the connection is still open", when, c.name, b.f.Body)
				}
			case !c.errored:
				w.fail(props, "invalid request without ERROR", "%s: %s sent %v and got no ERROR", when, c.name, b.f)
			case !c.pe.ended:
				w.fail(props, "offender not disconnected", "%s: %s got %v but the connection is still open", when, c.name, c.errFrame)
			}
		}
		if c.rejected && c.disturbed == 0 && c.endSeq == 0 && !c.stalled {
			if !c.errored {
				w.fail("S12 S08", "refusal without ERROR", "%s: %s sent %v and got no ERROR", when, c.name, c.out[0].f)
			} else if !c.pe.ended {
				w.fail("S12 S08", "refused but not disconnected", "%s: %s sent %v and got %v, but the connection is still open", when, c.name, c.out[0].f, c.errFrame)
			}
		}
		c.beatCheck()
		if !c.healthy() {
			continue
		}
		for _, o := range c.out {
			if o.wants && o.rseq == 0 {
				w.fail("S07 S09 S15 "+kindProps(o.f.Cmd)+w.faultProps(), "receipt missing", "%s: %s sent %v and got no receipt", when, c.name, o.f)
				break
			}
		}
		if c.gotMsgs < len(c.wireMsgs) && len(c.pe.p.buf) == 0 && sim.Now()-c.lastWire > dur(20*sc) && !c.pe.paused {
			w.c.out.Err = "harness: received fewer messages than sent on a healthy link"
		}
	}
	w.readyCheck(when)
	w.stableTopics(when)
}

// readyCheck: no subscription waits while its queue has a message for it.
func (w *world) readyCheck(when string) {
	for _, dest := range w.queues() {
		var pend *msg
		why := ""
		for _, m := range w.msgs {
			if m.dest != dest || m.confirmed() == 0 || m.stErr {
				continue
			}
			if len(m.recs) == 0 {
				held := false
				for _, s := range w.subs {
					// somebody unseen may hold it
					if s.dest == dest && (s.c.stalled || (s.c.disturbed > 0 || s.c.errored || s.c.badSent != nil) && !s.c.gone()) {
						held = true
					}
				}
				if !held {
					pend, why = m, "was never handed out"
				}
				continue
			}
			l := m.recs[len(m.recs)-1]
			if l.s.auto() || l.settled > 0 && !l.nack {
				continue
			}
			if l.settled > 0 && l.nack && l.confirmed() {
				pend, why = m, "was rejected"
			} else if l.settled == 0 && l.s.unsub != nil && l.s.unsub.conf > 0 && l.s.unsub.conf > 0 {
				pend, why = m, "was held by a subscription that ended"
			} else if l.settled == 0 && l.c.gone() {
				pend, why = m, "was held by a connection that ended"
			}
		}
		if pend == nil {
			continue
		}
		for _, s := range w.subs {
			if s.dest != dest || s.unsub != nil || !s.c.healthy() || s.sub.conf == 0 {
				continue
			}
			ready := true
			settled := false
			if !s.auto() {
				for _, d := range s.recs {
					if !d.confirmed() {
						ready = false
					}
					if d.settled > 0 {
						settled = true
					}
				}
			}
			if ready {
				props := "S02 S09 S14 S15"
				if len(pend.recs) > 0 && pend.recs[len(pend.recs)-1].c.hush {
					props += " S11"
				}
				if settled {
					props += " S04"
				}
				if pend.tx != nil {
					props += " S06"
				}
				w.fail(props, "ready subscription starves", "%s: message %d in %s %s, but subscription %s of %s, which is ready, does not get it", when, pend.id, dest, why, s.id, s.c.name)
				break
			}
		}
	}
}

// gone: the server has closed its end.
func (c *cli) gone() bool {
	if c.conn == nil {
		return true
	}
	ok, _ := c.conn.Link().B.Closed()
	return ok
}

func (w *world) queues() []string {
	seen := map[string]bool{}
	var out []string
	for _, m := range w.msgs {
		if isQueue(m.dest) && !seen[m.dest] {
			seen[m.dest] = true
			out = append(out, m.dest)
		}
	}
	for _, s := range w.subs {
		if isQueue(s.dest) && !seen[s.dest] {
			seen[s.dest] = true
			out = append(out, s.dest)
		}
	}
	sort.Strings(out)
	return out
}

// stableTopics: every subscription that was in place and stayed has every message.
func (w *world) stableTopics(when string) {
	for _, s := range w.subs {
		if isQueue(s.dest) || s.unsub != nil || !s.c.healthy() || s.sub.conf == 0 {
			continue
		}
		got := map[*msg]bool{}
		for _, d := range s.recs {
			got[d.m] = true
		}
		for _, m := range w.msgs {
			if m.dest == s.dest && m.eff > s.sub.conf && m.confirmed() > 0 && !got[m] {
				props := "S05 S09"
				if m.tx != nil {
					props += " S06"
				}
				w.fail(props, "topic message missing", "%s: message %d to %s was not delivered to subscription %s of %s, which was in place", when, m.id, m.dest, s.id, s.c.name)
				return
			}
		}
	}
}

// finalCheck looks at the whole history.
func (w *world) finalCheck() {
	for _, m := range w.msgs {
		if !isQueue(m.dest) || m.stErr {
			continue
		}
		if m.confirmed() > 0 {
			lost := ""
			if len(m.recs) == 0 {
				lost = "was never delivered"
			} else if l := m.recs[len(m.recs)-1]; !l.s.auto() && !(l.settled > 0 && !l.nack) {
				lost = fmt.Sprintf("was last delivered to %s (sub %s), which did not acknowledge it, and not delivered again", l.c.name, l.s.id)
			}
			if lost != "" {
				props := "S02 S14"
				if m.tx != nil {
					props += " S06"
				}
				if n := len(m.recs); n > 0 {
					l := m.recs[n-1]
					if l.settled == 0 && l.settle != nil {
						props += " S06"
					}
					if l.c.anySettled() {
						props += " S04"
					}
					if l.c.badSent != nil {
						props += " S08"
					}
					if l.c.hush {
						props += " S11"
					}
				} else if m.prod.out != nil && m.prod.disturbed > 0 {
					props += " S07"
				}
				w.fail(props, "message lost", "message %d of %s to %s was confirmed and %s", m.id, m.prod.name, m.dest, lost)
			}
		}
	}
	// transactions are all or nothing
	seen := map[*txn]bool{}
	for _, m := range w.msgs {
		t := m.tx
		if t == nil || seen[t] || t.commit == nil {
			continue
		}
		seen[t] = true
		in, out := 0, 0
		for _, x := range t.msgs {
			if !isQueue(x.dest) || x.stErr {
				continue
			}
			if len(x.recs) > 0 {
				in++
			} else {
				out++
			}
		}
		if in > 0 && out > 0 {
			w.fail("S06", "partial commit", "transaction %s of %s: %d of its queue messages took effect and %d did not", t.name, t.c.name, in, out)
		}
	}
	// all subscriptions of a topic agree on the order
	byDest := map[string][]*ssub{}
	for _, s := range w.subs {
		if !isQueue(s.dest) {
			byDest[s.dest] = append(byDest[s.dest], s)
		}
	}
	for _, dest := range sortedKeys(byDest) {
		l := byDest[dest]
		for i := range l {
			pos := map[*msg]int{}
			for k, d := range l[i].recs {
				pos[d.m] = k + 1
			}
			for j := i + 1; j < len(l); j++ {
				last := 0
				for _, d := range l[j].recs {
					p := pos[d.m]
					if p == 0 {
						continue
					}
					if p < last {
						w.fail("S05", "subscribers disagree on the order", "two subscriptions of %s got message %d in different order", dest, d.m.id)
					}
					last = p
				}
			}
		}
	}
}

// leakCheck: nothing of the ended connections is left in the server.
func (w *world) leakCheck() {
	for _, b := range sim.Alive() {
		if b.Site != "" && !w.base[b.ID] && b.What != "accept" {
			w.fail("S08 S11 S13", "goroutine left", "all connections have ended but this is left: %v", b)
			return
		}
	}
}

// drain connects one fresh consumer per queue and takes everything out.
func (w *world) drainAll() {
	w.draining = true
	w.c.Log("drain phase")
	c := w.newCli(1000, "drain", nil)
	start := sim.Now()
	done := sim.Start("drain", 0, func() {
		if err := c.dial(); err != nil {
			w.fail("S09 S13", "dial refused", "the server no longer listens: %v", err)
			return
		}
		if !c.connect() {
			return
		}
		for i, q := range w.queues() {
			c.subscribe(fmt.Sprintf("d%d", i), q, "", true)
		}
		// one message per queue through the whole server
		for _, q := range w.queues() {
			c.sendMsg(q, 3, "", true)
		}
		c.pe.await(dur(20*sc), func() bool {
			for _, f := range c.out {
				if f.wants && f.rseq == 0 {
					return false
				}
			}
			return true
		})
	})
	sim.Quiesce(dur(40 * sc))
	if !done.Ended() || !c.connected || c.errored {
		w.fail("S02 S08 S09 S13 S14 S15", "server not serving", "a fresh client connecting at %v was not served within 40 s (connected %v)", start, c.connected)
	}
	w.midCheck("at the end")
	c.close(false)
	sim.Quiesce(dur(10 * sc))
}
