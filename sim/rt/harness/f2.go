package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/zzverif/sim"
	"github.com/go-stomp/stomp/v3/zzverif/simnet"
)

// The client scenario: the library's client, used by several tasks per
// connection, against a scripted broker that answers, delays, repeats, omits,
// sends errors and nonsense, falls silent or goes away.

// call is one call of the library.
type call struct {
	cc         *cconn
	gor        string
	kind       string // send txsend ack nack txack txnack begin commit abort sub unsub disc must
	key        string // identifies its frame on the wire; "" if it must not write any
	exp        *HF    // the frame it asks for
	rcpt       bool   // asks for a receipt
	start, end time.Duration
	sseq, eseq int
	err        error
	done       bool
	wire       *wframe
	sub        *csub
	tx         *ctxn
	shared     bool // other calls have the same key
}

func (k *call) String() string {
	s := fmt.Sprintf("%s by %s", k.kind, k.gor)
	if k.key != "" {
		s += " (" + k.key + ")"
	}
	if !k.done {
		return s + " started at " + k.start.String() + ", not finished"
	}
	return s + fmt.Sprintf(" from %v to %v: %v", k.start, k.end, k.err)
}

// wframe is a frame the client has put on the wire.
type wframe struct {
	*HF
	idx  int
	call *call
}

// bframe is something the broker has sent.
type bframe struct {
	f     *HF
	kind  string // frame, beat, error, poison, norid
	sub   *csub
	rid   string
	req   int   // number of the frame it is the receipt of, 0: none
	end   int64 // stream offset of its end
	at    time.Duration
	seq   int // when it had arrived at the client, 0: never
	aseq  int // the same, also after the end of the session
	ready bool
}

// delivery is what came out of a subscription's channel.
type delivery struct {
	m      *stomp.Message
	body   string
	dest   string
	ctype  string
	head   [][2]string
	err    error
	closed bool
	read   bool // by Read
	at     time.Duration
	seq    int
}

type csub struct {
	cc       *cconn
	slot     int
	mode     stomp.AckMode
	id       string
	dest     string
	reply    bool
	k        *call // the subscribe call
	unsubs   []*call
	s        *stomp.Subscription
	sent     []*bframe // MESSAGE frames, in order of sending
	rec      []delivery
	pol      int64
	ended    bool // channel closed
	open     bool // the broker has it
	pend     []*stomp.Message
	bslot    int64
	ackHow   int64
	read     bool // its consumer calls Read
	stalled  bool // its consumer has stopped reading before the end
	lateRead bool // its consumer may read late
}

type ctxn struct {
	tx     *stomp.Transaction
	id     string
	begin  *call
	calls  []*call
	doneAt int // seq of the first success of commit or abort
}

type cconn struct {
	w        *cworld
	i        int
	a        *Actor
	link     *simnet.Link
	cl, bc   *simnet.Conn
	br       *peer
	conn     *stomp.Conn
	cerr     error
	ver      stomp.Version
	connSeq  int
	connAt   time.Duration
	wp       parser
	wire     []*wframe
	beats    int
	lastSent time.Duration
	worstGap time.Duration
	calls    []*call
	subs     []*csub
	slots    [64]*csub
	txs      []*ctxn
	txslot   [64]*ctxn
	sent     []*bframe
	arrived  int // number of sent that have arrived
	poison   *bframe
	errF     *bframe
	off      int64
	lastArr  time.Duration
	outq     []*outItem
	outwl    sim.WaitList
	held     []*outItem // receipts held back to be answered out of order
	downAt   time.Duration
	downSeq  int
	downWhy  string
	silence  time.Duration // how long the peer had been silent when it went down
	brng     *sim.Rand
	silent   bool
	silentAt time.Duration
	nmsg     int
	nreq     int  // frames the broker has received
	nice     bool // the broker answers everything at once from now on
	healthy  bool // at the settling point
	paused   bool // the broker has stopped reading at some time
	hushing  bool
	gapEnd   bool
}

type outItem struct {
	b    []byte
	bf   *bframe
	act  string
	what string
}

type cworld struct {
	c        *Ctx
	p        *Plan
	conns    []*cconn
	tok, urc int
	td       bool
	tdwl     sim.WaitList
	settleAt int
	settleT  time.Duration
	probing  bool
	ids      map[string]string
}

func (w *cworld) fail(props, class, format string, a ...any) {
	for _, p := range strings.Fields(props) {
		w.c.Fail(p, class, format, a...)
	}
}

// slack is how long the plan may keep tasks from running.
func (w *cworld) slack() time.Duration {
	return dur(int64(w.p.Sched.FrzNum)*w.p.Sched.FrzMax) + dur(5*ms)
}

type plainConn struct{ c *simnet.Conn }

func (p plainConn) Read(b []byte) (int, error)  { return p.c.Read(b) }
func (p plainConn) Write(b []byte) (int, error) { return p.c.Write(b) }
func (p plainConn) Close() error                { return p.c.Close() }

// ---- broker ----

// put queues something for the client.
func (cc *cconn) put(bf *bframe, d time.Duration) {
	it := &outItem{b: bf.f.encode(false), bf: bf, what: bf.f.String()}
	cc.putItem(it, d)
}

func (cc *cconn) putItem(it *outItem, d time.Duration) {
	if d > 0 {
		sim.After(d, func() { cc.outq = append(cc.outq, it); cc.outwl.WakeAll() })
		return
	}
	cc.outq = append(cc.outq, it)
	cc.outwl.WakeAll()
}

func (cc *cconn) writer() {
	for {
		for len(cc.outq) == 0 {
			cc.outwl.Wait("broker idle")
		}
		it := cc.outq[0]
		cc.outq = cc.outq[1:]
		switch it.act {
		case "fin":
			cc.w.c.Log("broker %d closes", cc.i)
			cc.bc.Close()
			return
		case "rst":
			cc.w.c.Log("broker %d resets", cc.i)
			cc.bc.Abort()
			return
		case "stop":
			return
		}
		if cc.silent {
			continue
		}
		if it.bf.f.Cmd == "MESSAGE" && it.bf.sub != nil {
			it.bf.sub.sent = append(it.bf.sub.sent, it.bf)
		}
		it.bf.end = cc.off + int64(len(it.b))
		cc.sent = append(cc.sent, it.bf)
		if cc.br.sendBytes(it.b, it.what) != nil {
			return
		}
		cc.off += int64(len(it.b))
	}
}

// arrive is told how many bytes have reached the client.
func (cc *cconn) arrive(total int64) {
	cc.lastArr = sim.Now()
	for cc.arrived < len(cc.sent) && cc.sent[cc.arrived].end <= total {
		bf := cc.sent[cc.arrived]
		cc.arrived++
		bf.aseq = nextSeq()
		if cc.poison != nil || cc.errF != nil {
			continue
		}
		bf.at, bf.seq = sim.Now(), nextSeq()
		switch bf.kind {
		case "poison":
			cc.poison = bf
		case "error", "norid":
			cc.errF = bf
		}
	}
}

func (cc *cconn) down(why string) {
	cc.gap()
	cc.downAt, cc.downSeq, cc.downWhy = sim.Now(), nextSeq(), why
	cc.silence = sim.Now() - cc.lastArr
	cc.w.c.Log("connection %d is over: %s", cc.i, why)
}

// gap measures the silence of the client.
func (cc *cconn) gap() {
	if cc.connSeq == 0 || cc.downSeq > 0 || cc.cl.Blocked || cc.gapEnd {
		return
	}
	if g := sim.Now() - cc.lastSent; g > cc.worstGap {
		cc.worstGap = g
	}
}

// onWire sees what the client writes.
func (cc *cconn) onWire(b []byte) {
	w := cc.w
	cc.gap()
	cc.lastSent = sim.Now()
	cc.wp.buf = append(cc.wp.buf, b...)
	for f := cc.wp.next(); f != nil; f = cc.wp.next() {
		f.At, f.Seq = sim.Now(), nextSeq()
		if f.Cmd == "" {
			cc.beats++
			continue
		}
		cc.wire = append(cc.wire, &wframe{HF: f, idx: len(cc.wire)})
		w.c.Note(f.Cmd)
	}
	if cc.wp.err != nil {
		w.fail("C02 C10", "garbled output", "connection %d: what the client wrote is not a sequence of STOMP frames: %v", cc.i, cc.wp.err)
	}
}

// onFrame is the broker's answer to a frame.
func (cc *cconn) onFrame(f *HF) {
	k := cc.a.k
	r := cc.brng
	if f.Cmd != "" {
		cc.nreq++
	}
	switch f.Cmd {
	case "":
		return
	case "CONNECT", "STOMP":
		g := mk("CONNECTED", "server", "simbroker/1", "session", fmt.Sprintf("s-%d", cc.i))
		if v := k("ver"); v > 0 {
			g.with("version", fmt.Sprintf("%d.%d", v/10, v%10))
		}
		if k("hbh") == 1 {
			g.with("heart-beat", fmt.Sprintf("%d,%d", k("sx"), k("sy")))
		}
		cc.put(&bframe{f: g, kind: "frame"}, 0)
		return
	case "SUBSCRIBE":
		id := f.get("id")
		for _, s := range cc.subs {
			if s.dest == f.get("destination") {
				s.open = true
				s.id = id
				for i := int64(0); i < k("auto"); i++ {
					cc.message(s, int(k("autosz")), 0)
				}
			}
		}
	case "SEND":
		// the SUBSCRIBE for a temporary reply queue is not sent to the broker,
		// which replies to requests made after it
		for _, s := range cc.subs {
			if s.reply && !s.open && s.s != nil && len(s.unsubs) == 0 {
				key := frameKey(f, cc.ver)
				for _, o := range cc.calls {
					if o.key == key && o.sseq > s.k.eseq {
						s.open = true
						for i := int64(0); i < k("auto"); i++ {
							cc.message(s, int(k("autosz")), 0)
						}
						break
					}
				}
			}
		}
	case "UNSUBSCRIBE":
		var s *csub
		for _, x := range cc.subs {
			if x.open && x.id == f.get("id") {
				s = x
			}
		}
		if s == nil {
			break
		}
		rid, ok := f.lookup("receipt")
		if !ok {
			s.open = false
			return
		}
		um := k("umode")
		if cc.nice {
			um = 0
		}
		if um != 2 {
			for i := int64(0); i < k("umsgs"); i++ {
				cc.message(s, 5, 0)
			}
		}
		bf := &bframe{f: mk("RECEIPT", "receipt-id", rid), kind: "frame", rid: rid, req: cc.nreq}
		d := time.Duration(0)
		switch um {
		case 1:
			d = dur(r.Int63n(k("rdel") + 1))
		case 2:
			sim.Count("broker.no_receipt")
			return
		}
		it := &outItem{b: bf.f.encode(false), bf: bf, what: bf.f.String()}
		if d == 0 {
			s.open = false
			cc.putItem(it, 0)
		} else {
			sim.Count("broker.late_receipt")
			sim.After(d, func() { s.open = false; cc.putItem(it, 0) })
		}
		return
	case "DISCONNECT":
		rid := f.get("receipt")
		bf := &bframe{f: mk("RECEIPT", "receipt-id", rid), kind: "frame", rid: rid, req: cc.nreq}
		dm := k("dmode")
		if cc.nice && dm != 1 {
			dm = 0
		}
		switch dm {
		case 0:
			cc.put(bf, 0)
		case 1:
			cc.put(bf, 0)
			cc.putItem(&outItem{act: "fin"}, 0)
		case 2:
			cc.putItem(&outItem{act: "fin"}, 0)
		case 3:
			sim.Count("broker.no_receipt")
		case 4:
			cc.put(bf, dur(r.Int63n(k("rdel")+1)))
		case 5:
			cc.put(bf, 0)
			cc.put(bf2(bf), 0)
		case 6:
			bad := mk("RECEIPT", "receipt-id", "not-"+rid)
			cc.put(&bframe{f: bad, kind: "frame", rid: "not-" + rid}, 0)
		}
		return
	}
	if rid, ok := f.lookup("receipt"); ok {
		cc.receipt(f, rid)
	}
}

func bf2(b *bframe) *bframe { return &bframe{f: b.f, kind: b.kind, rid: b.rid, req: b.req} }

// receipt answers a receipt request, one way or the other.
func (cc *cconn) receipt(f *HF, rid string) {
	k, r := cc.a.k, cc.brng
	bf := &bframe{f: mk("RECEIPT", "receipt-id", rid), kind: "frame", rid: rid, req: cc.nreq}
	if cc.nice {
		cc.put(bf, 0)
		return
	}
	var d time.Duration
	mille := func(name string) bool { return r.Mille(int(k(name))) }
	if mille("rlate") {
		sim.Count("broker.late_receipt")
		d = dur(r.Int63n(k("rdel") + 1))
	}
	if mille("rnever") {
		sim.Count("broker.no_receipt")
		return
	}
	if mille("rwrong") {
		sim.Count("broker.unknown_receipt")
		x := pick(r, "0", "", "999999", rid+"0", "x"+rid, "0"+rid, "+"+rid, rid+" ", " "+rid, rid+"\n", rid+".0")
		cc.put(&bframe{f: mk("RECEIPT", "receipt-id", x), kind: "frame", rid: x}, d)
	}
	if mille("rerr") {
		sim.Count("broker.error")
		e := mk("ERROR", "message", "refused", "receipt-id", rid)
		e.Body = []byte("because")
		cc.put(&bframe{f: e, kind: "error"}, d)
		return
	}
	it := &outItem{b: bf.f.encode(false), bf: bf, what: bf.f.String()}
	if mille("rswap") {
		sim.Count("broker.reordered_receipt")
		cc.held = append(cc.held, it)
		if len(cc.held) > 1 {
			for len(cc.held) > 0 {
				n := len(cc.held) - 1
				cc.putItem(cc.held[n], d)
				cc.held = cc.held[:n]
			}
		}
		return
	}
	cc.putItem(it, d)
	for len(cc.held) > 0 {
		n := len(cc.held) - 1
		cc.putItem(cc.held[n], d)
		cc.held = cc.held[:n]
	}
	if mille("rdup") {
		sim.Count("broker.duplicate_receipt")
		cc.put(bf2(bf), d+dur(r.Int63n(k("rdel")+1)))
	}
}

// message sends a MESSAGE frame for a subscription.
func (cc *cconn) message(s *csub, size int, flags int64) {
	cc.nmsg++
	id := fmt.Sprintf("m%d-%d", cc.i, cc.nmsg)
	f := mk("MESSAGE", "subscription", s.id, "destination", "/d/"+id)
	bare := flags&8 != 0 // lacks what an acknowledgement needs
	if !bare || cc.ver == stomp.V12 {
		f.with("message-id", id)
	}
	if flags&1 != 0 {
		f.with("content-type", "text/plain; v="+id)
	}
	if (s.mode != stomp.AckAuto && cc.ver == stomp.V12 || cc.a.k("ackh") == 1) && !(bare && cc.ver == stomp.V12) {
		f.with("ack", "a"+id)
	}
	if flags&2 != 0 {
		f.with("x:y", "co:lon\nand\\more").with("dup", "1").with("dup", "2")
		if cc.brng.Intn(3) == 0 {
			h := userHeader(cc.brng)
			f.with(h[0], h[1])
		}
	}
	if n := cc.w.p.K["hdrs"]; n > 0 && cc.brng.Intn(3) == 0 {
		for ; n > 0; n-- {
			f.with(fmt.Sprintf("h%d", cc.brng.Intn(200)), longText(cc.brng, int(cc.w.p.K["hdrlen"])))
		}
	}
	body := make([]byte, 0, size+20)
	body = append(body, id...)
	body = append(body, ' ')
	for i := 0; i < size; i++ {
		b := byte(cc.brng.Uint64())
		if flags&4 == 0 && b == 0 {
			b = 1
		}
		body = append(body, b)
	}
	f.Body = body
	if flags&4 != 0 {
		f.with("content-length", strconv.Itoa(len(body)))
	}
	cc.put(&bframe{f: f, kind: "frame", sub: s}, 0)
}

// brokerScript runs the broker's own initiatives.
func (cc *cconn) brokerScript(a *Actor) {
	for i := range a.Ops {
		o := &a.Ops[i]
		sim.Sleep(dur(o.D))
		if cc.w.td {
			return
		}
		cc.brokerOp(o)
	}
}

func (cc *cconn) brokerOp(o *Op) {
	switch o.Op {
	case "nop":
	case "msg":
		s := cc.slots[o.A&63]
		if s == nil || !s.open {
			return
		}
		for i := int64(0); i < o.B; i++ {
			cc.message(s, int(o.C), o.E)
		}
	case "stray":
		f := mk("MESSAGE", "subscription", pick(cc.brng, "nobody", "0", "", "s-1"), "message-id", "x", "destination", "/d/x")
		if o.A == 1 {
			f = mk("MESSAGE", "message-id", "x", "destination", "/d/x")
		}
		f.Body = []byte("stray")
		cc.put(&bframe{f: f, kind: "frame"}, 0)
	case "rcpt":
		x := pick(cc.brng, "77777", "0", "", "zz")
		// also ids of live subscriptions, which are nobody's receipt
		if s := cc.slots[o.A&63]; o.B == 1 && s != nil && s.open && len(s.unsubs) == 0 && s.id != "" && !s.reply && s.k.done && cc.slots[o.A&63].bslot == 0 {
			x = "sub" + s.id
		}
		cc.put(&bframe{f: mk("RECEIPT", "receipt-id", x), kind: "frame", rid: x}, 0)
	case "odd":
		f := pick(cc.brng, mk("CONNECTED", "version", "1.1"), mk("SEND", "destination", "/x"), mk("ACK", "id", "1"), mk("BEGIN", "transaction", "t"))
		cc.put(&bframe{f: f, kind: "frame"}, 0)
	case "hb":
		for i := int64(0); i < o.A; i++ {
			cc.put(&bframe{f: mk(""), kind: "beat"}, 0)
		}
	case "err":
		f := mk("ERROR", "message", fmt.Sprintf("trouble %d", cc.i), "content-type", "text/x")
		if o.A == 1 {
			f = mk("ERROR")
		}
		f.Body = []byte("the details")
		sim.Count("broker.error")
		cc.put(&bframe{f: f, kind: "error"}, 0)
		if o.B == 1 {
			cc.putItem(&outItem{act: "fin"}, 0)
		}
	case "norid":
		sim.Count("broker.receipt_without_id")
		cc.put(&bframe{f: mk("RECEIPT", "foo", "bar"), kind: "norid"}, 0)
	case "garbage":
		sim.Count("broker.garbage")
		g := pick(cc.brng, "HELLO\n\n\x00", "MESSAGE\nnocolon\n\n\x00", "MESSAGE\n:x\n\n\x00", "ERROR\ncontent-length:x\n\n\x00",
			"MESSAGE\ncontent-length:-1\n\n\x00", "MESSAGE\ncontent-length:3\n\nabcd\x00", "\x00\x00\x00\n", "RECEIPT\nreceipt-id\n\n\x00", "\xff\xfe\xfd\n\n\x00", "message\n\n\x00", "MESSAGE\ncontent-length:18446744073709551616\n\n\x00")
		cc.putItem(&outItem{b: []byte(g), bf: &bframe{f: mk("?"), kind: "poison"}, what: fmt.Sprintf("garbage %q", g)}, 0)
	case "fin", "rst":
		sim.Count("broker." + o.Op)
		cc.putItem(&outItem{act: o.Op}, 0)
	case "pause":
		sim.Count("broker.pause")
		cc.paused = true
		cc.br.pauseUntil = sim.Now() + dur(o.A)
	case "silent":
		sim.Count("broker.silent")
		cc.silent = true
		cc.silentAt = sim.Now()
		if o.A == 1 {
			cc.paused = true
			cc.br.pauseUntil = sim.Now() + dur(10000*sc)
		}
	}
}

// brokerBeat keeps the broker's heart-beat promise.
func (cc *cconn) brokerBeat() {
	iv := dur(cc.a.k("sx") * ms)
	if cc.a.k("hbh") == 0 || iv <= 0 || cc.a.k("nobeat") == 1 {
		return
	}
	mode := cc.a.k("beatmode")
	for !cc.silent && cc.downSeq == 0 && cc.br.writeErr == nil {
		d := iv
		switch mode {
		case 1:
			d = iv / 3
		case 2:
			d = dur(cc.brng.Int63n(int64(iv)) + 1)
		}
		sim.Sleep(d)
		if cc.silent {
			return
		}
		if len(cc.outq) == 0 {
			if s := cc.slots[0]; mode == 3 && s != nil && s.open {
				cc.message(s, 3, 0)
			} else {
				cc.put(&bframe{f: mk(""), kind: "beat"}, 0)
			}
		}
	}
}

// ---- client side ----

func (w *cworld) newConn(i int) *cconn {
	a := &w.p.Actors[i]
	cc := &cconn{w: w, i: len(w.conns), a: a, brng: sim.NewRand(w.p.Seed ^ uint64(i+1)*0xabcdef)}
	w.conns = append(w.conns, cc)
	return cc
}

func (cc *cconn) timeout(name string, def time.Duration) time.Duration {
	v, ok := cc.a.K[name]
	if !ok {
		return def
	}
	return dur(v)
}

func (cc *cconn) options() []func(*stomp.Conn) error {
	k := cc.a.k
	o := stomp.ConnOpt
	opts := append(logOpts(k("log")), o.HeartBeat(dur(k("cx")*ms), dur(k("cy")*ms)))
	if v, ok := cc.a.K["hberr"]; ok {
		opts = append(opts, o.HeartBeatError(dur(v)))
	}
	if v, ok := cc.a.K["grace"]; ok {
		opts = append(opts, o.HeartBeatGracePeriodMultiplier(float64(v)/100))
	}
	if v, ok := cc.a.K["mst"]; ok {
		opts = append(opts, o.MsgSendTimeout(dur(v)))
	}
	if v, ok := cc.a.K["rct"]; ok {
		opts = append(opts, o.RcvReceiptTimeout(dur(v)))
	}
	if v, ok := cc.a.K["dct"]; ok {
		opts = append(opts, o.DisconnectReceiptTimeout(dur(v)))
	}
	if v, ok := cc.a.K["uct"]; ok {
		opts = append(opts, o.UnsubscribeReceiptTimeout(dur(v)))
	}
	if v := k("rcap"); v > 0 {
		opts = append(opts, o.ReadChannelCapacity(int(v)))
	}
	if v := k("wcap"); v > 0 {
		opts = append(opts, o.WriteChannelCapacity(int(v)))
	}
	if v := k("rbuf"); v > 0 {
		opts = append(opts, o.ReadBufferSize(int(v)))
	}
	if v := k("wbuf"); v > 0 {
		opts = append(opts, o.WriteBufferSize(int(v)))
	}
	if k("stats") == 1 {
		opts = append(opts, o.WithStats())
	}
	return opts
}

// connect sets the connection up.
func (cc *cconn) connect() bool {
	w := cc.w
	cc.cl, cc.bc = cc.link.A, cc.link.B
	cc.cl.OnSent(cc.onWire)
	cc.cl.OnDown = cc.down
	cc.cl.OnRecv = cc.arrive
	cc.cl.OnUnblock = func() { cc.lastSent = sim.Now() }
	cc.br = newPeer(w.c, fmt.Sprintf("broker%d", cc.i), cc.bc, 0)
	cc.br.onFrame = cc.onFrame
	cc.ver = stomp.V10
	if v := cc.a.k("ver"); v > 0 {
		cc.ver = stomp.Version(fmt.Sprintf("%d.%d", v/10, v%10))
	}
	cc.br.start()
	sim.Start(fmt.Sprintf("broker%d.wr", cc.i), 0, cc.writer)
	var rw io.ReadWriteCloser = cc.cl
	if cc.a.k("plain") == 1 {
		rw = plainConn{cc.cl}
	}
	cc.lastSent = sim.Now()
	cc.conn, cc.cerr = stomp.Connect(rw, cc.options()...)
	if cc.cerr != nil {
		w.c.Log("connect %d: %v", cc.i, cc.cerr)
		cc.conn = nil
		return false
	}
	cc.connSeq, cc.connAt = nextSeq(), sim.Now()
	if cc.lastSent < cc.connAt {
		cc.lastSent = cc.connAt
	}
	sim.Start(fmt.Sprintf("broker%d.beat", cc.i), 0, cc.brokerBeat)
	return true
}

// do makes a call of the library and records it.
func (cc *cconn) do(gor string, k *call, f func() error) error {
	k.cc, k.gor = cc, gor
	k.start, k.sseq = sim.Now(), nextSeq()
	cc.calls = append(cc.calls, k)
	if cc.w.c.verbose {
		cc.w.c.Log("%s calls %s on %d: %s", gor, k.kind, cc.i, k.key)
	}
	err := f()
	k.err = err
	k.end, k.eseq, k.done = sim.Now(), nextSeq(), true
	cc.w.c.Done()
	if cc.w.c.verbose {
		cc.w.c.Log("%s: %s on %d (%s) returns %v", gor, k.kind, cc.i, k.key, err)
	}
	cc.w.c.Note(k.kind + fmt.Sprint(err == nil))
	return err
}

// sendParts builds the arguments of a send and the frame it is to give.
func (cc *cconn) sendParts(size int, flags int64) (tok, dest, ct string, body []byte, opts []func(*frame.Frame) error, exp *HF) {
	w := cc.w
	w.tok++
	tok = fmt.Sprintf("t%d", w.tok)
	dest = "/q/" + tok
	if flags&4 != 0 {
		dest = "/q/:\\" + tok + "\n"
	}
	body = []byte(tok + " ")
	r := sim.NewRand(w.p.Seed ^ uint64(w.tok)*77)
	for i := 0; i < size; i++ {
		b := byte(r.Uint64())
		if flags&2 != 0 && b == 0 {
			b = 1
		}
		body = append(body, b)
	}
	exp = mk("SEND", "destination", dest)
	if flags&2 == 0 {
		exp.with("content-length", strconv.Itoa(len(body)))
	} else {
		opts = append(opts, stomp.SendOpt.NoContentLength)
	}
	if flags&8 == 0 {
		ct = "text/plain; t=" + tok
		exp.with("content-type", ct)
	}
	switch {
	case flags&32 != 0:
		// ids of the caller's that are nearly the same
		id := fmt.Sprintf("urc-%d%s", w.urc/6, []string{"", " ", "a", "A", "\n", "a "}[w.urc%6])
		w.urc++
		opts = append(opts, stomp.SendOpt.Header("receipt", id))
		exp.with("receipt", id)
	case flags&1 != 0:
		opts = append(opts, stomp.SendOpt.Receipt)
	}
	if flags&4 != 0 {
		opts = append(opts, stomp.SendOpt.Header("x-h", tok), nil, stomp.SendOpt.Header("x-h", "second:"+tok), stomp.SendOpt.Header("k:\n\\", "v:\r\n\\"+tok))
		exp.with("x-h", tok).with("x-h", "second:"+tok).with("k:\n\\", "v:\r\n\\"+tok)
		if r.Intn(3) == 0 {
			h := userHeader(r)
			opts = append(opts, stomp.SendOpt.Header(h[0], h[1]))
			exp.with(h[0], h[1])
		}
	}
	if n := w.p.K["hdrs"]; n > 0 && r.Intn(3) == 0 {
		// many headers, or long ones
		for ; n > 0; n-- {
			h := [2]string{fmt.Sprintf("h%d", r.Intn(200)), longText(r, int(w.p.K["hdrlen"]))}
			opts = append(opts, stomp.SendOpt.Header(h[0], h[1]))
			exp.with(h[0], h[1])
		}
	}
	exp.Body = append([]byte(nil), body...)
	return
}

func (cc *cconn) send(g string, size int, flags int64) error {
	tok, dest, ct, body, opts, exp := cc.sendParts(size, flags)
	k := &call{kind: "send", key: "SEND " + tok, exp: exp, rcpt: flags&1 != 0}
	err := cc.do(g, k, func() error { return cc.conn.Send(dest, ct, body, opts...) })
	if flags&16 != 0 {
		for i := range body {
			body[i] = '!'
		}
	}
	return err
}

func (cc *cconn) begin(g string, slot int) *ctxn {
	k := &call{kind: "begin", key: "BEGIN"}
	t := &ctxn{begin: k}
	k.tx = t
	cc.do(g, k, func() error {
		var err error
		t.tx, err = cc.conn.BeginWithError()
		if t.tx != nil {
			t.id = t.tx.Id()
		}
		return err
	})
	k.key = "BEGIN " + t.id
	k.exp = mk("BEGIN", "transaction", t.id)
	cc.txs = append(cc.txs, t)
	if k.err == nil {
		cc.txslot[slot&63] = t
	}
	return t
}

func (cc *cconn) txEnd(g string, t *ctxn, commit, rcpt bool) {
	cmd, kind := "ABORT", "abort"
	if commit {
		cmd, kind = "COMMIT", "commit"
	}
	k := &call{kind: kind, key: cmd + " " + t.id, exp: mk(cmd, "transaction", t.id), rcpt: rcpt, tx: t, shared: true}
	t.calls = append(t.calls, k)
	cc.do(g, k, func() error {
		switch {
		case commit && rcpt:
			return t.tx.CommitWithReceipt()
		case commit:
			return t.tx.Commit()
		case rcpt:
			return t.tx.AbortWithReceipt()
		}
		return t.tx.Abort()
	})
	if k.err == nil && t.doneAt == 0 {
		t.doneAt = k.eseq
	}
}

func (cc *cconn) txSend(g string, t *ctxn, size int, flags int64) {
	tok, dest, ct, body, opts, exp := cc.sendParts(size, flags)
	exp.with("transaction", t.id)
	if body[len(body)-1]&15 == 7 {
		opts = append(opts, stomp.SendOpt.Header("transaction", "other"))
	}
	k := &call{kind: "txsend", key: "SEND " + tok, exp: exp, rcpt: flags&1 != 0, tx: t}
	t.calls = append(t.calls, k)
	cc.do(g, k, func() error { return t.tx.Send(dest, ct, body, opts...) })
	if flags&16 != 0 {
		for i := range body {
			body[i] = '!'
		}
	}
}

// ack acknowledges or rejects a message.
func (cc *cconn) ack(g string, s *csub, m *stomp.Message, nack bool, t *ctxn) {
	cmd, kind := "ACK", "ack"
	if nack {
		cmd, kind = "NACK", "nack"
	}
	k := &call{kind: kind, sub: s, tx: t}
	id := m.Header.Get("message-id")
	need := "message-id"
	if cc.ver == stomp.V12 {
		need = "ack"
	}
	_, has := m.Header.Contains(need)
	switch {
	case s.mode == stomp.AckAuto:
	case nack && cc.ver == stomp.V10:
	case !has:
		kind = "badack"
		k.kind, t = kind, nil
	case cc.ver == stomp.V12:
		k.key = cmd + " a" + id
		k.exp = mk(cmd, "id", "a"+id)
	default:
		k.key = cmd + " " + id
		k.exp = mk(cmd, "subscription", s.id, "message-id", id)
	}
	for _, o := range cc.calls {
		if o.key == k.key && o.gor != g {
			o.shared, k.shared = true, true
		}
	}
	if t != nil {
		k.kind = "tx" + kind
		if k.exp != nil {
			k.exp.with("transaction", t.id)
			k.key += " " + t.id
		}
		t.calls = append(t.calls, k)
	}
	cc.do(g, k, func() error {
		switch {
		case t != nil && nack:
			return t.tx.Nack(m)
		case t != nil:
			return t.tx.Ack(m)
		case nack:
			return cc.conn.Nack(m)
		}
		return cc.conn.Ack(m)
	})
	if k.kind == "badack" && k.err == nil {
		cc.w.fail("C13", "message without id acknowledged", "%v of a message without %q header", k, need)
	}
}

// alien acknowledges something that has not been received.
func (cc *cconn) alien(g string, o *Op) {
	m := &stomp.Message{Destination: "/alien", Body: []byte("alien")}
	if o.B&1 != 0 {
		m.Conn = cc.conn
		m.Header = frame.NewHeader("message-id", "m1", "ack", "a1")
	}
	k := &call{kind: "badack"}
	cc.do(g, k, func() error {
		t := cc.txslot[o.A&63]
		switch {
		case o.C&1 != 0 && t != nil && t.tx != nil && o.C&2 != 0:
			return t.tx.Nack(m)
		case o.C&1 != 0:
			return cc.conn.Nack(m)
		case t != nil && t.tx != nil && o.C&2 != 0:
			return t.tx.Ack(m)
		}
		return cc.conn.Ack(m)
	})
	if k.err == nil {
		cc.w.fail("C13", "acknowledged what was not received", "acknowledging a message that was not received succeeds")
	}
}

func (cc *cconn) subscribe(g string, o *Op) {
	slot := int(o.A) & 63
	old := cc.slots[slot]
	if old != nil && o.C&32 == 0 {
		return
	}
	id := ""
	if old != nil {
		// again under the id of a subscription that has ended
		if !old.ended || len(old.unsubs) == 0 || old.unsubs[0].err != nil || old.bslot == 0 {
			return
		}
		id = old.id
	}
	w := cc.w
	w.tok++
	tok := w.tok
	s := &csub{cc: cc, slot: slot, mode: stomp.AckMode(o.B % 3), dest: fmt.Sprintf("/s/%d", tok), pol: o.E % 100, ackHow: o.E / 100, read: o.C&64 != 0}
	cc.slots[slot] = s
	cc.subs = append(cc.subs, s)
	var opts []func(*frame.Frame) error
	k := &call{kind: "sub", key: "SUBSCRIBE " + s.dest, sub: s}
	k.exp = mk("SUBSCRIBE", "destination", s.dest, "ack", s.mode.String())
	if o.C&1 != 0 || id != "" {
		if id == "" {
			id = fmt.Sprintf("u%d:%d", cc.i, tok)
		}
		s.bslot = 1
		opts = append(opts, stomp.SubscribeOpt.Id(id))
		k.exp.with("id", id)
	}
	if o.C&2 != 0 {
		opts = append(opts, stomp.SubscribeOpt.Header("x-sub", s.dest), nil)
		k.exp.with("x-sub", s.dest)
	}
	if o.C&4 != 0 {
		opts = append(opts, stomp.SubscribeOpt.Header("receipt", "urc-"+s.dest))
		k.exp.with("receipt", "urc-"+s.dest)
	}
	if o.C&8 != 0 && id == "" {
		s.reply = true
		rt := "/temp-queue/" + s.dest
		opts = append(opts, stomp.SubscribeOpt.Header("reply-to", rt))
		k.exp.with("reply-to", rt)
		s.id = rt
		k.key = ""
	}
	s.k = k
	s.lateRead = s.pol != 0
	cc.do(g, k, func() error {
		sub, err := cc.conn.Subscribe(s.dest, s.mode, opts...)
		if sub != nil {
			s.id = sub.Id()
			s.s = sub
		}
		return err
	})
	if k.err != nil || s.s == nil {
		return
	}
	sim.Start(fmt.Sprintf("cons%d.%d", cc.i, tok), 0, s.consume)
	if s.reply {
		// a request that the broker can reply to
		cc.send(g, 3, 0)
	}
}

// consume reads the subscription's channel.
func (s *csub) consume() {
	cc, w := s.cc, s.cc.w
	name := sim.CurName()
	r := sim.NewRand(w.p.Seed ^ hash64(s.dest)*991)
	n := 0
	for {
		for !w.td && (s.pol == 2 && n >= 3 || s.pol == 4 && len(s.unsubs) > 0) {
			s.stalled = true
			w.tdwl.Wait("not reading")
		}
		switch {
		case w.td:
		case s.pol == 1:
			sim.Sleep(dur(r.Int63n(20 * ms)))
		case s.pol == 3 && n == 2:
			sim.Sleep(dur(r.Int63n(3 * sc)))
		}
		var m *stomp.Message
		var ok bool
		var err error
		if s.read {
			m, err = s.s.Read()
			ok = !isErr(err, stomp.ErrCompletedSubscription)
		} else {
			m, ok = s.s.C.Recv2()
		}
		d := delivery{m: m, at: sim.Now(), seq: nextSeq(), closed: !ok, read: s.read, err: err}
		if !ok {
			d.err = nil
		}
		if err != nil && m != nil {
			w.fail("C07", "message and error", "Read on subscription %s returned both a message and %v", s.dest, err)
			return
		}
		if ok && err != nil {
			s.rec = append(s.rec, d)
			if w.c.verbose {
				w.c.Log("subscription %s reads error %v", s.dest, d.err)
			}
			continue
		}
		if ok && m == nil {
			w.fail("C07", "nil message", "subscription %s delivered a nil message", s.dest)
			return
		}
		if ok {
			d.err, d.body, d.dest, d.ctype = m.Err, string(m.Body), m.Destination, m.ContentType
			if m.Header != nil {
				for i := 0; i < m.Header.Len(); i++ {
					k, v := m.Header.GetAt(i)
					d.head = append(d.head, [2]string{k, v})
				}
			}
		}
		s.rec = append(s.rec, d)
		if w.c.verbose {
			w.c.Log("subscription %s gets %q err %v closed %v", s.dest, d.body, d.err, d.closed)
		}
		if !ok {
			if s.read {
				if m, err := s.s.Read(); m != nil || !isErr(err, stomp.ErrCompletedSubscription) {
					w.fail("C07 C08", "read after the end", "Read on subscription %s, at its end, returned a message (%v) or %v", s.dest, m != nil, err)
				}
			}
			s.ended = true
			return
		}
		n++
		if d.err != nil {
			if s.mode != stomp.AckAuto && r.Intn(3) == 0 {
				// an error is not a message that can be acknowledged
				k := &call{kind: "badack"}
				nack := r.Intn(2) == 0
				cc.do(name, k, func() error {
					if nack {
						return cc.conn.Nack(m)
					}
					return cc.conn.Ack(m)
				})
				if k.err == nil {
					w.fail("C13", "acknowledged what was not received", "acknowledging the error on subscription %s succeeds", s.dest)
				}
			}
			continue
		}
		if m.Conn != cc.conn || m.Subscription != s.s {
			w.fail("C07", "wrong message links", "a message of %s names another connection or subscription", s.dest)
		}
		if m.ShouldAck() != (s.mode != stomp.AckAuto) {
			w.fail("C13", "wrong ShouldAck", "ShouldAck is %v in mode %v", m.ShouldAck(), s.mode)
		}
		if r.Intn(4) == 0 {
			if got, err := readBody(m, r); got != d.body || err != io.EOF {
				w.fail("C07", "body read differently", "subscription %s: reading the body %.60q gives %.60q, %v", s.dest, d.body, got, err)
			}
		}
		switch s.ackHow {
		case 0:
			s.pend = append(s.pend, m)
		case 1, 2:
			cc.ack(name, s, m, false, nil)
		case 3:
			cc.ack(name, s, m, true, nil)
		case 4:
			if t := cc.txslot[0]; t != nil && t.doneAt == 0 {
				cc.ack(name, s, m, n%2 == 0, t)
			}
		}
	}
}

// readBody reads a copy of the message with Read and ReadByte.
func readBody(m *stomp.Message, r *sim.Rand) (string, error) {
	c := *m
	var got []byte
	for i := 0; i < len(m.Body)+100; i++ {
		if r.Intn(3) == 0 {
			b, err := c.ReadByte()
			if err != nil {
				return string(got), err
			}
			got = append(got, b)
			continue
		}
		p := make([]byte, 1+r.Intn(1+len(m.Body)))
		n, err := c.Read(p)
		if n < 0 || n > len(p) {
			return string(got), fmt.Errorf("Read returned %d for a buffer of %d", n, len(p))
		}
		got = append(got, p[:n]...)
		if err != nil {
			return string(got), err
		}
	}
	return string(got), fmt.Errorf("no end")
}

var errOption = errors.New("option refuses")

// refused makes a call with an option that fails: it must report that, and do
// nothing.
func (cc *cconn) refused(g string, o *Op) {
	var good []func(*frame.Frame) error
	var bad func(*frame.Frame) error
	var want error = stomp.ErrInvalidCommand
	custom := func(f *frame.Frame) error {
		f.Header.Set("destination", "/refused")
		return errOption
	}
	k := &call{kind: "refused"}
	var call func(opts ...func(*frame.Frame) error) error
	props := "C02"
	switch o.B % 4 {
	case 0, 1:
		good = append(good, stomp.SendOpt.Header("a", "b"), stomp.SendOpt.Receipt)
		bad = pick(cc.brng, stomp.SubscribeOpt.Id("u1"), stomp.SubscribeOpt.Header("a", "b"), nil)
		call = func(opts ...func(*frame.Frame) error) error {
			return cc.conn.Send("/refused", "text/plain", []byte("refused"), opts...)
		}
		if t := cc.txslot[o.A&63]; o.B%4 == 1 && t != nil {
			props = "C02 C13"
			call = func(opts ...func(*frame.Frame) error) error {
				return t.tx.Send("/refused", "text/plain", []byte("refused"), opts...)
			}
		}
	case 2:
		good = append(good, stomp.SubscribeOpt.Header("a", "b"))
		bad = pick(cc.brng, stomp.SendOpt.Receipt, stomp.SendOpt.NoContentLength, stomp.SendOpt.Header("a", "b"), nil)
		call = func(opts ...func(*frame.Frame) error) error {
			_, err := cc.conn.Subscribe("/refused", stomp.AckAuto, opts...)
			return err
		}
	case 3:
		s := cc.slots[o.A&63]
		if s == nil || s.s == nil {
			return
		}
		props = "C02 C08"
		good = append(good, stomp.SubscribeOpt.Header("a", "b"))
		bad = pick(cc.brng, stomp.SubscribeOpt.Id("u1"), stomp.SendOpt.Receipt, stomp.SendOpt.Header("a", "b"), nil)
		call = func(opts ...func(*frame.Frame) error) error { return s.s.Unsubscribe(opts...) }
	}
	if bad == nil {
		bad, want = custom, errOption
	}
	opts := append(good, bad)
	if o.C&1 != 0 {
		opts = append([]func(*frame.Frame) error{bad}, good...)
	}
	cc.do(g, k, func() error { return call(opts...) })
	if k.err == nil || !isErr(k.err, want) && !isErr(k.err, stomp.ErrAlreadyClosed) && !isErr(k.err, stomp.ErrClosedUnexpectedly) && !isErr(k.err, stomp.ErrCompletedSubscription) && !isErr(k.err, stomp.ErrCompletedTransaction) {
		cc.w.fail(props, "refused option ignored", "call %d with an option that returns %q returned %v", o.B%4, want, k.err)
	}
}

func (cc *cconn) unsubscribe(g string, s *csub, flags int64) {
	k := &call{kind: "unsub", sub: s, rcpt: true}
	if !s.reply {
		k.key = "UNSUBSCRIBE " + s.id
		k.exp = mk("UNSUBSCRIBE", "id", s.id)
	}
	k.shared = true
	var opts []func(*frame.Frame) error
	if flags&1 != 0 {
		opts = append(opts, stomp.SubscribeOpt.Header("x-un", "yes"))
		if k.exp != nil {
			k.exp.with("x-un", "yes")
		}
	}
	s.unsubs = append(s.unsubs, k)
	cc.do(g, k, func() error { return s.s.Unsubscribe(opts...) })
}

// script is the life of one task that uses connections.
func (w *cworld) script(name string, a *Actor) {
	cc := w.conns[int(a.k("conn"))%len(w.conns)]
	for i := range a.Ops {
		o := &a.Ops[i]
		sim.Sleep(dur(o.D))
		if w.td {
			return
		}
		if cc.conn == nil {
			return
		}
		w.op(name, cc, o)
	}
}

func (w *cworld) op(g string, cc *cconn, o *Op) {
	switch o.Op {
	case "send":
		n := o.C
		if n == 0 {
			n = 1
		}
		for i := int64(0); i < n; i++ {
			cc.send(g, int(o.A), o.B)
		}
	case "begin":
		if t := cc.txslot[o.A&63]; t == nil || t.doneAt > 0 {
			cc.begin(g, int(o.A))
		}
	case "txsend":
		if t := cc.txslot[o.A&63]; t != nil {
			cc.txSend(g, t, int(o.C), o.B)
		}
	case "commit", "abort":
		if t := cc.txslot[o.A&63]; t != nil {
			cc.txEnd(g, t, o.Op == "commit", o.B == 1)
		}
	case "sub":
		cc.subscribe(g, o)
	case "unsub":
		s := cc.slots[o.A&63]
		if s != nil && s.s != nil {
			cc.unsubscribe(g, s, o.B)
		}
	case "ack", "nack":
		s := cc.slots[o.A&63]
		if s == nil || len(s.pend) == 0 {
			return
		}
		i := int(o.B) % len(s.pend)
		m := s.pend[i]
		if o.C == 0 {
			s.pend = append(s.pend[:i:i], s.pend[i+1:]...)
		}
		var t *ctxn
		if o.E > 0 {
			if t = cc.txslot[(o.E-1)&63]; t == nil {
				return
			}
		}
		cc.ack(g, s, m, o.Op == "nack", t)
	case "disc":
		cc.disconnect(g)
	case "must":
		cc.mustDisconnect(g)
	case "refused":
		cc.refused(g, o)
	case "alien":
		cc.alien(g, o)
	case "sleep", "nop":
	default:
		panic("unknown client op " + o.Op)
	}
}

func (cc *cconn) disconnect(g string) {
	k := &call{kind: "disc", key: "DISCONNECT", exp: mk("DISCONNECT"), rcpt: true, shared: true}
	cc.do(g, k, cc.conn.Disconnect)
}

func (cc *cconn) mustDisconnect(g string) {
	cc.gap()
	cc.gapEnd = true
	cc.do(g, &call{kind: "must"}, cc.conn.MustDisconnect)
}

// phase is how long a part of the run takes.
func (w *cworld) phase(name string, def int64) time.Duration {
	if v := w.p.K[name]; v > 0 {
		return dur(v)
	}
	return dur(def)
}

func runClient(c *Ctx) {
	p := c.P
	obsSeq = 0
	w := &cworld{c: c, p: p, ids: map[string]string{}}
	var tasks []*sim.Task
	for i := range p.Actors {
		if p.Actors[i].Kind == "conn" {
			w.newConn(i)
		}
	}
	if len(w.conns) == 0 {
		return
	}
	c.net.OnFault = func(link int, f simnet.Fault) {
		if f.Kind == "black" && link < len(w.conns) {
			if f.Dir == 1 {
				cc := w.conns[link]
				cc.hushing = true
				if w.td && cc.conn != nil {
					sim.Start(fmt.Sprintf("td%d", cc.i), 0, func() { cc.mustDisconnect("td3") })
				}
			}
		}
	}
	for _, cc := range w.conns {
		cc.link = w.c.net.NewLink() // in order, so that links and connections have the same numbers
	}
	for _, cc := range w.conns {
		cc := cc
		sim.Start(fmt.Sprintf("setup%d", cc.i), 0, func() {
			if !cc.connect() {
				return
			}
			for i := range p.Actors {
				a := &p.Actors[i]
				if int(a.k("conn"))%len(w.conns) != cc.i {
					continue
				}
				name := fmt.Sprintf("g%d", i)
				switch a.Kind {
				case "user":
					tasks = append(tasks, sim.Start(name, 0, func() { w.script(name, a) }))
				case "broker":
					sim.Start(name, 0, func() { cc.brokerScript(a) })
				}
			}
		})
	}
	settle := p.K["settle"]
	if settle == 0 {
		settle = 100 * sc
	}
	sim.Quiesce(dur(settle))
	w.settleAt, w.settleT = nextSeq(), sim.Now()
	for _, cc := range w.conns {
		cc.nice = true
		cc.healthy = cc.conn != nil && cc.downSeq == 0 && !cc.silent && !cc.hushing && sim.Now() >= cc.br.pauseUntil && !cc.cl.Blocked
	}
	// everything that comes late
	w.probing = true
	for _, cc := range w.conns {
		if cc.conn == nil {
			continue
		}
		cc := cc
		for i := 0; i < 3; i++ {
			g := fmt.Sprintf("probe%d.%d", cc.i, i)
			sim.Start(g, 0, func() { w.probe(g, cc, i) })
		}
	}
	sim.Quiesce(w.phase("probe", 70*sc))
	for _, cc := range w.conns {
		cc.gap()
	}
	// the end of everything
	w.td = true
	for _, cc := range w.conns {
		if cc.conn == nil {
			if cc.cl != nil {
				cc.bc.Close()
				cc.cl.Close()
			}
			continue
		}
		cc := cc
		how := cc.a.k("td")
		if cc.paused && how < 2 {
			how = 2
		}
		switch how {
		case 0:
			cc.putItem(&outItem{act: "fin"}, 0)
		case 1:
			cc.putItem(&outItem{act: "rst"}, 0)
		case 2:
			sim.Start(fmt.Sprintf("td%d", cc.i), 0, func() { cc.mustDisconnect("td") })
		case 3:
			sim.Start(fmt.Sprintf("td%d", cc.i), 0, func() { cc.disconnect("td"); cc.mustDisconnect("td") })
		case 4:
			cc.brokerOp(&Op{Op: "err"})
		}
		if cc.silent || cc.hushing {
			// a peer that is silent cannot end the connection
			sim.Start(fmt.Sprintf("td%d", cc.i), 0, func() { cc.mustDisconnect("td2") })
		}
	}
	w.tdwl.WakeAll()
	sim.Quiesce(w.phase("tdq", 90*sc))
	for _, cc := range w.conns {
		if cc.conn != nil {
			cc.br.conn.Close()
		}
	}
	sim.Quiesce(dur(5 * sc))
	w.evaluate()
	w.manyIds()
	sim.Stop()
}

// manyIds makes the library choose a great number of ids, with calls that fail
// at once because the connection is over.
func (w *cworld) manyIds() {
	n := w.p.K["ids"]
	for _, cc := range w.conns {
		if n == 0 || cc.conn == nil || w.ids == nil {
			continue
		}
		for i := int64(0); i < n; i++ {
			t, err := cc.conn.BeginWithError()
			if err == nil || t == nil {
				return
			}
			id := t.Id()
			if o, ok := w.ids[id]; ok {
				w.fail("C14", "id used twice", "%q is the %s and also the id of transaction %d after that", id, o, i)
				return
			}
			w.ids[id] = "id of a late transaction"
			if i%500 == 0 {
				sim.Sleep(dur(ms))
			}
		}
		return
	}
}

// probe makes calls late in the run.
func (w *cworld) probe(g string, cc *cconn, i int) {
	switch i {
	case 0:
		cc.send(g, 3, 0)
		cc.send(g, 3, 1)
		cc.send(g, 3, 1)
	case 1:
		t := cc.begin(g, 3)
		if t.begin.err == nil {
			cc.txSend(g, t, 2, 0)
			cc.txEnd(g, t, true, true)
		}
		for _, t := range cc.txs {
			if t.doneAt > 0 {
				cc.txSend(g, t, 2, 0)
				cc.txEnd(g, t, false, false)
				break
			}
		}
	case 2:
		cc.slots[3] = nil
		cc.subscribe(g, &Op{Op: "sub", A: 3})
		s := cc.slots[3]
		if s != nil && s.s != nil {
			cc.unsubscribe(g, s, 0)
			cc.unsubscribe(g, s, 0)
		}
		for _, s := range cc.subs {
			if len(s.pend) > 0 && s.mode != stomp.AckAuto {
				cc.ack(g, s, s.pend[0], false, nil)
				break
			}
		}
	}
}

var errKinds = []struct {
	err  error
	name string
}{{stomp.ErrMsgSendTimeout, "msg send timeout"}, {stomp.ErrAlreadyClosed, "already closed"}, {stomp.ErrCompletedTransaction, "completed transaction"},
	{stomp.ErrCompletedSubscription, "completed subscription"}, {stomp.ErrNackNotSupported, "nack not supported"}, {stomp.ErrCannotNackAutoSub, "nack on auto"}}

// notQueued tells whether the call reported that nothing was sent.
func (k *call) notQueued() bool {
	if k.err == nil {
		return false
	}
	for _, e := range errKinds {
		if isErr(k.err, e.err) {
			return true
		}
	}
	return false
}

// isErr compares errors, given as value or pointer.
func isErr(err, want error) bool {
	if err == nil {
		return false
	}
	return errors.Is(err, want) || err.Error() == want.Error()
}

func sameHeaders(got, want [][2]string, free map[string]bool) string {
	g, x := map[string][]string{}, map[string][]string{}
	for _, e := range got {
		g[e[0]] = append(g[e[0]], e[1])
	}
	for _, e := range want {
		x[e[0]] = append(x[e[0]], e[1])
	}
	for _, k := range sortedKeys(x) {
		if strings.Join(g[k], "\x00") != strings.Join(x[k], "\x00") || len(g[k]) != len(x[k]) {
			return fmt.Sprintf("header %q is %q, want %q", k, g[k], x[k])
		}
	}
	for _, k := range sortedKeys(g) {
		if _, ok := x[k]; !ok && !free[k] {
			return fmt.Sprintf("unexpected header %q: %q", k, g[k])
		}
	}
	return ""
}

func eqBytes(a, b []byte) bool { return bytes.Equal(a, b) }
