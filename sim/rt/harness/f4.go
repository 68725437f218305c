package main

import (
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/zzverif/rt/context"
	"github.com/go-stomp/stomp/v3/zzverif/sim"
	"github.com/go-stomp/stomp/v3/zzverif/simnet"
)

// The connect scenario: connecting to a peer that answers properly, refuses,
// says something else, breaks off or says nothing.

func init() {
	scenarios["cliconn"] = &scenario{gen: genConnect, run: runConnect}
	families["C12"] = &family{scenarios: []string{"cliconn"}, quick: 40000, level: "exploration", real: clientReal, stub: clientStub,
		rule: "Up to three tasks connect (Connect and Dial, with and without context deadline, all connect options) to peers that answer CONNECTED with every kind of version, heart-beat, session and server header, ERROR, other frames, garbage, empty lines, part of a frame, nothing, or that close, reset or stop reading, over links that fragment, delay and fail; a connection obtained is used afterwards."}
}

type cxworld struct {
	c  *Ctx
	cs []*cxconn
}

type cxconn struct {
	w     *cxworld
	i     int
	a     *Actor
	link  *simnet.Link
	br    *peer
	wp    parser
	wire  []*HF
	conn  *stomp.Conn
	err   error
	start time.Duration
	end   time.Duration
	eseq  int
	done  bool
	dl    time.Duration // deadline, 0: none
	opts  error         // what an option is to fail with
	exp   *HF

	off     int64
	ansEnd  int64 // stream offset where the answer is complete
	ansAt   time.Duration
	ansSeq  int
	ans     *HF // the answer if it is a frame
	ansKind string
	downAt  time.Duration
	downSeq int
	downWhy string
	hdrs    []*frame.Header
	probed  error
	probes  int
	closedT bool // the transport was closed when connecting returned
	dialled bool
	refused bool
	faulted bool
}

var cxVersions = []string{"-", "1.0", "1.1", "1.2", "1.2", "1.1", "1.3", "2.0", "1", "1.1 ", "v1.1", "0.9", "1.10", "1.1,1.2"}
var cxBeats = []string{"-", "0,0", "0,0", "1000,0", "0,1000", "60000,60000", "5000,7000", "x", "1,-1", "5", "99999999999999999999,0", " 0,0"}

func (w *cxworld) fail(class, format string, a ...any) { w.c.Fail("C12", class, format, a...) }

// answer performs one step of the peer's answer.
func (x *cxconn) answer(o *Op) bool {
	put := func(b []byte, what string) bool {
		x.off += int64(len(b))
		return x.br.sendBytes(b, what) == nil
	}
	full := func(f *HF, crlf bool, kind string) bool {
		b := f.encode(crlf)
		if x.ansKind == "" {
			x.ansKind, x.ans, x.ansEnd = kind, f, x.off+int64(len(b))
		}
		return put(b, f.String())
	}
	set := func(kind string, n int) {
		if x.ansKind == "" {
			x.ansKind, x.ansEnd = kind, x.off+int64(n)
		}
	}
	switch o.Op {
	case "ok", "part":
		v, h := cxVersions[int(o.A)%len(cxVersions)], cxBeats[int(o.B)%len(cxBeats)]
		f := mk("CONNECTED")
		if o.C&16 != 0 {
			f.with("x-first", "1")
		}
		if v != "-" {
			f.with("version", v)
		}
		if h != "-" {
			f.with("heart-beat", h)
		}
		if o.C&1 != 0 {
			f.with("session", pick(sim.NewRand(uint64(o.E)), "sess-", " s e\nss:", "sess,", "")+strconv.Itoa(x.i))
		}
		if o.C&2 != 0 {
			f.with("server", pick(sim.NewRand(uint64(o.E)+9), "sim/%d", "sim/1.%d (a comment; more) ", "SIM %d/2:\\", "%d")+strconv.Itoa(x.i))
		}
		if o.C&4 != 0 {
			f.Body = []byte("unusual")
		}
		if o.Op == "part" {
			b := f.encode(o.C&8 != 0)
			set("part", 0)
			return put(b[:int(o.E)%len(b)], "part of "+f.String())
		}
		kind := "ok"
		if int(o.B)%len(cxBeats) >= 7 {
			kind = "any"
		}
		if int(o.A)%len(cxVersions) >= 6 {
			kind = "bad"
		}
		done := full(f, o.C&8 != 0, kind)
		var sx int64
		if n, _ := fmt.Sscanf(h, "%d,", &sx); n == 1 && sx > 0 && kind == "ok" {
			sim.Start(fmt.Sprintf("beat%d", x.i), 0, func() {
				for x.br.writeErr == nil && x.downSeq == 0 {
					sim.Sleep(dur(sx * ms * 9 / 10))
					x.br.sendBytes([]byte("\n"), "heart-beat")
				}
			})
		}
		return done
	case "err":
		f := mk("ERROR", "message", "no entry")
		if o.A == 1 {
			f = mk("ERROR")
		}
		f.Body = []byte("go away")
		return full(f, false, "bad")
	case "other":
		fs := []*HF{mk("RECEIPT", "receipt-id", "1"), mk("MESSAGE", "subscription", "1", "message-id", "1", "destination", "/d"), mk("CONNECT", "accept-version", "1.1"), mk("SEND", "destination", "/d"), mk("DISCONNECT")}
		return full(fs[int(o.A)%len(fs)], false, "bad")
	case "bad":
		g := []string{"HELLO\n\n\x00", "CONNECTED\nversion\n\n\x00", "CONNECTED\ncontent-length:x\n\n\x00", "\x00\n", "\xff\xff\n\n\x00", "HTTP/1.1 400 Bad Request\r\n\r\n", "connected\nversion:1.1\n\n\x00", "CONNECTED\ncontent-length:2\n\nabc\x00"}[int(o.A)%8]
		set("bad", len(g))
		return put([]byte(g), fmt.Sprintf("%q", g))
	case "lf":
		g := []string{"\n", "\r\n"}[int(o.A)%2]
		set("bad", len(g))
		return put([]byte(g), "empty line")
	case "fin":
		set("end", 0)
		x.br.conn.Close()
		return false
	case "rst":
		set("end", 0)
		x.br.conn.Abort()
		return false
	case "more":
		f := mk("MESSAGE", "subscription", "1", "message-id", "1", "destination", "/d")
		if x.ansKind == "" {
			return full(f, false, "bad")
		}
		return put(f.encode(false), f.String())
	}
	return true
}

func (x *cxconn) serve(conn *simnet.Conn) {
	w := x.w
	x.br = newPeer(w.c, fmt.Sprintf("broker%d", x.i), conn, 0)
	began := false
	begin := func() {
		if began {
			return
		}
		began = true
		sim.Start(fmt.Sprintf("answer%d", x.i), 0, func() {
			for i := range x.a.Ops {
				o := &x.a.Ops[i]
				sim.Sleep(dur(o.D))
				sim.Count("answer." + o.Op)
				if !x.answer(o) {
					return
				}
			}
		})
	}
	x.br.onFrame = func(f *HF) {
		switch f.Cmd {
		case "CONNECT", "STOMP":
			begin()
		default:
			if r, ok := f.lookup("receipt"); ok {
				x.br.send(mk("RECEIPT", "receipt-id", r))
			}
		}
	}
	if x.a.k("early") == 1 {
		begin()
	}
	if x.a.k("noread") == 1 {
		x.br.paused = true
	}
	x.br.start()
}

func (x *cxconn) watch(l *simnet.Link) {
	x.link = l
	cl := l.A
	cl.OnSent(func(b []byte) {
		x.wp.buf = append(x.wp.buf, b...)
		for f := x.wp.next(); f != nil; f = x.wp.next() {
			f.At, f.Seq = sim.Now(), nextSeq()
			x.wire = append(x.wire, f)
		}
	})
	cl.OnRecv = func(total int64) {
		if x.ansKind != "" && x.ansAt == 0 && total >= x.ansEnd && x.ansEnd > 0 {
			x.ansAt, x.ansSeq = sim.Now(), nextSeq()
		}
	}
	cl.OnDown = func(why string) {
		x.downAt, x.downSeq, x.downWhy = sim.Now(), nextSeq(), why
	}
}

func (x *cxconn) options(host string) []func(*stomp.Conn) error {
	k := x.a.k
	o := stomp.ConnOpt
	cmd := "CONNECT"
	opts := logOpts(k("log"))
	if k("stomp") == 1 {
		opts = append(opts, o.UseStomp)
		cmd = "STOMP"
	}
	x.exp = mk(cmd)
	if k("host") == 1 {
		host = "virtual.example"
		opts = append(opts, o.Host(host))
	}
	x.exp.with("host", host)
	if k("hb") == 1 {
		opts = append(opts, o.HeartBeat(dur(k("cx")*ms), dur(k("cy")*ms)))
		x.exp.with("heart-beat", fmt.Sprintf("%d,%d", k("cx"), k("cy")))
	} else {
		x.exp.with("heart-beat", "60000,60000")
	}
	if l := k("login"); l > 0 {
		user, pass := "", ""
		if l&1 != 0 {
			user = fmt.Sprintf("user%d", x.i)
		}
		if l&2 != 0 {
			pass = fmt.Sprintf("pass phrase %d", x.i)
		}
		opts = append(opts, o.Login(user, pass))
		x.exp.with("login", user).with("passcode", pass)
	}
	if k("nilopt") == 1 {
		opts = append(opts, nil)
	}
	var vs []string
	for b, v := range []stomp.Version{stomp.V10, stomp.V11, stomp.V12} {
		if k("av")&(1<<b) != 0 {
			vs = append(vs, string(v))
			opts = append(opts, o.AcceptVersion(v))
		}
	}
	if len(vs) == 0 {
		vs = []string{"1.0", "1.1", "1.2"}
	}
	x.exp.with("accept-version", strings.Join(vs, ","))
	for i := int64(0); i < k("hdrs"); i++ {
		n, v := fmt.Sprintf("x-%d", i%2), fmt.Sprintf("value %d", i)
		opts = append(opts, o.Header(n, v))
		x.exp.with(n, v)
	}
	if n := k("big"); n > 0 {
		v := strings.Repeat("b", int(n))
		opts = append(opts, o.Header("x-big", v))
		x.exp.with("x-big", v)
	}
	if v := k("rbuf"); v > 0 {
		opts = append(opts, o.ReadBufferSize(int(v)))
	}
	if v := k("wbuf"); v > 0 {
		opts = append(opts, o.WriteBufferSize(int(v)))
	}
	opts = append(opts, o.ResponseHeaders(func(h *frame.Header) { x.hdrs = append(x.hdrs, h) }))
	switch k("badopt") {
	case 1:
		opts = append(opts, o.AcceptVersion(stomp.V11, "1.3"))
		x.opts = stomp.ErrUnsupportedVersion
	case 2:
		x.opts = errors.New("option failed")
		opts = append(opts, func(*stomp.Conn) error { return x.opts })
	}
	return opts
}

func (x *cxconn) connect() {
	w, k := x.w, x.a.k
	ctx := context.Background()
	if d := k("dl"); d > 0 {
		c2, cancel := context.WithTimeout(ctx, dur(d))
		ctx = c2
		x.dl = sim.Now() + dur(d)
		if k("nocancel") == 0 {
			defer cancel()
		}
	}
	how := k("how") % 5
	x.start = sim.Now()
	if how < 2 {
		x.dialled = true
		addr := fmt.Sprintf("10.0.0.2:%d", 61613+x.i)
		if k("refuse") == 1 {
			addr = "10.0.0.2:1"
			x.refused = true
		}
		opts := x.options("10.0.0.2")
		if how == 0 && x.dl == 0 {
			x.conn, x.err = stomp.Dial("tcp", addr, opts...)
		} else {
			x.conn, x.err = stomp.DialWithContext(ctx, "tcp", addr, opts...)
		}
	} else {
		l := w.c.net.NewLink()
		x.watch(l)
		x.serve(l.B)
		var rw io.ReadWriteCloser = l.A
		host := "10.0.0.2"
		if how == 4 {
			rw = plainConn{l.A}
			host = "default"
		}
		opts := x.options(host)
		if how == 2 && x.dl == 0 {
			x.conn, x.err = stomp.Connect(rw, opts...)
		} else {
			x.conn, x.err = stomp.ConnectWithContext(ctx, rw, opts...)
		}
	}
	x.end, x.eseq, x.done = sim.Now(), nextSeq(), true
	w.c.Log("connect %d returns %v, %v", x.i, x.conn != nil, x.err)
	w.c.Note(fmt.Sprintf("connect%d %v", x.i, x.err == nil))
	w.c.Done()
	if x.link != nil {
		x.closedT, _ = x.link.A.Closed()
	}
	if x.conn == nil {
		if !x.dialled {
			// the connection is the caller's
			x.link.A.Close()
		}
		return
	}
	// use it
	if x.dl > 0 && x.dl > sim.Now() {
		sim.Sleep(x.dl - sim.Now() + dur(k("wait")))
	}
	if l := w.c.P.K["later"]; l > 0 && x.ans != nil && (x.ans.get("heart-beat") == "" || strings.HasPrefix(x.ans.get("heart-beat"), "0,0")) {
		sim.Sleep(dur(l))
	}
	x.br.paused = false
	x.br.wl.WakeAll()
	for i := 0; i < 2; i++ {
		err := x.conn.Send("/q/x", "", []byte("hello"), stomp.SendOpt.Receipt)
		if err != nil {
			x.probed = err
			break
		}
		x.probes++
	}
	if x.probed == nil {
		x.probed = x.conn.Disconnect()
	}
	if x.probed != nil {
		x.conn.MustDisconnect()
	}
	w.c.Done()
}

func runConnect(c *Ctx) {
	obsSeq = 0
	w := &cxworld{c: c}
	faulted := map[int]bool{}
	c.net.OnFault = func(link int, f simnet.Fault) {
		faulted[link] = true
	}
	for i := range c.P.Actors {
		a := &c.P.Actors[i]
		if a.Kind != "cx" {
			continue
		}
		x := &cxconn{w: w, i: len(w.cs), a: a}
		w.cs = append(w.cs, x)
		sim.Start(fmt.Sprintf("user%d", x.i), 0, func() {
			sim.Sleep(dur(a.k("at")))
			if a.k("how")%5 < 2 {
				ln, err := c.net.Listen(fmt.Sprintf("10.0.0.2:%d", 61613+x.i))
				if err != nil {
					panic(err)
				}
				ln.OnQueue = func(sc *simnet.Conn) { x.watch(sc.Link()) }
				sim.Start(fmt.Sprintf("accept%d", x.i), 0, func() {
					nc, err := ln.Accept()
					if err == nil {
						x.serve(nc.(*simnet.Conn))
					}
				})
			}
			x.connect()
		})
	}
	sim.Quiesce(dur(100*sc + c.P.K["later"]))
	for _, x := range w.cs {
		x.faulted = x.link != nil && faulted[x.link.ID]
		x.judge()
	}
	// whatever is still there ends with the transport
	for _, x := range w.cs {
		if x.link != nil {
			x.link.A.Close()
			x.link.B.Close()
		}
	}
	sim.Quiesce(dur(100 * sc))
	for _, b := range sim.Alive() {
		if b.Site != "" && b.Site != "timer" {
			w.fail("goroutine left", "%v", b)
		}
	}
	sim.Stop()
}

func (x *cxconn) judge() {
	w := x.w
	sl := dur(int64(w.c.P.Sched.FrzNum)*w.c.P.Sched.FrzMax) + dur(5*ms)
	what := fmt.Sprintf("connection %d (answer %s, complete at %v)", x.i, x.ansKind, x.ansAt)
	if !x.done {
		if x.dl == 0 && x.link != nil && x.link.A.Blocked {
			return // the peer does not take the connect frame, and nothing bounds that
		}
		if x.dl > 0 || x.ansKind != "" && x.ansKind != "part" && x.ansAt > 0 || x.downSeq > 0 {
			w.fail("connecting never ends", "%s: started at %v, deadline %v, link down at %v (%s)", what, x.start, x.dl, x.downAt, x.downWhy)
		}
		return
	}
	if x.dl > 0 && x.end > x.dl+sl {
		w.fail("deadline missed", "%s: started at %v, deadline %v, returned at %v: %v", what, x.start, x.dl, x.end, x.err)
	}
	if x.ansAt > 0 && x.end > maxDur(x.ansAt, x.link.A.BlockedUntil)+sl {
		w.fail("returns late", "%s: returned at %v", what, x.end)
	}
	if x.downSeq > 0 && x.downSeq < x.eseq && x.end > maxDur(x.downAt, x.link.A.BlockedUntil)+sl {
		w.fail("returns late", "%s: link down at %v (%s), returned at %v", what, x.downAt, x.downWhy, x.end)
	}
	if (x.conn == nil) != (x.err != nil) {
		w.fail("neither or both", "%s: connection %v, error %v", what, x.conn != nil, x.err)
		return
	}
	// what went out
	for i, f := range x.wire {
		if i == 0 {
			d := sameHeaders(f.H, x.exp.H, nil)
			if f.Cmd != x.exp.Cmd || d != "" || len(f.Body) > 0 {
				w.fail("wrong connect frame", "connection %d: %v, want %v: %s", x.i, f, x.exp, d)
			}
			if x.opts != nil {
				w.fail("connect in spite of a failed option", "connection %d: %v", x.i, f)
			}
		} else if f.Seq < x.eseq && f.Cmd != "" && x.conn == nil {
			w.fail("frame before the session", "connection %d: %v", x.i, f)
		}
	}
	if x.wp.err != nil {
		w.fail("wrong connect frame", "connection %d: %v", x.i, x.wp.err)
	}
	if x.err == nil {
		if x.opts != nil || x.refused || x.ansAt == 0 || x.ansSeq > x.eseq || x.ansKind != "ok" && x.ansKind != "any" {
			w.fail("connected without CONNECTED", "%s: %v", what, x.ans)
			return
		}
		v, ok := x.ans.lookup("version")
		if !ok {
			v = "1.0"
		}
		if string(x.conn.Version()) != v || x.conn.Session() != x.ans.get("session") || x.conn.Server() != x.ans.get("server") {
			w.fail("wrong session", "%s: %v gives version %q session %q server %q", what, x.ans, x.conn.Version(), x.conn.Session(), x.conn.Server())
		}
		if len(x.wire) == 0 {
			w.fail("connected without connect frame", "%s", what)
		}
		if len(x.hdrs) != 1 {
			w.fail("response headers", "%s: callback called %d times", what, len(x.hdrs))
		} else {
			for _, e := range x.ans.H {
				if x.hdrs[0].Get(e[0]) != e[1] {
					w.fail("response headers", "%s: %v gives %q for %q", what, x.ans, x.hdrs[0].Get(e[0]), e[0])
				}
			}
		}
		// it must be of use as long as nothing happened to it
		after := false
		seen := false
		for _, o := range x.a.Ops {
			if seen && o.Op != "more" {
				after = true
			}
			if o.Op == "ok" {
				seen = true
			}
		}
		if x.probed != nil && !after && !x.faulted && x.downWhy != "eof" && x.downWhy != "reset" {
			w.fail("connection of no use", "%s: after %d sends: %v (link: %s at %v)", what, x.probes, x.probed, x.downWhy, x.downAt)
		}
		return
	}
	if x.dialled && x.link != nil && !x.closedT {
		w.fail("dial leaks the connection", "%s: %v", what, x.err)
	}
	if x.opts != nil {
		if !errors.Is(x.err, x.opts) && x.err.Error() != x.opts.Error() {
			var op *net.OpError
			if !(x.dialled && errors.As(x.err, &op)) && x.err != context.DeadlineExceeded {
				w.fail("wrong error", "connection %d: option fails with %v, connecting with %v", x.i, x.opts, x.err)
			}
		}
		return
	}
	if x.ansKind == "ok" && x.ansAt > 0 && x.ansSeq < x.eseq && !x.faulted && !x.link.A.WriteFailed() && (x.dl == 0 || x.ansAt < x.dl-sl && x.link.A.BlockedUntil < x.dl-sl) && (x.downSeq == 0 || x.downSeq > x.ansSeq && (x.downWhy == "closed" || x.downWhy == "eof")) {
		w.fail("refused a proper session", "%s: %v leads to %v", what, x.ans, x.err)
	}
}

func genConnect(p *Plan, r *sim.Rand) {
	if r.Intn(6) == 0 {
		genFreeze(p, r, 1+r.Intn(3), pick(r, ms, 20*ms, 200*ms))
	}
	fr := int64(p.Sched.FrzNum) * p.Sched.FrzMax
	if r.Intn(30) == 0 {
		p.K["later"] = pick(r, int64(60), 3600, 86500, 20*86400) * sc
	}
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		l := genLink(r)
		if l.Window > 0 && l.Window < 700 {
			l.Window = 700
		}
		k := map[string]int64{"how": int64(r.Intn(5)), "at": r.Int63n(2 * ms), "log": int64(r.Intn(4))}
		if r.Intn(2) == 0 {
			k["dl"] = pick(r, 2*(l.Latency+l.Jitter)+3*ms, 3*(l.Latency+l.Jitter)+fr+20*ms, 2*sc, 20*sc, 1+r.Int63n(5*ms))
			k["wait"] = pick(r, 1, 10*ms, 3*sc)
			k["nocancel"] = int64(r.Intn(2))
		}
		for _, x := range []string{"stomp", "host", "nilopt", "early"} {
			if r.Intn(4) == 0 {
				k[x] = 1
			}
		}
		if r.Intn(2) == 0 {
			k["login"] = int64(1 + r.Intn(3))
		}
		if r.Intn(3) > 0 {
			k["hb"] = 1
			k["cx"], k["cy"] = int64(pick(r, 0, 100, 5000, 60000)), int64(pick(r, 0, 100, 5000, 60000))
			if r.Intn(20) == 0 {
				k["cx"], k["cy"] = pick(r, int64(1), 3600000, 86400000, 1<<31, 1<<32-1), pick(r, int64(1), 3600000, 86400000, 1<<31, 1<<32-1)
			}
		}
		if r.Intn(2) == 0 {
			k["av"] = int64(r.Intn(8))
		}
		if r.Intn(3) == 0 {
			k["hdrs"] = int64(1 + r.Intn(4))
			if r.Intn(20) == 0 {
				k["hdrs"] = int64(10 + r.Intn(100))
			}
		}
		if r.Intn(8) == 0 {
			k["rbuf"] = int64(pick(r, 16, 300, 5000))
		}
		if r.Intn(8) == 0 {
			k["wbuf"] = int64(pick(r, 16, 300, 5000))
		}
		if r.Intn(15) == 0 {
			k["badopt"] = int64(1 + r.Intn(2))
		}
		if r.Intn(20) == 0 {
			k["refuse"] = 1
		}
		if r.Intn(12) == 0 {
			k["big"] = int64(pick(r, 500, 3000, 3000, 9000, 70000))
			if r.Intn(2) == 0 {
				k["noread"] = 1
			}
		}
		a := Actor{Kind: "cx", K: k}
		add := func(o Op) {
			o.D = pick(r, 0, 0, r.Int63n(ms), r.Int63n(50*ms), r.Int63n(3*sc))
			if r.Intn(2) == 0 {
				o.D = 0
			}
			a.Ops = append(a.Ops, o)
		}
		ok := func() Op {
			o := Op{Op: "ok", A: int64(r.Intn(6)), B: int64(r.Intn(7)), C: int64(r.Intn(4))}
			if r.Intn(4) == 0 {
				o.A = int64(r.Intn(len(cxVersions)))
			}
			if r.Intn(6) == 0 {
				o.B = int64(r.Intn(len(cxBeats)))
			}
			for _, b := range []int64{4, 8, 16} {
				if r.Intn(6) == 0 {
					o.C |= b
				}
			}
			o.E = int64(r.Intn(60))
			return o
		}
		switch r.Intn(16) {
		default:
			add(ok())
			for r.Intn(3) == 0 {
				add(Op{Op: "more"})
			}
			if r.Intn(8) == 0 {
				add(Op{Op: pick(r, "fin", "rst")})
			}
		case 0:
			add(Op{Op: "err", A: int64(r.Intn(2))})
			if r.Intn(2) == 0 {
				add(Op{Op: "fin"})
			}
		case 1:
			add(Op{Op: "other", A: int64(r.Intn(5))})
			if r.Intn(2) == 0 {
				add(ok())
			}
		case 2:
			add(Op{Op: "bad", A: int64(r.Intn(8))})
		case 3:
			add(Op{Op: "lf", A: int64(r.Intn(2))})
			if r.Intn(2) == 0 {
				add(ok())
			}
		case 4:
			add(Op{Op: pick(r, "fin", "rst")})
		case 5:
			o := ok()
			o.Op = "part"
			o.E = r.Int63n(200)
			add(o)
			if r.Intn(2) == 0 {
				add(Op{Op: pick(r, "fin", "rst")})
			}
		case 6: // nothing
		}
		p.Actors = append(p.Actors, a)
		p.Links = append(p.Links, l)
		if r.Intn(3) == 0 {
			f := simnet.Fault{Link: i, Dir: r.Intn(2), Kind: pick(r, "rst", "lost", "fin", "werr", "black", "stall")}
			f.Off = r.Int63n(300)
			if f.Dir == 1 {
				f.Off = r.Int63n(100)
			}
			if r.Intn(3) == 0 {
				f.Off, f.At = 0, 1+r.Int63n(60*ms)
			}
			if f.Kind == "stall" {
				f.Dur = r.Int63n(3 * sc)
			}
			p.Faults = append(p.Faults, f)
		}
	}
}
