// Package simnet is a simulated network of byte streams: latency, jitter,
// segmentation, bounded buffers, short reads, stalls, half-closes, resets,
// black holes, write errors and transient accept errors, all in virtual time.
package simnet

import (
	"io"
	"net"
	"os"
	"strings"
	"syscall"
	"time"

	"github.com/go-stomp/stomp/v3/zzverif/sim"
)

// Fault happens to one direction of a link when a given number of bytes has
// been written to it, or at a given time.
type Fault struct {
	Link int    `json:"link"`          // index of the link, in order of dialling
	Dir  int    `json:"dir"`           // 0 from the dialler, 1 to the dialler
	Off  int64  `json:"off,omitempty"` // after that many bytes (if At is 0)
	At   int64  `json:"at,omitempty"`  // at that time, ns since the link was made
	Kind string `json:"kind"`          // rst, lost, fin, stall, black, werr
	Dur  int64  `json:"dur,omitempty"` // of a stall, ns
}

// LinkCfg describes the quality of a link.
type LinkCfg struct {
	Latency int64 `json:"lat,omitempty"`    // ns
	Jitter  int64 `json:"jit,omitempty"`    // ns
	Chunk   int   `json:"chunk,omitempty"`  // largest segment, 0: as written
	Short   int   `json:"short,omitempty"`  // per mille chance of a short read
	Window  int   `json:"window,omitempty"` // bytes in flight and unread, 0: 64 KiB
}

// Network holds listeners and links.
type Network struct {
	listeners map[string]*Listener
	Links     []*Link
	Faults    []Fault
	Cfg       func(link int) LinkCfg
	Seed      uint64
	OnFault   func(link int, f Fault) // told when a fault happens
	// OnDial is told of the link that is made for a dialler.
	OnDial func(address string, l *Link)
	linkID map[string]int
}

// New returns an empty network.
func New(seed uint64) *Network {
	return &Network{listeners: map[string]*Listener{}, Seed: seed}
}

// Default is the network used by the simulated package net.
var Default *Network

// Link is a connection between a dialler (A) and an acceptor (B).
type Link struct {
	ID   int
	net  *Network
	A, B *Conn
	cfg  LinkCfg
	rng  *sim.Rand
	made int64
}

type seg struct {
	data []byte
	at   int64
}

// pipe is one direction of a link.
type pipe struct {
	link    *Link
	dir     int
	segs    []seg
	floor   int64 // earliest arrival of the next segment
	rbuf    []byte
	used    int // bytes in flight and unread
	sent    int64
	eof     bool  // reader sees EOF after rbuf
	rerr    error // reader sees this after rbuf
	werr    error // writer sees this
	gone    bool  // reader has closed
	finSent bool
	black   bool
	faults  []Fault
	rq, wq  sim.WaitList
	Log     []Mark
	KeepLog bool
	total   int64
	OnSent  func(b []byte)
}

// Mark says that bytes were delivered at some time.
type Mark struct {
	At time.Duration
	N  int
}

// Conn is one end of a link.
type Conn struct {
	wfailed  bool
	link     *Link
	in, out  *pipe
	closed   bool
	closedAt time.Duration
	rdl, wdl time.Time
	rev, wev sim.Event
	wlock    sim.Mutex
	rlock    sim.Mutex
	addr     string
	raddr    string
	down     bool
	// OnDown is told, once, when this end can first notice that the
	// connection is over: end of stream or reset has arrived, a write has
	// failed, or the end has been closed.
	OnDown func(why string)
	// OnRecv is told when bytes have arrived, with the total so far.
	OnRecv func(total int64)
	// Blocked is true while a write waits for the peer to take data, and
	// OnUnblock is told when such a wait is over.
	Blocked     bool
	EverBlocked bool
	// BlockedUntil is when a write last stopped waiting.
	BlockedUntil time.Duration
	OnUnblock    func()
}

func (c *Conn) isDown(why string) {
	if !c.down {
		c.down = true
		if c.OnDown != nil {
			c.OnDown(why)
		}
	}
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

func opErr(op string, err error) error { return &net.OpError{Op: op, Net: "tcp", Err: err} }

// NewLink makes a link outside of any listener.
func (n *Network) NewLink() *Link {
	return n.newLink(len(n.Links))
}

func (n *Network) newLink(id int) *Link {
	l := &Link{ID: id, net: n, rng: sim.NewRand(n.Seed ^ uint64(id+1)*0x9e3779b97f4a7c15), made: int64(sim.Now())}
	if n.Cfg != nil {
		l.cfg = n.Cfg(id)
	}
	if l.cfg.Window <= 0 {
		l.cfg.Window = 65536
	}
	ab := &pipe{link: l, dir: 0}
	ba := &pipe{link: l, dir: 1}
	l.A = &Conn{link: l, in: ba, out: ab, addr: "10.0.0.1:40000", raddr: "10.0.0.2:61613"}
	l.B = &Conn{link: l, in: ab, out: ba, addr: "10.0.0.2:61613", raddr: "10.0.0.1:40000"}
	for _, f := range n.Faults {
		if f.Link != id {
			continue
		}
		p := ab
		if f.Dir == 1 {
			p = ba
		}
		if f.At > 0 {
			f := f
			sim.After(time.Duration(f.At), func() { p.fire(f) })
			continue
		}
		p.faults = append(p.faults, f)
	}
	for _, p := range []*pipe{ab, ba} {
		for i := 1; i < len(p.faults); i++ {
			for j := i; j > 0 && p.faults[j].Off < p.faults[j-1].Off; j-- {
				p.faults[j], p.faults[j-1] = p.faults[j-1], p.faults[j]
			}
		}
	}
	n.Links = append(n.Links, l)
	return l
}

func (p *pipe) writer() *Conn {
	if p.dir == 0 {
		return p.link.A
	}
	return p.link.B
}

func (p *pipe) reader() *Conn {
	if p.dir == 0 {
		return p.link.B
	}
	return p.link.A
}

func (p *pipe) delay() int64 {
	c := &p.link.cfg
	d := c.Latency
	if c.Jitter > 0 {
		d += p.link.rng.Int63n(c.Jitter)
	}
	return d
}

// fire makes a fault happen.
func (p *pipe) fire(f Fault) {
	if p.finSent && p.gone {
		return
	}
	sim.Count("fault." + f.Kind)
	if fn := p.link.net.OnFault; fn != nil {
		fn(p.link.ID, f)
	}
	switch f.Kind {
	case "rst":
		p.link.Reset(syscall.ECONNRESET)
	case "lost":
		// the peer's host has vanished and the kernel has given up on it
		p.link.Reset(syscall.ETIMEDOUT)
	case "fin":
		p.fin()
		p.black = true
		w := p
		sim.After(time.Duration(p.delay()), func() { w.setWerr(syscall.EPIPE) })
	case "stall":
		t := int64(sim.Now()) + f.Dur
		if t > p.floor {
			p.floor = t
		}
	case "black":
		p.black = true
	case "werr":
		p.setWerr(syscall.EIO)
	default:
		panic("simnet: unknown fault " + f.Kind)
	}
}

func (p *pipe) setWerr(err error) {
	if p.werr == nil {
		p.werr = err
	}
	p.wq.WakeAll()
}

// fin tells the reader, after everything sent so far, that no more comes.
func (p *pipe) fin() {
	if p.finSent {
		return
	}
	p.finSent = true
	p.push(nil)
}

// push schedules the arrival of a segment; nil is the end of the stream.
func (p *pipe) push(data []byte) {
	t := int64(sim.Now()) + p.delay()
	if t < p.floor {
		t = p.floor
	}
	if p.link.cfg.Chunk > 0 && data != nil && len(p.segs) > 0 && t <= p.floor {
		t = p.floor + 1
	}
	p.floor = t
	p.segs = append(p.segs, seg{data, t})
	if len(p.segs) == 1 {
		p.next()
	}
}

// next schedules the arrival of the first segment; there is never more than
// one arrival pending per direction.
func (p *pipe) next() {
	if len(p.segs) > 0 {
		sim.After(time.Duration(p.segs[0].at-int64(sim.Now())), p.arrive)
	}
}

func (p *pipe) arrive() {
	if len(p.segs) == 0 {
		return
	}
	s := p.segs[0]
	if s.at > int64(sim.Now()) {
		return // left over from before a reset
	}
	p.segs = p.segs[1:]
	defer p.next()
	if p.gone {
		if s.data != nil {
			p.used -= len(s.data)
			sim.After(time.Duration(p.delay()), func() { p.setWerr(syscall.ECONNRESET) })
		}
		return
	}
	if s.data == nil {
		p.eof = true
		p.reader().isDown("eof")
	} else {
		if p.rerr != nil {
			return
		}
		p.rbuf = append(p.rbuf, s.data...)
		p.total += int64(len(s.data))
		if p.KeepLog {
			p.Log = append(p.Log, Mark{sim.Now(), len(s.data)})
		}
		if fn := p.reader().OnRecv; fn != nil {
			fn(p.total)
		}
	}
	p.rq.WakeAll()
}

// Reset breaks the link in both directions at once: what has arrived can still
// be read, what is in flight is lost.
func (l *Link) Reset(err error) {
	for _, p := range []*pipe{l.A.in, l.A.out} {
		p.black = true
		p.setWerr(err)
		p.segs = nil
		if !p.eof && p.rerr == nil {
			p.rerr = err
			p.reader().isDown("reset")
		}
		p.rq.WakeAll()
	}
}

func expired(t time.Time) bool { return !t.IsZero() && !sim.WallNow().Before(t) }

// Read implements net.Conn.
func (c *Conn) Read(b []byte) (int, error) {
	sim.Yield()
	c.rlock.Lock()
	defer c.rlock.Unlock()
	p := c.in
	for {
		if c.closed {
			return 0, opErr("read", net.ErrClosed)
		}
		if expired(c.rdl) {
			return 0, opErr("read", os.ErrDeadlineExceeded)
		}
		if len(b) == 0 {
			return 0, nil
		}
		if len(p.rbuf) > 0 {
			n := len(p.rbuf)
			if n > len(b) {
				n = len(b)
			}
			if n > 1 && p.link.cfg.Short > 0 && p.link.rng.Mille(p.link.cfg.Short) {
				n = 1 + p.link.rng.Intn(n-1)
				sim.Count("fault.shortread")
			}
			copy(b, p.rbuf[:n])
			p.rbuf = p.rbuf[n:]
			p.used -= n
			p.wq.WakeAll()
			return n, nil
		}
		if p.eof {
			return 0, io.EOF
		}
		if p.rerr != nil {
			return 0, opErr("read", p.rerr)
		}
		p.rq.Wait("network read")
	}
}

// Write implements net.Conn.
func (c *Conn) Write(b []byte) (int, error) {
	n, err := c.write(b)
	if err != nil {
		c.wfailed = true
		c.isDown("write error")
	}
	return n, err
}

// WriteFailed tells whether a write on this end has reported an error.
func (c *Conn) WriteFailed() bool { return c.wfailed }

func (c *Conn) write(b []byte) (int, error) {
	sim.Yield()
	c.wlock.Lock()
	defer c.wlock.Unlock()
	p := c.out
	n := 0
	for {
		if len(p.faults) > 0 && p.sent >= p.faults[0].Off && !(n == len(b) && p.faults[0].Kind == "werr") {
			f := p.faults[0]
			p.faults = p.faults[1:]
			p.fire(f)
			continue
		}
		if n == len(b) && n > 0 {
			return n, nil // accepted, whatever happens to it
		}
		if c.closed {
			return n, opErr("write", net.ErrClosed)
		}
		if p.werr != nil {
			return n, opErr("write", p.werr)
		}
		if expired(c.wdl) {
			return n, opErr("write", os.ErrDeadlineExceeded)
		}
		if n == len(b) {
			return n, nil
		}
		space := p.link.cfg.Window - p.used
		if space <= 0 {
			sim.Count("net.window_full")
			c.Blocked, c.EverBlocked = true, true
			p.wq.Wait("network write")
			c.Blocked = false
			c.BlockedUntil = sim.Now()
			if c.OnUnblock != nil {
				c.OnUnblock()
			}
			continue
		}
		k := len(b) - n
		if k > space {
			k = space
		}
		if ch := p.link.cfg.Chunk; ch > 0 && k > 1 {
			if m := (len(b) - n) / 64; m > ch {
				ch = m
			}
			if m := 1 + p.link.rng.Intn(ch); m < k {
				k = m
			}
		}
		if len(p.faults) > 0 && p.sent+int64(k) > p.faults[0].Off {
			k = int(p.faults[0].Off - p.sent)
		}
		p.used += k
		p.sent += int64(k)
		if p.OnSent != nil {
			p.OnSent(b[n : n+k])
		}
		if !p.black {
			p.push(append([]byte(nil), b[n:n+k]...))
		}
		n += k
	}
}

// Close implements net.Conn.
func (c *Conn) Close() error {
	sim.Yield()
	return c.shut()
}

func (c *Conn) shut() error {
	if c.closed {
		return opErr("close", net.ErrClosed)
	}
	c.closed = true
	c.closedAt = sim.Now()
	c.isDown("closed")
	c.rev.Cancel()
	c.wev.Cancel()
	if !c.out.black {
		c.out.fin()
	}
	c.in.gone = true
	if c.in.used > 0 {
		in := c.in
		sim.After(time.Duration(in.delay()), func() { in.setWerr(syscall.ECONNRESET) })
	}
	c.in.rq.WakeAll()
	c.out.wq.WakeAll()
	return nil
}

// Abort closes the end with a reset, as the kernel does for a killed process
// with unread data.
func (c *Conn) Abort() {
	sim.Yield()
	sim.Count("fault.abort")
	c.closed = true
	c.closedAt = sim.Now()
	l := c.link
	l.Reset(syscall.ECONNRESET)
}

// Closed tells whether this end was closed, and when.
func (c *Conn) Closed() (bool, time.Duration) { return c.closed, c.closedAt }

// Broken tells whether the network has failed under this connection in a way
// an end can notice.
func (c *Conn) Broken() bool {
	return c.out.werr != nil || c.in.rerr != nil || c.in.eof || c.out.gone
}

// Unread counts the bytes waiting to be read and in flight to this end.
func (c *Conn) Unread() int { return c.in.used }

// Link returns the link this end belongs to.
func (c *Conn) Link() *Link { return c.link }

// KeepLog makes this end record when bytes arrive; Log returns the record.
func (c *Conn) KeepLog()    { c.in.KeepLog = true }
func (c *Conn) Log() []Mark { return c.in.Log }

// Received counts the bytes that have arrived at this end.
func (c *Conn) Received() int64 { return c.in.total }

// OnSent sets a function that sees every byte accepted from this end.
func (c *Conn) OnSent(f func(b []byte)) { c.out.OnSent = f }

// SentBytes counts the bytes accepted from this end.
func (c *Conn) SentBytes() int64 { return c.out.sent }

func (c *Conn) LocalAddr() net.Addr  { return addr(c.addr) }
func (c *Conn) RemoteAddr() net.Addr { return addr(c.raddr) }

func (c *Conn) SetDeadline(t time.Time) error {
	if err := c.SetReadDeadline(t); err != nil {
		return err
	}
	return c.SetWriteDeadline(t)
}

func (c *Conn) SetReadDeadline(t time.Time) error {
	sim.Yield()
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.rdl = t
	c.rev.Cancel()
	if !t.IsZero() {
		c.rev = sim.After(t.Sub(sim.WallNow()), func() { c.in.rq.WakeAll() })
	}
	c.in.rq.WakeAll()
	return nil
}

func (c *Conn) SetWriteDeadline(t time.Time) error {
	sim.Yield()
	if c.closed {
		return opErr("set", net.ErrClosed)
	}
	c.wdl = t
	c.wev.Cancel()
	if !t.IsZero() {
		c.wev = sim.After(t.Sub(sim.WallNow()), func() { c.out.wq.WakeAll() })
	}
	c.out.wq.WakeAll()
	return nil
}

// Listener is a simulated net.Listener.
type Listener struct {
	net    *Network
	addr   string
	q      []*Conn
	wq     sim.WaitList
	closed bool
	errs   []error
	Calls  int
	// ErrAt injects errors: the k-th Accept call fails with the error of key k.
	ErrAt map[int]error
	// OnAccept sees every call and every failure handed out.
	OnAccept func(failed bool)
	// OnQueue sees the accepting end of every new connection before anybody else.
	OnQueue func(c *Conn)
}

// Listen makes a listener.
func (n *Network) Listen(addr string) (*Listener, error) {
	sim.Yield()
	if strings.HasPrefix(addr, ":") {
		addr = "10.0.0.2" + addr
	}
	if l := n.listeners[addr]; l != nil && !l.closed {
		return nil, opErr("listen", syscall.EADDRINUSE)
	}
	l := &Listener{net: n, addr: addr}
	n.listeners[addr] = l
	return l, nil
}

// Accept implements net.Listener.
func (l *Listener) Accept() (net.Conn, error) {
	sim.Yield()
	l.Calls++
	if l.OnAccept != nil {
		l.OnAccept(false)
	}
	if err := l.ErrAt[l.Calls]; err != nil {
		sim.Count("fault.accept")
		return nil, err
	}
	for {
		if l.closed {
			return nil, opErr("accept", net.ErrClosed)
		}
		if len(l.errs) > 0 {
			err := l.errs[0]
			l.errs = l.errs[1:]
			sim.Count("fault.accept")
			if l.OnAccept != nil {
				l.OnAccept(true)
			}
			return nil, err
		}
		if len(l.q) > 0 {
			c := l.q[0]
			l.q = l.q[1:]
			return c, nil
		}
		l.wq.Wait("accept")
	}
}

// Inject makes the following Accept calls fail.
func (l *Listener) Inject(errs ...error) {
	l.errs = append(l.errs, errs...)
	l.wq.WakeAll()
}

// Close implements net.Listener.
func (l *Listener) Close() error {
	sim.Yield()
	if l.closed {
		return opErr("close", net.ErrClosed)
	}
	l.closed = true
	l.wq.WakeAll()
	return nil
}

// Addr implements net.Listener.
func (l *Listener) Addr() net.Addr { return addr(l.addr) }

// Listener finds the listener of an address.
func (n *Network) Listener(addr string) *Listener { return n.listeners[addr] }

// Pending counts connections not accepted yet.
func (l *Listener) Pending() int { return len(l.q) }

// Alias makes a listener known by another address, and connections to that
// address use the given link number.
func (n *Network) Alias(address string, l *Listener, link int) {
	n.listeners[address] = l
	if n.linkID == nil {
		n.linkID = map[string]int{}
	}
	n.linkID[address] = link
}

// Dial connects to a listener.
func (n *Network) Dial(address string) (*Conn, error) { return n.DialAs(address, len(n.Links)) }

// DialAs connects with the given link number, which selects the quality and
// the faults of the link.
func (n *Network) DialAs(address string, id int) (*Conn, error) {
	return n.DialUntil(address, id, time.Time{})
}

// DialUntil gives up at the deadline.
func (n *Network) DialUntil(address string, id int, deadline time.Time) (*Conn, error) {
	sim.Yield()
	l := n.listeners[address]
	if l == nil || l.closed {
		return nil, opErr("dial", syscall.ECONNREFUSED)
	}
	if x, ok := n.linkID[address]; ok {
		id = x
	}
	k := n.newLink(id)
	if n.OnDial != nil {
		n.OnDial(address, k)
	}
	d := k.A.out.delay()
	if !deadline.IsZero() {
		if left := int64(deadline.Sub(sim.WallNow())); left < d {
			sim.Sleep(time.Duration(left))
			return nil, opErr("dial", os.ErrDeadlineExceeded)
		}
	}
	if d > 0 {
		sim.Sleep(time.Duration(d))
	}
	if l.OnQueue != nil {
		l.OnQueue(k.B)
	}
	if l.closed {
		return nil, opErr("dial", syscall.ECONNREFUSED)
	}
	l.q = append(l.q, k.B)
	l.wq.WakeOne()
	return k.A, nil
}

// TempErr is a transient accept error as the operating system reports it.
func TempErr(kind int) error {
	switch kind % 3 {
	case 0:
		return opErr("accept", os.NewSyscallError("accept4", syscall.EMFILE))
	case 1:
		return opErr("accept", syscall.ECONNABORTED)
	}
	return opErr("accept", os.NewSyscallError("accept4", syscall.ENFILE))
}
