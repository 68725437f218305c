package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/go-stomp/stomp/v3/zzverif/sim"
	"github.com/go-stomp/stomp/v3/zzverif/simnet"
)

// HF is a frame as the harness sees it on the wire, or a heart-beat (empty
// command). The codec here is independent of the one under test.
type HF struct {
	Cmd  string
	H    [][2]string
	Body []byte
	At   time.Duration
	Seq  int // position in the global order of harness observations
	End  int64
}

func (f *HF) get(k string) string {
	v, _ := f.lookup(k)
	return v
}

func (f *HF) lookup(k string) (string, bool) {
	for _, e := range f.H {
		if e[0] == k {
			return e[1], true
		}
	}
	return "", false
}

func (f *HF) String() string {
	if f.Cmd == "" {
		return "heart-beat"
	}
	var b strings.Builder
	b.WriteString(f.Cmd)
	for _, e := range f.H {
		fmt.Fprintf(&b, " %q:%q", e[0], e[1])
	}
	if len(f.Body) > 60 {
		fmt.Fprintf(&b, " body(%d) %q…", len(f.Body), f.Body[:60])
	} else if len(f.Body) > 0 {
		fmt.Fprintf(&b, " body %q", f.Body)
	}
	return b.String()
}

func mk(cmd string, kv ...string) *HF {
	f := &HF{Cmd: cmd}
	for i := 0; i+1 < len(kv); i += 2 {
		f.H = append(f.H, [2]string{kv[i], kv[i+1]})
	}
	return f
}

func (f *HF) with(k, v string) *HF {
	f.H = append(f.H, [2]string{k, v})
	return f
}

func escape(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\':
			b.WriteString(`\\`)
		case '\r':
			b.WriteString(`\r`)
		case '\n':
			b.WriteString(`\n`)
		case ':':
			b.WriteString(`\c`)
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

func unescape(s string) (string, error) {
	if strings.IndexByte(s, '\\') < 0 {
		return s, nil
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if s[i] != '\\' {
			b.WriteByte(s[i])
			continue
		}
		i++
		if i == len(s) {
			return "", fmt.Errorf("lone backslash in %q", s)
		}
		switch s[i] {
		case '\\':
			b.WriteByte('\\')
		case 'r':
			b.WriteByte('\r')
		case 'n':
			b.WriteByte('\n')
		case 'c':
			b.WriteByte(':')
		default:
			return "", fmt.Errorf("undefined escape in %q", s)
		}
	}
	return b.String(), nil
}

// encode renders the frame; a heart-beat is one LF.
func (f *HF) encode(crlf bool) []byte {
	eol := "\n"
	if crlf {
		eol = "\r\n"
	}
	if f.Cmd == "" {
		return []byte(eol)
	}
	var b bytes.Buffer
	b.WriteString(f.Cmd + eol)
	for _, e := range f.H {
		b.WriteString(escape(e[0]) + ":" + escape(e[1]) + eol)
	}
	b.WriteString(eol)
	b.Write(f.Body)
	b.WriteByte(0)
	return b.Bytes()
}

var commands = map[string]bool{"CONNECT": true, "STOMP": true, "SEND": true, "SUBSCRIBE": true, "UNSUBSCRIBE": true,
	"ACK": true, "NACK": true, "BEGIN": true, "COMMIT": true, "ABORT": true, "DISCONNECT": true, "CONNECTED": true,
	"MESSAGE": true, "RECEIPT": true, "ERROR": true}

// parser turns a byte stream into frames.
type parser struct {
	buf []byte
	off int64 // bytes consumed
	err error
	// what an incomplete frame needs before it is worth another look:
	// a size, or a certain byte after the first seen ones
	need, seen int
	want       int
}

// next returns a complete frame from the front of the buffer, or nil.
func (p *parser) next() *HF {
	if p.err != nil || len(p.buf) == 0 {
		return nil
	}
	if len(p.buf) < p.need || p.seen > 0 && bytes.IndexByte(p.buf[p.seen:], byte(p.want)) < 0 {
		if p.seen > 0 {
			p.seen = len(p.buf)
		}
		return nil
	}
	p.need, p.seen = 0, 0
	take := func(n int) {
		p.buf = p.buf[n:]
		p.off += int64(n)
	}
	line := func(b []byte) (string, int) {
		i := bytes.IndexByte(b, '\n')
		if i < 0 {
			return "", -1
		}
		s := b[:i]
		if len(s) > 0 && s[len(s)-1] == '\r' {
			s = s[:len(s)-1]
		}
		return string(s), i + 1
	}
	cmd, n := line(p.buf)
	if n < 0 {
		if len(p.buf) > 64 || p.buf[0] == 0 {
			p.err = fmt.Errorf("no command at byte %d: %q", p.off, p.buf[:min(64, len(p.buf))])
		}
		return nil
	}
	if cmd == "" {
		take(n)
		return &HF{End: p.off}
	}
	if !commands[cmd] {
		p.err = fmt.Errorf("unknown command %q at byte %d", cmd, p.off)
		return nil
	}
	f := &HF{Cmd: cmd}
	at := n
	for {
		l, n := line(p.buf[at:])
		if n < 0 {
			p.seen, p.want = len(p.buf), '\n'
			return nil
		}
		at += n
		if l == "" {
			break
		}
		i := strings.IndexByte(l, ':')
		if i < 0 {
			p.err = fmt.Errorf("header without colon %q in %s frame at byte %d", l, cmd, p.off)
			return nil
		}
		k, err := unescape(l[:i])
		if err == nil {
			var v string
			v, err = unescape(l[i+1:])
			f.H = append(f.H, [2]string{k, v})
		}
		if err != nil {
			p.err = err
			return nil
		}
	}
	if cl, ok := f.lookup("content-length"); ok {
		n, err := strconv.Atoi(cl)
		if err != nil || n < 0 {
			p.err = fmt.Errorf("content-length %q", cl)
			return nil
		}
		if len(p.buf) < at+n+1 {
			p.need = at + n + 1
			return nil
		}
		f.Body = append([]byte(nil), p.buf[at:at+n]...)
		at += n
		if p.buf[at] != 0 {
			p.err = fmt.Errorf("%s frame at byte %d: no NUL after %d body bytes", cmd, p.off, n)
			return nil
		}
	} else {
		i := bytes.IndexByte(p.buf[at:], 0)
		if i < 0 {
			p.seen, p.want = len(p.buf), 0
			return nil
		}
		f.Body = append([]byte(nil), p.buf[at:at+i]...)
		at += i
	}
	take(at + 1)
	f.End = p.off
	return f
}

var obsSeq int

// peer is the harness's end of a connection that speaks STOMP.
type peer struct {
	c      *Ctx
	name   string
	conn   *simnet.Conn
	p      parser
	in     []*HF // everything received, heart-beats included
	ended  bool  // the stream has ended
	endErr error
	endAt  time.Duration
	endSeq int
	wl     sim.WaitList
	// reading policy
	pauseUntil time.Duration
	paused     bool
	delay      time.Duration
	onFrame    func(f *HF)
	lastRecv   time.Duration
	writeErr   error
}

func newPeer(c *Ctx, name string, conn *simnet.Conn, group int) *peer {
	p := &peer{c: c, name: name, conn: conn}
	return p
}

// start starts the task that reads.
func (p *peer) start() {
	sim.Start(p.name+".rd", sim.Group(), p.readLoop)
}

func (p *peer) readLoop() {
	buf := make([]byte, 4096)
	for {
		for p.paused || sim.Now() < p.pauseUntil {
			if p.paused {
				p.wl.Wait("reading paused")
				continue
			}
			sim.Sleep(p.pauseUntil - sim.Now())
		}
		if p.delay > 0 {
			sim.Sleep(p.delay)
		}
		n, err := p.conn.Read(buf)
		if n > 0 {
			p.lastRecv = sim.Now()
			p.p.buf = append(p.p.buf, buf[:n]...)
			for f := p.p.next(); f != nil; f = p.p.next() {
				obsSeq++
				f.At, f.Seq = sim.Now(), obsSeq
				p.in = append(p.in, f)
				if p.c.verbose {
					p.c.Log("%s received %v", p.name, f)
				}
				if f.Cmd != "" {
					p.c.Note(p.name + f.Cmd + f.get("message-id") + f.get("receipt-id"))
				}
				if p.onFrame != nil {
					p.onFrame(f)
				}
			}
			p.wl.WakeAll()
		}
		if err != nil {
			obsSeq++
			p.ended, p.endErr, p.endAt, p.endSeq = true, err, sim.Now(), obsSeq
			p.c.Log("%s: stream ended: %v", p.name, err)
			p.wl.WakeAll()
			return
		}
	}
}

// send writes a frame; it reports failure.
func (p *peer) send(f *HF) error { return p.sendBytes(f.encode(false), f.String()) }

func (p *peer) sendBytes(b []byte, what string) error {
	if p.c.verbose {
		p.c.Log("%s sends %s", p.name, what)
	}
	_, err := p.conn.Write(b)
	if err != nil {
		p.writeErr = err
		p.c.Log("%s: write failed: %v", p.name, err)
	}
	return err
}

// await waits until cond holds, the stream has ended or the time is over.
func (p *peer) await(d time.Duration, cond func() bool) bool {
	deadline := sim.Now() + d
	ev := sim.After(d, func() { p.wl.WakeAll() })
	defer ev.Cancel()
	for !cond() {
		if sim.Now() >= deadline || p.ended {
			return cond()
		}
		p.wl.Wait("harness wait")
	}
	return true
}

// frames counts what was received, heart-beats excluded.
func (p *peer) frames(cmd string) []*HF {
	var out []*HF
	for _, f := range p.in {
		if f.Cmd != "" && (cmd == "" || f.Cmd == cmd) {
			out = append(out, f)
		}
	}
	return out
}

// headers that users give to messages
var knownHeaders = []string{"persistent", "priority", "expires", "correlation-id", "reply-to", "timestamp", "type", "selector", "heart-beat", "version", "session", "server", "login", "passcode", "host", "accept-version", "message", "receipt-id", "redelivered", "JMSXGroupID", "browser", "durable", "activemq.prefetchSize", "Content-Type", "Destination", "Transaction", "x"}

// longText is text of a length, or some short text if that is zero.
func longText(r *sim.Rand, n int) string {
	if n == 0 {
		n = r.Intn(8)
	}
	return genText(r, n, false)
}

// nearName is almost, but not quite, the name of a header that means something.
func nearName(r *sim.Rand) string {
	b := []byte(pick(r, "content-length", "content-type", "destination", "receipt", "receipt-id", "message-id", "subscription", "transaction", "id", "ack", "message", "version", "heart-beat", "session"))
	i := r.Intn(len(b))
	switch r.Intn(6) {
	case 0:
		b[0] -= 32
	case 1:
		return strings.ToUpper(string(b))
	case 2:
		b[i] = '_'
	case 3:
		return string(b) + pick(r, "s", " ", "\t", "-", "2")
	case 4:
		return pick(r, " ", "x-", "\t", "-") + string(b)
	case 5:
		return string(append(b[:i:i], b[i+1:]...)) + "x"
	}
	return string(b)
}

// userHeader makes a header a message may carry.
func userHeader(r *sim.Rand) [2]string {
	k := knownHeaders[r.Intn(len(knownHeaders))]
	if r.Intn(4) == 0 {
		k = nearName(r)
	}
	return [2]string{k, pick(r, "true", "false", "0", "-1", "5", "", " ", "a b", "1718000000000", "1.2", "0,0", "/queue/q0", "/topic/t0", "/temp-queue/x", genText(r, 5, false))}
}
