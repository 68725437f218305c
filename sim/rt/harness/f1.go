package main

import (
	"bytes"
	"fmt"
	"io"
	"strconv"
	"strings"

	"github.com/go-stomp/stomp/v3/frame"
	"github.com/go-stomp/stomp/v3/zzverif/sim"
	"github.com/go-stomp/stomp/v3/zzverif/simnet"
)

// Scenario codec: frame.Writer and frame.Reader over a faulty byte stream.

func init() {
	scenarios["codec"] = &scenario{gen: genCodec, run: runCodec}
	families["C01"] = &family{scenarios: []string{"codec"}, quick: 60000, level: "exploration",
		real: []string{"frame.Reader", "frame.Writer", "frame.Header", "frame encode/unencode"},
		stub: []string{"byte stream (simnet: segmentation, short reads, bounded window, stalls, half-close, reset, write errors)", "peer codec of the harness"},
		rule: "A writer task emits generated frames and heart-beats with frame.Writer (or the harness's encoder) into a simulated stream and a reader task reads them with frame.Reader (or the harness's parser)."}
}

var codecCmds = []string{"SEND", "MESSAGE", "CONNECT", "CONNECTED", "ERROR", "RECEIPT", "SUBSCRIBE", "ACK", "BEGIN", "DISCONNECT", "STOMP", "NACK", "COMMIT", "ABORT", "UNSUBSCRIBE"}

func genCodec(p *Plan, r *sim.Rand) {
	p.Links = []simnet.LinkCfg{genLink(r)}
	p.K["wsize"] = int64(pick(r, 0, 0, 1, 16, 17, 64, 300, 5000))
	p.K["rsize"] = int64(pick(r, 0, 0, 1, 16, 17, 64, 300, 5000))
	p.K["mode"] = int64(r.Intn(4)) // 0,1: writer and reader; 2: harness encoder; 3: harness parser
	p.K["two"] = int64(r.Intn(2))
	p.K["crlf"] = int64(r.Intn(3) / 2)
	n := 1 + r.Intn(14)
	a := Actor{Kind: "writer"}
	var est int64
	for i := 0; i < n; i++ {
		o := Op{E: int64(r.Uint64() >> 12)}
		if r.Intn(4) == 0 {
			o.Op = "hb"
			est++
		} else {
			o.Op, o.S = "frame", codecCmds[r.Intn(len(codecCmds))]
			o.A = int64(pick(r, 0, 0, 1, 3, 10, 30, 100, 100, 700, 4090, 4096, 4097, 9000, 20000))
			if o.A > 8 && r.Intn(2) == 0 {
				o.A += int64(r.Intn(8)) - 4
			}
			o.B = int64(r.Intn(5))
			o.C = int64(r.Intn(2)) // content-length
			est += 20 + o.A + 20*o.B
		}
		if r.Intn(5) == 0 {
			o.D = r.Int63n(20 * ms)
		}
		a.Ops = append(a.Ops, o)
	}
	switch r.Intn(250) {
	case 0: // large
		p.Links[0].Chunk, p.Links[0].Short, p.Links[0].Window = 0, 0, 0
		for i := range a.Ops {
			o := &a.Ops[i]
			if o.Op != "frame" {
				continue
			}
			switch r.Intn(4) {
			case 0:
				o.B = int64(pick(r, 10, 20, 33, 64, 130, 300))
			case 1:
				o.A = int64(pick(r, 32768, 65535, 65536, 70000, 131072, 300000, 1<<20, 1<<20+1, 3<<20))
				est += o.A
			}
			if est > 8<<20 {
				break
			}
		}
	case 1: // long
		p.Links[0].Chunk, p.Links[0].Short, p.Links[0].Window = 0, 0, 0
		for n = 300 + r.Intn(1000); n > 0; n-- {
			a.Ops = append(a.Ops, Op{Op: "frame", S: codecCmds[r.Intn(len(codecCmds))], A: int64(r.Intn(5)), B: int64(r.Intn(3)), C: int64(r.Intn(2)), E: int64(r.Uint64() >> 12)})
			est += 60
		}
	}
	p.Actors = []Actor{a}
	if r.Intn(3) > 0 {
		f := simnet.Fault{Kind: pick(r, "rst", "lost", "fin", "fin", "werr", "werr", "stall"), Off: r.Int63n(est + 2)}
		if f.Kind == "stall" {
			f.Dur = r.Int63n(2 * sc)
		}
		p.Faults = append(p.Faults, f)
		if r.Intn(3) == 0 {
			p.Faults = append(p.Faults, simnet.Fault{Kind: "stall", Off: r.Int63n(est + 2), Dur: r.Int63n(sc)})
		}
	}
}

const nasty = "ab:\\\r\nc\\r\\n\\cé世\x01 \x00;=,\\\\:"

func genText(r *sim.Rand, n int, nul bool) string {
	b := make([]byte, 0, n)
	for i := 0; i < n; i++ {
		var ch byte
		switch r.Intn(3) {
		case 0:
			ch = nasty[r.Intn(len(nasty))]
		default:
			ch = byte('a' + r.Intn(26))
		}
		if ch == 0 && !nul {
			ch = 'z'
		}
		b = append(b, ch)
	}
	return string(b)
}

func genBody(r *sim.Rand, n int, nul bool) []byte {
	b := make([]byte, n)
	for i := range b {
		if r.Intn(6) == 0 {
			b[i] = nasty[r.Intn(len(nasty))]
		} else {
			b[i] = byte(r.Uint64())
		}
		if b[i] == 0 && !nul {
			b[i] = '0'
		}
	}
	return b
}

// codecFrame makes the frame an op stands for.
func codecFrame(o *Op) *HF {
	if o.Op == "hb" {
		return &HF{}
	}
	r := sim.NewRand(uint64(o.E))
	f := &HF{Cmd: o.S}
	pos := r.Intn(int(o.B) + 1)
	for i := 0; i <= int(o.B); i++ {
		if i == pos && o.C == 1 {
			f.with("content-length", strconv.Itoa(int(o.A)))
		}
		if i < int(o.B) {
			k := genText(r, 1+r.Intn(12), false)
			if i > 0 && r.Intn(4) == 0 {
				k = f.H[0][0]
			} else if r.Intn(6) == 0 {
				k = nearName(r)
			}
			if k == "content-length" {
				k = "x"
			}
			n := r.Intn(20)
			if r.Intn(12) == 0 {
				n = pick(r, 4000, 4096, 5000)
				if o.B > 5 {
					n = pick(r, 4096, 8192, 20000, 65536, 70000)
				}
			}
			f.with(k, genText(r, n, false))
		}
	}
	f.Body = genBody(r, int(o.A), o.C == 1)
	return f
}

func toFrame(h *HF) *frame.Frame {
	if h.Cmd == "" {
		return nil
	}
	f := frame.New(h.Cmd)
	for _, e := range h.H {
		f.Header.Add(e[0], e[1])
	}
	f.Body = h.Body
	return f
}

// buildFrame makes a frame in some roundabout way.
func buildFrame(h *HF, r *sim.Rand) *frame.Frame {
	if h.Cmd == "" || r.Intn(2) == 0 {
		return toFrame(h)
	}
	k := r.Intn(len(h.H) + 1)
	var flat []string
	for _, e := range h.H[:k] {
		flat = append(flat, e[0], e[1])
	}
	f := frame.New(h.Cmd, flat...)
	rest := h.H[k:]
	if r.Intn(2) == 0 {
		f.Header = frame.NewHeader(flat...)
	}
	tmp := "temp\norary"
	if r.Intn(2) == 0 {
		f.Header.Set(tmp, "1")
	}
	if r.Intn(2) == 0 {
		x := frame.NewHeader()
		for _, e := range rest {
			x.Add(e[0], e[1])
		}
		f.Header.AddHeader(x)
		f.Header.AddHeader(nil)
		x.Add("late", "1")
	} else {
		for _, e := range rest {
			if _, ok := f.Header.Contains(e[0]); !ok && r.Intn(2) == 0 {
				f.Header.Set(e[0], "other")
				f.Header.Set(e[0], e[1])
			} else {
				f.Header.Add(e[0], e[1])
			}
			if r.Intn(4) == 0 {
				f.Header.Add(tmp, "2")
			}
		}
	}
	f.Header.Del(tmp)
	f.Body = h.Body
	if r.Intn(2) == 0 {
		o := f
		f = o.Clone()
		spoil(o)
	}
	return f
}

// spoil changes everything about a frame but its body.
func spoil(f *frame.Frame) {
	f.Command = "SPOILT"
	for i := f.Header.Len() - 1; i >= 0; i -= 2 {
		k, _ := f.Header.GetAt(i)
		f.Header.Set(k, "spoilt")
	}
	if f.Header.Len() > 0 {
		k, _ := f.Header.GetAt(0)
		f.Header.Del(k)
	}
	f.Header.Add("spoilt", "1")
}

// headerMethods compares the methods of a header with its entries.
func headerMethods(f *frame.Frame) string {
	h := fromFrame(f)
	vals := map[string][]string{"absent": nil}
	for _, e := range h.H {
		vals[e[0]] = append(vals[e[0]], e[1])
	}
	for _, k := range sortedKeys(vals) {
		v := vals[k]
		first := ""
		if len(v) > 0 {
			first = v[0]
		}
		if got := f.Header.Get(k); got != first {
			return fmt.Sprintf("Get(%q) is %q, the first value is %q", k, got, first)
		}
		if got, ok := f.Header.Contains(k); got != first || ok != (len(v) > 0) {
			return fmt.Sprintf("Contains(%q) is %q, %v, the values are %q", k, got, ok, v)
		}
		if got := f.Header.GetAll(k); strings.Join(got, "\x00") != strings.Join(v, "\x00") || len(got) != len(v) {
			return fmt.Sprintf("GetAll(%q) is %q, the values are %q", k, got, v)
		}
	}
	n, ok, err := f.Header.ContentLength()
	v := vals["content-length"]
	if ok != (len(v) > 0) || ok && err == nil && strconv.Itoa(n) != v[0] {
		return fmt.Sprintf("ContentLength() is %d, %v, %v, the values are %q", n, ok, err, v)
	}
	c := f.Clone()
	if !sameHF(fromFrame(c), h) {
		return fmt.Sprintf("a clone is %v", fromFrame(c))
	}
	spoil(c)
	for i := range c.Body {
		c.Body[i] ^= 0x55
	}
	return ""
}

func fromFrame(f *frame.Frame) *HF {
	if f == nil {
		return &HF{}
	}
	h := &HF{Cmd: f.Command}
	for i := 0; f.Header != nil && i < f.Header.Len(); i++ {
		k, v := f.Header.GetAt(i)
		// the strings may alias memory of the library
		h.with(string([]byte(k)), string([]byte(v)))
	}
	h.Body = append([]byte(nil), f.Body...)
	return h
}

func sameHF(a, b *HF) bool {
	if a.Cmd != b.Cmd || len(a.H) != len(b.H) || !bytes.Equal(a.Body, b.Body) {
		return false
	}
	for i := range a.H {
		if a.H[i] != b.H[i] {
			return false
		}
	}
	return true
}

type countingWriter struct {
	w io.Writer
	n int64
}

func (c *countingWriter) Write(b []byte) (int, error) {
	n, err := c.w.Write(b)
	c.n += int64(n)
	return n, err
}

func runCodec(c *Ctx) {
	p := c.P
	l := c.net.NewLink()
	ops := p.Actors[0].Ops
	want := make([]*HF, len(ops))
	ends := make([]int64, len(ops)) // where the item ends on the wire
	errs := make([]error, len(ops))
	for i := range ops {
		want[i] = codecFrame(&ops[i])
	}
	mode := p.K["mode"]
	done := 0
	written := 0
	wtask := sim.Start("writer", 1, func() {
		cw := &countingWriter{w: l.A}
		rng := sim.NewRand(p.Seed ^ 0xb01d)
		var w *frame.Writer
		if mode != 2 {
			if s := p.K["wsize"]; s > 0 {
				w = frame.NewWriterSize(cw, int(s))
			} else {
				w = frame.NewWriter(cw)
			}
		}
		for i := range ops {
			if ops[i].D > 0 {
				sim.Sleep(dur(ops[i].D))
			}
			before := cw.n
			if mode == 2 {
				_, errs[i] = cw.Write(want[i].encode(p.K["crlf"] == 1))
			} else {
				errs[i] = w.Write(buildFrame(want[i], rng))
			}
			c.Log("write %d (%v): %v, bytes %d-%d", i, want[i], errs[i], before, cw.n)
			ends[i] = cw.n
			written++
			if errs[i] != nil {
				break
			}
			c.Done()
		}
		done++
		l.A.Close()
	})
	var got []*HF
	var live []*frame.Frame
	var rerr error
	rtask := sim.Start("reader", 2, func() {
		if mode == 3 {
			var ps parser
			buf := make([]byte, 777)
			for {
				n, err := l.B.Read(buf)
				ps.buf = append(ps.buf, buf[:n]...)
				for f := ps.next(); f != nil; f = ps.next() {
					got = append(got, f)
				}
				if err == nil {
					err = ps.err
				}
				if err != nil {
					rerr = err
					return
				}
			}
		}
		var rd *frame.Reader
		if s := p.K["rsize"]; s > 0 {
			rd = frame.NewReaderSize(l.B, int(s))
		} else {
			rd = frame.NewReader(l.B)
		}
		for {
			f, err := rd.Read()
			if err != nil {
				if f != nil {
					c.Fail("C01", "frame with error", "the reader returned a frame together with error %v", err)
				}
				rerr = err
				return
			}
			got = append(got, fromFrame(f))
			live = append(live, f)
			if f != nil {
				if d := headerMethods(f); d != "" {
					c.Fail("C01", "header methods disagree", "%v: %s", got[len(got)-1], d)
					return
				}
			}
			if len(got) > len(want)+50 {
				c.Fail("C01", "invented frames", "the reader keeps returning frames that were not sent")
				return
			}
		}
	})
	second := secondStream(c, want)
	sim.Quiesce(dur(600 * sc))
	second()
	if !wtask.Ended() || !rtask.Ended() {
		c.Fail("C01", "stuck", "writer ended %v, reader ended %v after all faults are over", wtask.Ended(), rtask.Ended())
		return
	}
	// frames already handed out must not have changed
	for i, f := range live {
		if !sameHF(fromFrame(f), got[i]) {
			c.Fail("C01", "frame changed later", "frame %d was handed out as %v and later became %v", i, got[i], fromFrame(f))
		}
	}
	// which items arrived completely?
	avail := l.B.Received()
	var expect []*HF
	for i := 0; i < written; i++ {
		if ends[i] <= avail && errs[i] == nil {
			expect = append(expect, want[i])
		}
	}
	for i := range got {
		c.Note(fmt.Sprint(i, got[i].Cmd, len(got[i].Body)))
	}
	e, g := collapse(expect), collapse(got)
	for i := 0; i < len(e) || i < len(g); i++ {
		switch {
		case i >= len(g):
			c.Fail("C01", "frame missing", "item %d (%v) arrived completely (%d bytes) but the reader reported %v", i, e[i], avail, rerr)
			return
		case i >= len(e):
			c.Fail("C01", "frame invented", "the reader returned %v, which was not completely received (%d bytes arrived)", g[i], avail)
			return
		case !sameHF(e[i], g[i]):
			c.Fail("C01", "frame altered", "item %d was written as %v and read as %v", i, e[i], g[i])
			return
		}
	}
	if rerr == nil {
		c.Fail("C01", "no error at end", "the reader returned no error at the end of the stream")
	}
	// write errors are reported by the write that failed
	for _, f := range p.Faults {
		if f.Kind != "werr" || mode == 2 {
			continue
		}
		for i := 0; i < written; i++ {
			size := int64(len(want[i].encode(false)))
			start := ends[i] - size
			if i > 0 {
				start = ends[i-1]
			}
			if errs[i] == nil && start <= f.Off && f.Off < start+size && ends[i] < start+size {
				c.Fail("C01", "write error not reported", "the stream failed after byte %d but the write of item %d (bytes %d-%d, %v) reported success", f.Off, i, start, start+size, want[i])
			}
		}
	}
	for i := 0; i < written; i++ {
		start := int64(0)
		if i > 0 {
			start = ends[i-1]
		}
		size := int64(len(want[i].encode(mode == 2 && p.K["crlf"] == 1)))
		if errs[i] == nil && ends[i]-start != size {
			c.Fail("C01", "write incomplete", "the write of item %d (%v) reported success with %d of %d bytes handed to the transport", i, want[i], ends[i]-start, size)
		}
		if errs[i] != nil && !l.A.Broken() {
			c.Fail("C01", "spurious write error", "the write of item %d failed with %v on a healthy stream", i, errs[i])
		}
	}
}

// secondStream passes the same items the other way round through another,
// healthy, stream at the same time. The function returned evaluates it.
func secondStream(c *Ctx, want []*HF) func() {
	if c.P.K["two"] == 0 {
		return func() {}
	}
	l := c.net.NewLink()
	var items, got []*HF
	for i := len(want) - 1; i >= 0; i-- {
		items = append(items, want[i])
	}
	var werr, rerr error
	wtask := sim.Start("writer 2", 1, func() {
		w := frame.NewWriterSize(l.A, int(c.P.K["rsize"]))
		for _, x := range items {
			if werr = w.Write(toFrame(x)); werr != nil {
				break
			}
		}
		l.A.Close()
	})
	rtask := sim.Start("reader 2", 2, func() {
		rd := frame.NewReaderSize(l.B, int(c.P.K["wsize"]))
		var live []*frame.Frame
		for rerr == nil && len(got) < len(items)+50 {
			var f *frame.Frame
			if f, rerr = rd.Read(); rerr == nil {
				got = append(got, fromFrame(f))
				live = append(live, f)
			}
		}
		for i, f := range live {
			if !sameHF(fromFrame(f), got[i]) {
				c.Fail("C01", "frame changed later", "second stream: frame %d was handed out as %v and later became %v", i, got[i], fromFrame(f))
			}
		}
	})
	return func() {
		e, g := collapse(items), collapse(got)
		if !wtask.Ended() || !rtask.Ended() || werr != nil || rerr != io.EOF {
			c.Fail("C01", "stuck", "second stream: writer ended %v (%v), reader ended %v (%v)", wtask.Ended(), werr, rtask.Ended(), rerr)
			return
		}
		for i := 0; i < len(e) || i < len(g); i++ {
			if i >= len(g) || i >= len(e) || !sameHF(e[i], g[i]) {
				c.Fail("C01", "frame altered", "second stream: %d items written, %d read, the first difference is at %d", len(e), len(g), i)
				return
			}
		}
	}
}

// collapse reduces runs of heart-beats to one: a reader may merge them.
func collapse(in []*HF) []*HF {
	var out []*HF
	for _, f := range in {
		if f.Cmd == "" && len(out) > 0 && out[len(out)-1].Cmd == "" {
			continue
		}
		out = append(out, f)
	}
	return out
}
