package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/go-stomp/stomp/v3"
	"github.com/go-stomp/stomp/v3/zzverif/sim"
)

// facts about a connection that the checks share
type cfacts struct {
	sl        time.Duration
	late      bool // some consumer may keep the client from reading in time
	stalled   bool // some consumer stopped reading for good
	blocked   bool
	local     *call // first disconnect of either kind
	disc      *wframe
	discRcpt  *bframe
	readFail  bool // ended by the peer's side of the stream and nothing else
	rcv       map[string][]*bframe
	any       map[string][]*bframe
	mst, rct  time.Duration
	dct, uct  time.Duration
	hb        bool
	closed    bool
	closedAt  time.Duration
	unordered bool
}

func (w *cworld) evaluate() {
	for _, cc := range w.conns {
		if cc.conn == nil {
			if cc.cerr != nil && cc.a.k("mayfail") == 0 && cc.downWhy == "" {
				w.fail("C12", "connect failed", "connection %d: %v", cc.i, cc.cerr)
			}
			continue
		}
		f := cc.facts()
		cc.match(f)
		cc.evalBounds(f)
		cc.evalReceipts(f)
		cc.evalSends(f)
		cc.evalSubs(f)
		cc.evalUnsub(f)
		cc.evalDisc(f)
		cc.evalBeat(f)
		cc.evalTx(f)
		cc.evalDown(f)
	}
	for _, b := range sim.Alive() {
		if b.Site != "" && b.Site != "timer" {
			w.fail("C06", "goroutine left", "%v", b)
		}
	}
}

func (cc *cconn) facts() *cfacts {
	f := &cfacts{sl: cc.w.slack(), rcv: map[string][]*bframe{}, any: map[string][]*bframe{}}
	f.blocked = cc.cl.EverBlocked
	for _, s := range cc.subs {
		if s.lateRead || s.ackHow > 0 && (f.blocked || cc.paused) {
			f.late = true
		}
		if s.stalled {
			f.stalled, f.late = true, true
		}
	}
	for _, k := range cc.calls {
		if (k.kind == "disc" || k.kind == "must") && f.local == nil {
			f.local = k
		}
	}
	for _, b := range cc.sent {
		if b.rid != "" && b.aseq > 0 {
			f.any[b.rid] = append(f.any[b.rid], b)
		}
		if b.rid != "" && b.seq > 0 {
			f.rcv[b.rid] = append(f.rcv[b.rid], b)
		}
	}
	f.mst = cc.timeout("mst", 10*time.Second)
	f.rct = cc.timeout("rct", 30*time.Second)
	f.dct = cc.timeout("dct", 30*time.Second)
	f.uct = cc.timeout("uct", 30*time.Second)
	f.hb = cc.a.k("hbh") == 1 && cc.a.k("sx") > 0 && cc.a.k("cy") > 0
	f.closed, f.closedAt = cc.cl.Closed()
	f.readFail = cc.downWhy == "eof" && !cc.cl.WriteFailed() && (f.local == nil || f.local.sseq > cc.downSeq && !f.late)
	return f
}

// came tells whether a receipt arrived between two events, even if the client
// need not have looked at it any more.
func (f *cfacts) came(rid string, x *wframe, before int) bool {
	for _, b := range f.any[rid] {
		if b.aseq > x.Seq && b.aseq < before && (b.req == 0 || b.req == x.idx+1) {
			return true
		}
	}
	return false
}

func (f *cfacts) receipt(rid string, x *wframe) *bframe {
	for _, b := range f.rcv[rid] {
		if b.seq > x.Seq && (b.req == 0 || b.req == x.idx+1) {
			return b
		}
	}
	return nil
}

// isDown tells whether the connection was over at the given time, taking into
// account how long the client may need to notice.
func (cc *cconn) downBy(t time.Duration) bool { return cc.downSeq > 0 && cc.downAt < t }

func frameKey(h *HF, ver stomp.Version) string {
	switch h.Cmd {
	case "SEND":
		d := h.get("destination")
		d = strings.TrimSuffix(strings.TrimPrefix(strings.TrimPrefix(d, "/q/"), ":\\"), "\n")
		return "SEND " + d
	case "SUBSCRIBE":
		return "SUBSCRIBE " + h.get("destination")
	case "UNSUBSCRIBE":
		return "UNSUBSCRIBE " + h.get("id")
	case "ACK", "NACK":
		k := h.Cmd + " " + h.get("message-id")
		if ver == stomp.V12 {
			k = h.Cmd + " " + h.get("id")
		}
		if t, ok := h.lookup("transaction"); ok {
			k += " " + t
		}
		return k
	case "BEGIN", "COMMIT", "ABORT":
		return h.Cmd + " " + h.get("transaction")
	}
	return h.Cmd
}

// match finds the call behind every frame on the wire.
func (cc *cconn) match(f *cfacts) {
	w := cc.w
	byKey := map[string][]*call{}
	for _, k := range cc.calls {
		if k.key != "" {
			byKey[k.key] = append(byKey[k.key], k)
		}
	}
	for _, x := range cc.wire {
		if x.idx == 0 {
			if x.Cmd != "CONNECT" && x.Cmd != "STOMP" {
				w.fail("C12 C02", "no connect frame", "the first frame of connection %d is %v", cc.i, x.HF)
			}
			continue
		}
		key := frameKey(x.HF, cc.ver)
		var hit, lied *call
		used := 0
		for _, k := range byKey[key] {
			if k.wire != nil {
				used++
				continue
			}
			if k.sseq > x.Seq {
				continue
			}
			if k.notQueued() {
				if lied == nil {
					lied = k
				}
				continue
			}
			if k.done && k.eseq < x.Seq && k.err == nil && k.rcpt && k.kind != "disc" {
				continue
			}
			hit = k
			break
		}
		props := "C02"
		switch x.Cmd {
		case "BEGIN", "COMMIT", "ABORT", "ACK", "NACK":
			props = "C02 C13"
		case "UNSUBSCRIBE":
			props = "C02 C08"
		case "DISCONNECT":
			props = "C02 C09"
		}
		switch {
		case hit != nil:
			hit.wire, x.call = x, hit
			cc.content(x, hit)
		case lied != nil:
			lied.wire, x.call = x, lied
			if isErr(lied.err, stomp.ErrCompletedTransaction) {
				props += " C13"
			}
			if isErr(lied.err, stomp.ErrAlreadyClosed) {
				props += " C09"
			}
			w.fail(props, "failed call on the wire", "%v wrote %v", lied, x.HF)
		case used > 0:
			w.fail(props, "frame sent twice", "connection %d: %v is on the wire more often than asked for", cc.i, x.HF)
		default:
			w.fail(props, "frame nobody asked for", "connection %d: %v", cc.i, x.HF)
		}
		if x.Cmd == "DISCONNECT" && f.disc == nil {
			f.disc = x
			f.discRcpt = f.receipt(x.get("receipt"), x)
		}
		if rid, ok := x.lookup("receipt"); ok && x.Cmd != "UNSUBSCRIBE" && !strings.HasPrefix(rid, "urc-") {
			w.id(rid, fmt.Sprintf("receipt of %s on connection %d", x.Cmd, cc.i))
		}
		if x.Cmd == "SUBSCRIBE" && !strings.HasPrefix(x.get("id"), "u") {
			w.id(x.get("id"), fmt.Sprintf("id of SUBSCRIBE %s on connection %d", x.get("destination"), cc.i))
		}
	}
	for _, t := range cc.txs {
		if t.id != "" {
			w.id(t.id, fmt.Sprintf("transaction on connection %d", cc.i))
		}
	}
	for _, s := range cc.subs {
		if s.k.wire == nil && s.s != nil && !s.reply && s.bslot == 0 {
			w.id(s.s.Id(), "id of a subscription that never reached the wire")
		}
	}
}

// id registers an id chosen by the library.
func (w *cworld) id(id, what string) {
	if id == "" {
		w.fail("C14 C02", "empty id", "%s is empty", what)
		return
	}
	if o, ok := w.ids[id]; ok {
		w.fail("C14", "id used twice", "%q is the %s and also the %s", id, o, what)
		return
	}
	w.ids[id] = what
}

// content checks a frame against the call it belongs to.
func (cc *cconn) content(x *wframe, k *call) {
	if k.exp == nil {
		return
	}
	props := map[string]string{"SEND": "C02", "SUBSCRIBE": "C02", "UNSUBSCRIBE": "C02 C08", "DISCONNECT": "C02 C09"}[x.Cmd]
	if props == "" || k.tx != nil {
		props = strings.TrimSpace(props + " C13")
	}
	if x.Cmd != k.exp.Cmd {
		cc.w.fail(props, "wrong command", "%v wrote %v", k, x.HF)
		return
	}
	free := map[string]bool{}
	if k.rcpt {
		free["receipt"] = k.exp.get("receipt") == ""
		if x.get("receipt") == "" {
			cc.w.fail(props+" C03", "receipt header missing", "%v wrote %v", k, x.HF)
		}
	}
	if x.Cmd == "SUBSCRIBE" {
		free["id"] = true
		if x.get("id") == "" || k.sub != nil && k.done && k.err == nil && k.sub.s != nil && x.get("id") != k.sub.s.Id() {
			cc.w.fail(props, "wrong content", "%v wrote %v", k, x.HF)
		}
	}
	if d := sameHeaders(x.H, k.exp.H, free); d != "" {
		cc.w.fail(props, "wrong content", "%v wrote %v: %s", k, x.HF, d)
	}
	if string(x.Body) != string(k.exp.Body) {
		cc.w.fail(props, "wrong content", "%v wrote body %.80q, want %.80q", k, x.Body, k.exp.Body)
	}
}

// evalBounds: every call returns in time.
func (cc *cconn) evalBounds(f *cfacts) {
	for _, k := range cc.calls {
		var limit time.Duration // 0: none
		switch k.kind {
		case "unsub":
			limit = f.uct
		case "disc":
			limit = f.dct
		case "must":
			limit = 1
		default:
			if f.mst > 0 && (!k.rcpt || f.rct > 0) {
				limit = f.mst
				if k.rcpt {
					limit += f.rct
				}
			}
		}
		also := ""
		switch {
		case k.kind == "unsub":
			also = " C08"
		case k.kind == "disc":
			also = " C09 C03"
		case k.rcpt:
			also = " C03"
		}
		if !k.done {
			cc.w.fail("C04 C05"+also, "call never returns", "connection %d (over at %v: %s): %v", cc.i, cc.downAt, cc.downWhy, k)
			continue
		}
		took := k.end - k.start
		ok := limit > 0 && took <= limit+f.sl
		if ok && k.rcpt && k.wire != nil && k.kind != "unsub" && k.kind != "disc" && k.end > k.wire.At+f.rct+f.sl {
			// nothing but the receipt was missing
			limit, ok = k.wire.At+f.rct-k.start, false
		}
		if cc.downSeq > 0 && (!f.late || cc.downWhy == "closed" || cc.downWhy == "write error") && k.end <= maxDur(k.start, cc.downAt)+f.sl {
			ok = true
		}
		if !ok && limit == 0 && (cc.downSeq == 0 || k.eseq < cc.downSeq || f.late) {
			ok = true // nothing bounds it but the connection's end
		}
		if !ok {
			cc.w.fail("C04"+also, "call returns late", "connection %d (over at %v: %s), limit %v: %v", cc.i, cc.downAt, cc.downWhy, limit, k)
		}
	}
}

// evalReceipts: success exactly when the own receipt has arrived.
func (cc *cconn) evalReceipts(f *cfacts) {
	for _, k := range cc.calls {
		if !k.rcpt || k.kind == "unsub" || k.kind == "disc" || !k.done {
			continue
		}
		if k.wire == nil {
			if k.err == nil {
				cc.w.fail("C03 C02", "success without frame", "%v, but its frame is not on the wire", k)
			}
			continue
		}
		rid := k.wire.get("receipt")
		ra := f.receipt(rid, k.wire)
		if k.err == nil {
			if !f.came(rid, k.wire, k.eseq) {
				cc.w.fail("C03", "success without receipt", "%v, but no RECEIPT %q had arrived by then", k, rid)
			}
			continue
		}
		if ra == nil || f.late {
			continue
		}
		if f.rct > 0 && ra.at > k.start+f.rct-f.sl {
			continue
		}
		if cc.downBy(ra.at+f.sl) && !(f.readFail && ra.seq < cc.downSeq) {
			continue
		}
		if f.local != nil && f.local.start < ra.at+f.sl {
			continue
		}
		cc.w.fail("C03", "receipt in vain", "%v, although its RECEIPT %q arrived at %v", k, rid, ra.at)
	}
}

// evalSends: what was accepted is on the wire, in order.
func (cc *cconn) evalSends(f *cfacts) {
	w := cc.w
	last := map[string]*call{}
	missing := map[string]*call{}
	for _, k := range cc.calls {
		if k.key == "" || k.kind == "disc" {
			continue
		}
		if k.wire == nil {
			if k.err == nil && k.done && k.kind != "unsub" {
				if missing[k.gor] == nil {
					missing[k.gor] = k
				}
				if cc.healthy && k.eseq < w.settleAt && k.end < w.settleT-f.sl {
					w.fail("C02", "accepted frame lost", "%v, but its frame is not on the wire at %v", k, w.settleT)
				}
			}
			continue
		}
		if k.shared {
			continue
		}
		if m := missing[k.gor]; m != nil && !m.shared {
			w.fail("C02", "frame missing", "%v has not reached the wire, a later call of the same task has: %v", m, k)
		}
		if l := last[k.gor]; l != nil && l.wire.idx > k.wire.idx {
			w.fail("C02", "frames out of order", "%v is on the wire before %v", k, l)
		}
		last[k.gor] = k
	}
}

func (s *csub) delivered() (msgs []*delivery, errs []*delivery) {
	for i := range s.rec {
		d := &s.rec[i]
		switch {
		case d.closed:
		case d.err != nil:
			errs = append(errs, d)
		default:
			msgs = append(msgs, d)
		}
	}
	return
}

// evalSubs: deliveries and the end of subscriptions.
func (cc *cconn) evalSubs(f *cfacts) {
	w := cc.w
	for _, s := range cc.subs {
		if s.s == nil || s.k.err != nil {
			continue
		}
		msgs, errs := s.delivered()
		seenErr := false
		for i := range s.rec {
			d := &s.rec[i]
			if seenErr && !d.closed {
				w.fail("C07 C06", "delivery after the error", "subscription %s got something after an error: %q %v", s.dest, d.body, d.err)
			}
			if d.err != nil {
				seenErr = true
			}
		}
		for i, d := range msgs {
			if i >= len(s.sent) {
				w.fail("C07", "message from nowhere", "subscription %s got %q, which was not sent to it", s.dest, d.body)
				break
			}
			m := s.sent[i].f
			if d.body != string(m.Body) {
				w.fail("C07", "wrong message", "subscription %s: delivery %d is %.60q, but message %d is %.60q", s.dest, i, d.body, i, m.Body)
				break
			}
			if d.dest != m.get("destination") || d.ctype != m.get("content-type") || fmt.Sprint(d.head) != fmt.Sprint(m.H) {
				w.fail("C07", "message altered", "subscription %s: %v came out as %q %q %q", s.dest, m, d.dest, d.ctype, d.head)
				break
			}
			if string(d.m.Body) != d.body {
				w.fail("C07", "message changed later", "subscription %s: %v", s.dest, m)
			}
		}
		var u *call
		if len(s.unsubs) > 0 {
			u = s.unsubs[0]
		}
		// completeness
		need := 0
		for _, b := range s.sent {
			if b.seq == 0 {
				break
			}
			if cc.healthy {
				if b.seq < w.settleAt && b.at < w.settleT-f.sl {
					need++
				}
				continue
			}
			if f.readFail && (cc.errF == nil && b.seq < cc.downSeq) {
				need++
			} else if b.at < cc.downAt-f.sl && !f.late && cc.downSeq > 0 {
				need++
			}
		}
		if cc.errF != nil && !f.late && !cc.downBy(cc.errF.at) && cc.errF.kind == "error" {
			// everything before the ERROR frame, if that was the end
			need = 0
			for _, b := range s.sent {
				if b.seq > 0 && b.seq < cc.errF.seq && cc.errorCause(f) {
					need++
				}
			}
		}
		if u == nil && !(f.stalled && cc.healthy) && len(msgs) < need {
			p := "C07"
			if !cc.healthy {
				p = "C06"
			}
			w.fail(p, "message lost", "subscription %s got %d of %d messages that arrived; the next is %v (connection over at %v: %s)", s.dest, len(msgs), need, s.sent[len(msgs)].f, cc.downAt, cc.downWhy)
		}
		// the end
		if !s.ended {
			w.fail("C06 C08", "channel never closed", "subscription %s: %d messages, %d errors, then nothing; connection over at %v: %s", s.dest, len(msgs), len(errs), cc.downAt, cc.downWhy)
			continue
		}
		if len(errs) > 1 {
			w.fail("C06 C07", "more than one error", "subscription %s got %d errors", s.dest, len(errs))
		}
		if u == nil && len(errs) == 0 {
			w.fail("C06", "closed without error", "subscription %s: closed at %v without an error (connection over at %v: %s)", s.dest, s.rec[len(s.rec)-1].at, cc.downAt, cc.downWhy)
		}
		if cc.downSeq > 0 && !f.late && u == nil && len(errs) == 1 {
			if errs[0].at > maxDur(maxDur(cc.downAt, s.k.end), 0)+f.sl {
				w.fail("C06", "error reported late", "subscription %s learnt at %v of the end at %v (%s)", s.dest, errs[0].at, cc.downAt, cc.downWhy)
			}
			if errs[0].at < cc.downAt-f.sl {
				w.fail("C06 C07", "error without cause", "subscription %s got the error %v at %v, the connection ended at %v: %s", s.dest, errs[0].err, errs[0].at, cc.downAt, cc.downWhy)
			}
		}
		if u == nil && len(errs) == 1 && cc.errF != nil && cc.errF.kind == "error" && cc.errorCause(f) && s.k.eseq < cc.errF.seq {
			e := cc.errF.f
			d := errs[0]
			msg := e.get("message")
			if msg != "" && d.err.Error() != msg || !d.read && (d.body != string(e.Body) || d.ctype != e.get("content-type")) {
				w.fail("C06", "wrong error", "the peer's %v came out of subscription %s as %q with body %q, content type %q", e, s.dest, d.err, d.body, d.ctype)
			}
		}
	}
}

// errorCause: the connection ended because of the ERROR frame and nothing else.
func (cc *cconn) errorCause(f *cfacts) bool {
	e := cc.errF
	if e == nil || cc.downSeq == 0 || cc.cl.WriteFailed() || cc.downBy(e.at) {
		return false
	}
	if cc.downWhy != "closed" && cc.downWhy != "eof" || cc.downSeq < e.seq {
		return false
	}
	if f.local != nil && f.local.start <= e.at+f.sl {
		return false
	}
	if f.local != nil && f.late {
		return false // a slow consumer may leave the ERROR frame waiting in the client
	}
	if f.hb && cc.silence > 0 {
		return false
	}
	return true
}

// evalUnsub: unsubscribing.
func (cc *cconn) evalUnsub(f *cfacts) {
	w := cc.w
	for _, s := range cc.subs {
		for i, u := range s.unsubs {
			if i > 0 && u.done && u.sseq > s.unsubs[0].eseq && s.unsubs[0].done && !isErr(u.err, stomp.ErrCompletedSubscription) {
				w.fail("C08", "second unsubscribe", "%v, after %v", u, s.unsubs[0])
			}
		}
		if len(s.unsubs) == 0 || s.s == nil {
			continue
		}
		n := 0
		var u *call
		for _, x := range s.unsubs {
			if !x.done {
				u = nil
				n = 99
				break
			}
			if !isErr(x.err, stomp.ErrCompletedSubscription) {
				u = x
				n++
			}
		}
		if n == 99 {
			continue
		}
		if n > 1 {
			w.fail("C08", "second unsubscribe", "%d calls did not report that the subscription was completed: %v", n, s.unsubs)
		}
		if u == nil {
			if !(cc.downSeq > 0 && cc.downSeq < s.unsubs[0].eseq) && !(f.local != nil && f.local.sseq < s.unsubs[0].eseq) {
				w.fail("C08", "first unsubscribe", "%v", s.unsubs[0])
			}
			continue
		}
		msgs, errs := s.delivered()
		if s.reply {
			if u.err == nil && (len(errs) > 0 && !cc.downBy(u.end+f.sl) && s.ended) {
				w.fail("C08", "error after unsubscribe", "subscription %s got %v", s.dest, errs[0].err)
			}
			continue
		}
		var ra *bframe
		if u.wire != nil {
			ra = f.receipt(u.wire.get("receipt"), u.wire)
		}
		if u.err == nil && (ra == nil || ra.seq > u.eseq) {
			w.fail("C08", "unsubscribed without confirmation", "%v, but no RECEIPT had arrived", u)
			continue
		}
		inTime := ra != nil && (f.uct == 0 || ra.at <= u.start+f.uct-f.sl)
		healthyThen := ra != nil && (!cc.downBy(ra.at+f.sl) || f.readFail && ra.seq < cc.downSeq) && !(f.local != nil && f.local.start < ra.at+f.sl)
		if inTime && healthyThen && !f.late {
			if u.err != nil {
				w.fail("C08", "confirmation in vain", "%v, although the RECEIPT arrived at %v", u, ra.at)
			} else if u.end > ra.at+f.sl {
				w.fail("C08", "unsubscribe returns late", "%v, although the RECEIPT arrived at %v", u, ra.at)
			}
		}
		if u.err == nil {
			before := 0
			for _, b := range s.sent {
				if b.end < ra.end {
					before++
				}
			}
			if len(msgs) < before {
				w.fail("C08", "message lost", "subscription %s got %d of %d messages that had arrived before unsubscribing was confirmed", s.dest, len(msgs), before)
			}
			if len(msgs) > before {
				w.fail("C08 C07", "message after unsubscribe", "subscription %s got %d messages, only %d came before the confirmation", s.dest, len(msgs), before)
			}
			if len(errs) > 0 {
				w.fail("C08", "error after unsubscribe", "subscription %s got %v", s.dest, errs[0].err)
			}
			if !s.lateRead && s.ended && s.ackHow == 0 && s.rec[len(s.rec)-1].at > u.end+f.sl {
				w.fail("C08", "closed late", "subscription %s closed at %v, unsubscribed at %v", s.dest, s.rec[len(s.rec)-1].at, u.end)
			}
		}
		if f.uct > 0 && (ra == nil || ra.at > u.start+f.uct+f.sl) && !cc.downBy(u.start+f.uct+f.sl) && !(f.local != nil && f.local.start < u.start+f.uct+f.sl) {
			if !isErr(u.err, &stomp.ErrUnsubscribeReceiptTimeout) {
				w.fail("C08", "no timeout error", "%v, although no confirmation arrived in time (%v)", u, f.uct)
			}
			if u.end < u.start+f.uct {
				w.fail("C08", "timeout too early", "%v, timeout is %v", u, f.uct)
			}
		}
	}
}

// evalDisc: disconnecting.
func (cc *cconn) evalDisc(f *cfacts) {
	w := cc.w
	n := 0
	for _, x := range cc.wire {
		if x.Cmd == "DISCONNECT" {
			n++
		}
		if f.disc != nil && x.idx > f.disc.idx && x.call != nil && x.call.sseq > f.disc.Seq {
			w.fail("C09", "frame after DISCONNECT", "%v, started after the DISCONNECT frame, wrote %v", x.call, x.HF)
		}
	}
	if n > 1 {
		w.fail("C09", "more than one DISCONNECT", "connection %d: %d DISCONNECT frames", cc.i, n)
	}
	var over *call // first disconnect that was final
	for _, d := range cc.calls {
		if d.kind == "must" && d.done && (over == nil || d.eseq < over.eseq) {
			over = d
		}
		if d.kind != "disc" || !d.done {
			continue
		}
		timedOut := isErr(d.err, stomp.ErrDisconnectReceiptTimeout)
		if d.err == nil || timedOut {
			if over == nil || d.eseq < over.eseq {
				over = d
			}
			if !f.closed || f.closedAt > d.end {
				w.fail("C09", "transport left open", "%v, but the transport was not closed by then", d)
			}
		}
		if f.disc == nil || f.disc.Seq > d.eseq || f.discRcpt == nil || f.discRcpt.seq > d.eseq {
			if d.err == nil && (cc.downSeq == 0 || cc.downSeq > d.eseq) {
				w.fail("C09 C03", "disconnected without receipt", "%v, but no receipt for a DISCONNECT frame had arrived", d)
			}
			continue
		}
		if d.err == nil {
			for _, k := range cc.calls {
				if k.done && k.err == nil && k.key != "" && k.kind != "disc" && k.eseq < d.sseq && k.sseq > 0 && (k.wire == nil || k.wire.idx > f.disc.idx) {
					w.fail("C09", "accepted frame not flushed", "%v returned success, but %v is not on the wire before the DISCONNECT frame", d, k)
				}
			}
		}
	}
	// a receipt in time means success for the call that sent it
	if f.disc != nil && f.discRcpt != nil {
		var only *call
		for _, d := range cc.calls {
			if d.kind == "disc" || d.kind == "must" {
				if only != nil && d.sseq < only.eseq || only == nil {
					if only == nil {
						only = d
					} else {
						only = nil
						break
					}
				}
			}
		}
		if only != nil && only.kind == "disc" && only.done && !f.late && only.err != nil {
			ra := f.discRcpt
			if (f.dct == 0 || ra.at <= only.start+f.dct-f.sl) && (cc.downSeq == 0 || cc.downSeq > ra.seq && (cc.downWhy == "closed" || cc.downWhy == "eof" && !cc.cl.WriteFailed())) && (cc.errF == nil || cc.errF.seq > ra.seq) && cc.poison == nil && !(f.hb && cc.silence > dur(cc.a.k("sx")*ms)) {
				w.fail("C03 C09", "receipt in vain", "%v, although the receipt arrived at %v", only, ra.at)
			}
		}
	}
	for _, k := range cc.calls {
		if !k.done || over == nil || k.sseq < over.eseq {
			continue
		}
		switch {
		case k.kind == "must":
		case k.kind == "disc":
			if k.err != nil {
				w.fail("C09", "second disconnect fails", "%v, after %v", k, over)
			}
		case (k.kind == "ack" || k.kind == "txack") && k.key == "":
		case k.err == nil:
			w.fail("C09 C06", "call succeeds after disconnect", "%v, after %v", k, over)
		}
		if k.wire != nil && k.kind != "disc" {
			w.fail("C09", "call writes after disconnect", "%v, after %v", k, over)
		}
	}
}

// evalBeat: heart-beats in both directions.
func (cc *cconn) evalBeat(f *cfacts) {
	w, k := cc.w, cc.a.k
	sy := dur(k("sy") * ms)
	if k("hbh") == 0 || sy == 0 {
		if cc.beats > 0 {
			w.fail("C10", "heart-beats not asked for", "connection %d: %d heart-beats, none negotiated", cc.i, cc.beats)
		}
	} else if k("cx") > 0 && cc.worstGap > sy+f.sl {
		w.fail("C10", "heart-beat late", "connection %d was silent for %v, negotiated %v", cc.i, cc.worstGap, sy)
	}
	sentBad := false // part of it may have been enough to end the connection
	for _, b := range cc.sent {
		if b.kind == "poison" {
			sentBad = true
		}
	}
	if cc.downWhy == "closed" && (f.local == nil || f.local.sseq > cc.downSeq) && cc.poison == nil && cc.errF == nil {
		if !sentBad && !(f.hb && cc.silence > dur(k("sx")*ms)) {
			w.fail("C11 C03 C07", "closed without cause", "the client closed connection %d at %v; the peer had last been heard %v before", cc.i, cc.downAt, cc.silence)
		}
	}
	if f.hb && !f.late {
		iv := k("sx")
		if k("cy") > iv {
			iv = k("cy")
		}
		he := int64(5 * time.Second)
		if v, ok := cc.a.K["hberr"]; ok {
			he = v
		}
		lim := float64(iv*ms + he)
		if v, ok := cc.a.K["grace"]; ok {
			lim = lim * float64(v) / 100
		}
		limit := dur(int64(lim)) + f.sl
		sil := cc.silence
		if cc.downSeq == 0 {
			sil = sim.Now() - maxDur(cc.lastArr, cc.connAt)
		}
		if sil > limit {
			w.fail("C11", "dead peer not noticed", "connection %d: nothing came for %v, limit %v; over at %v: %s", cc.i, sil, limit, cc.downAt, cc.downWhy)
		}
		if cc.downWhy == "closed" && (f.local == nil || f.local.sseq > cc.downSeq) && !sentBad && cc.errF == nil && !f.blocked {
			for _, s := range cc.subs {
				_, errs := s.delivered()
				if s.s != nil && s.k.eseq < cc.downSeq && len(s.unsubs) == 0 && len(errs) == 1 && !strings.Contains(errs[0].err.Error(), "timeout") {
					w.fail("C11", "not called a timeout", "subscription %s got %v", s.dest, errs[0].err)
				}
			}
		}
	}
}

// evalTx: transactions.
func (cc *cconn) evalTx(f *cfacts) {
	w := cc.w
	for _, t := range cc.txs {
		if t.begin.err != nil {
			continue
		}
		begin, end := -1, -1
		ok := 0
		for _, k := range t.calls {
			if (k.kind == "commit" || k.kind == "abort") && k.done && k.err == nil {
				ok++
				if k.wire != nil && (end < 0 || k.wire.idx < end) {
					end = k.wire.idx
				}
			}
			if t.doneAt > 0 && k.sseq > t.doneAt && k.done {
				if !isErr(k.err, stomp.ErrCompletedTransaction) {
					w.fail("C13", "call on a completed transaction", "%v", k)
				}
				if k.wire != nil {
					w.fail("C13", "completed transaction writes", "%v", k)
				}
			}
		}
		if ok > 1 {
			w.fail("C13", "transaction completed twice", "transaction %s", t.id)
		}
		if t.begin.wire != nil {
			begin = t.begin.wire.idx
		}
		for _, x := range cc.wire {
			if v, has := x.lookup("transaction"); !has || v != t.id || x.Cmd == "BEGIN" {
				continue
			}
			if begin < 0 || x.idx < begin {
				w.fail("C13", "before BEGIN", "%v is not preceded by BEGIN", x.HF)
			}
			if end >= 0 && x.idx > end {
				w.fail("C13", "after the end of the transaction", "%v comes after the end of the transaction", x.HF)
			}
		}
	}
	for _, k := range cc.calls {
		if !k.done || k.tx != nil {
			continue
		}
		switch {
		case k.kind == "nack" && cc.ver == stomp.V10 && !isErr(k.err, stomp.ErrNackNotSupported):
			w.fail("C13", "nack in version 1.0", "%v", k)
		case k.kind == "nack" && cc.ver != stomp.V10 && k.sub.mode == stomp.AckAuto && k.err == nil:
			w.fail("C13", "nack of an automatic subscription", "%v", k)
		case k.kind == "ack" && k.key == "" && k.err != nil:
			w.fail("C13", "ack of an automatic subscription fails", "%v", k)
		}
	}
}

// evalDown: the end of the connection.
func (cc *cconn) evalDown(f *cfacts) {
	w := cc.w
	if !f.closed {
		w.fail("C06", "transport left open", "connection %d was over at %v (%s) and is not closed", cc.i, cc.downAt, cc.downWhy)
	} else if f.closedAt > cc.downAt+f.sl && !f.late {
		w.fail("C06", "transport closed late", "connection %d was over at %v (%s) and closed at %v", cc.i, cc.downAt, cc.downWhy, f.closedAt)
	}
	if cc.errF != nil && !f.late && f.closedAt > maxDur(cc.errF.at, cc.cl.BlockedUntil)+f.sl {
		w.fail("C06", "transport left open after ERROR", "connection %d got %v at %v and closed at %v", cc.i, cc.errF.f, cc.errF.at, f.closedAt)
	}
	if cc.poison != nil && !f.late && f.closedAt > maxDur(cc.poison.at, cc.cl.BlockedUntil)+f.sl {
		w.fail("C06", "transport left open after garbage", "connection %d got garbage at %v and closed at %v", cc.i, cc.poison.at, f.closedAt)
	}
	for _, k := range cc.calls {
		if !k.done || k.start <= cc.downAt+f.sl || f.late && cc.downWhy != "closed" && cc.downWhy != "write error" {
			continue
		}
		if k.kind == "must" || k.kind == "disc" || (k.kind == "ack" || k.kind == "txack") && k.key == "" {
			continue
		}
		if k.err == nil {
			w.fail("C06", "call succeeds after the end", "connection %d was over at %v (%s): %v", cc.i, cc.downAt, cc.downWhy, k)
		}
	}
}
