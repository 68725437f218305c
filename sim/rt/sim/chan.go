package sim

import (
	"fmt"
	"runtime"
)

// Chan is a simulated channel.
type Chan[T any] struct {
	buf    []T
	n      int
	closed bool
	recvq  []*Case[T]
	sendq  []*Case[T]
}

// As gives access to the channel operations of any channel type.
func As[C ~*Chan[T], T any](c C) *Chan[T] { return (*Chan[T])(c) }

// Zero declares the variable of a loop over c.
func (c *Chan[T]) Zero() (v T) { return }

// MakeAs is make(C, n).
func MakeAs[C ~*Chan[T], T any](n int) C {
	if n < 0 {
		panic(fmt.Errorf("makechan: size out of range"))
	}
	return C(&Chan[T]{n: n})
}

// NewChan is make(chan T, n).
func NewChan[T any](n int) *Chan[T] { return &Chan[T]{n: n} }

// Case is one communication of a select statement (or a plain operation).
type Case[T any] struct {
	c    *Chan[T]
	send bool
	v    T
	ok   bool
	sel  *Sel
	idx  int
}

type caser interface {
	ready() bool
	exec()
	enqueue()
	dequeue()
}

// Sel is a select statement being executed.
type Sel struct {
	t     *Task
	cases []caser
	done  bool
	fired int
	one   [2]caser
}

// NewSelect starts a select statement.
func NewSelect() *Sel {
	s := &Sel{}
	s.cases = s.one[:0]
	return s
}

// CaseRecv adds a receive.
func (c *Chan[T]) CaseRecv(s *Sel) *Case[T] {
	k := &Case[T]{c: c, sel: s, idx: len(s.cases)}
	s.cases = append(s.cases, k)
	return k
}

// CaseSend adds a send.
func (c *Chan[T]) CaseSend(s *Sel, v T) {
	s.cases = append(s.cases, &Case[T]{c: c, sel: s, idx: len(s.cases), send: true, v: v})
}

// Get returns what the chosen receive received.
func (k *Case[T]) Get() T { return k.v }

// Get2 is Get with the second result of a receive.
func (k *Case[T]) Get2() (T, bool) { return k.v, k.ok }

func (k *Case[T]) ready() bool {
	c := k.c
	if c == nil {
		return false
	}
	if k.send {
		return c.closed || len(c.buf) < c.n || first(&c.recvq) != nil
	}
	return len(c.buf) > 0 || c.closed || first(&c.sendq) != nil
}

// first returns the first live waiter of a queue.
func first[T any](q *[]*Case[T]) *Case[T] {
	for len(*q) > 0 {
		if k := (*q)[0]; !k.sel.done {
			return k
		}
		*q = (*q)[1:]
	}
	return nil
}

func (k *Case[T]) complete() {
	s := k.sel
	s.done = true
	s.fired = k.idx
	ready(s.t)
}

func (k *Case[T]) exec() {
	c := k.c
	if k.send {
		if c.closed {
			panic(runtimeError("send on closed channel"))
		}
		if r := first(&c.recvq); r != nil {
			c.recvq = c.recvq[1:]
			r.v, r.ok = k.v, true
			r.complete()
			return
		}
		c.buf = append(c.buf, k.v)
		return
	}
	if len(c.buf) > 0 {
		var zero T
		k.v, k.ok = c.buf[0], true
		c.buf[0] = zero
		c.buf = c.buf[1:]
		if w := first(&c.sendq); w != nil {
			c.sendq = c.sendq[1:]
			c.buf = append(c.buf, w.v)
			w.complete()
		}
		return
	}
	if w := first(&c.sendq); w != nil {
		c.sendq = c.sendq[1:]
		k.v, k.ok = w.v, true
		w.complete()
		return
	}
	var zero T
	k.v, k.ok = zero, false // closed
}

func (k *Case[T]) enqueue() {
	if k.c == nil {
		return
	}
	if k.send {
		k.c.sendq = append(k.c.sendq, k)
	} else {
		k.c.recvq = append(k.c.recvq, k)
	}
}

func (k *Case[T]) dequeue() {
	if k.c == nil {
		return
	}
	q := &k.c.recvq
	if k.send {
		q = &k.c.sendq
	}
	for i, x := range *q {
		if x == k {
			*q = append((*q)[:i:i], (*q)[i+1:]...)
			return
		}
	}
}

type runtimeErr string

func (e runtimeErr) Error() string { return string(e) }
func (e runtimeErr) RuntimeError() {}

func runtimeError(s string) error { return runtimeErr(s) }

var _ runtime.Error = runtimeErr("")

// Do executes the select statement and returns the index of the chosen case,
// -1 for default.
func (s *Sel) Do(hasDefault bool) int {
	Yield()
	what := "select"
	if len(s.cases) == 1 && !hasDefault {
		what = "channel operation"
	}
	var rdy [16]int
	r := rdy[:0]
	for i, k := range s.cases {
		if k.ready() {
			r = append(r, i)
		}
	}
	if len(r) > 0 {
		i := r[choose(len(r), uniform)]
		s.done = true
		s.cases[i].exec()
		return i
	}
	if hasDefault {
		return -1
	}
	if dying {
		runtime.Goexit()
	}
	s.t = cur
	for _, k := range s.cases {
		k.enqueue()
	}
	block(what)
	for i, k := range s.cases {
		if i != s.fired {
			k.dequeue()
		}
	}
	if ck, ok := s.cases[s.fired].(interface{ sendClosed() bool }); ok && ck.sendClosed() {
		panic(runtimeError("send on closed channel"))
	}
	return s.fired
}

func (k *Case[T]) sendClosed() bool { return k.send && k.ok }

// Send is c <- v.
func (c *Chan[T]) Send(v T) {
	s := NewSelect()
	c.CaseSend(s, v)
	s.Do(false)
}

// Recv2 is v, ok := <-c.
func (c *Chan[T]) Recv2() (T, bool) {
	s := NewSelect()
	k := c.CaseRecv(s)
	s.Do(false)
	return k.v, k.ok
}

// Recv is <-c.
func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

// Close is close(c).
func (c *Chan[T]) Close() {
	Yield()
	if c == nil {
		panic(runtimeError("close of nil channel"))
	}
	if c.closed {
		panic(runtimeError("close of closed channel"))
	}
	c.closed = true
	if dying {
		return
	}
	for r := first(&c.recvq); r != nil; r = first(&c.recvq) {
		c.recvq = c.recvq[1:]
		var zero T
		r.v, r.ok = zero, false
		r.complete()
	}
	for w := first(&c.sendq); w != nil; w = first(&c.sendq) {
		c.sendq = c.sendq[1:]
		w.ok = true // marks the panic
		w.complete()
	}
}

// TrySend sends without blocking and without a scheduling point; for event
// callbacks.
func (c *Chan[T]) TrySend(v T) bool {
	k := &Case[T]{c: c, send: true, v: v}
	if c.closed || !k.ready() {
		return false
	}
	k.exec()
	return true
}

// Drain empties the buffer; it reports how many values were dropped.
func (c *Chan[T]) Drain() int {
	n := len(c.buf)
	c.buf = nil
	return n
}

// Len is len(c).
func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	return len(c.buf)
}

// Cap is cap(c).
func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.n
}

// CloseQuiet closes the channel without a scheduling point, if it is open; for
// event callbacks.
func (c *Chan[T]) CloseQuiet() {
	if c.closed {
		return
	}
	c.closed = true
	if dying {
		return
	}
	for r := first(&c.recvq); r != nil; r = first(&c.recvq) {
		c.recvq = c.recvq[1:]
		var zero T
		r.v, r.ok = zero, false
		r.complete()
	}
}
