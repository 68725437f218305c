// Package context is the simulated package context.
package context

import (
	real "context"
	"errors"
	rtime "time"

	"github.com/go-stomp/stomp/v3/zzverif/sim"
)

type Context interface {
	Deadline() (deadline rtime.Time, ok bool)
	Done() *sim.Chan[struct{}]
	Err() error
	Value(key any) any
}

type (
	CancelFunc      func()
	CancelCauseFunc func(cause error)
)

var (
	Canceled         = real.Canceled
	DeadlineExceeded = real.DeadlineExceeded
)

type empty struct{ s string }

func (empty) Deadline() (t rtime.Time, ok bool) { return }
func (empty) Done() *sim.Chan[struct{}]         { return nil }
func (empty) Err() error                        { return nil }
func (empty) Value(any) any                     { return nil }
func (e empty) String() string                  { return e.s }

func Background() Context { return empty{"context.Background"} }
func TODO() Context       { return empty{"context.TODO"} }

type node struct {
	parent   Context
	done     *sim.Chan[struct{}]
	err      error
	cause    error
	deadline rtime.Time
	has      bool
	ev       sim.Event
	children []*node
	funcs    []*afterFunc
}

type afterFunc struct {
	f     func()
	group int
	off   bool
}

func (c *node) Deadline() (rtime.Time, bool) {
	if c.has {
		return c.deadline, true
	}
	return c.parent.Deadline()
}
func (c *node) Done() *sim.Chan[struct{}] { return c.done }
func (c *node) Err() error {
	sim.Yield()
	return c.err
}
func (c *node) Value(k any) any {
	if k == &nodeKey {
		return c
	}
	return c.parent.Value(k)
}

var nodeKey int

func (c *node) cancel(err, cause error) {
	if c.err != nil {
		return
	}
	if cause == nil {
		cause = err
	}
	c.err, c.cause = err, cause
	c.ev.Cancel()
	c.done.CloseQuiet()
	for _, k := range c.children {
		k.cancel(err, cause)
	}
	c.children = nil
	for _, f := range c.funcs {
		if !f.off {
			f.off = true
			sim.GoTimer(f.group, f.f)
		}
	}
	c.funcs = nil
}

func newNode(parent Context) *node {
	if parent == nil {
		panic("cannot create context from nil parent")
	}
	c := &node{parent: parent, done: sim.NewChan[struct{}](0)}
	if p, ok := parent.Value(&nodeKey).(*node); ok {
		if p.err != nil {
			c.cancel(p.err, p.cause)
		} else {
			p.children = append(p.children, c)
		}
	} else if d := parent.Done(); d != nil {
		sim.Go("context", func() {
			s := sim.NewSelect()
			d.CaseRecv(s)
			c.done.CaseRecv(s)
			if s.Do(false) == 0 {
				c.cancel(parent.Err(), nil)
			}
		})
	}
	return c
}

func WithCancel(parent Context) (Context, CancelFunc) {
	c := newNode(parent)
	return c, func() { sim.Yield(); c.cancel(Canceled, nil) }
}

func WithCancelCause(parent Context) (Context, CancelCauseFunc) {
	c := newNode(parent)
	return c, func(cause error) { sim.Yield(); c.cancel(Canceled, cause) }
}

func WithDeadlineCause(parent Context, d rtime.Time, cause error) (Context, CancelFunc) {
	c := newNode(parent)
	if cur, ok := parent.Deadline(); !ok || d.Before(cur) {
		c.deadline, c.has = d, true
		if c.err == nil {
			dur := d.Sub(sim.WallNow())
			if dur <= 0 {
				c.cancel(DeadlineExceeded, cause)
			} else {
				c.ev = sim.After(dur, func() { c.cancel(DeadlineExceeded, cause) })
			}
		}
	}
	return c, func() { sim.Yield(); c.cancel(Canceled, nil) }
}

func WithDeadline(parent Context, d rtime.Time) (Context, CancelFunc) {
	return WithDeadlineCause(parent, d, nil)
}

func WithTimeout(parent Context, d rtime.Duration) (Context, CancelFunc) {
	return WithDeadline(parent, sim.WallNow().Add(d))
}

func WithTimeoutCause(parent Context, d rtime.Duration, cause error) (Context, CancelFunc) {
	return WithDeadlineCause(parent, sim.WallNow().Add(d), cause)
}

func Cause(c Context) error {
	if n, ok := c.Value(&nodeKey).(*node); ok {
		return n.cause
	}
	return c.Err()
}

func AfterFunc(ctx Context, f func()) func() bool {
	a := &afterFunc{f: f, group: sim.Group()}
	n, ok := ctx.Value(&nodeKey).(*node)
	if !ok {
		return func() bool { return true }
	}
	if n.err != nil {
		a.off = true
		sim.GoTimer(a.group, f)
	} else {
		n.funcs = append(n.funcs, a)
	}
	return func() bool {
		sim.Yield()
		was := !a.off
		a.off = true
		return was
	}
}

type valueCtx struct {
	Context
	k, v any
}

func (c valueCtx) Value(k any) any {
	if k == c.k {
		return c.v
	}
	return c.Context.Value(k)
}

func WithValue(parent Context, k, v any) Context { return valueCtx{parent, k, v} }

type without struct{ c Context }

func (without) Deadline() (t rtime.Time, ok bool) { return }
func (without) Done() *sim.Chan[struct{}]         { return nil }
func (without) Err() error                        { return nil }
func (w without) Value(k any) any {
	if k == &nodeKey {
		return nil
	}
	return w.c.Value(k)
}

func WithoutCancel(parent Context) Context { return without{parent} }

var _ = errors.New
