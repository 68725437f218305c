// Package time is the simulated package time.
package time

import (
	real "time"

	"github.com/go-stomp/stomp/v3/zzverif/sim"
)

type (
	Duration = real.Duration
	Time     = real.Time
)

func Now() Time                        { return sim.WallNow() }
func Since(t Time) Duration            { return Now().Sub(t) }
func Until(t Time) Duration            { return t.Sub(Now()) }
func Sleep(d Duration)                 { sim.Sleep(d) }
func After(d Duration) *sim.Chan[Time] { return NewTimer(d).C }

func Tick(d Duration) *sim.Chan[Time] {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

type Timer struct {
	C     *sim.Chan[Time]
	ev    sim.Event
	f     func()
	group int
}

func NewTimer(d Duration) *Timer {
	sim.Yield()
	t := &Timer{C: sim.NewChan[Time](1)}
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	sim.Yield()
	t := &Timer{f: f, group: sim.Group()}
	t.start(d)
	return t
}

func (t *Timer) start(d Duration) {
	if d < 0 {
		d = 0
	}
	t.ev = sim.After(d, func() {
		if t.f != nil {
			sim.GoTimer(t.group, t.f)
			return
		}
		t.C.TrySend(sim.WallNow())
	})
}

func (t *Timer) stop() bool {
	was := t.ev.Cancel()
	if t.C != nil && !sim.OldTimer() && t.C.Drain() > 0 {
		was = true
	}
	return was
}

func (t *Timer) Stop() bool {
	if t.C == nil && t.f == nil {
		panic("time: Stop called on uninitialized Timer")
	}
	sim.Yield()
	return t.stop()
}

func (t *Timer) Reset(d Duration) bool {
	if t.C == nil && t.f == nil {
		panic("time: Reset called on uninitialized Timer")
	}
	sim.Yield()
	was := t.stop()
	t.start(d)
	return was
}

type Ticker struct {
	C  *sim.Chan[Time]
	ev sim.Event
	d  Duration
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	sim.Yield()
	t := &Ticker{C: sim.NewChan[Time](1), d: d}
	t.arm()
	return t
}

func (t *Ticker) arm() {
	t.ev = sim.After(t.d, func() {
		t.C.TrySend(sim.WallNow())
		t.arm()
	})
}

func (t *Ticker) Stop() {
	sim.Yield()
	t.ev.Cancel()
	if !sim.OldTimer() && t.C != nil {
		t.C.Drain()
	}
}

func (t *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	sim.Yield()
	t.ev.Cancel()
	if !sim.OldTimer() {
		t.C.Drain()
	}
	t.d = d
	t.arm()
}
