// Package sync is the simulated package sync.
package sync

import (
	"fmt"

	"github.com/go-stomp/stomp/v3/zzverif/sim"
)

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct{ m sim.Mutex }

func (m *Mutex) Lock()         { m.m.Lock() }
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }

type RWMutex struct{ m sim.RWMutex }

func (m *RWMutex) Lock()           { m.m.Lock() }
func (m *RWMutex) TryLock() bool   { return m.m.TryLock() }
func (m *RWMutex) Unlock()         { m.m.Unlock() }
func (m *RWMutex) RLock()          { m.m.RLock() }
func (m *RWMutex) TryRLock() bool  { return m.m.TryRLock() }
func (m *RWMutex) RUnlock()        { m.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

type Cond struct {
	L Locker
	l sim.TicketList
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	sim.Yield()
	k := c.l.Add()
	c.L.Unlock()
	k.Park("condition variable")
	c.L.Lock()
}

func (c *Cond) Signal() {
	sim.Yield()
	c.l.Notify()
}

func (c *Cond) Broadcast() {
	sim.Yield()
	for c.l.Notify() {
	}
}

type WaitGroup struct {
	n int
	q sim.WaitList
}

func (w *WaitGroup) Add(d int) {
	sim.Yield()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.WakeAll()
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	sim.Yield()
	for w.n > 0 {
		w.q.Wait("wait group")
	}
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sim.Go("WaitGroup.Go", func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    sim.Mutex
	done bool
}

func (o *Once) Do(f func()) {
	sim.Yield()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) {
		o.Do(func() { v1, v2 = f() })
		return v1, v2
	}
}

type Pool struct {
	New func() any
	q   []any
}

func (p *Pool) Get() any {
	sim.Yield()
	if n := len(p.q); n > 0 && sim.Active() {
		i := sim.Choose(n + 1)
		if i < n {
			v := p.q[n-1-i]
			p.q = append(p.q[:n-1-i], p.q[n-i:]...)
			return v
		}
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(v any) {
	sim.Yield()
	if v != nil {
		p.q = append(p.q, v)
	}
}

type Map struct{ m map[any]any }

func (m *Map) Load(k any) (any, bool) {
	sim.Yield()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) Swap(k, v any) (any, bool) {
	sim.Yield()
	if m.m == nil {
		m.m = map[any]any{}
	}
	o, ok := m.m[k]
	m.m[k] = v
	return o, ok
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	sim.Yield()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	sim.Yield()
	o, ok := m.m[k]
	delete(m.m, k)
	return o, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Clear() {
	sim.Yield()
	m.m = nil
}

func (m *Map) CompareAndSwap(k, old, new any) bool {
	sim.Yield()
	if o, ok := m.m[k]; ok && o == old {
		m.m[k] = new
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old any) bool {
	sim.Yield()
	if o, ok := m.m[k]; ok && o == old {
		delete(m.m, k)
		return true
	}
	return false
}

func (m *Map) Range(f func(k, v any) bool) {
	sim.Yield()
	keys := make([]any, 0, len(m.m))
	for k := range m.m {
		keys = append(keys, k)
	}
	txt := map[any]string{}
	for _, k := range keys {
		txt[k] = fmt.Sprintf("%T %v", k, k)
	}
	for i := 1; i < len(keys); i++ {
		for j := i; j > 0 && txt[keys[j]] < txt[keys[j-1]]; j-- {
			keys[j], keys[j-1] = keys[j-1], keys[j]
		}
	}
	for _, k := range keys {
		sim.Yield()
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
