package sim

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
)

// WaitList is a FIFO of parked tasks.
type WaitList struct{ q []*waitEnt }

type waitEnt struct{ t *Task }

// Wait parks the caller until it is woken.
func (w *WaitList) Wait(what string) {
	if dying {
		runtime.Goexit()
	}
	w.q = append(w.q, &waitEnt{cur})
	block(what)
}

// WakeOne makes the first waiter ready.
func (w *WaitList) WakeOne() bool {
	if dying || len(w.q) == 0 {
		return false
	}
	e := w.q[0]
	w.q = w.q[1:]
	ready(e.t)
	return true
}

// WakeAll makes all waiters ready.
func (w *WaitList) WakeAll() {
	for w.WakeOne() {
	}
}

// Len counts the waiters.
func (w *WaitList) Len() int { return len(w.q) }

// Enlist puts the caller on the list without parking it; Park parks it unless
// it has been woken meanwhile.
type Ticket struct {
	t     *Task
	woken bool
	park  bool
}

// TicketList is a notification list (as used by sync.Cond).
type TicketList struct{ q []*Ticket }

func (l *TicketList) Add() *Ticket {
	k := &Ticket{t: cur}
	l.q = append(l.q, k)
	return k
}

func (k *Ticket) Park(what string) {
	if dying {
		runtime.Goexit()
	}
	if k.woken {
		return
	}
	k.park = true
	block(what)
}

func (l *TicketList) Notify() bool {
	if dying || len(l.q) == 0 {
		return false
	}
	k := l.q[0]
	l.q = l.q[1:]
	k.woken = true
	if k.park {
		ready(k.t)
	}
	return true
}

// Mutex is a simulated sync.Mutex. Its zero value is unlocked.
type Mutex struct {
	locked bool
	q      WaitList
}

func (m *Mutex) Lock() {
	if !active {
		m.locked = true
		return
	}
	Yield()
	for m.locked {
		m.q.Wait("mutex")
	}
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	Yield()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if dying {
		m.locked = false
		return
	}
	if !m.locked {
		Fatal("sync: unlock of unlocked mutex")
	}
	m.locked = false
	if !active {
		return
	}
	m.q.WakeOne()
	Yield()
}

// RWMutex is a simulated sync.RWMutex.
type RWMutex struct {
	w       bool
	readers int
	pending int // writers waiting
	q       WaitList
}

func (m *RWMutex) Lock() {
	if !active {
		m.w = true
		return
	}
	Yield()
	m.pending++
	for m.w || m.readers > 0 {
		m.q.Wait("rwmutex (write)")
	}
	m.pending--
	m.w = true
}

func (m *RWMutex) TryLock() bool {
	Yield()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) Unlock() {
	if dying {
		m.w = false
		return
	}
	if !m.w {
		Fatal("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	if !active {
		return
	}
	m.q.WakeAll()
	Yield()
}

func (m *RWMutex) RLock() {
	if !active {
		m.readers++
		return
	}
	Yield()
	for m.w || m.pending > 0 {
		m.q.Wait("rwmutex (read)")
	}
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	Yield()
	if m.w || m.pending > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if dying {
		m.readers = 0
		return
	}
	if m.readers <= 0 {
		Fatal("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if !active {
		return
	}
	m.q.WakeAll()
	Yield()
}

// ZeroKey and ZeroElem declare the variables of a loop over m.
func ZeroKey[M ~map[K]V, K comparable, V any](m M) (k K) { return }

// ZeroElem returns the zero value of the elements of m.
func ZeroElem[M ~map[K]V, K comparable, V any](m M) (v V) { return }

// MapKeys returns the keys of m in an order chosen by the scheduler.
func MapKeys[M ~map[K]V, K comparable, V any](m M) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	SortAny(keys)
	if !active || dying {
		return keys
	}
	for i := 0; i+1 < len(keys); i++ {
		j := i + choose(len(keys)-i, uniform)
		keys[i], keys[j] = keys[j], keys[i]
	}
	return keys
}

// SortAny sorts keys into a reproducible order. Keys without a natural order
// (pointers, interfaces) are sorted by their printed content.
func SortAny[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	switch k := any(keys).(type) {
	case []string:
		sort.Strings(k)
		return
	case []int:
		sort.Ints(k)
		return
	}
	switch reflect.TypeOf(keys).Elem().Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.SliceStable(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).Int() < reflect.ValueOf(keys[j]).Int() })
		return
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		sort.SliceStable(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).Uint() < reflect.ValueOf(keys[j]).Uint() })
		return
	case reflect.String:
		sort.SliceStable(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).String() < reflect.ValueOf(keys[j]).String() })
		return
	}
	txt := make(map[K]string, len(keys))
	for _, k := range keys {
		txt[k] = printKey(reflect.ValueOf(k), 0)
	}
	sort.SliceStable(keys, func(i, j int) bool { return txt[keys[i]] < txt[keys[j]] })
}

// printKey renders a value without addresses.
func printKey(v reflect.Value, depth int) string {
	if depth > 4 {
		return ""
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return "nil"
		}
		return "&" + printKey(v.Elem(), depth+1)
	case reflect.Struct:
		s := v.Type().String() + "{"
		for i := 0; i < v.NumField(); i++ {
			s += printKey(v.Field(i), depth+1) + ","
		}
		return s + "}"
	case reflect.Bool:
		return fmt.Sprint(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("%020d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("%020d", v.Uint())
	case reflect.String:
		return v.String()
	case reflect.Slice, reflect.Array:
		s := fmt.Sprintf("[%d]", v.Len())
		for i := 0; i < v.Len() && i < 8; i++ {
			s += printKey(v.Index(i), depth+1) + ","
		}
		return s
	}
	return v.Type().String()
}
