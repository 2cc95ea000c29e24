// Package simsync is the simulator's replacement for package sync.
package simsync

import (
	"verif.local/sim/simrt"
)

type Locker interface {
	Lock()
	Unlock()
}

// Mutex replaces sync.Mutex.
type Mutex struct {
	gen    int64
	locked bool
	q      simrt.WaitQ
}

func (m *Mutex) fresh() {
	if g := simrt.Gen(); m.gen != g {
		*m = Mutex{gen: g}
	}
}

func (m *Mutex) Lock() {
	if simrt.Killed() {
		return
	}
	m.fresh()
	simrt.Y(10)
	for m.locked {
		if !simrt.Active() {
			panic("fatal error: all goroutines are asleep - deadlock!")
		}
		m.q.Wait("mutex lock")
	}
	m.locked = true
	simrt.Y(10)
}

func (m *Mutex) TryLock() bool {
	m.fresh()
	simrt.Y(10)
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if simrt.Killed() {
		return
	}
	m.fresh()
	if !m.locked {
		simrt.Fatal("sync: unlock of unlocked mutex")
		panic("sync: unlock of unlocked mutex")
	}
	simrt.Y(11)
	m.locked = false
	m.q.WakeOne()
	simrt.Y(11)
}

// RWMutex replaces sync.RWMutex; like the original, a waiting writer blocks new readers.
type RWMutex struct {
	gen     int64
	writer  bool
	readers int
	wwait   int
	q       simrt.WaitQ
}

func (m *RWMutex) fresh() {
	if g := simrt.Gen(); m.gen != g {
		*m = RWMutex{gen: g}
	}
}

func (m *RWMutex) Lock() {
	if simrt.Killed() {
		return
	}
	m.fresh()
	simrt.Y(12)
	m.wwait++
	for m.writer || m.readers > 0 {
		m.q.Wait("rwmutex lock")
	}
	m.wwait--
	m.writer = true
	simrt.Y(12)
}

func (m *RWMutex) TryLock() bool {
	m.fresh()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	if simrt.Killed() {
		return
	}
	m.fresh()
	if !m.writer {
		simrt.Fatal("sync: Unlock of unlocked RWMutex")
		panic("sync: Unlock of unlocked RWMutex")
	}
	simrt.Y(13)
	m.writer = false
	m.q.WakeAll()
	simrt.Y(13)
}

func (m *RWMutex) RLock() {
	if simrt.Killed() {
		return
	}
	m.fresh()
	simrt.Y(14)
	for m.writer || m.wwait > 0 {
		m.q.Wait("rwmutex rlock")
	}
	m.readers++
	simrt.Y(14)
}

func (m *RWMutex) TryRLock() bool {
	m.fresh()
	if m.writer || m.wwait > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if simrt.Killed() {
		return
	}
	m.fresh()
	if m.readers <= 0 {
		simrt.Fatal("sync: RUnlock of unlocked RWMutex")
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simrt.Y(15)
	m.readers--
	m.q.WakeAll()
	simrt.Y(15)
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	gen int64
	n   int
	q   simrt.WaitQ
}

func (w *WaitGroup) fresh() {
	if g := simrt.Gen(); w.gen != g {
		*w = WaitGroup{gen: g}
	}
}

func (w *WaitGroup) Add(d int) {
	if simrt.Killed() {
		return
	}
	w.fresh()
	simrt.Y(16)
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		w.q.WakeAll()
	}
	simrt.Y(16)
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if simrt.Killed() {
		return
	}
	w.fresh()
	simrt.Y(17)
	for w.n > 0 {
		if !simrt.Active() {
			panic("fatal error: all goroutines are asleep - deadlock!")
		}
		w.q.Wait("waitgroup wait")
		break // like the original, a waiter is released once the counter has reached zero
	}
	simrt.Y(17)
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	simrt.Y(18)
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

// Cond replaces sync.Cond.
type Cond struct {
	L Locker
	q simrt.WaitQ
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if simrt.Killed() {
		return
	}
	// enqueue before unlocking, as the original does
	done := false
	ww := &condWaiter{}
	c.enq(ww)
	c.L.Unlock()
	for !ww.signalled {
		ww.q.Wait("cond wait")
	}
	_ = done
	c.L.Lock()
}

type condWaiter struct {
	signalled bool
	q         simrt.WaitQ
}

var condQ = map[*Cond][]*condWaiter{}

func (c *Cond) enq(w *condWaiter) {
	if len(condQ[c]) == 0 && simrt.Active() {
		simrt.OnEnd(func() { delete(condQ, c) })
	}
	condQ[c] = append(condQ[c], w)
}

func (c *Cond) Signal() {
	simrt.Y(19)
	q := condQ[c]
	if len(q) > 0 {
		condQ[c] = q[1:]
		q[0].signalled = true
		q[0].q.WakeAll()
	}
	simrt.Y(19)
}

func (c *Cond) Broadcast() {
	simrt.Y(19)
	q := condQ[c]
	condQ[c] = nil
	for _, w := range q {
		w.signalled = true
		w.q.WakeAll()
	}
	simrt.Y(19)
}

// Pool replaces sync.Pool; a decision may drop pooled objects, as the GC may.
type Pool struct {
	gen   int64
	items []any
	New   func() any
}

func (p *Pool) Get() any {
	if g := simrt.Gen(); p.gen != g {
		p.gen = g
		p.items = nil
	}
	simrt.Y(20)
	if n := len(p.items); n > 0 {
		k := n - 1 - simrt.Choose("pool", n)
		x := p.items[k]
		p.items = append(p.items[:k], p.items[k+1:]...)
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	if g := simrt.Gen(); p.gen != g {
		p.gen = g
		p.items = nil
	}
	simrt.Y(20)
	p.items = append(p.items, x)
}

// Map replaces sync.Map; every operation is atomic.
type Map struct {
	m    map[any]any
	keys []any
}

func (m *Map) init() {
	if m.m == nil {
		m.m = map[any]any{}
	}
}

func (m *Map) Load(k any) (any, bool) {
	simrt.Y(21)
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) Swap(k, v any) (any, bool) {
	simrt.Y(21)
	m.init()
	old, ok := m.m[k]
	if !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
	simrt.Y(21)
	return old, ok
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	simrt.Y(21)
	m.init()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.keys = append(m.keys, k)
	m.m[k] = v
	return v, false
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	simrt.Y(21)
	old, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.keys {
			if x == k {
				m.keys = append(append([]any{}, m.keys[:i]...), m.keys[i+1:]...)
				break
			}
		}
	}
	return old, ok
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) Clear() { simrt.Y(21); m.m = nil; m.keys = nil }

func (m *Map) CompareAndSwap(k, old, new any) bool {
	simrt.Y(21)
	if v, ok := m.m[k]; ok && v == old {
		m.m[k] = new
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old any) bool {
	simrt.Y(21)
	if v, ok := m.m[k]; ok && v == old {
		m.LoadAndDelete(k)
		return true
	}
	return false
}

func (m *Map) Range(f func(k, v any) bool) {
	ks := append([]any{}, m.keys...)
	off := 0
	if len(ks) > 1 {
		off = simrt.Choose("syncmaprange", len(ks))
	}
	for i := range ks {
		k := ks[(i+off)%len(ks)]
		simrt.Y(21)
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}
