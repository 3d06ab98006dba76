// Package simsync replaces package sync: whoever waits is parked by the simulator, which decides
// who gets a lock next.
package simsync

import (
	"rodbsim/simrt"
)

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	simrt.BlockOrDie("mutex", func() bool { return !m.locked })
	m.locked = true
}
func (m *Mutex) TryLock() bool {
	if m.locked {
		return false
	}
	m.locked = true
	return true
}
func (m *Mutex) Unlock() {
	if !m.locked {
		if i := simrt.CurrentInc(); i != nil && i.Dead {
			return
		}
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
}

type RWMutex struct {
	w       bool
	r       int
	waiting int // writers
}

func (m *RWMutex) Lock() {
	m.waiting++
	simrt.BlockOrDie("rwmutex", func() bool { return !m.w && m.r == 0 })
	m.waiting--
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		if i := simrt.CurrentInc(); i != nil && i.Dead {
			return
		}
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
}
func (m *RWMutex) RLock() {
	simrt.BlockOrDie("rwmutex read", func() bool { return !m.w && m.waiting == 0 })
	m.r++
}
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) RUnlock() {
	if m.r <= 0 {
		if i := simrt.CurrentInc(); i != nil && i.Dead {
			return
		}
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.r--
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()            { r.m.RLock() }
func (r rlocker) Unlock()          { r.m.RUnlock() }
func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		if i := simrt.CurrentInc(); i != nil && i.Dead {
			w.n = 0
			return
		}
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() { simrt.BlockOrDie("waitgroup", func() bool { return w.n == 0 }) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type Cond struct {
	L       Locker
	waiters []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	woken := false
	c.waiters = append(c.waiters, &woken)
	c.L.Unlock()
	simrt.BlockOrDie("cond", func() bool { return woken })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
}
func (c *Cond) Broadcast() {
	for _, w := range c.waiters {
		*w = true
	}
	c.waiters = nil
}

// Pool hands objects out again most recently used first, the choice that shares most.
type Pool struct {
	New   func() interface{}
	items []interface{}
}

func (p *Pool) Get() interface{} {
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x interface{}) {
	if x != nil {
		p.items = append(p.items, x)
	}
}

type Map struct {
	m     map[interface{}]interface{}
	order []interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) { v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v interface{})                 { m.Swap(k, v) }
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	old, ok := m.m[k]
	if !ok {
		m.order = append(m.order, k)
	}
	m.m[k] = v
	return old, ok
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.Swap(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	v, ok := m.m[k]
	if ok {
		delete(m.m, k)
		for i, x := range m.order {
			if x == k {
				m.order = append(m.order[:i:i], m.order[i+1:]...)
				break
			}
		}
	}
	return v, ok
}
func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	if v, ok := m.m[k]; ok && v == o {
		m.m[k] = n
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	if v, ok := m.m[k]; ok && v == o {
		m.Delete(k)
		return true
	}
	return false
}
func (m *Map) Clear() { m.m, m.order = nil, nil }
func (m *Map) Range(f func(k, v interface{}) bool) {
	for _, k := range append([]interface{}(nil), m.order...) {
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}
