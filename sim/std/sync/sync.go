// Package sync replaces the standard package in instrumented code.
package sync

import "vsim/rt"

type Locker interface {
	Lock()
	Unlock()
}

// Mutex is a simulated mutex; which waiter gets it next is a decision.
type Mutex struct {
	locked  bool
	waiters []*rt.G
	vc      rt.VC
}

func (m *Mutex) Lock() {
	if rt.S == nil || rt.Dying() {
		return
	}
	rt.Sync()
	for m.locked {
		m.waiters = append(m.waiters, rt.Cur())
		rt.Block("mutex")
	}
	m.locked = true
	rt.Acquire(&m.vc)
}

func (m *Mutex) TryLock() bool {
	if rt.S == nil || rt.Dying() {
		return true
	}
	rt.Sync()
	if m.locked {
		return false
	}
	m.locked = true
	rt.Acquire(&m.vc)
	return true
}

func (m *Mutex) Unlock() {
	if rt.S == nil || rt.Dying() {
		return
	}
	if !m.locked {
		panic("fatal error: sync: unlock of unlocked mutex")
	}
	m.locked = false
	rt.Release(&m.vc)
	wakeAll(&m.waiters)
	rt.Sync()
}

func wakeAll(ws *[]*rt.G) {
	w := *ws
	*ws = nil
	for _, g := range w {
		rt.Ready(g)
	}
}

// RWMutex is a simulated reader/writer lock. As in the standard library, a
// waiting writer keeps new readers out.
type RWMutex struct {
	w        bool
	readers  int
	wwaiting int
	waiters  []*rt.G
	wvc      rt.VC // released by writers
	rvc      rt.VC // released by readers
}

func (m *RWMutex) Lock() {
	if rt.S == nil || rt.Dying() {
		return
	}
	rt.Sync()
	m.wwaiting++
	for m.w || m.readers > 0 {
		m.waiters = append(m.waiters, rt.Cur())
		rt.Block("rwmutex")
	}
	m.wwaiting--
	m.w = true
	rt.Acquire(&m.wvc)
	rt.Acquire(&m.rvc)
}

func (m *RWMutex) TryLock() bool {
	rt.Sync()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	rt.Acquire(&m.wvc)
	rt.Acquire(&m.rvc)
	return true
}

func (m *RWMutex) Unlock() {
	if rt.S == nil || rt.Dying() {
		return
	}
	if !m.w {
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	rt.Release(&m.wvc)
	wakeAll(&m.waiters)
	rt.Sync()
}

func (m *RWMutex) RLock() {
	if rt.S == nil || rt.Dying() {
		return
	}
	rt.Sync()
	for m.w || m.wwaiting > 0 {
		m.waiters = append(m.waiters, rt.Cur())
		rt.Block("rwmutex-r")
	}
	m.readers++
	rt.Acquire(&m.wvc)
}

func (m *RWMutex) TryRLock() bool {
	rt.Sync()
	if m.w || m.wwaiting > 0 {
		return false
	}
	m.readers++
	rt.Acquire(&m.wvc)
	return true
}

func (m *RWMutex) RUnlock() {
	if rt.S == nil || rt.Dying() {
		return
	}
	if m.readers <= 0 {
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	rt.Release(&m.rvc)
	if m.readers == 0 {
		wakeAll(&m.waiters)
	}
	rt.Sync()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup is a simulated wait group.
type WaitGroup struct {
	n       int
	waiters []*rt.G
	vc      rt.VC
}

func (w *WaitGroup) Add(d int) {
	if rt.S == nil || rt.Dying() {
		return
	}
	rt.Sync()
	if d < 0 {
		rt.Release(&w.vc)
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		wakeAll(&w.waiters)
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if rt.S == nil || rt.Dying() {
		return
	}
	rt.Sync()
	for w.n > 0 {
		w.waiters = append(w.waiters, rt.Cur())
		rt.Block("waitgroup")
	}
	rt.Acquire(&w.vc)
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once is a simulated once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if rt.S == nil {
		if !o.done {
			o.done = true
			f()
		}
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) {
		o.Do(func() { a, b = f() })
		return a, b
	}
}

// Cond is a simulated condition variable.
type Cond struct {
	L       Locker
	waiters []*condWaiter
}

type condWaiter struct {
	g     *rt.G
	woken bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if rt.S == nil || rt.Dying() {
		return
	}
	w := &condWaiter{g: rt.Cur()}
	c.waiters = append(c.waiters, w)
	c.L.Unlock()
	for !w.woken {
		rt.Block("cond")
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	if rt.S == nil || rt.Dying() {
		return
	}
	rt.Sync()
	if len(c.waiters) > 0 {
		w := c.waiters[0]
		c.waiters = c.waiters[1:]
		w.woken = true
		rt.Ready(w.g)
	}
}

func (c *Cond) Broadcast() {
	if rt.S == nil || rt.Dying() {
		return
	}
	rt.Sync()
	for _, w := range c.waiters {
		w.woken = true
		rt.Ready(w.g)
	}
	c.waiters = nil
}

// Pool hands out the most recently returned item first, so that an item which
// is still in use when it is returned is reused at once; sometimes it drops one.
type Pool struct {
	New   func() any
	items []any
	vc    rt.VC
}

func (p *Pool) Get() any {
	if rt.S != nil && !rt.Dying() {
		rt.Sync()
		rt.Acquire(&p.vc)
		if n := len(p.items); n > 0 {
			x := p.items[n-1]
			p.items = p.items[:n-1]
			return x
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if rt.S == nil || rt.Dying() || x == nil {
		return
	}
	rt.Release(&p.vc)
	p.items = append(p.items, x)
	rt.Sync()
}

// Map is a simulated concurrent map with insertion order.
type Map struct {
	keys []any
	m    map[any]any
	vc   rt.VC
}

func (m *Map) point() {
	if rt.S != nil && !rt.Dying() {
		rt.Sync()
		rt.Acquire(&m.vc)
		rt.Release(&m.vc)
	}
}

func (m *Map) Load(k any) (any, bool) { m.point(); v, ok := m.m[k]; return v, ok }

func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}

func (m *Map) del(k any) {
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) Store(k, v any) { m.point(); m.set(k, v) }
func (m *Map) Clear()         { m.point(); m.m, m.keys = nil, nil }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.point()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.point()
	v, ok := m.m[k]
	if ok {
		m.del(k)
	}
	return v, ok
}
func (m *Map) Delete(k any) { m.LoadAndDelete(k) }
func (m *Map) Swap(k, v any) (any, bool) {
	m.point()
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, old, new any) bool {
	m.point()
	if o, ok := m.m[k]; ok && o == old {
		m.set(k, new)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, old any) bool {
	m.point()
	if o, ok := m.m[k]; ok && o == old {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.point()
	for _, k := range append([]any(nil), m.keys...) {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
			m.point()
		}
	}
}
