// Package vsync replaces package sync in instrumented code.
package vsync

import (
	"sync"
	"unsafe"

	"verif/vsched"
)

// Locker is sync.Locker.
type Locker = sync.Locker

// Mutex models sync.Mutex.
type Mutex struct {
	n      sync.Mutex
	epoch  uint64
	locked bool
	obj    vsched.Obj
	a      byte
}

//go:norace
func (m *Mutex) reset() {
	if e := vsched.Epoch(); m.epoch != e {
		m.epoch, m.locked = e, false
	}
}

//go:norace
func (m *Mutex) Ready(*vsched.Task) bool { m.reset(); return !m.locked }

//go:norace
func (m *Mutex) Lock() {
	if !vsched.Active() {
		m.n.Lock()
		return
	}
	if vsched.Killing() {
		return
	}
	vsched.Block(m, "Mutex.Lock")
	m.reset()
	m.locked = true
	m.obj.W(0x10c)
	vsched.Acquire(unsafe.Pointer(&m.a))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if !vsched.Active() {
		return m.n.TryLock()
	}
	if vsched.Killing() {
		return false
	}
	vsched.WantExtra()
	vsched.Point("Mutex.TryLock")
	m.reset()
	if m.locked {
		m.obj.R(0x7f)
		return false
	}
	m.locked = true
	m.obj.W(0x10c)
	vsched.Acquire(unsafe.Pointer(&m.a))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !vsched.Active() {
		m.n.Unlock()
		return
	}
	if vsched.Killing() {
		return
	}
	if vsched.ExtraPoints() {
		vsched.Point("Mutex.Unlock")
	}
	m.reset()
	if !m.locked {
		vsched.Throw("sync: unlock of unlocked mutex")
		return
	}
	vsched.Release(unsafe.Pointer(&m.a))
	m.locked = false
	m.obj.W(0x0c)
}

// RWMutex models sync.RWMutex.
type RWMutex struct {
	n       sync.RWMutex
	epoch   uint64
	w       bool
	readers int
	waiting int // writers waiting: new readers block
	obj     vsched.Obj
	a, b    byte
}

//go:norace
func (m *RWMutex) reset() {
	if e := vsched.Epoch(); m.epoch != e {
		m.epoch, m.w, m.readers, m.waiting = e, false, 0, 0
	}
}

type rwW struct{ m *RWMutex }
type rwR struct{ m *RWMutex }

//go:norace
func (w *rwW) Ready(*vsched.Task) bool { w.m.reset(); return !w.m.w && w.m.readers == 0 }

//go:norace
func (w *rwR) Ready(*vsched.Task) bool { w.m.reset(); return !w.m.w }

//go:norace
func (m *RWMutex) Lock() {
	if !vsched.Active() {
		m.n.Lock()
		return
	}
	if vsched.Killing() {
		return
	}
	vsched.Block(&rwW{m}, "RWMutex.Lock")
	m.reset()
	m.w = true
	m.obj.W(0x10c)
	vsched.Acquire(unsafe.Pointer(&m.a))
	vsched.Acquire(unsafe.Pointer(&m.b))
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if !vsched.Active() {
		return m.n.TryLock()
	}
	if vsched.Killing() {
		return false
	}
	vsched.WantExtra()
	vsched.Point("RWMutex.TryLock")
	m.reset()
	if m.w || m.readers > 0 {
		m.obj.R(0x7f)
		return false
	}
	m.w = true
	m.obj.W(0x10c)
	vsched.Acquire(unsafe.Pointer(&m.a))
	vsched.Acquire(unsafe.Pointer(&m.b))
	return true
}

//go:norace
func (m *RWMutex) Unlock() {
	if !vsched.Active() {
		m.n.Unlock()
		return
	}
	if vsched.Killing() {
		return
	}
	if vsched.ExtraPoints() {
		vsched.Point("RWMutex.Unlock")
	}
	m.reset()
	if !m.w {
		vsched.Throw("sync: Unlock of unlocked RWMutex")
		return
	}
	vsched.Release(unsafe.Pointer(&m.a))
	m.w = false
	m.obj.W(0x0c)
}

//go:norace
func (m *RWMutex) RLock() {
	if !vsched.Active() {
		m.n.RLock()
		return
	}
	if vsched.Killing() {
		return
	}
	vsched.Block(&rwR{m}, "RWMutex.RLock")
	m.reset()
	m.readers++
	m.obj.R(0x71)
	vsched.Acquire(unsafe.Pointer(&m.a))
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if !vsched.Active() {
		return m.n.TryRLock()
	}
	if vsched.Killing() {
		return false
	}
	vsched.WantExtra()
	vsched.Point("RWMutex.TryRLock")
	m.reset()
	if m.w {
		m.obj.R(0x7f)
		return false
	}
	m.readers++
	m.obj.R(0x71)
	vsched.Acquire(unsafe.Pointer(&m.a))
	return true
}

//go:norace
func (m *RWMutex) RUnlock() {
	if !vsched.Active() {
		m.n.RUnlock()
		return
	}
	if vsched.Killing() {
		return
	}
	if vsched.ExtraPoints() {
		vsched.Point("RWMutex.RUnlock")
	}
	m.reset()
	if m.readers == 0 {
		vsched.Throw("sync: RUnlock of unlocked RWMutex")
		return
	}
	vsched.Release(unsafe.Pointer(&m.b))
	m.readers--
	m.obj.R(0x72)
}

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Cond models sync.Cond (waiters are served first in, first out).
type Cond struct {
	L     Locker
	n     *sync.Cond
	epoch uint64
	head  *waiter
	tail  *waiter
	obj   vsched.Obj
	a     byte
}

type waiter struct {
	next *waiter
	woke bool
}

//go:norace
func (w *waiter) Ready(*vsched.Task) bool { return w.woke }

// NewCond is sync.NewCond.
func NewCond(l Locker) *Cond { return &Cond{L: l, n: sync.NewCond(l)} }

//go:norace
func (c *Cond) reset() {
	if e := vsched.Epoch(); c.epoch != e {
		c.epoch, c.head, c.tail = e, nil, nil
	}
}

//go:norace
func (c *Cond) enqueue() *waiter {
	c.reset()
	w := &waiter{}
	if c.tail == nil {
		c.head = w
	} else {
		c.tail.next = w
	}
	c.tail = w
	c.obj.W(0xe0)
	return w
}

func (c *Cond) Wait() {
	if !vsched.Active() {
		if c.n == nil {
			c.n = sync.NewCond(c.L)
		}
		c.n.Wait()
		return
	}
	if vsched.Killing() {
		return
	}
	w := c.enqueue()
	c.L.Unlock()
	c.wait(w)
	c.L.Lock()
}

//go:norace
func (c *Cond) wait(w *waiter) {
	vsched.Block(w, "Cond.Wait")
	vsched.Acquire(unsafe.Pointer(&c.a))
	c.obj.R(0xe1)
}

//go:norace
func (c *Cond) Signal() {
	if !vsched.Active() {
		if c.n != nil {
			c.n.Signal()
		}
		return
	}
	if vsched.Killing() {
		return
	}
	vsched.Point("Cond.Signal")
	c.reset()
	vsched.Release(unsafe.Pointer(&c.a))
	c.obj.W(0xe2)
	if w := c.head; w != nil {
		c.head = w.next
		if c.head == nil {
			c.tail = nil
		}
		w.woke = true
	}
}

//go:norace
func (c *Cond) Broadcast() {
	if !vsched.Active() {
		if c.n != nil {
			c.n.Broadcast()
		}
		return
	}
	if vsched.Killing() {
		return
	}
	vsched.Point("Cond.Broadcast")
	c.reset()
	vsched.Release(unsafe.Pointer(&c.a))
	c.obj.W(0xe3)
	for w := c.head; w != nil; w = w.next {
		w.woke = true
	}
	c.head, c.tail = nil, nil
}

// WaitGroup models sync.WaitGroup.
type WaitGroup struct {
	n     sync.WaitGroup
	epoch uint64
	cnt   int
	obj   vsched.Obj
	a     byte
}

//go:norace
func (g *WaitGroup) reset() {
	if e := vsched.Epoch(); g.epoch != e {
		g.epoch, g.cnt = e, 0
	}
}

//go:norace
func (g *WaitGroup) Ready(*vsched.Task) bool { g.reset(); return g.cnt == 0 }

//go:norace
func (g *WaitGroup) Add(d int) {
	if !vsched.Active() {
		g.n.Add(d)
		return
	}
	if vsched.Killing() {
		return
	}
	vsched.Point("WaitGroup.Add")
	g.reset()
	vsched.Release(unsafe.Pointer(&g.a))
	g.cnt += d
	g.obj.W(uint64(d) + 0xadd)
	if g.cnt < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

// Go is WaitGroup.Go (Go 1.25).
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	vsched.Go(func() {
		defer g.Done()
		f()
	})
}

//go:norace
func (g *WaitGroup) Wait() {
	if !vsched.Active() {
		g.n.Wait()
		return
	}
	if vsched.Killing() {
		return
	}
	vsched.Block(g, "WaitGroup.Wait")
	g.obj.R(0x3a)
	vsched.Acquire(unsafe.Pointer(&g.a))
}

// Once models sync.Once.
type Once struct {
	m     Mutex
	epoch uint64
	done  bool
	n     sync.Once
	a     byte
}

//go:norace
func (o *Once) isDone() bool {
	if e := vsched.Epoch(); o.epoch != e {
		o.epoch, o.done = e, false
	}
	return o.done
}

//go:norace
func (o *Once) set() { o.done = true }

func (o *Once) Do(f func()) {
	if !vsched.Active() {
		o.n.Do(f)
		return
	}
	if vsched.Killing() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.set()
		f()
	}
}

// OnceFunc is sync.OnceFunc (without the panic bookkeeping).
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// Pool models sync.Pool adversarially: what was put last is handed out first, so that any use
// after Put is exposed.
type Pool struct {
	New   func() interface{}
	epoch uint64
	items []interface{}
	obj   vsched.Obj
	a     byte
	n     sync.Pool
}

//go:norace
func (p *Pool) reset() {
	if e := vsched.Epoch(); p.epoch != e {
		p.epoch, p.items = e, nil
	}
}

//go:norace
func (p *Pool) pop() (interface{}, bool) {
	p.reset()
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		p.obj.W(0x9e7)
		vsched.Acquire(unsafe.Pointer(&p.a))
		return v, true
	}
	p.obj.W(0x9e8)
	return nil, false
}

//go:norace
func (p *Pool) push(v interface{}) {
	p.reset()
	n := make([]interface{}, len(p.items)+1)
	for i := range p.items {
		n[i] = p.items[i]
	}
	n[len(p.items)] = v
	p.items = n
	p.obj.W(0x9f7)
	vsched.Release(unsafe.Pointer(&p.a))
}

func (p *Pool) Get() interface{} {
	if !vsched.Active() {
		if v := p.n.Get(); v != nil {
			return v
		}
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	if vsched.Killing() {
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	vsched.Point("Pool.Get")
	if v, ok := p.pop(); ok {
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v interface{}) {
	if v == nil {
		return
	}
	if !vsched.Active() {
		p.n.Put(v)
		return
	}
	if vsched.Killing() {
		return
	}
	vsched.Point("Pool.Put")
	p.push(v)
}

// Map models sync.Map with insertion-ordered Range.
type Map struct {
	epoch uint64
	m     map[interface{}]interface{}
	order []interface{}
	mu    Mutex
}

func (m *Map) reset() {
	var e uint64
	if vsched.Active() {
		e = vsched.Epoch()
	}
	if m.m == nil || m.epoch != e {
		m.epoch, m.m, m.order = e, map[interface{}]interface{}{}, nil
	}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.reset()
	v, ok := m.m[k]
	return v, ok
}

func (m *Map) set(k, v interface{}) {
	if _, ok := m.m[k]; !ok {
		m.order = append(m.order, k)
	}
	m.m[k] = v
}

func (m *Map) Store(k, v interface{}) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.reset()
	m.set(k, v)
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.reset()
	if old, ok := m.m[k]; ok {
		return old, true
	}
	m.set(k, v)
	return v, false
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.reset()
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}

func (m *Map) del(k interface{}) {
	if _, ok := m.m[k]; !ok {
		return
	}
	delete(m.m, k)
	for i, o := range m.order {
		if o == k {
			m.order = append(m.order[:i:i], m.order[i+1:]...)
			return
		}
	}
}

func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }

func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.reset()
	old, ok := m.m[k]
	m.set(k, v)
	return old, ok
}

func (m *Map) CompareAndSwap(k, old, new interface{}) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.reset()
	v, ok := m.m[k]
	if !ok || v != old {
		return false
	}
	m.m[k] = new
	return true
}

func (m *Map) CompareAndDelete(k, old interface{}) bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.reset()
	v, ok := m.m[k]
	if !ok || v != old {
		return false
	}
	m.del(k)
	return true
}

func (m *Map) Clear() {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.m, m.order = map[interface{}]interface{}{}, nil
	if vsched.Active() {
		m.epoch = vsched.Epoch()
	}
}

func (m *Map) Range(f func(k, v interface{}) bool) {
	m.mu.Lock()
	m.reset()
	keys := append([]interface{}(nil), m.order...)
	m.mu.Unlock()
	for _, k := range keys {
		if v, ok := m.Load(k); ok {
			if !f(k, v) {
				return
			}
		}
	}
}
