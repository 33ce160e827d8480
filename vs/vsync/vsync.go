// Package vsync replaces package sync in the instrumented build.
package vsync

import (
	"sync"

	"PKG/vsched"
)

type Locker = sync.Locker

// Mutex blocks in the scheduler; the real mutex inside is always free when it
// is taken and provides the happens-before edges.
type Mutex struct {
	mu    sync.Mutex
	held  bool
	epoch uint32
	obj   vsched.Obj
}

func (m *Mutex) VSReady() bool { return !m.held }

func (m *Mutex) fresh() {
	if e := vsched.Epoch(); m.epoch != e {
		if m.held {
			m.mu = sync.Mutex{}
			m.held = false
		}
		m.epoch = e
	}
}

func (m *Mutex) Lock() {
	if vsched.Active() {
		m.fresh()
		vsched.Wait(m, &m.obj, true, "lock")
		m.held = true
	}
	m.mu.Lock()
}

func (m *Mutex) TryLock() bool {
	if vsched.Active() {
		m.fresh()
		vsched.Step(&m.obj, true, "trylock")
		if m.held {
			return false
		}
		m.held = true
		m.mu.Lock()
		return true
	}
	return m.mu.TryLock()
}

func (m *Mutex) Unlock() {
	if vsched.Active() {
		if !m.held {
			vsched.Fail("sync: unlock of unlocked mutex")
		}
		m.held = false
	}
	m.mu.Unlock()
}

type RWMutex struct {
	mu    sync.RWMutex
	w     bool
	r     int
	epoch uint32
	obj   vsched.Obj
}

func (m *RWMutex) fresh() {
	if e := vsched.Epoch(); m.epoch != e {
		if m.w || m.r != 0 {
			m.mu = sync.RWMutex{}
			m.w = false
			m.r = 0
		}
		m.epoch = e
	}
}

type rdWait struct{ m *RWMutex }

func (w rdWait) VSReady() bool { return !w.m.w }

func (m *RWMutex) VSReady() bool { return !m.w && m.r == 0 }

func (m *RWMutex) Lock() {
	if vsched.Active() {
		m.fresh()
		vsched.Wait(m, &m.obj, true, "wlock")
		m.w = true
	}
	m.mu.Lock()
}

func (m *RWMutex) TryLock() bool {
	if vsched.Active() {
		m.fresh()
		vsched.Step(&m.obj, true, "trywlock")
		if m.w || m.r > 0 {
			return false
		}
		m.w = true
		m.mu.Lock()
		return true
	}
	return m.mu.TryLock()
}

func (m *RWMutex) Unlock() {
	if vsched.Active() {
		if !m.w {
			vsched.Fail("sync: Unlock of unlocked RWMutex")
		}
		m.w = false
	}
	m.mu.Unlock()
}

func (m *RWMutex) RLock() {
	if vsched.Active() {
		m.fresh()
		vsched.Wait(rdWait{m}, &m.obj, false, "rlock")
		m.r++
	}
	m.mu.RLock()
}

func (m *RWMutex) TryRLock() bool {
	if vsched.Active() {
		m.fresh()
		vsched.Step(&m.obj, false, "tryrlock")
		if m.w {
			return false
		}
		m.r++
		m.mu.RLock()
		return true
	}
	return m.mu.TryRLock()
}

func (m *RWMutex) RUnlock() {
	if vsched.Active() {
		if m.r <= 0 {
			vsched.Fail("sync: RUnlock of unlocked RWMutex")
		}
		m.r--
	}
	m.mu.RUnlock()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	mu  sync.Mutex
	n   int
	wg  sync.WaitGroup
	obj vsched.Obj
}

func (g *WaitGroup) VSReady() bool { return g.n <= 0 }

func (g *WaitGroup) Add(d int) {
	if !vsched.Active() {
		g.wg.Add(d)
		return
	}
	vsched.Step(&g.obj, true, "wg.add")
	g.mu.Lock()
	g.n += d
	n := g.n
	g.mu.Unlock()
	if n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	if !vsched.Active() {
		g.wg.Wait()
		return
	}
	vsched.Wait(g, &g.obj, true, "wg.wait")
	g.mu.Lock()
	g.mu.Unlock()
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	vsched.Go(func() {
		defer g.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p any
	return func() {
		once.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			f()
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var res T
	once := OnceFunc(func() { res = f() })
	return func() T { once(); return res }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	once := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { once(); return r1, r2 }
}

type Cond struct {
	L    Locker
	mu   sync.Mutex
	q    []*condWait
	obj  vsched.Obj
	real *sync.Cond
}

type condWait struct{ signalled bool }

func (c *condWait) VSReady() bool { return c.signalled }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	w := &condWait{}
	c.q = append(c.q, w)
	c.L.Unlock()
	vsched.Wait(w, &c.obj, true, "cond.wait")
	c.mu.Lock()
	c.mu.Unlock()
	c.L.Lock()
}

func (c *Cond) Signal() {
	vsched.Step(&c.obj, true, "cond.signal")
	c.mu.Lock()
	c.mu.Unlock()
	if len(c.q) > 0 {
		c.q[0].signalled = true
		c.q = c.q[1:]
	}
}

func (c *Cond) Broadcast() {
	vsched.Step(&c.obj, true, "cond.broadcast")
	c.mu.Lock()
	c.mu.Unlock()
	for _, w := range c.q {
		w.signalled = true
	}
	c.q = nil
}

// Pool always hands out the object put back last, which is a legal behaviour
// of sync.Pool and the one that exposes stale state.
type Pool struct {
	New   func() any
	mu    sync.Mutex
	items []any
	obj   vsched.Obj
}

func (p *Pool) Get() any {
	vsched.Step(&p.obj, true, "pool.get")
	p.mu.Lock()
	var v any
	ok := false
	if n := len(p.items); n > 0 {
		v = p.items[n-1]
		p.items = p.items[:n-1]
		ok = true
	}
	p.mu.Unlock()
	if !ok && p.New != nil {
		v = p.New()
	}
	return v
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	vsched.Step(&p.obj, true, "pool.put")
	p.mu.Lock()
	p.items = append(p.items, v)
	p.mu.Unlock()
}

// Map keeps insertion order so that Range is deterministic.
type Map struct {
	m    sync.Map
	mu   sync.Mutex
	keys []any
	obj  vsched.Obj
}

func (m *Map) add(k any) {
	m.mu.Lock()
	m.keys = append(m.keys, k)
	m.mu.Unlock()
}

func (m *Map) del(k any) {
	m.mu.Lock()
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			break
		}
	}
	m.mu.Unlock()
}

func (m *Map) Load(k any) (any, bool) {
	vsched.Step(&m.obj, false, "map.load")
	return m.m.Load(k)
}

func (m *Map) Store(k, v any) { m.Swap(k, v) }

func (m *Map) Swap(k, v any) (any, bool) {
	vsched.Step(&m.obj, true, "map.store")
	p, loaded := m.m.Swap(k, v)
	if !loaded {
		m.add(k)
	}
	return p, loaded
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	vsched.Step(&m.obj, true, "map.loadorstore")
	p, loaded := m.m.LoadOrStore(k, v)
	if !loaded {
		m.add(k)
	}
	return p, loaded
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	vsched.Step(&m.obj, true, "map.loadanddelete")
	p, loaded := m.m.LoadAndDelete(k)
	if loaded {
		m.del(k)
	}
	return p, loaded
}

func (m *Map) Delete(k any) { m.LoadAndDelete(k) }

func (m *Map) CompareAndSwap(k, o, n any) bool {
	vsched.Step(&m.obj, true, "map.cas")
	return m.m.CompareAndSwap(k, o, n)
}

func (m *Map) CompareAndDelete(k, o any) bool {
	vsched.Step(&m.obj, true, "map.cad")
	ok := m.m.CompareAndDelete(k, o)
	if ok {
		m.del(k)
	}
	return ok
}

func (m *Map) Clear() {
	vsched.Step(&m.obj, true, "map.clear")
	m.m.Clear()
	m.mu.Lock()
	m.keys = nil
	m.mu.Unlock()
}

func (m *Map) Range(f func(k, v any) bool) {
	vsched.Step(&m.obj, false, "map.range")
	m.mu.Lock()
	keys := append([]any{}, m.keys...)
	m.mu.Unlock()
	for _, k := range keys {
		v, ok := m.m.Load(k)
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
	}
}
