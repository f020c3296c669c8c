// Package vsync is package sync for instrumented code.
package vsync

import (
	"sync"

	"github.com/gernest/requiemdb/internal/zzverif/sched"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
)

type Mutex struct {
	m    sync.Mutex
	held bool
}

func (m *Mutex) Lock() {
	if !sched.Controlled() {
		m.m.Lock()
		m.held = true
		return
	}
	sched.Point("Lock")
	for !m.m.TryLock() {
		sched.Block("Lock", func() bool { return !m.held })
	}
	m.held = true
}

func (m *Mutex) TryLock() bool {
	sched.Point("TryLock")
	if m.m.TryLock() {
		m.held = true
		return true
	}
	return false
}

func (m *Mutex) Unlock() {
	sched.Point("Unlock")
	m.held = false
	m.m.Unlock()
	sched.Point("Unlocked")
}

type RWMutex struct {
	m       sync.RWMutex
	held    bool
	readers int
	waiting int
}

func (m *RWMutex) Lock() {
	if !sched.Controlled() {
		m.m.Lock()
		m.held = true
		return
	}
	sched.Point("Lock")
	if !m.m.TryLock() {
		m.waiting++
		for {
			sched.Block("Lock", func() bool { return !m.held && m.readers == 0 })
			if m.m.TryLock() {
				break
			}
		}
		m.waiting--
	}
	m.held = true
}

func (m *RWMutex) TryLock() bool {
	sched.Point("TryLock")
	if m.m.TryLock() {
		m.held = true
		return true
	}
	return false
}

func (m *RWMutex) Unlock() {
	sched.Point("Unlock")
	m.held = false
	m.m.Unlock()
	sched.Point("Unlocked")
}

func (m *RWMutex) RLock() {
	if !sched.Controlled() {
		m.m.RLock()
		m.readers++
		return
	}
	sched.Point("RLock")
	// A reader waits for the writers that wait.
	for m.waiting > 0 || !m.m.TryRLock() {
		sched.Block("RLock", func() bool { return !m.held && m.waiting == 0 })
	}
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	sched.Point("TryRLock")
	if m.waiting == 0 && m.m.TryRLock() {
		m.readers++
		return true
	}
	return false
}

func (m *RWMutex) RUnlock() {
	sched.Point("RUnlock")
	m.readers--
	m.m.RUnlock()
	sched.Point("RUnlocked")
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	g := OnceValue(func() int { f(); return 0 })
	return func() { g() }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var r T
	var p any
	ok := false
	return func() T {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			r = f()
			ok = true
		})
		if !ok {
			panic(p)
		}
		return r
	}
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	type both struct {
		a A
		b B
	}
	g := OnceValue(func() both {
		a, b := f()
		return both{a, b}
	})
	return func() (A, B) {
		v := g()
		return v.a, v.b
	}
}

type WaitGroup struct {
	wg sync.WaitGroup
	n  int
}

func (w *WaitGroup) Add(d int) {
	sched.Point("Add")
	w.n += d
	w.wg.Add(d)
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if sched.Controlled() {
		sched.Point("Wait")
		sched.Block("Wait", func() bool { return w.n <= 0 })
	}
	w.wg.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	sched.Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L Locker
	l []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	ok := new(bool)
	c.l = append(c.l, ok)
	c.L.Unlock()
	sched.Block("Cond.Wait", func() bool { return *ok })
	c.L.Lock()
}

func (c *Cond) Signal() {
	sched.Point("Signal")
	if len(c.l) > 0 {
		*c.l[0] = true
		c.l = c.l[1:]
	}
}

func (c *Cond) Broadcast() {
	sched.Point("Broadcast")
	for _, o := range c.l {
		*o = true
	}
	c.l = nil
}

// Pool hands out what was put last, and keeps everything.
type Pool struct {
	New   func() any
	items []*item
	known bool
	m     sync.Mutex
}

type item struct {
	m sync.Mutex
	v any
}

func (p *Pool) Get() any {
	c := sched.Controlled()
	if !c {
		p.m.Lock()
	}
	var it *item
	if n := len(p.items); n > 0 {
		it = p.items[n-1]
		p.items = p.items[:n-1]
	}
	if !c {
		p.m.Unlock()
	}
	if it == nil {
		if p.New == nil {
			return nil
		}
		v := p.New()
		sched.PoolPoint("New")
		return v
	}
	it.m.Lock() // orders this after the Put of the item, and only that one
	v := it.v
	it.m.Unlock()
	sched.PoolPoint("Got")
	return v
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	it := &item{v: v}
	it.m.Lock()
	it.m.Unlock()
	c := sched.Controlled()
	if !c {
		p.m.Lock()
	}
	if !p.known {
		p.known = true
		sched.OnReset(func() { p.items = nil })
	}
	p.items = append(p.items, it)
	if !c {
		p.m.Unlock()
	}
	sched.PoolPoint("PutDone")
}
