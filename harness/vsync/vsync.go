// Package vsync has the API of package sync with yields to the controlling scheduler.
package vsync

import (
	"sync"

	"github.com/gostdlib/concurrency/zzverif/vsched"
)

type (
	Locker = sync.Locker
	Map    = sync.Map
	Cond   = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Mutex is a sync.Mutex whose waiters park in the scheduler.
type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	vsched.Y(-2)
	for i := 0; ; i++ {
		g := vsched.Gen()
		if m.m.TryLock() {
			return
		}
		vsched.Block(m, g, i)
	}
}
func (m *Mutex) TryLock() bool { vsched.Y(-2); return m.m.TryLock() }
func (m *Mutex) Unlock() {
	vsched.Y(-3)
	m.m.Unlock()
	vsched.Wake(m)
}

// RWMutex is a sync.RWMutex whose waiters park in the scheduler.
type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	vsched.Y(-2)
	for i := 0; ; i++ {
		g := vsched.Gen()
		if m.m.TryLock() {
			return
		}
		vsched.Block(m, g, i)
	}
}
func (m *RWMutex) RLock() {
	vsched.Y(-2)
	for i := 0; ; i++ {
		g := vsched.Gen()
		if m.m.TryRLock() {
			return
		}
		vsched.Block(m, g, i)
	}
}
func (m *RWMutex) TryLock() bool  { vsched.Y(-2); return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { vsched.Y(-2); return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { vsched.Y(-3); m.m.Unlock(); vsched.Wake(m) }
func (m *RWMutex) RUnlock()       { vsched.Y(-3); m.m.RUnlock(); vsched.Wake(m) }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup is a sync.WaitGroup.
type WaitGroup struct{ w sync.WaitGroup }

func (w *WaitGroup) Add(n int) { vsched.Y(-4); w.w.Add(n) }
func (w *WaitGroup) Done()     { vsched.Y(-5); w.w.Done() }
func (w *WaitGroup) Wait()     { vsched.Y(-6); w.w.Wait(); vsched.Y(-7) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() {
		defer w.Done()
		f()
	}()
}

// Once is a sync.Once.
type Once struct {
	mu    sync.Mutex
	state int
}

func (o *Once) Do(f func()) {
	vsched.Y(-8)
	for i := 0; ; i++ {
		g := vsched.Gen()
		o.mu.Lock()
		st := o.state
		if st == 0 {
			o.state = 1
		}
		o.mu.Unlock()
		if st == 0 {
			break
		}
		if st == 2 {
			return
		}
		vsched.Block(o, g, i)
	}
	defer func() {
		o.mu.Lock()
		o.state = 2
		o.mu.Unlock()
		vsched.Wake(o)
	}()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool is a sync.Pool that reuses as much as it can (last in, first out).
type Pool struct {
	mu  sync.Mutex
	l   []any
	New func() any
}

func (p *Pool) Get() any {
	vsched.Y(-9)
	p.mu.Lock()
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x any) {
	vsched.Y(-10)
	if x == nil {
		return
	}
	p.mu.Lock()
	p.l = append(p.l, x)
	p.mu.Unlock()
}
