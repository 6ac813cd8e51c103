//go:build go1.21

package vsync

import (
	"fmt"
	"sort"
	gosync "sync"
)

type Locker = gosync.Locker
type Map = gosync.Map

// Mutex

type Mutex struct {
	m    gosync.Mutex
	held bool
}

//go:norace
func (m *Mutex) setHeld(b bool) { m.held = b }

//go:norace
func (m *Mutex) isHeld() bool { return m.held }

//go:norace
func (m *Mutex) reach() {
	if x := s; x != nil {
		t := x.cur
		t.op, t.mu = opLock, m
		x.reach(t)
	}
}

func (m *Mutex) Lock() {
	m.reach()
	m.m.Lock()
	m.setHeld(true)
}

func (m *Mutex) TryLock() bool {
	Yield()
	if m.m.TryLock() {
		m.setHeld(true)
		return true
	}
	return false
}

func (m *Mutex) unlock() {
	if !m.isHeld() {
		panic("sync: unlock of unlocked mutex")
	}
	m.setHeld(false)
	m.m.Unlock()
}

func (m *Mutex) Unlock() {
	m.unlock()
	if PointAfterUnlock {
		Yield()
	}
}

// RWMutex

type RWMutex struct {
	m       gosync.RWMutex
	readers int
	writer  bool
	mm      gosync.Mutex
}

//go:norace
func (m *RWMutex) reach(op int) {
	if x := s; x != nil {
		t := x.cur
		t.op, t.rw = op, m
		x.reach(t)
	}
}

//go:norace
func (m *RWMutex) addReaders(d int) int { m.readers += d; return m.readers }

//go:norace
func (m *RWMutex) setWriter(b bool) bool { o := m.writer; m.writer = b; return o }

func (m *RWMutex) Lock() {
	m.reach(opWLock)
	m.m.Lock()
	m.setWriter(true)
}

func (m *RWMutex) Unlock() {
	if !m.setWriter(false) {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.m.Unlock()
	if PointAfterUnlock {
		Yield()
	}
}

func (m *RWMutex) RLock() {
	m.reach(opRLock)
	m.m.RLock()
	if Managed() {
		m.addReaders(1)
	}
}

func (m *RWMutex) RUnlock() {
	if Managed() {
		if m.addReaders(-1) < 0 {
			m.addReaders(1)
			panic("sync: RUnlock of unlocked RWMutex")
		}
	}
	m.m.RUnlock()
	if PointAfterUnlock {
		Yield()
	}
}

func (m *RWMutex) TryLock() bool {
	Yield()
	if m.m.TryLock() {
		m.setWriter(true)
		return true
	}
	return false
}

func (m *RWMutex) TryRLock() bool {
	Yield()
	if m.m.TryRLock() {
		if Managed() {
			m.addReaders(1)
		}
		return true
	}
	return false
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Cond

type Cond struct {
	L Locker
	c *gosync.Cond
}

func NewCond(l Locker) *Cond { return &Cond{L: l, c: gosync.NewCond(l)} }

//go:norace
func (c *Cond) register() {
	x := s
	t := x.cur
	t.cond = c
	t.signaled = false
	x.condSeq++
	t.condSeq = x.condSeq
}

//go:norace
func (c *Cond) reach() {
	x := s
	t := x.cur
	t.op = opCond
	x.reach(t)
	t.cond = nil
}

func (c *Cond) Wait() {
	if !Managed() {
		c.c.Wait()
		return
	}
	c.register()
	if m, ok := c.L.(*Mutex); ok {
		m.unlock()
	} else {
		c.L.Unlock()
	}
	c.reach()
	c.L.Lock()
}

//go:norace
func (c *Cond) wake(all bool) {
	x := s
	var first *thread
	for i := 0; i < x.n; i++ {
		t := x.threads[i]
		if t.cond == c && !t.signaled {
			if all {
				t.signaled = true
			} else if first == nil || t.condSeq < first.condSeq {
				first = t
			}
		}
	}
	if first != nil {
		first.signaled = true
	}
}

func (c *Cond) Broadcast() {
	if !Managed() {
		c.c.Broadcast()
		return
	}
	c.wake(true)
}

func (c *Cond) Signal() {
	if !Managed() {
		c.c.Signal()
		return
	}
	c.wake(false)
}

// WaitGroup

type WaitGroup struct {
	w gosync.WaitGroup
	n int64
	l gosync.Mutex
}

//go:norace
func (w *WaitGroup) add(d int) { w.n += int64(d) }

//go:norace
func (w *WaitGroup) reach() {
	if x := s; x != nil {
		t := x.cur
		t.op, t.wg = opWG, w
		x.reach(t)
	}
}

func (w *WaitGroup) Add(d int) {
	if Managed() {
		w.w.Add(d)
		w.add(d)
		return
	}
	w.l.Lock()
	w.add(d)
	w.l.Unlock()
	w.w.Add(d)
}

func (w *WaitGroup) Done() {
	w.Add(-1)
	if PointAfterUnlock {
		Yield()
	}
}

func (w *WaitGroup) Wait() {
	w.reach()
	w.w.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go0(func() {
		defer w.Done()
		f()
	})
}

// Once

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v T1
	var w T2
	return func() (T1, T2) {
		o.Do(func() { v, w = f() })
		return v, w
	}
}

// Pool hands out the most recently returned item, as sync.Pool typically
// does on one processor.

type Pool struct {
	m     gosync.Mutex
	items []any
	New   func() any
}

func (p *Pool) Get() any {
	Yield()
	p.m.Lock()
	if n := len(p.items); n > 0 {
		v := p.items[n-1]
		p.items = p.items[:n-1]
		p.m.Unlock()
		return v
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(v any) {
	p.m.Lock()
	p.items = append(p.items, v)
	p.m.Unlock()
	Yield()
}

// Keys returns the keys of m in a fixed order.
func Keys[K comparable, V any](m map[K]V) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		return fmt.Sprintf("%020v", ks[i]) < fmt.Sprintf("%020v", ks[j])
	})
	return ks
}
