//go:build go1.21

// Package vsync replaces package sync in the instrumented build.  In managed
// mode, exactly one of the controlled threads runs at any time, and which one
// is decided at every scheduling point by a recorded sequence of choices.
// Outside managed mode everything falls through to package sync.
//
// All hand-overs are hidden from the race detector and none of the scheduler
// itself is instrumented, so that under -race the happens-before relation is
// exactly the one created by the program's own synchronisation.
package vsync

import (
	"fmt"
	"runtime/debug"
	gosync "sync"
)

const maxThreads = 64
const maxPoints = 1 << 16

const (
	opRun = iota
	opLock
	opRLock
	opWLock
	opCond
	opWG
	opFn
	opChan
)

type thread struct {
	id       int
	wake     chan struct{}
	ch       chanWait
	done     bool
	op       int
	mu       *Mutex
	rw       *RWMutex
	wg       *WaitGroup
	cond     *Cond
	condSeq  int
	signaled bool
	fn       func() bool
	what     string
}

// Point describes a moment at which more than one thread could run.
type Point struct {
	N          int16 // number of choices
	Chosen     int16
	CurEnabled bool // choice 0 is to let the running thread go on
}

// Result of one managed execution.
type Result struct {
	Points   []Point
	Steps    int
	Threads  int
	Switches int
	Deadlock string   // description of the deadlock, if any
	Panics   []string // panics in threads
	Horizon  bool     // too many steps
	Diverged bool     // the prefix did not fit
}

func (r *Result) OK() bool {
	return r.Deadlock == "" && len(r.Panics) == 0 && !r.Horizon && !r.Diverged
}

// Preempt returns the number of preemptions in the first n choices.
func (r *Result) Preempt(n int) int {
	c := 0
	for i := 0; i < n; i++ {
		if r.Points[i].CurEnabled && r.Points[i].Chosen != 0 {
			c++
		}
	}
	return c
}

// Err returns a description of what went wrong, if anything.
func (r *Result) Err() string {
	switch {
	case r.Diverged:
		return "schedule diverged"
	case len(r.Panics) > 0:
		return "panic: " + r.Panics[0]
	case r.Deadlock != "":
		return "deadlock: " + r.Deadlock
	case r.Horizon:
		return "no termination within the horizon"
	}
	return ""
}

type sched struct {
	threads  [maxThreads]*thread
	n        int
	cur      *thread
	prefix   []int16
	points   []Point
	np       int
	steps    int
	horizon  int
	switches int
	condSeq  int
	over     bool
	deadlock string
	panics   [8]string
	npanics  int
	isHor    bool
	diverged bool
	done     chan struct{}
	mu       gosync.Mutex // real: orders thread ends before the result
}

var s *sched

// Mask of optional scheduling points.
var (
	PointAfterUnlock = true
	PointAfterGo     = true
	PointAtTicks     = false
	TickEvery        = 1 // only every so manieth tick is a scheduling point
	tickN            int
)

var pointBuf []Point

// Run executes body under the control of the scheduler, following the choices
// in prefix and taking choice 0 thereafter.
func Run(prefix []int16, horizon int, body func()) *Result {
	if Managed() {
		panic("vsync: nested Run")
	}
	if pointBuf == nil {
		pointBuf = make([]Point, maxPoints)
	}
	x := &sched{prefix: prefix, horizon: horizon, points: pointBuf, done: make(chan struct{}, 1)}
	t := x.newThread()
	x.cur = t
	tickN = 0
	setS(x)
	go x.start(t, body)
	t.wake <- struct{}{}
	<-x.done
	x.mu.Lock()
	x.mu.Unlock()
	setS(nil)
	return x.result()
}

//go:norace
func setS(x *sched) { s = x }

//go:norace
func getS() *sched { return s }

//go:norace
func (x *sched) result() *Result {
	r := &Result{Steps: x.steps, Threads: x.n, Switches: x.switches, Deadlock: x.deadlock,
		Horizon: x.isHor, Diverged: x.diverged}
	for i := 0; i < x.np; i++ {
		r.Points = append(r.Points, x.points[i])
	}
	for i := 0; i < x.npanics; i++ {
		r.Panics = append(r.Panics, x.panics[i])
	}
	if !x.over && x.np < len(x.prefix) {
		r.Diverged = true
	}
	return r
}

//go:norace
func (x *sched) newThread() *thread {
	t := &thread{id: x.n, wake: make(chan struct{}, 1)}
	if x.n >= maxThreads {
		panic("vsync: too many threads")
	}
	x.threads[x.n] = t
	x.n++
	return t
}

func (x *sched) start(t *thread, body func()) {
	raceDisable()
	<-t.wake
	raceEnable()
	debug.SetPanicOnFault(true)
	defer x.exit(t)
	defer x.catch(t)
	body()
}

func (x *sched) catch(t *thread) {
	if v := recover(); v != nil {
		msg := fmt.Sprintf("thread %d: %v\n%s", t.id, v, debug.Stack())
		x.addPanic(msg)
	}
}

//go:norace
func (x *sched) addPanic(msg string) {
	if x.npanics < len(x.panics) {
		x.panics[x.npanics] = msg
		x.npanics++
	}
}

func (x *sched) exit(t *thread) {
	x.mu.Lock()
	x.mu.Unlock()
	x.exit2(t)
}

//go:norace
func (x *sched) exit2(t *thread) {
	t.done = true
	if x.over {
		return
	}
	all := true
	for i := 0; i < x.n; i++ {
		if !x.threads[i].done {
			all = false
		}
	}
	raceDisable()
	if all {
		x.done <- struct{}{}
		raceEnable()
		return
	}
	nt := x.choose()
	if nt == nil {
		x.fail()
		raceEnable()
		return
	}
	x.cur = nt
	x.switches++
	nt.wake <- struct{}{}
	raceEnable()
}

//go:norace
func (x *sched) fail() {
	if x.over {
		return
	}
	x.over = true
	if !x.isHor && !x.diverged {
		x.deadlock = x.describe()
	}
	x.done <- struct{}{}
}

//go:norace
func (x *sched) describe() string {
	d := ""
	for i := 0; i < x.n; i++ {
		t := x.threads[i]
		if t.done {
			continue
		}
		w := "?"
		switch t.op {
		case opRun:
			w = "runnable"
		case opLock, opRLock, opWLock:
			w = "waiting for a mutex"
		case opCond:
			w = "waiting for a condition variable"
		case opWG:
			w = "waiting for a wait group"
		case opFn:
			w = "waiting for " + t.what
		case opChan:
			w = "waiting for a channel"
		}
		if d != "" {
			d += "; "
		}
		d += "thread " + itoa(t.id) + " " + w
	}
	return d
}

func itoa(i int) string {
	if i >= 10 {
		return itoa(i/10) + string(rune('0'+i%10))
	}
	return string(rune('0' + i))
}

//go:norace
func (t *thread) enabled() bool {
	if t.done {
		return false
	}
	switch t.op {
	case opLock:
		return !t.mu.held
	case opRLock:
		return !t.rw.writer
	case opWLock:
		return !t.rw.writer && t.rw.readers == 0
	case opCond:
		return t.signaled
	case opWG:
		return t.wg.n <= 0
	case opFn:
		return t.fn()
	case opChan:
		return t.ch.ready()
	}
	return true
}

// choose picks the thread to run next; nil if there is none.
//
//go:norace
func (x *sched) choose() *thread {
	x.steps++
	if x.steps > x.horizon || x.np >= maxPoints-1 {
		x.isHor = true
		return nil
	}
	var en [maxThreads]*thread
	n := 0
	cur := false
	if x.cur.enabled() {
		en[0] = x.cur
		n = 1
		cur = true
	}
	for i := 0; i < x.n; i++ {
		t := x.threads[i]
		if t != x.cur && t.enabled() {
			en[n] = t
			n++
		}
	}
	if n == 0 {
		return nil
	}
	if n == 1 {
		return en[0]
	}
	c := 0
	if x.np < len(x.prefix) {
		c = int(x.prefix[x.np])
		if c >= n {
			x.diverged = true
			return nil
		}
	}
	x.points[x.np] = Point{N: int16(n), Chosen: int16(c), CurEnabled: cur}
	x.np++
	return en[c]
}

// reach is called by the running thread with its pending operation set; it
// returns when the thread is to perform that operation.
//
//go:norace
func (x *sched) reach(t *thread) {
	nt := x.choose()
	if nt == t {
		t.op = opRun
		return
	}
	raceDisable()
	if nt == nil {
		x.fail()
		for {
			<-t.wake // never comes
		}
	}
	x.cur = nt
	x.switches++
	nt.wake <- struct{}{}
	<-t.wake
	raceEnable()
	t.op = opRun
}

// Yield is a scheduling point.
//
//go:norace
func Yield() {
	x := s
	if x == nil || x.over {
		return
	}
	t := x.cur
	t.op = opRun
	x.reach(t)
}

// Self returns the number of the running thread.
//
//go:norace
func Self() int {
	if x := s; x != nil && x.cur != nil {
		return x.cur.id
	}
	return -1
}

// Await blocks the calling thread until f, which is evaluated by other
// threads, yields true.  f must not be instrumented or race.
//
//go:norace
func Await(what string, f func() bool) {
	x := s
	if x == nil {
		return
	}
	t := x.cur
	t.op, t.fn, t.what = opFn, f, what
	x.reach(t)
	t.fn = nil
}

// Managed tells whether the scheduler is in control.
//
//go:norace
func Managed() bool { return s != nil }

// ThreadID returns the id of the running thread and -1 outside managed mode.
//
//go:norace
func ThreadID() int {
	if s == nil {
		return -1
	}
	return s.cur.id
}

func goStart(f func()) {
	x := getS()
	if x == nil {
		go func() {
			if OnGoPanic != nil {
				debug.SetPanicOnFault(true)
				defer func() {
					if v := recover(); v != nil {
						OnGoPanic(fmt.Sprintf("%v\n%s", v, debug.Stack()))
					}
				}()
			}
			f()
		}()
		return
	}
	t := x.newThread()
	go x.start(t, f)
	if PointAfterGo {
		Yield()
	}
}

// OnGoPanic, if set, gets the panics of goroutines outside managed mode.
var OnGoPanic func(string)

func Go0(f func())                         { goStart(f) }
func Go1[A any](f func(A), a A)            { goStart(func() { f(a) }) }
func Go2[A, B any](f func(A, B), a A, b B) { goStart(func() { f(a, b) }) }
func Go3[A, B, C any](f func(A, B, C), a A, b B, c C) {
	goStart(func() { f(a, b, c) })
}
func Go4[A, B, C, D any](f func(A, B, C, D), a A, b B, c C, d D) {
	goStart(func() { f(a, b, c, d) })
}
func Go5[A, B, C, D, E any](f func(A, B, C, D, E), a A, b B, c C, d D, e E) {
	goStart(func() { f(a, b, c, d, e) })
}
func Go6[A, B, C, D, E, F any](f func(A, B, C, D, E, F), a A, b B, c C, d D, e E, g F) {
	goStart(func() { f(a, b, c, d, e, g) })
}

// TickFn, if set, is called at every tick.
var TickFn func()

// T is a tick; one precedes every statement of the instrumented package.
//
//go:norace
func T() {
	if TickFn != nil {
		TickFn()
	}
	if PointAtTicks {
		if TickEvery > 1 {
			tickN++
			if tickN%TickEvery != 0 {
				return
			}
		}
		Yield()
	}
}
