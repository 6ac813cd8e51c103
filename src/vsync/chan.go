//go:build go1.21

package vsync

import (
	"reflect"
	gosync "sync"
	"unsafe"
)

// Channels.  vgen replaces the operations on channels by the functions below.
// In managed mode, the operations on buffered channels are executed as they
// are as soon as they don't block; channels without a buffer are imitated with
// the queues kept here.
//
// The bookkeeping is invisible to the race detector (so no maps or slices
// that grow); instead mutexes tell it what the operations order.

// hdr is how a channel starts.  See init().
type hdr struct {
	qcount   uint
	dataqsiz uint
	buf      unsafe.Pointer
	elemsize uint16
	closed   uint32
}

func init() {
	a, b := make(chan int32, 3), make(chan int32)
	a <- 1
	a <- 2
	x, y := (*hdr)(ptr(a)), (*hdr)(ptr(b))
	ok := x.qcount == 2 && x.dataqsiz == 3 && x.elemsize == 4 && x.closed == 0 &&
		y.qcount == 0 && y.dataqsiz == 0 && y.closed == 0
	close(a)
	close(b)
	if !ok || x.closed != 1 || y.closed != 1 || x.qcount != 2 {
		panic("vsync: channels are not laid out as expected")
	}
}

//go:norace
func ptr[T any](ch <-chan T) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&ch))
}

//go:norace
func ptrS[T any](ch chan<- T) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&ch))
}

// waiter is an operation on a channel without a buffer that is waiting.
type waiter struct {
	v    any
	ok   bool
	done bool
	sel  *selState // if part of a select statement
	idx  int
	next *waiter
}

type selState struct {
	fired int
	first *Case
}

type chanState struct {
	p     unsafe.Pointer // the channel; also keeps it from being collected
	recvq *waiter
	sendq *waiter
	order gosync.Mutex // only for the race detector
	next  *chanState
}

var chans *chanState
var chansOf *sched

//go:norace
func chanOf(p unsafe.Pointer) *chanState {
	if chansOf != s {
		chansOf, chans = s, nil
	}
	for st := chans; st != nil; st = st.next {
		if st.p == p {
			return st
		}
	}
	st := &chanState{p: p, next: chans}
	chans = st
	return st
}

func (st *chanState) edge() {
	st.order.Lock()
	st.order.Unlock()
}

// peer returns the first waiter in the queue that can be served; not one of
// the given select statement itself.
//
//go:norace
func (st *chanState) peer(send bool, me *selState) *waiter {
	q := st.sendq
	if send {
		q = st.recvq
	}
	for ; q != nil; q = q.next {
		if !q.done && (q.sel == nil || q.sel.fired < 0 && q.sel != me) {
			return q
		}
	}
	return nil
}

//go:norace
func (st *chanState) enqueue(send bool, v any, x *selState, i int) *waiter {
	w := &waiter{v: v, sel: x, idx: i}
	q := &st.recvq
	if send {
		q = &st.sendq
	}
	for *q != nil {
		q = &(*q).next
	}
	*q = w
	return w
}

//go:norace
func (st *chanState) dequeue(send bool, w *waiter) {
	q := &st.recvq
	if send {
		q = &st.sendq
	}
	for *q != nil {
		if *q == w {
			*q = w.next
			return
		}
		q = &(*q).next
	}
}

// serve has the waiter receive v or, if ok is not set, send what it wants to.
//
//go:norace
func serve(w *waiter, v any, ok bool) any {
	r := w.v
	w.done = true
	if ok {
		w.v, w.ok = v, true
	}
	if w.sel != nil {
		w.sel.fired = w.idx
	}
	return r
}

//go:norace
func value(w *waiter) (any, bool) { return w.v, w.ok }

//go:norace
func isDone(w *waiter) bool { return w.done }

// ready tells whether the operation does not block.
//
//go:norace
func ready(p unsafe.Pointer, send bool, me *selState) bool {
	if p == nil {
		return false
	}
	h := (*hdr)(p)
	if h.closed != 0 {
		return true
	}
	if h.dataqsiz == 0 {
		return chanOf(p).peer(send, me) != nil
	}
	if send {
		return h.qcount < h.dataqsiz
	}
	return h.qcount > 0
}

//go:norace
func isClosed(p unsafe.Pointer) bool { return (*hdr)(p).closed != 0 }

// chanWait is what a thread waits for: a waiter to be served or the channel to
// be closed, or for any of the cases to be ready.
type chanWait struct {
	p    unsafe.Pointer
	send bool
	w    *waiter
	sel  *selState
}

//go:norace
func (c *chanWait) ready() bool {
	if c.sel == nil {
		if c.w != nil {
			return c.w.done || isClosed(c.p)
		}
		return ready(c.p, c.send, nil)
	}
	if c.sel.fired >= 0 {
		return true
	}
	for x := c.sel.first; x != nil; x = x.next {
		if ready(x.p, x.send, c.sel) {
			return true
		}
	}
	return false
}

//go:norace
func awaitChan(p unsafe.Pointer, send bool, w *waiter, sel *selState) {
	x := s
	t := x.cur
	t.op, t.ch = opChan, chanWait{p, send, w, sel}
	x.reach(t)
	t.ch = chanWait{}
}

func after() {
	if PointAfterUnlock {
		Yield()
	}
}

func Send[T any](ch chan<- T, v T) {
	if !Managed() {
		ch <- v
		return
	}
	p := ptrS(ch)
	if p == nil || cap(ch) > 0 {
		awaitChan(p, true, nil, nil)
		ch <- v
		after()
		return
	}
	Yield()
	if isClosed(p) {
		ch <- v // panics
	}
	st := chanOf(p)
	st.edge()
	if w := st.peer(true, nil); w != nil {
		serve(w, v, true)
	} else {
		w := st.enqueue(true, v, nil, 0)
		awaitChan(p, true, w, nil)
		st.dequeue(true, w)
		if !isDone(w) {
			ch <- v // panics
		}
	}
	st.edge()
	after()
}

func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func Recv2[T any](ch <-chan T) (T, bool) {
	if !Managed() {
		v, ok := <-ch
		return v, ok
	}
	p := ptr(ch)
	if p == nil || cap(ch) > 0 {
		awaitChan(p, false, nil, nil)
		v, ok := <-ch
		after()
		return v, ok
	}
	Yield()
	st := chanOf(p)
	var r any
	ok := false
	st.edge()
	if w := st.peer(false, nil); w != nil {
		r, ok = serve(w, nil, false), true
	} else if !isClosed(p) {
		w := st.enqueue(false, nil, nil, 0)
		awaitChan(p, false, w, nil)
		st.dequeue(false, w)
		r, ok = value(w)
	}
	st.edge()
	if !ok {
		<-ch // closed
	}
	after()
	return As(ch, r), ok
}

// As returns a received value as what it is.
func As[T any](ch <-chan T, v any) T {
	x, _ := v.(T)
	return x
}

func Close[T any](ch chan<- T) {
	Yield()
	close(ch)
	if Managed() {
		after()
	}
}

func Len[T any](ch <-chan T) int {
	Yield()
	return len(ch)
}

// Case is a case of a select statement.
type Case struct {
	p    unsafe.Pointer
	send bool
	v    any // to send
	do   func() (any, bool)
	real reflect.SelectCase
	next *Case
}

func RecvCase[T any](ch <-chan T) *Case {
	if !Managed() {
		return &Case{real: reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(ch)}}
	}
	return &Case{p: ptr(ch), do: func() (any, bool) { v, ok := <-ch; return v, ok }}
}

func SendCase[T any](ch chan<- T, v T) *Case {
	if !Managed() {
		return &Case{real: reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(ch),
			Send: reflect.ValueOf(&v).Elem()}}
	}
	return &Case{p: ptrS(ch), send: true, v: v, do: func() (any, bool) { ch <- v; return nil, false }}
}

// Selected is the outcome of a select statement; I is -1 for the default.
type Selected struct {
	I  int
	V  any
	Ok bool
}

//go:norace
func fired(x *selState) int { return x.fired }

//go:norace
func link(cases []*Case) *Case {
	for i := 1; i < len(cases); i++ {
		cases[i-1].next = cases[i]
	}
	if len(cases) == 0 {
		return nil
	}
	return cases[0]
}

// Select executes the operation of a case that is ready (the first one if there
// are several) and tells which.
func Select(def bool, cases ...*Case) Selected {
	if !Managed() {
		var rc []reflect.SelectCase
		for _, c := range cases {
			rc = append(rc, c.real)
		}
		if def {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i == len(cases) {
			return Selected{I: -1}
		}
		r := Selected{I: i, Ok: ok}
		if v.IsValid() {
			r.V = v.Interface()
		}
		return r
	}
	Yield()
	for {
		for i, c := range cases {
			if !ready(c.p, c.send, nil) {
				continue
			}
			if (*hdr)(c.p).dataqsiz > 0 || isClosed(c.p) && (c.send || chanOf(c.p).peer(c.send, nil) == nil) {
				v, ok := c.do()
				after()
				return Selected{i, v, ok}
			}
			st := chanOf(c.p)
			st.edge()
			v := serve(st.peer(c.send, nil), c.v, c.send)
			st.edge()
			after()
			return Selected{i, v, !c.send}
		}
		if def {
			return Selected{I: -1}
		}
		x := &selState{fired: -1, first: link(cases)}
		ws := make([]*waiter, len(cases))
		for i, c := range cases {
			if c.p != nil && (*hdr)(c.p).dataqsiz == 0 {
				st := chanOf(c.p)
				st.edge()
				ws[i] = st.enqueue(c.send, c.v, x, i)
			}
		}
		awaitChan(nil, false, nil, x)
		for i, c := range cases {
			if ws[i] != nil {
				chanOf(c.p).dequeue(c.send, ws[i])
			}
		}
		if i := fired(x); i >= 0 {
			chanOf(cases[i].p).edge()
			v, ok := value(ws[i])
			after()
			return Selected{i, v, ok}
		}
	}
}
