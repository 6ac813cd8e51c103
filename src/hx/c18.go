//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"io"
	"strings"

	xmssmt "github.com/bwesterb/go-xmssmt"
	"github.com/bwesterb/go-xmssmt/internal/verif/vsync"
)

// C18: Close is final and waits for background work.

type closeArg struct {
	P       P
	Start   uint64
	Cold    bool     `json:",omitempty"`
	FS      bool     `json:",omitempty"` // in the file system instead of in memory
	Drop    []string `json:",omitempty"` // (file system) cached subtrees to drop
	Pre     string   `json:",omitempty"`
	Threads []string // operations; G is a Sign whose message comes once Close waits
	Every   int      `json:",omitempty"`
}

type c18Job struct {
	P     P
	Start uint64
	FS    bool
	Len   int
	First string
	Fail  string `json:",omitempty"` // the call to the container that fails
}

func init() {
	register(&Check{
		ID: "C18", Level: "model_checking", Budget: [2]int{200, 3000},
		Rule:        "all schedules up to a preemption bound of goroutines that sign, reserve, query, precompute and close a key, on a container in memory that destroys its buffers and counts calls when closed, and on the file system container with unmapped memory protected; and all sequences of operations after Close; an outcome is who got which number",
		Assumptions: lifeAssume,
		Plan:        c18Plan,
	})
	scens["close"] = func(raw json.RawMessage) func([]int16) run {
		var a closeArg
		if err := json.Unmarshal(raw, &a); err != nil {
			panic(err)
		}
		return a.prepare()
	}
	handle("c18seq", c18Seq)
}

func c18Plan(t Tier) []Job {
	var js []Job
	add := func(build string, bound int, a closeArg) {
		if a.Every > 0 {
			js = append(js, schedJob(build, "close", bound, 0, true, a))
			return
		}
		dev := 0
		if build == "race" && !t.Thorough {
			dev = 2
		}
		js = append(js, schedJob(build, "close", bound, dev, false, a))
	}
	both := func(bound int, a closeArg) {
		if t.Thorough {
			bound++
		}
		add("inst", bound, a)
		add("race", 1, a)
		a.FS = true
		add("inst", bound, a)
		if t.Thorough {
			add("race", 1, a)
		}
	}
	p := tiny(4, 2)
	both(2, closeArg{P: p, Start: 1, Threads: []string{"S", "C"}})
	both(2, closeArg{P: p, Start: 3, Threads: []string{"S", "C"}})
	both(1, closeArg{P: p, Start: 3, Threads: []string{"S S", "C S"}})
	both(1, closeArg{P: p, Start: 2, Threads: []string{"S", "S", "C"}})
	both(2, closeArg{P: p, Start: 2, Threads: []string{"C", "C", "Q"}})
	both(1, closeArg{P: p, Start: 2, Threads: []string{"S", "C", "C S"}})
	both(2, closeArg{P: p, Start: 2, Threads: []string{"B2", "C B3"}})
	both(2, closeArg{P: p, Start: 2, Pre: "B2", Threads: []string{"S", "C"}})
	both(1, closeArg{P: p, Start: 2, Pre: "B2", Threads: []string{"S B1", "C I2,0"}})
	both(1, closeArg{P: p, Start: 2, Threads: []string{"F", "C", "S"}})
	both(2, closeArg{P: p, Start: 2, Threads: []string{"G", "C"}})
	both(1, closeArg{P: p, Start: 2, Threads: []string{"G S", "S", "C"}})
	both(2, closeArg{P: p, Start: 2, Threads: []string{"G", "C", "C"}})
	// precomputation
	both(2, closeArg{P: p, Start: 2, Threads: []string{"P C"}})
	both(2, closeArg{P: p, Start: 2, Pre: "P", Threads: []string{"C"}})
	both(2, closeArg{P: p, Start: 2, Cold: true, Pre: "P", Threads: []string{"C S"}})
	both(2, closeArg{P: p, Start: 2, Threads: []string{"P", "C"}})
	both(1, closeArg{P: p, Start: 3, Pre: "P", Threads: []string{"S", "C"}})
	both(1, closeArg{P: p, Start: 2, Threads: []string{"P S S", "C"}})
	both(1, closeArg{P: tiny(3, 3), Start: 1, Pre: "P", Threads: []string{"S S", "C P"}})
	both(1, closeArg{P: tiny(3, 3), Start: 3, Cold: true, Threads: []string{"S P", "C S"}})
	both(1, closeArg{P: p, Start: 11, Pre: "P", Threads: []string{"S", "C"}})
	both(1, closeArg{P: p, Start: 14, Threads: []string{"S", "S", "C"}})
	// subtrees are generated
	both(1, closeArg{P: p, Start: 2, Cold: true, Threads: []string{"S", "C"}})
	both(1, closeArg{P: tiny(3, 3), Start: 4, Cold: true, Threads: []string{"S", "S", "C"}})
	ev := 4001
	if t.Thorough {
		ev = 397
	}
	for _, fs := range []bool{false, true} {
		add("inst", 1, closeArg{P: p, Start: 3, FS: fs, Threads: []string{"S", "C"}, Every: ev})
		add("inst", 1, closeArg{P: p, Start: 2, FS: fs, Pre: "P", Threads: []string{"C"}, Every: ev})
		add("inst", 1, closeArg{P: p, Start: 2, FS: fs, Threads: []string{"C", "B2", "Q"}, Every: 3})
	}
	n := 4
	if t.Thorough {
		n = 5
	}
	for _, fs := range []bool{false, true} {
		for _, o := range c18Ops {
			js = append(js, mkjob("inst", "c18seq", c18Job{p, 2, fs, n, o, ""}))
		}
	}
	for _, o := range c18Ops {
		js = append(js, mkjob("inst", "c18seq", c18Job{p, 2, false, n - 1, o, "SetSeqNo"}))
		js = append(js, mkjob("inst", "c18seq", c18Job{p, 2, false, n - 1, o, "Close"}))
	}
	return js
}

// memBase is a key in memory that was closed at the given number.
func memBase(p P, start uint64, cold bool) *memCtr {
	return c17Base(c17Job{P: p, Start: start, Cold: cold}, fix(p, ""))
}

func (a closeArg) prepare() func([]int16) run {
	f := fix(a.P, "")
	if a.FS {
		warm := 1
		if a.Cold || a.Start == 0 {
			warm = 0
		}
		ca := concArg{P: a.P, Start: a.Start - uint64(warm), Warm: warm, Drop: a.Drop}
		im := ca.image()
		return func(prefix []int16) run { return a.run(f, prefix, nil, world(im.Clone())) }
	}
	base := memBase(a.P, a.Start, a.Cold)
	return func(prefix []int16) run { return a.run(f, prefix, base.reopen(), world(nil)) }
}

func (a closeArg) run(f *Fix, prefix []int16, m *memCtr, w *World) (out run) {
	bad := ""
	fail := func(f string, x ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, x...)
		}
	}
	vsync.TickEvery = max(a.Every, 1)
	defer func() { vsync.TickEvery = 1 }()
	ticks := vsync.PointAtTicks
	vsync.PointAtTicks = false
	if m != nil {
		m.destroy = true
	}
	res := make([][]opRes, len(a.Threads))
	var sk *xmssmt.PrivateKey
	var pre []opRes
	var seq0, seq1 uint64
	st := &closeState{m: m, w: w}
	r := vsync.Run(prefix, horizon, func() {
		var err error
		if m != nil {
			sk, _, _, err = load(m)
		} else {
			var e xmssmt.Error
			sk, _, _, e = xmssmt.LoadPrivateKey(w.path)
			if e != nil {
				err = e
			}
		}
		if err != nil {
			fail("loading fails: %v", err)
			return
		}
		sk.Context().Threads = 1
		seq0 = uint64(sk.SeqNo())
		vsync.PointAtTicks = ticks
		for _, op := range strings.Fields(a.Pre) {
			pre = append(pre, doOp(sk, op, "p"))
		}
		var wg vsync.WaitGroup
		wg.Add(len(a.Threads))
		for i := range a.Threads {
			i := i
			vsync.Go0(func() {
				defer wg.Done()
				for _, op := range strings.Fields(a.Threads[i]) {
					after := st.closed()
					switch op[0] {
					case 'C':
						st.close()
					case 'G':
						x := opRes{op: "S", msg: "gated"}
						rd := &closeGate{data: "gated", st: st}
						var err xmssmt.Error
						x.sig, err = sk.SignFrom(rd)
						x.err = err
						rd.done() // if it wasn't read to its end
						if err == nil && x.sig != nil {
							x.enc, _ = x.sig.MarshalBinary()
						}
						res[i] = append(res[i], x)
						continue
					}
					x := doOp(sk, op, "m")
					res[i] = append(res[i], x)
					switch op[0] {
					case 'C':
						st.returned()
					case 'S', 'B', 'I', 'F':
						if after && x.err == nil {
							st.fail(op + " succeeds after Close")
						}
					}
				}
			})
		}
		wg.Wait()
		if st.bad != "" {
			fail("%s", st.bad)
		}
		ops, calls := st.ops, st.calls
		vsync.PointAtTicks = false
		// Background work might still go on: let it.
		for i := 0; i < 60; i++ {
			vsync.Yield()
		}
		seq1 = uint64(sk.SeqNo())
		if st.closes > 0 {
			if n := w.fs.NOps(); n != ops && m == nil {
				fail("after Close had returned, there were %d file system operations", n-ops)
			}
			if m != nil && m.afterCl != calls {
				fail("after Close had returned, there were %d calls to the container", m.afterCl-calls)
			}
		}
		for _, op := range []string{"S", "B1", "I1,1", "F"} {
			if x := doOp(sk, op, "late"); x.err == nil {
				fail("%s succeeds after Close", op)
			}
		}
		doOp(sk, "P", "")
		doOp(sk, "C", "")
		doOp(sk, "Q", "")
		for i := 0; i < 60; i++ {
			vsync.Yield()
		}
		if n := w.fs.NOps(); n != ops && m == nil {
			fail("using a closed key leads to %d file system operations", n-ops)
		}
		if m != nil && m.afterCl != calls {
			fail("using a closed key leads to %d calls to the container", m.afterCl-calls)
		}
	})
	vsync.PointAtTicks = false
	out.res = r
	order := ""
	if e := r.Err(); e != "" {
		fail("%s", e)
		w.fs.Dispose()
	} else if bad == "" {
		used := map[uint64]bool{}
		fails := 0
		for _, rs := range append([][]opRes{pre}, res...) {
			for _, x := range rs {
				if x.op == "F" {
					fails++
				}
				if x.op != "S" {
					continue
				}
				if x.err != nil {
					order += "-"
					continue
				}
				if x.sig == nil {
					fail("Sign returns neither a signature nor an error")
					continue
				}
				n := uint64(x.sig.SeqNo())
				order += fmt.Sprint(n, ",")
				if used[n] {
					fail("number %d was used twice", n)
				}
				used[n] = true
				if s := f.right(n, x.msg, x.enc); s != "" {
					fail("%s", s)
				}
				if enc, _ := x.sig.MarshalBinary(); string(enc) != string(x.enc) {
					fail("signature %d changed", n)
				}
				if n >= seq1 {
					fail("afterwards, SeqNo() is %d but %d has been used", seq1, n)
				}
			}
			order += ";"
		}
		if n := seq1 - seq0; n < uint64(len(used)) || n > uint64(len(used)+fails) {
			fail("the numbers from %d to %d are gone, but only %d signatures were made (and %d attempts failed)", seq0, seq1, len(used), fails)
		}
		if m != nil {
			if m.dirty() {
				fail("a cached subtree was written to after Close")
			}
			if s, l := uint64(m.seqNo), m.borrowed; s != seq1 || l != 0 {
				fail("Close stored number %d (%d possibly lost), the next one is %d", s, l, seq1)
			}
		} else {
			image := dropLock(w.fs.Image())
			if s := w.end(); s != "" {
				fail("%s", s)
			}
			w2 := world(image)
			e := managed(func() {
				sk, _, lost, err := xmssmt.LoadPrivateKey(w2.path)
				if err != nil {
					fail("loading the key again: %v", err)
					return
				}
				if n := uint64(sk.SeqNo()); n != seq1 || lost != 0 {
					fail("Close stored number %d (%d possibly lost), the next one is %d", n, lost, seq1)
				}
				sk.Close()
			})
			if e != "" {
				fail("%s", e)
			}
			w2.end()
		}
	}
	var d []string
	for i, rs := range res {
		s := a.Threads[i] + ":"
		for _, x := range rs {
			s += " " + x.op
			if x.sig != nil {
				s += fmt.Sprintf("=%d", x.sig.SeqNo())
			}
			if x.err != nil {
				s += fmt.Sprintf("(%v)", x.err)
			}
		}
		d = append(d, s)
	}
	if bad != "" {
		out.bad = fmt.Sprintf("%v at %d, %s: %s\n%s", a.P, a.Start, a.Pre, strings.Join(d, " | "), bad)
	}
	out.sig = order + fmt.Sprint(seq1)
	return
}

// closeState is what the threads share.  The race detector doesn't look at it.
type closeState struct {
	m       *memCtr
	w       *World
	closing int // Closes that were started
	closes  int // Closes that returned
	ops     int // file system operations then
	calls   int // calls to the container after it was closed, then
	running int // Signs whose message is being read
	bad     string
}

//go:norace
func (st *closeState) closed() bool { return st.closes > 0 }

//go:norace
func (st *closeState) close() { st.closing++ }

//go:norace
func (st *closeState) fail(s string) {
	if st.bad == "" {
		st.bad = s
	}
}

//go:norace
func (st *closeState) returned() {
	if st.running > 0 {
		st.fail("Close returns while a Sign is running")
	}
	if st.m != nil && !st.m.closed {
		st.fail("Close returns, but the container isn't closed")
	}
	if st.closes == 0 {
		st.ops = st.w.fs.NOps()
		if st.m != nil {
			st.calls = st.m.afterCl
		}
	}
	st.closes++
}

//go:norace
func (st *closeState) isClosing() bool { return st.closing > 0 }

//go:norace
func (st *closeState) run(d int) { st.running += d }

// closeGate is a reader that waits until somebody closes the key.
type closeGate struct {
	data string
	st   *closeState
	on   bool
	off  bool
}

func (g *closeGate) done() {
	if g.on && !g.off {
		g.off = true
		g.st.run(-1)
	}
}

func (g *closeGate) Read(p []byte) (int, error) {
	if !g.on {
		g.on = true
		g.st.run(1)
		vsync.Await("somebody to call Close", g.st.isClosing)
		for i := 0; i < 3; i++ {
			vsync.Yield()
		}
	}
	n := copy(p, g.data)
	g.data = g.data[n:]
	if n == 0 {
		g.done()
		return 0, io.EOF
	}
	return n, nil
}

var c18Ops = []string{"S", "B2", "I3,1", "P", "C", "Q", "R"}

// c18Seq tries all sequences of operations of one goroutine, in which a key is
// closed and used.
func c18Seq(c *Ctx) {
	var a c18Job
	c.Arg(&a)
	f := fix(a.P, "")
	base := memBase(a.P, a.Start, false)
	ca := concArg{P: a.P, Start: a.Start - 1, Warm: 1}
	im := ca.image()
	var seqs [][]string
	var rec func(s []string)
	rec = func(s []string) {
		if len(s) == a.Len {
			seqs = append(seqs, append([]string(nil), s...))
			return
		}
		for _, o := range c18Ops {
			rec(append(s, o))
		}
	}
	rec([]string{a.First})
	for _, q := range seqs {
		if c.Stop() {
			return
		}
		if !c.Case(fmt.Sprintf("%v from %d, in files: %v, failing: %s: %v", a.P, a.Start, a.FS, a.Fail, q)) {
			continue
		}
		bad, out := "", ""
		var w *World
		m := base.reopen()
		m.destroy = true
		touched := 0 // calls to the container other than Close
		m.hook = func(s string) {
			if s != "Close" {
				touched++
			}
		}
		failed := false // a call in Close failed
		if a.FS {
			w = world(im.Clone())
		} else {
			w = world(nil)
		}
		e := managed(func() {
			var sk *xmssmt.PrivateKey
			var lost uint32
			open := func() bool {
				var err error
				if a.FS {
					var e xmssmt.Error
					sk, _, lost, e = xmssmt.LoadPrivateKey(w.path)
					if e != nil {
						err = e
					}
				} else {
					sk, _, lost, err = load(m)
				}
				if err != nil {
					bad = fmt.Sprintf("loading: %v", err)
					return false
				}
				sk.Context().Threads = 1
				return true
			}
			if !open() {
				return
			}
			next := a.Start
			borr := uint32(0)
			closed := false
			for i, op := range append(append([]string(nil), q...), "C", "R", "S", "C") {
				what := fmt.Sprintf("operation %d (%s)", i, op)
				if failed && op == "R" {
					continue
				}
				if op == "R" { // load again, if closed
					if !closed {
						continue
					}
					if !a.FS {
						h := m.hook
						m = m.reopen()
						m.destroy = true
						m.hook = h
					}
					if !open() {
						bad = what + ": " + bad
						return
					}
					if n := uint64(sk.SeqNo()); n != next || lost != 0 {
						bad = fmt.Sprintf("%s: the key continues with %d instead of %d (%d reported lost)", what, n, next, lost)
						return
					}
					closed, borr = false, 0
					continue
				}
				calls, ops := touched, w.fs.NOps()
				m.fail = func(s string) bool {
					if a.Fail != "" && op == "C" && !closed && strings.HasPrefix(s, a.Fail) {
						failed = true
						return true
					}
					return false
				}
				x := doOp(sk, op, "m")
				if closed {
					if (op[0] == 'S' || op[0] == 'B' || op[0] == 'I') && x.err == nil {
						bad = what + " succeeds after Close"
						return
					}
					for i := 0; i < 40; i++ {
						vsync.Yield()
					}
					if !a.FS && touched != calls || a.FS && w.fs.NOps() != ops {
						bad = what + " touches the container after Close"
						return
					}
					if n := uint64(sk.SeqNo()); n != next {
						bad = fmt.Sprintf("%s: SeqNo() is %d instead of %d", what, n, next)
						return
					}
					continue
				}
				if failed {
					if x.err == nil {
						bad = what + ": an error in Close gets lost"
						return
					}
					if a.Fail != "Close" && !m.closed {
						bad = what + ": Close fails, and the container stays open"
						return
					}
					closed = true
					continue
				}
				if x.err != nil {
					bad = fmt.Sprintf("%s fails: %v", what, x.err)
					return
				}
				switch op[0] {
				case 'S':
					if uint64(x.sig.SeqNo()) != next {
						bad = fmt.Sprintf("%s: number %d instead of %d", what, x.sig.SeqNo(), next)
						return
					}
					if s := f.right(next, "m", x.enc); s != "" {
						bad = what + ": " + s
						return
					}
					next++
					if borr > 0 {
						borr--
					}
				case 'B':
					borr = 2
				case 'I':
					if borr <= 1 {
						borr = 3
					}
				case 'C':
					closed = true
					if !a.FS && (!m.closed || uint64(m.seqNo) != next || m.borrowed != 0) {
						bad = fmt.Sprintf("%s: the container is closed: %v, at %d with %d possibly lost; the next number is %d", what, m.closed, m.seqNo, m.borrowed, next)
						return
					}
				}
				if b := sk.BorrowedSeqNos(); !closed && b != borr {
					bad = fmt.Sprintf("%s: BorrowedSeqNos() is %d instead of %d", what, b, borr)
					return
				}
				out += fmt.Sprint(next, borr, closed)
			}
		})
		c.Count("transitions", len(q))
		c.Count("traces_validated_against_impl", 1)
		if e == "" {
			e = w.end()
		} else {
			w.end()
		}
		if bad == "" {
			bad = e
		}
		if bad != "" {
			c.Violation("%s", bad)
			continue
		}
		c.SigHash(hashStr(fmt.Sprint(a.FS, a.Fail, q), out))
	}
}
