//go:build go1.21

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	xmssmt "github.com/bwesterb/go-xmssmt"
	"github.com/bwesterb/go-xmssmt/internal/verif/vsync"
)

// Any container that keeps the contract will do (C28).
//
// strictCtr is a container which does what the interface demands and nothing
// more: it is not safe for concurrent use, its new buffers hold garbage, it is free in everything
// the interface leaves open, and it complains about every call that the
// interface does not allow.

type strictKind struct {
	Garbage int  `json:",omitempty"` // what new buffers contain: 0 zeros, 1 a pattern, 2 the same subtree of another key, 3 another subtree of the key
	Order   int  `json:",omitempty"` // the order of ListSubTrees
	Lose    int  `json:",omitempty"` // a mask of the subtrees that are lost when it is opened again; -1 for the whole cache
	Wipe    bool `json:",omitempty"` // what it has handed out is destroyed when it is closed
	Move    bool `json:",omitempty"` // calls let other goroutines run
}

type strictBuf struct {
	all  []byte // with guards around
	buf  []byte
	live bool
}

type strictCtr struct {
	k        strictKind
	f        *Fix
	params   *xmssmt.Params
	key      []byte
	seqNo    xmssmt.SignatureSeqNo
	borrowed uint32
	cacheOK  bool
	closed   int
	resets   int
	busy     string
	trees    map[xmssmt.SubTreeAddress]*strictBuf
	dead     []*strictBuf
	bad      string
	ncalls   int
	fail     func(n int, call string) bool
	failed   int
	closeErr bool
}

func newStrict(f *Fix, k strictKind) *strictCtr {
	return &strictCtr{k: k, f: f, trees: map[xmssmt.SubTreeAddress]*strictBuf{}}
}

func (s *strictCtr) breach(f string, v ...any) {
	if s.bad == "" {
		s.bad = fmt.Sprintf(f, v...)
	}
}

// enter begins a call; the function returned ends it.
func (s *strictCtr) enter(call string) (func(), xmssmt.Error) {
	if s.busy != "" {
		s.breach("%s is called while %s has not returned", call, s.busy)
	}
	if s.closed > 0 && call != "Close" {
		s.breach("%s is called after Close", call)
	}
	s.busy = call
	if s.k.Move && vsync.Managed() {
		vsync.Yield()
	}
	var err xmssmt.Error
	s.ncalls++
	if s.fail != nil && s.fail(s.ncalls, call) {
		s.failed++
		err = &ctrErr{"injected failure of " + call}
	}
	return func() { s.busy = "" }, err
}

func (s *strictCtr) garbage(a xmssmt.SubTreeAddress, b []byte) {
	switch s.k.Garbage {
	case 1:
		for i := range b {
			b[i] = byte(0xa5 + i)
		}
	case 2, 3:
		copy(b, strictGarbage(s.f, s.k.Garbage, a, len(b)))
	}
}

var strictMemo = map[string][]byte{}

// strictGarbage is the buffer of the same subtree of another key, or of another
// one of this key, as it was when a key was closed.
func strictGarbage(f *Fix, kind int, a xmssmt.SubTreeAddress, n int) []byte {
	id := fmt.Sprint(f.P, kind, a)
	if b, ok := strictMemo[id]; ok {
		return b
	}
	g := f
	seq := a.Tree << (uint(f.P.H/f.P.D) * uint(a.Layer+1))
	if kind == 2 {
		g = fix(f.P, "other")
	} else {
		seq ^= 1 << (uint(f.P.H/f.P.D) * uint(a.Layer+1)) // the tree beside it
	}
	if seq > f.max() {
		seq = 0
	}
	c := newMemCtr()
	ctx, err := xmssmt.NewContext(f.P.x())
	must(err)
	ctx.Threads = 1
	s1, s2, s3, wipe := g.seeds()
	defer wipe()
	sk, _, err := ctx.DeriveInto(c, s1, s2, s3)
	must(err)
	if seq < f.max() {
		sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(seq))
		_, err = sk.Sign([]byte("garbage"))
		must(err)
	}
	var b []byte
	for t, x := range c.trees {
		if t.Layer == a.Layer && (kind == 3 || t.Tree == a.Tree) {
			b = append([]byte(nil), x...)
			if kind == 3 && t.Tree != a.Tree {
				break
			}
		}
	}
	if b == nil {
		b = make([]byte, n)
	}
	must(sk.Close())
	strictMemo[id] = b
	return b
}

func (s *strictCtr) newBuf(a xmssmt.SubTreeAddress, content []byte) *strictBuf {
	n := s.params.CachedSubTreeSize()
	all := make([]byte, 37+n+64)
	for i := range all {
		all[i] = 0xc3
	}
	x := &strictBuf{all: all, buf: all[37 : 37+n], live: true} // with capacity beyond its length
	if content != nil {
		copy(x.buf, content)
	} else {
		for i := range x.buf {
			x.buf[i] = 0
		}
		s.garbage(a, x.buf)
	}
	return x
}

func (s *strictCtr) destroy(x *strictBuf) {
	for i := range x.buf {
		x.buf[i] = 0xee
	}
	x.live = false
	s.dead = append(s.dead, x)
}

// check looks at the guards and at destroyed buffers.
func (s *strictCtr) check() {
	one := func(x *strictBuf) {
		for i, c := range x.all {
			in := i >= 37 && i < 37+len(x.buf)
			if !in && c != 0xc3 {
				s.breach("something was written %d bytes from the beginning of a buffer of %d bytes", i-37, len(x.buf))
			}
			if in && !x.live && c != 0xee {
				s.breach("a buffer was written to after its subtree was dropped, the cache reset or the container closed")
			}
		}
	}
	for _, x := range s.trees {
		one(x)
	}
	for _, x := range s.dead {
		one(x)
	}
}

func (s *strictCtr) ResetCache() xmssmt.Error {
	end, err := s.enter("ResetCache")
	defer end()
	if err != nil {
		return err
	}
	if s.params == nil {
		s.breach("ResetCache is called on a container that is not initialized")
		return &ctrErr{"not initialized"}
	}
	for _, x := range s.trees {
		s.destroy(x)
	}
	s.trees = map[xmssmt.SubTreeAddress]*strictBuf{}
	s.cacheOK = true
	return nil
}

func (s *strictCtr) inTree(call string, a xmssmt.SubTreeAddress) xmssmt.Error {
	if !s.cacheOK {
		s.breach("%s is called although the cache is not initialized", call)
		return &ctrErr{"the cache is not initialized"}
	}
	ht := uint(s.params.FullHeight / s.params.D)
	if a.Layer >= s.params.D || a.Tree>>(uint(s.params.FullHeight)-ht*uint(a.Layer+1)) != 0 {
		s.breach("%s is called for subtree %v, which does not exist", call, a)
	}
	return nil
}

func (s *strictCtr) GetSubTree(a xmssmt.SubTreeAddress) ([]byte, bool, xmssmt.Error) {
	end, err := s.enter("GetSubTree")
	defer end()
	if err == nil {
		err = s.inTree("GetSubTree", a)
	}
	if err != nil {
		return nil, false, err
	}
	if x, ok := s.trees[a]; ok {
		return x.buf, true, nil
	}
	x := s.newBuf(a, nil)
	s.trees[a] = x
	return x.buf, false, nil
}

func (s *strictCtr) HasSubTree(a xmssmt.SubTreeAddress) bool {
	end, _ := s.enter("HasSubTree")
	defer end()
	_, ok := s.trees[a]
	return ok && s.cacheOK
}

func (s *strictCtr) DropSubTree(a xmssmt.SubTreeAddress) xmssmt.Error {
	end, err := s.enter("DropSubTree")
	defer end()
	if err == nil {
		err = s.inTree("DropSubTree", a)
	}
	if err != nil {
		return err
	}
	if x, ok := s.trees[a]; ok {
		s.destroy(x)
		delete(s.trees, a)
	}
	return nil
}

func (s *strictCtr) list() []xmssmt.SubTreeAddress {
	ret := []xmssmt.SubTreeAddress{}
	for a := range s.trees {
		ret = append(ret, a)
	}
	sort.Slice(ret, func(i, j int) bool {
		if ret[i].Layer != ret[j].Layer {
			return ret[i].Layer < ret[j].Layer != (s.k.Order%2 == 1)
		}
		return ret[i].Tree < ret[j].Tree != (s.k.Order/2%2 == 1)
	})
	return ret
}

func (s *strictCtr) ListSubTrees() ([]xmssmt.SubTreeAddress, xmssmt.Error) {
	end, err := s.enter("ListSubTrees")
	defer end()
	if err == nil && !s.cacheOK {
		s.breach("ListSubTrees is called although the cache is not initialized")
		err = &ctrErr{"the cache is not initialized"}
	}
	if err != nil {
		return nil, err
	}
	return s.list(), nil
}

func (s *strictCtr) Reset(privateKey []byte, params xmssmt.Params) xmssmt.Error {
	end, err := s.enter("Reset")
	if err != nil {
		end()
		return err
	}
	want := append(append(append([]byte(nil), s.f.SkSeed...), s.f.SkPrf...), s.f.PubSeed...)
	if !bytes.Equal(privateKey, want) {
		s.breach("Reset is called with a private key that is not SK.seed, SK.prf and PUB.seed")
	}
	if params != s.f.P.x() {
		s.breach("Reset is called with the parameters %v instead of %v", params, s.f.P.x())
	}
	s.resets++
	s.key = append([]byte(nil), privateKey...)
	s.params = &params
	s.seqNo, s.borrowed = 0, 0
	end()
	return s.ResetCache()
}

func (s *strictCtr) ready(call string) xmssmt.Error {
	if s.params == nil {
		s.breach("%s is called on a container that is not initialized", call)
		return &ctrErr{"not initialized"}
	}
	return nil
}

func (s *strictCtr) BorrowSeqNos(amount uint32) (xmssmt.SignatureSeqNo, xmssmt.Error) {
	end, err := s.enter("BorrowSeqNos")
	defer end()
	if err == nil {
		err = s.ready("BorrowSeqNos")
	}
	if err != nil {
		return 0, err
	}
	s.seqNo += xmssmt.SignatureSeqNo(amount)
	s.borrowed += amount
	return s.seqNo - xmssmt.SignatureSeqNo(amount), nil
}

func (s *strictCtr) SetSeqNo(seqNo xmssmt.SignatureSeqNo) xmssmt.Error {
	end, err := s.enter("SetSeqNo")
	defer end()
	if err == nil {
		err = s.ready("SetSeqNo")
	}
	if err != nil {
		return err
	}
	s.seqNo, s.borrowed = seqNo, 0
	return nil
}

func (s *strictCtr) GetSeqNo() (xmssmt.SignatureSeqNo, uint32, xmssmt.Error) {
	end, err := s.enter("GetSeqNo")
	defer end()
	if err == nil {
		err = s.ready("GetSeqNo")
	}
	if err != nil {
		return 0, 0, err
	}
	return s.seqNo, s.borrowed, nil
}

func (s *strictCtr) GetPrivateKey() ([]byte, xmssmt.Error) {
	end, err := s.enter("GetPrivateKey")
	defer end()
	if err == nil {
		err = s.ready("GetPrivateKey")
	}
	if err != nil {
		return nil, err
	}
	return s.key, nil
}

func (s *strictCtr) Initialized() *xmssmt.Params {
	end, _ := s.enter("Initialized")
	defer end()
	if s.params == nil {
		return nil
	}
	p := *s.params
	return &p
}

func (s *strictCtr) CacheInitialized() bool {
	end, _ := s.enter("CacheInitialized")
	defer end()
	return s.cacheOK
}

func (s *strictCtr) Close() xmssmt.Error {
	end, err := s.enter("Close")
	defer end()
	s.closed++
	if s.closed > 1 {
		return &ctrErr{"already closed"}
	}
	for _, x := range s.trees {
		keep := append([]byte(nil), x.buf...)
		if s.k.Wipe {
			s.destroy(x)
		}
		x = &strictBuf{buf: keep, live: true, all: nil}
	}
	return err
}

// reopen is the container as it is opened the next time.
func (s *strictCtr) reopen(kept map[xmssmt.SubTreeAddress][]byte) *strictCtr {
	n := newStrict(s.f, s.k)
	n.key, n.seqNo, n.borrowed = append([]byte(nil), s.key...), s.seqNo, s.borrowed
	if s.params != nil {
		p := *s.params
		n.params = &p
	}
	if s.k.Lose < 0 || s.params == nil || !s.cacheOK {
		return n
	}
	n.cacheOK = true
	as := []xmssmt.SubTreeAddress{}
	for a := range kept {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].Layer<<32+uint32(as[i].Tree) < as[j].Layer<<32+uint32(as[j].Tree) })
	for i, a := range as {
		if s.k.Lose>>uint(i)&1 == 0 {
			n.trees[a] = n.newBuf(a, kept[a])
		}
	}
	return n
}

func (s *strictCtr) contents() map[xmssmt.SubTreeAddress][]byte {
	r := map[xmssmt.SubTreeAddress][]byte{}
	for a, x := range s.trees {
		r[a] = append([]byte(nil), x.buf...)
	}
	return r
}

type contractArg struct {
	P      P
	Kind   strictKind
	Start  uint64
	Ops    string `json:",omitempty"`
	Len    int    `json:",omitempty"`
	Faults bool   `json:",omitempty"`
	// schedules
	Cold    bool     `json:",omitempty"`
	Pre     string   `json:",omitempty"`
	Threads []string `json:",omitempty"`
	Fault   int      `json:",omitempty"` // which call fails, counted from when the threads start
	All     bool     `json:",omitempty"`
}

func (a *contractArg) base(f *Fix) *strictCtr {
	k := a.Kind
	k.Move, k.Wipe, k.Lose = false, false, 0
	s := newStrict(f, k)
	e := managed(func() {
		sk, _, err := f.deriveStrict(s)
		must(err)
		if a.Start > 0 {
			sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(a.Start))
			if a.Start < f.max() {
				_, err = sk.Sign([]byte("x")) // fetches the subtrees
				must(err)
			}
			must(sk.Close())
			s.closed = 0
			must(s.SetSeqNo(xmssmt.SignatureSeqNo(a.Start)))
		}
	})
	if e != "" || s.bad != "" {
		panic("cannot make a key: " + e + s.bad)
	}
	s.k = a.Kind
	n := s.reopen(s.contents())
	if a.Cold {
		n.trees, n.cacheOK = map[xmssmt.SubTreeAddress]*strictBuf{}, false
	}
	return n
}

func (f *Fix) deriveStrict(s *strictCtr) (*xmssmt.PrivateKey, *xmssmt.PublicKey, xmssmt.Error) {
	ctx, err := xmssmt.NewContext(f.P.x())
	if err != nil {
		return nil, nil, err
	}
	ctx.Threads = 1
	s1, s2, s3, wipe := f.seeds()
	defer wipe()
	return ctx.DeriveInto(s, s1, s2, s3)
}

// run executes a history, beginning with the creation of a key if base is nil.
func (a *contractArg) run(f *Fix, base *strictCtr, ops []string, fault int, all bool) (bad, sig string, calls int) {
	fails := func(f string, v ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, v...)
		}
	}
	var ctr *strictCtr
	total := 0
	var sb strings.Builder
	arm := func() {
		n0 := total
		ctr.fail = func(n int, call string) bool {
			total = n0 + n
			return fault > 0 && (total == fault || all && total > fault)
		}
	}
	mon := f.mon()
	look := func(after string) {
		ctr.check()
		if ctr.bad != "" {
			fails("after [%s]: %s", after, ctr.bad)
		}
	}
	failing := func() bool { return ctr.failed > 0 }
	anyFail := false
	e := managed(func() {
		var sk *xmssmt.PrivateKey
		var pk *xmssmt.PublicKey
		var err xmssmt.Error
		lost0 := uint32(0) // reported by the last load; not forgotten before a number is stored
		load := func() bool {
			exp, lostExp := ctr.seqNo, ctr.borrowed
			var lost uint32
			sk, pk, lost, err = xmssmt.LoadPrivateKeyFrom(ctr)
			anyFail = anyFail || failing()
			if err != nil {
				if !failing() {
					fails("loading fails: %v", err)
				}
				if ctr.closed != 1 {
					fails("loading failed (%v), and the container was closed %d times", err, ctr.closed)
				}
				look("a failed load")
				return false
			}
			lost0 = lost
			sk.Context().Threads = 1
			if m := f.pkRight(pk); m != "" {
				fails("%s", m)
			}
			if over := uint64(exp) - f.max(); uint64(exp) > f.max() { // reserved more than there are
				exp = xmssmt.SignatureSeqNo(f.max())
				if over > uint64(lostExp) {
					over = uint64(lostExp)
				}
				lostExp -= uint32(over)
			}
			if sk.SeqNo() != exp || lost != lostExp {
				fails("the container says the next number is %d and %d may be lost, but loading says %d and %d", exp, lostExp, sk.SeqNo(), lost)
			}
			return true
		}
		if base == nil {
			ctr = newStrict(f, a.Kind)
			arm()
			sk, pk, err = f.deriveStrict(ctr)
			anyFail = failing()
			look("creating")
			if err != nil {
				if !failing() {
					fails("creating fails: %v", err)
				}
				if ctr.closed != 0 {
					fails("DeriveInto failed (%v) and closed the caller's container", err)
				}
				return
			}
			if m := f.pkRight(pk); m != "" {
				fails("%s", m)
			}
			if ctr.resets != 1 {
				fails("the container was reset %d times", ctr.resets)
			}
		} else {
			ctr = base.reopen(base.contents())
			ctr.k.Wipe = a.Kind.Wipe
			arm()
			if !load() {
				return
			}
		}
		closed := false
		for i, op := range ops {
			so := strings.Join(ops[:i+1], " ")
			switch op {
			case "L", "K":
				kept := ctr.contents()
				if op == "L" && !closed {
					err := sk.Close()
					anyFail = anyFail || failing()
					if err != nil && !failing() {
						fails("after [%s]: Close fails: %v", so, err)
					}
					if ctr.closed != 1 {
						fails("after [%s]: the container was closed %d times", so, ctr.closed)
					}
				}
				look(so)
				ctr = ctr.reopen(kept)
				arm()
				if !load() {
					return
				}
				closed = false
			case "C":
				err := sk.Close()
				anyFail = anyFail || failing()
				if closed != (err != nil) && !failing() {
					fails("after [%s]: Close returns %v", so, err)
				}
				closed = true
			default:
				failed := ctr.failed
				seq := uint64(sk.SeqNo())
				r := doOp(sk, op, "m"+fmt.Sprint(i%2))
				anyFail = anyFail || failing()
				if r.sig != nil {
					if closed {
						fails("after [%s]: signed after Close", so)
					}
					if m := mon.sig(r.sig, r.msg); m != "" {
						fails("after [%s]: %s", so, m)
					}
					if mon.next > uint64(ctr.seqNo) {
						fails("after [%s]: number %d was used, but the container has %d as the next one", so, mon.next-1, ctr.seqNo)
					}
				} else if op == "S" && r.err == nil {
					fails("after [%s]: neither a signature nor an error", so)
				}
				if op == "S" && r.err != nil && failed == ctr.failed && !closed && seq < f.max() {
					fails("after [%s]: %v", so, r.err)
				}
				if r.note != "" {
					fails("after [%s]: %s", so, r.note)
				}
			}
			look(so)
			fmt.Fprintf(&sb, "%s:%d,%d,%d ", op, ctr.ncalls, ctr.seqNo, len(ctr.trees))
		}
		if !closed {
			borrowed := sk.BorrowedSeqNos()
			seq := sk.SeqNo()
			err := sk.Close()
			anyFail = anyFail || failing()
			if err != nil && !failing() {
				fails("Close fails: %v", err)
			}
			if err == nil && failing() && ctr.fail(ctr.ncalls, "") {
				fails("Close succeeds although the container failed")
			}
			if ctr.closed != 1 {
				fails("the container was closed %d times", ctr.closed)
			}
			if !anyFail && uint64(ctr.seqNo) <= f.max() && (ctr.seqNo != seq || ctr.borrowed != 0 && ctr.borrowed != lost0) {
				fails("after closing the key with %d as the next number and %d reserved, the container has %d and %d", seq, borrowed, ctr.seqNo, ctr.borrowed)
			}
		}
		look("Close")
		if m := mon.stable(); m != "" {
			fails("%s", m)
		}
	})
	if e != "" {
		fails("%s", e)
	}
	return bad, sb.String(), total
}

func init() {
	handle("contract", func(c *Ctx) {
		var a contractArg
		c.Arg(&a)
		f := fix(a.P, "")
		bases := []*strictCtr{nil, a.base(f)}
		if a.Start > 0 {
			bases = bases[1:]
		}
		seqs(strings.Fields(a.Ops), a.Len, func(ops []string) bool {
			for i, b := range bases {
				if c.Stop() {
					return false
				}
				name := fmt.Sprintf("container %+v, %v from %d %v: %s", a.Kind, a.P, a.Start, i == len(bases)-1, strings.Join(ops, " "))
				one := func(n string, fault int, all bool) (bool, int) {
					bad, sig, calls := a.run(f, b, ops, fault, all)
					c.Count("transitions", calls)
					c.Count("traces_validated_against_impl", 1)
					if bad != "" {
						if c.Case(n) {
							c.Violation("%s\n%s", n, bad)
						}
						return false, 0
					}
					if c.Case(n) {
						c.SigHash(hashStr(n, sig))
						c.Sample("%s: %s", n, sig)
					}
					return true, calls
				}
				ok, calls := one(name, 0, false)
				if !ok || !a.Faults {
					continue
				}
				for k := 1; k <= calls; k++ {
					for _, all := range []bool{false, true} {
						if c.Stop() {
							return false
						}
						if ok, _ := one(fmt.Sprintf("%s; call %d fails %v", name, k, all), k, all); !ok {
							break
						}
					}
				}
			}
			return true
		})
	})
	scens["contract"] = func(raw json.RawMessage) func([]int16) run {
		var a contractArg
		if err := json.Unmarshal(raw, &a); err != nil {
			panic(err)
		}
		f := fix(a.P, "")
		base := a.base(f)
		return func(prefix []int16) (out run) {
			ctr := base.reopen(base.contents())
			ctr.k = a.Kind
			res := make([][]opRes, len(a.Threads))
			cl := 0
			r := vsync.Run(prefix, horizon, func() {
				sk, _, _, err := xmssmt.LoadPrivateKeyFrom(ctr)
				must(err)
				sk.Context().Threads = 1
				for _, op := range strings.Fields(a.Pre) {
					doOp(sk, op, op)
				}
				if a.Fault > 0 {
					n0 := ctr.ncalls
					ctr.fail = func(n int, _ string) bool { return n-n0 == a.Fault || a.All && n-n0 > a.Fault }
				}
				var wg vsync.WaitGroup
				wg.Add(len(a.Threads))
				for i := range a.Threads {
					i := i
					ops := strings.Fields(a.Threads[i])
					vsync.Go0(func() {
						defer wg.Done()
						for _, op := range ops {
							res[i] = append(res[i], doOp(sk, op, "m"+fmt.Sprint(i)))
						}
					})
				}
				wg.Wait()
				ctr.fail = nil
				if !strings.Contains(strings.Join(a.Threads, " "), "C") {
					must(sk.Close())
				}
				cl = ctr.closed
			})
			out.res = r
			ctr.check()
			mon := f.mon()
			for i, rs := range res {
				out.sig += fmt.Sprint("|", i)
				for _, x := range rs {
					out.sig += " " + x.op
					if x.sig != nil {
						out.sig += fmt.Sprint(x.sig.SeqNo())
						if m := mon.sig(x.sig, x.msg); m != "" && ctr.bad == "" {
							ctr.bad = m
						}
					} else if x.err == nil && x.op == "S" && ctr.bad == "" {
						ctr.bad = "neither a signature nor an error"
					}
				}
			}
			if e := r.Err(); e != "" && ctr.bad == "" {
				ctr.bad = e
			} else if cl == 0 && ctr.bad == "" {
				ctr.bad = "the container was not closed"
			}
			if ctr.bad != "" {
				out.bad = fmt.Sprintf("%v from %d, container %+v, threads %q: %s", a.P, a.Start, a.Kind, a.Threads, ctr.bad)
			}
			return
		}
	}
	register(&Check{
		ID: "C28", Level: "model_checking", Budget: [2]int{240, 3000},
		Rule:        "a container that does only what the interface demands and is otherwise free (what new buffers contain, the order of lists, what is lost between sessions, buffers destroyed when dropped or closed, capacity beyond a buffer) watches all histories up to the stated length, without failures and with every single call, or it and all later ones, failing, and all schedules of signers, reservers, closers and precomputation up to a preemption bound with a scheduling point within each of its calls; distinct = distinct histories and schedules' outcomes",
		Assumptions: []string{"a failing call of the container has no effect (C04 has the others)"},
		Plan: func(t Tier) []Job {
			var js []Job
			d := 0
			if t.Thorough {
				d = 1
			}
			add := func(a contractArg) { js = append(js, mkjob("inst", "contract", a)) }
			const all = "S B2 F P Q L K C"
			for g := 0; g < 4; g++ {
				add(contractArg{P: tiny(4, 2), Kind: strictKind{Garbage: g, Wipe: true, Order: g}, Start: 3, Ops: all, Len: 3 + d, Faults: g == 1})
				add(contractArg{P: tiny(3, 3), Kind: strictKind{Garbage: g, Wipe: g%2 == 0, Order: 3 - g, Lose: g}, Ops: "S B2 P L K", Len: 4 + d})
			}
			for l := -1; l < 8; l++ {
				add(contractArg{P: tiny(3, 3), Kind: strictKind{Garbage: 2, Wipe: true, Lose: l}, Start: 2, Ops: "S P L K B1", Len: 4 + d})
			}
			add(contractArg{P: tiny(2, 2), Kind: strictKind{Garbage: 1, Wipe: true}, Ops: all, Len: 2 + d, Faults: true})
			add(contractArg{P: tiny(3, 3), Kind: strictKind{Garbage: 2, Lose: 2}, Start: 3, Ops: "S P L K", Len: 3 + d, Faults: true})
			add(contractArg{P: tiny(2, 1), Kind: strictKind{Garbage: 3, Lose: -1}, Ops: all, Len: 3 + d, Faults: true})
			add(contractArg{P: tiny(60, 30), Kind: strictKind{Garbage: 1, Wipe: true}, Start: 1<<60 - 4, Ops: "S P B3 L K", Len: 4 + d})
			add(contractArg{P: P{1, 24, 4, 2, 256, false}, Kind: strictKind{Garbage: 2}, Start: 2, Ops: "S P L", Len: 3})
			add(contractArg{P: P{2, 32, 4, 2, 16, true}, Kind: strictKind{Garbage: 3}, Start: 2, Ops: "S P L", Len: 3})
			b := 2 + d
			sc := func(bound int, a contractArg) {
				a.Kind.Move, a.Kind.Wipe, a.Kind.Garbage = true, true, 1
				dev := 0
				if a.Pre == "P" && a.Fault > 0 && !t.Thorough {
					dev = 2
				}
				js = append(js, schedJob("inst", "contract", bound, dev, false, a))
			}
			sc(b, contractArg{P: tiny(2, 2), Threads: []string{"S", "S"}})
			sc(b, contractArg{P: tiny(2, 2), Start: 1, Cold: true, Threads: []string{"S", "S"}})
			sc(b, contractArg{P: tiny(3, 3), Start: 3, Threads: []string{"S", "S"}})
			sc(b, contractArg{P: tiny(2, 1), Threads: []string{"B2 S", "S Q"}})
			sc(b, contractArg{P: tiny(2, 1), Threads: []string{"I2,0 S", "B1 Q"}})
			sc(b-1, contractArg{P: tiny(3, 3), Start: 1, Threads: []string{"P S", "S Q"}})
			sc(b-1, contractArg{P: tiny(3, 3), Start: 1, Pre: "P", Threads: []string{"S S", "C"}})
			sc(b, contractArg{P: tiny(2, 2), Start: 1, Threads: []string{"S", "C"}})
			sc(b, contractArg{P: tiny(2, 1), Pre: "B2", Threads: []string{"S B1", "C"}})
			sc(b-1, contractArg{P: tiny(2, 2), Start: 1, Threads: []string{"S", "S", "C"}})
			for k := 1; k <= 12; k++ {
				for _, all := range []bool{false, true} {
					sc(b-1, contractArg{P: tiny(2, 2), Start: 1, Cold: true, Threads: []string{"S", "S Q"}, Fault: k, All: all})
					sc(b-1, contractArg{P: tiny(3, 3), Start: 3, Pre: "P", Threads: []string{"S", "B2 S"}, Fault: k, All: all})
				}
			}
			return js
		},
	})
}
