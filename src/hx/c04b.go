//go:build go1.21

package main

import (
	"fmt"
	"strings"

	xmssmt "github.com/bwesterb/go-xmssmt"
	"github.com/bwesterb/go-xmssmt/internal/verif/vfs"
)

// fctr is a container of which calls fail.
type fctr struct {
	m     *memCtr
	calls []string
	mode  func(n int) vfs.Mode
}

func (c *fctr) do(name string, f func() xmssmt.Error) xmssmt.Error {
	n := len(c.calls)
	c.calls = append(c.calls, name)
	m := vfs.OK
	if c.mode != nil {
		m = c.mode(n)
	}
	if m == vfs.FailBefore {
		return &ctrErr{"injected failure of " + name}
	}
	err := f()
	if m != vfs.OK && err == nil {
		return &ctrErr{"injected failure after " + name}
	}
	return err
}

func (c *fctr) ResetCache() xmssmt.Error {
	return c.do("ResetCache", func() xmssmt.Error { return c.m.ResetCache() })
}
func (c *fctr) GetSubTree(a xmssmt.SubTreeAddress) (b []byte, ok bool, err xmssmt.Error) {
	err = c.do(fmt.Sprintf("GetSubTree(%d,%d)", a.Layer, a.Tree), func() (e xmssmt.Error) { b, ok, e = c.m.GetSubTree(a); return })
	if err != nil {
		return nil, false, err
	}
	return
}
func (c *fctr) HasSubTree(a xmssmt.SubTreeAddress) bool { return c.m.HasSubTree(a) }
func (c *fctr) DropSubTree(a xmssmt.SubTreeAddress) xmssmt.Error {
	return c.do(fmt.Sprintf("DropSubTree(%d,%d)", a.Layer, a.Tree), func() xmssmt.Error { return c.m.DropSubTree(a) })
}
func (c *fctr) ListSubTrees() (l []xmssmt.SubTreeAddress, err xmssmt.Error) {
	err = c.do("ListSubTrees", func() (e xmssmt.Error) { l, e = c.m.ListSubTrees(); return })
	if err != nil {
		return nil, err
	}
	return
}
func (c *fctr) Reset(k []byte, p xmssmt.Params) xmssmt.Error {
	return c.do("Reset", func() xmssmt.Error { return c.m.Reset(k, p) })
}
func (c *fctr) BorrowSeqNos(n uint32) (s xmssmt.SignatureSeqNo, err xmssmt.Error) {
	err = c.do(fmt.Sprintf("BorrowSeqNos(%d)", n), func() (e xmssmt.Error) { s, e = c.m.BorrowSeqNos(n); return })
	if err != nil {
		return 0, err
	}
	return
}
func (c *fctr) SetSeqNo(n xmssmt.SignatureSeqNo) xmssmt.Error {
	return c.do(fmt.Sprintf("SetSeqNo(%d)", n), func() xmssmt.Error { return c.m.SetSeqNo(n) })
}
func (c *fctr) GetSeqNo() (s xmssmt.SignatureSeqNo, l uint32, err xmssmt.Error) {
	err = c.do("GetSeqNo", func() (e xmssmt.Error) { s, l, e = c.m.GetSeqNo(); return })
	if err != nil {
		return 0, 0, err
	}
	return
}
func (c *fctr) GetPrivateKey() (b []byte, err xmssmt.Error) {
	err = c.do("GetPrivateKey", func() (e xmssmt.Error) { b, e = c.m.GetPrivateKey(); return })
	if err != nil {
		return nil, err
	}
	return
}
func (c *fctr) Initialized() *xmssmt.Params { return c.m.Initialized() }
func (c *fctr) CacheInitialized() bool      { return c.m.CacheInitialized() }
func (c *fctr) Close() xmssmt.Error {
	return c.do("Close", func() xmssmt.Error { return c.m.Close() })
}

// ctrFaultArg: histories on a custom container of which calls fail.
type ctrFaultArg struct {
	P      P
	Start  uint64
	Ops    string
	Len    int
	Create bool `json:",omitempty"`
	NoTree bool `json:",omitempty"` // no subtree is cached to begin with
	Sticky bool `json:",omitempty"`
	Pairs  bool `json:",omitempty"`
}

func (a *ctrFaultArg) run(f *Fix, base *memCtr, ops []string, faults []fault) (bad string, calls []string, sig string) {
	ctr := &fctr{m: base.reopen()}
	if a.Create {
		ctr.m = newMemCtr()
	}
	if len(faults) > 0 {
		ctr.mode = func(n int) vfs.Mode {
			for _, x := range faults {
				if n == x.n || x.sticky && n > x.n {
					return x.mode
				}
			}
			return vfs.OK
		}
	}
	fails := func(f string, v ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, v...)
		}
	}
	iss := map[uint64]bool{}
	next := a.Start
	nmsg := 0
	sign := func(sk *xmssmt.PrivateKey, fault bool) {
		msg := fmt.Sprintf("m%d", nmsg)
		nmsg++
		s, err := sk.Sign([]byte(msg))
		if err != nil {
			sig += " S:error"
			if !fault && next < f.max() {
				fails("signing fails although nothing fails any more: %v", err)
			}
			return
		}
		if s == nil {
			fails("Sign returns neither a signature nor an error")
			return
		}
		i := uint64(s.SeqNo())
		sig += fmt.Sprint(" S:", i)
		if iss[i] || i < a.Start {
			fails("sequence number %d is used again", i)
		}
		iss[i] = true
		if i+1 > next {
			next = i + 1
		}
		enc, err2 := s.MarshalBinary()
		if err2 != nil {
			fails("MarshalBinary: %v", err2)
		}
		if m := f.right(i, msg, enc); m != "" {
			fails("%s", m)
		}
	}
	// after a crash or Close, with what the container holds
	again := func(m *memCtr, what string) {
		if m.key == nil {
			if !a.Create {
				fails("%s: the key is gone", what)
			}
			return
		}
		n := m.reopen()
		sk, pk, _, err := xmssmt.LoadPrivateKeyFrom(n)
		if err != nil {
			fails("%s: loading fails: %v", what, err)
			return
		}
		sk.Context().Threads = 1
		if m := f.pkRight(pk); m != "" {
			fails("%s: %s", what, m)
			return
		}
		was, wn := iss, next
		iss = iss2(iss, 1<<62)
		if n := uint64(sk.SeqNo()); n < next {
			fails("%s: the key continues with %d although %d is next", what, n, next)
		} else {
			next = n
		}
		sign(sk, false)
		sign(sk, false)
		iss, next = was, wn
		if bad != "" {
			bad = what + ": " + bad
		}
		if err := sk.Close(); err != nil {
			fails("%s: Close fails: %v", what, err)
		}
	}
	e := managed(func() {
		var sk *xmssmt.PrivateKey
		var pk *xmssmt.PublicKey
		var err xmssmt.Error
		if a.Create {
			ctx, e := xmssmt.NewContext(a.P.x())
			must(e)
			ctx.Threads = 1
			s1, s2, s3, wipe := f.seeds()
			sk, pk, err = ctx.DeriveInto(ctr, s1, s2, s3)
			wipe()
		} else {
			sk, pk, _, err = xmssmt.LoadPrivateKeyFrom(ctr)
		}
		if err != nil {
			sig += " open:error"
			if sk != nil || pk != nil {
				fails("both a key and an error are returned")
			}
			again(ctr.m, "after the failed opening")
			return
		}
		if sk == nil || pk == nil {
			fails("neither a key nor an error is returned")
			return
		}
		sk.Context().Threads = 1
		if m := f.pkRight(pk); m != "" {
			fails("%s", m)
		}
		for _, op := range ops {
			if op == "S" {
				sign(sk, true)
			} else {
				sig += " " + op + ":" + estr(doOp(sk, op, "").err)
			}
			if bad != "" {
				return
			}
			if op != "C" {
				again(ctr.m, "killed after "+op)
			}
		}
		ctr.mode = nil
		sk.Close()
		again(ctr.m, "after Close")
	})
	if e != "" {
		fails("%s", e)
	}
	if bad != "" {
		bad = "what happened:" + sig + "\n" + bad
	}
	return bad, ctr.calls, sig
}

func init() {
	handle("ctrfault", func(c *Ctx) {
		var a ctrFaultArg
		c.Arg(&a)
		f := fix(a.P, "")
		world(nil)
		var base *memCtr
		if e := managed(func() {
			sk, _, m, err := f.deriveMem(1)
			if err != nil {
				panic(err)
			}
			if err := sk.Close(); err != nil {
				panic(err)
			}
			base = m.reopen()
			base.seqNo = xmssmt.SignatureSeqNo(a.Start)
			if a.NoTree {
				base.trees = map[xmssmt.SubTreeAddress][]byte{}
			}
		}); e != "" {
			c.Case("preparing")
			c.Violation("preparing: %s", e)
			return
		}
		desc := fmt.Sprintf("container %v at %d, create %v, no subtrees %v: ", a.P, a.Start, a.Create, a.NoTree)
		one := func(ops []string, fs []fault) ([]string, bool) {
			run := c.Case(fmt.Sprintf("%s%s: %v", desc, strings.Join(ops, " "), fs))
			if !run && !(c.Only != "" && a.Pairs && len(fs) == 1) {
				return nil, false
			}
			bad, calls, sig := a.run(f, base, ops, fs)
			if !run {
				return calls, true
			}
			c.Count("container_histories_with_faults", 1)
			c.Count("transitions", len(calls))
			c.Count("traces_validated_against_impl", 1)
			if bad != "" {
				var what []string
				for _, x := range fs {
					if x.n < len(calls) {
						what = append(what, fmt.Sprintf("%v %s", x, calls[x.n]))
					}
				}
				c.Violation("%s%s with failing %s\n%s", desc, strings.Join(ops, " "), strings.Join(what, ", "), bad)
				return nil, false
			}
			c.Sig(desc, ops, sig, len(calls))
			return calls, true
		}
		seqs(strings.Fields(a.Ops), a.Len, func(ops []string) bool {
			if c.Stop() {
				return false
			}
			ops = append(append([]string(nil), ops...), "C")
			bad, calls, _ := a.run(f, base, ops, nil)
			if bad != "" {
				c.Case(desc + strings.Join(ops, " "))
				c.Violation("%s%s without failures: %s", desc, strings.Join(ops, " "), bad)
				return false
			}
			for i := range calls {
				for _, m := range []vfs.Mode{vfs.FailBefore, vfs.FailAfter} {
					if c.Stop() {
						return false
					}
					l, ok := one(ops, []fault{{i, m, a.Sticky}})
					if !a.Pairs || !ok {
						continue
					}
					for j := i + 1; j < len(l); j++ {
						for _, m2 := range []vfs.Mode{vfs.FailBefore, vfs.FailAfter} {
							one(ops, []fault{{i, m, false}, {j, m2, false}})
						}
					}
				}
			}
			return true
		})
	})
}
