//go:build go1.21

package main

import (
	"errors"
	"fmt"
	"io"
	"strings"

	xmssmt "github.com/bwesterb/go-xmssmt"
	"github.com/bwesterb/go-xmssmt/internal/verif/vsync"
)

// C17: finished sequence numbers are retired and their caches dropped.

type c17Job struct {
	P      P
	Start  uint64
	K      int    // Signs
	Cold   bool   `json:",omitempty"`
	Pre    string `json:",omitempty"` // operations before: P precomputation, B2 reserve
	NoFail bool   `json:",omitempty"`
	Perms  bool   `json:",omitempty"` // start all, then finish them in any order
	First  string // the histories begin with this
}

func init() {
	register(&Check{
		ID: "C17", Level: "model_checking", Budget: [2]int{200, 3000},
		Rule:        "all histories of K Signs that start and finish (successfully or not) in any order, and all orders of finishing of more of them, from every start position of small keys and from positions at the ends of subtrees of every layer, around 2^31, 2^32 and the end of large ones, with warm and cold caches, reservations and precomputation: after every step, UnretiredSeqNos is the number of running Signs, what they need stays cached, and in the end nothing obsolete is cached; the contents of dropped buffers are destroyed, and every signature is compared; all schedules of concurrent Signs up to a preemption bound; an outcome is the sequence of cached sets of a history",
		Assumptions: []string{"dropping a subtree from the container does not fail"},
		Plan:        c17Plan,
	})
	handle("c17", c17Run)
}

// big trees with subtrees of four leaves
func c17Big(h int) P { return P{0, 16, h, h / 2, 4, false} }

func c17Plan(t Tier) []Job {
	var js []Job
	add := func(j c17Job) {
		js = append(js, mkjob("inst", "c17", j))
	}
	k := 3
	if t.Thorough {
		k = 5
	}
	for _, p := range []P{tiny(4, 2), tiny(3, 3), tiny(4, 1), tiny(5, 5)} {
		for s := uint64(0); s+1 < 1<<uint(p.H); s++ {
			if p.H == 5 && s%3 != 1 && s < 28 {
				continue
			}
			for _, pre := range []string{"", "P", "B2", "P B3", "B99"} {
				if len(pre) > 2 && p.D != 2 {
					continue
				}
				add(c17Job{P: p, Start: s, K: k, Pre: pre})
			}
			add(c17Job{P: p, Start: s, K: 3, Cold: true})
			add(c17Job{P: p, Start: s, K: 2, Cold: true, Pre: "P"})
			n := 5
			if t.Thorough {
				n = 6
			}
			if p.D == 2 || p.D == 3 {
				add(c17Job{P: p, Start: s, K: n, Perms: true, NoFail: true})
			}
			if p.D == 2 && (s%4 > 1 || t.Thorough) {
				add(c17Job{P: p, Start: s, K: 4, Pre: []string{"", "P"}[s%2]})
			}
		}
	}
	n := 6
	if t.Thorough {
		n = 7
	}
	for _, s := range []uint64{1, 4, 6} {
		add(c17Job{P: tiny(4, 2), Start: s, K: n, Perms: true, NoFail: true})
	}
	for _, h := range []int{20, 34, 40, 60} {
		p := c17Big(h)
		if h == 34 {
			p.D = 17
		}
		pos := map[uint64]bool{0: true}
		for _, b := range []uint{2, 4, 8, 16, 30, 31, 32, 33, 34, 40, 48, 59} {
			for _, d := range []uint64{1, 2, 3} {
				pos[1<<b-d] = true
			}
			pos[1<<b] = true
			pos[3<<b-1] = true
		}
		end := uint64(1)<<uint(h) - 1
		for _, d := range []uint64{0, 1, 2, 3, 4, 6} {
			pos[end-d] = true
		}
		for s := range pos {
			if s > end || s > 1<<33 && h == 34 && !t.Thorough && s < end-8 {
				continue
			}
			if h == 60 && !t.Thorough && s%2 == 0 && s != 1<<32 && s != 0 {
				continue
			}
			add(c17Job{P: p, Start: s, K: 2})
			if s%4 > 1 {
				add(c17Job{P: p, Start: s, K: 3, NoFail: !t.Thorough})
				if h < 60 {
					add(c17Job{P: p, Start: s, K: 2, Pre: "P"})
				}
			}
			if h != 20 && h != 60 {
				add(c17Job{P: p, Start: s, K: 4, NoFail: true, Perms: true})
			}
		}
	}
	// schedules
	sc := func(bound int, p P, start uint64, warm int, pre string, threads ...string) {
		js = append(js, schedJob("inst", "conc", bound, 0, false, concArg{P: p, Start: start, Warm: warm, Pre: pre,
			Threads: threads, Tags: "retire obsolete panic bytes"}))
	}
	b := 2
	if t.Thorough {
		b = 3
	}
	sc(b, tiny(3, 3), 0, 1, "", "S", "S")
	// the number is moved ahead while a Sign is running
	for _, a := range []concArg{
		{P: tiny(3, 3), Threads: []string{"S", "D4"}},
		{P: tiny(3, 3), Start: 1, Pre: "P", Threads: []string{"S S", "D4"}},
		{P: tiny(4, 2), Start: 2, Threads: []string{"S", "D9 S"}},
	} {
		a.Tags = "end bytes valid panic memory"
		bound := 2
		if a.Pre == "P" && !t.Thorough {
			bound = 1
		}
		js = append(js, schedJob("inst", "conc", bound, 0, false, a))
	}
	sc(b, tiny(3, 3), 1, 1, "", "S", "F", "S")
	sc(b, tiny(4, 2), 2, 1, "", "S", "S")
	sc(b, tiny(4, 2), 2, 1, "", "F", "S")
	sc(b-1, tiny(4, 2), 2, 1, "", "S S", "S F")
	sc(b-1, tiny(4, 2), 2, 1, "P", "S S", "S")
	sc(b-1, tiny(3, 3), 2, 1, "P", "S S", "S")
	sc(b-1, tiny(3, 3), 3, 0, "", "S P", "S S")
	sc(b-1, tiny(4, 4), 6, 1, "B3", "S S", "S", "F")
	return js
}

// obsolete tells whether a subtree is not used for numbers from n on: it is
// only used for lower ones, or for none at all.
func obsolete(p P, a xmssmt.SubTreeAddress, n uint64) bool {
	if int(a.Layer) >= p.D || a.Tree>>uint(p.H-int(a.Layer+1)*(p.H/p.D)) != 0 {
		return true
	}
	return n>>(uint(a.Layer+1)*uint(p.H/p.D)) > a.Tree
}

// needs tells whether a subtree is needed for number n.
func needs(p P, a xmssmt.SubTreeAddress, n uint64) bool {
	return n>>(uint(a.Layer+1)*uint(p.H/p.D)) == a.Tree
}

// histories lists all ways for k Signs to start and finish: s starts the
// next, digits finish the given one successfully, letters (a for 0) with a
// failure.
func histories(k int, fail, perms bool, first string) (out []string) {
	var rec func(h string, started int, running []int)
	rec = func(h string, started int, running []int) {
		if len(h) <= len(first) && !strings.HasPrefix(first, h) {
			return
		}
		if started == k && len(running) == 0 {
			out = append(out, h)
			return
		}
		if started < k {
			r := append(append([]int(nil), running...), started)
			rec(h+"s", started+1, r)
			if perms {
				return
			}
		}
		for i, x := range running {
			r := append(append([]int(nil), running[:i]...), running[i+1:]...)
			rec(h+string(rune('0'+x)), started, r)
			if fail {
				rec(h+string(rune('a'+x)), started, r)
			}
		}
	}
	rec("", 0, nil)
	return
}

// gate is a reader that waits to be released.
type gate struct {
	reached, released, fail bool
	data                    string
}

//go:norace
func (g *gate) Read(p []byte) (int, error) {
	g.reached = true
	vsync.Await("the reader", func() bool { return g.released })
	if g.fail {
		return 0, errors.New("the reader failed")
	}
	n := copy(p, g.data)
	g.data = g.data[n:]
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

// c17Base is a key in memory that was closed at the given number.
func c17Base(a c17Job, f *Fix) *memCtr {
	_, _, m, err := f.deriveMem(1)
	if err != nil {
		panic(err)
	}
	m = m.reopen()
	if a.Start == 0 {
		return m
	}
	if a.Cold {
		m.seqNo = xmssmt.SignatureSeqNo(a.Start)
		return m
	}
	m.seqNo = xmssmt.SignatureSeqNo(a.Start - 1)
	sk, _, _, err := load(m)
	if err != nil {
		panic(err)
	}
	sk.Context().Threads = 1
	if _, err := sk.Sign([]byte("warm")); err != nil {
		panic(err)
	}
	if err := sk.Close(); err != nil {
		panic(err)
	}
	return m.reopen()
}

func c17Run(c *Ctx) {
	var a c17Job
	c.Arg(&a)
	f := fix(a.P, "c17")
	base := c17Base(a, f)
	for _, h := range histories(a.K, !a.NoFail, a.Perms, a.First) {
		if c.Stop() {
			return
		}
		if !c.Case(fmt.Sprintf("%v from %d (%s, cold: %v), %s", a.P, a.Start, a.Pre, a.Cold, h)) {
			continue
		}
		world(nil)
		bad, sig := "", ""
		r := vsync.Run(nil, horizon, func() { bad, sig = c17History(a, f, base.reopen(), h) })
		c.Count("transitions", len(h))
		c.Count("traces_validated_against_impl", 1)
		if e := r.Err(); e != "" {
			bad = e
		}
		if bad != "" {
			c.Violation("%s", bad)
			continue
		}
		c.SigHash(hashStr(fmt.Sprint(a.P, a.Start, a.Pre), sig))
		c.Sample("%v from %d, %s: %s", a.P, a.Start, h, sig)
	}
}

func c17History(a c17Job, f *Fix, m *memCtr, h string) (bad, out string) {
	sk, _, _, err := load(m)
	if err != nil {
		return "loading: " + err.Error(), ""
	}
	sk.Context().Threads = 1
	for _, op := range strings.Fields(a.Pre) {
		if r := doOp(sk, op, ""); r.err != nil {
			if op[0] == 'B' {
				continue // more than there are
			}
			return op + ": " + r.err.Error(), ""
		}
	}
	type sign struct {
		g    *gate
		sig  *xmssmt.Signature
		err  xmssmt.Error
		done bool
		no   uint64
		none bool // no numbers left
	}
	var ss []*sign
	max := f.max()
	running := map[int]bool{}
	var need map[xmssmt.SubTreeAddress]bool
	check := func(what string) string {
		if n := sk.UnretiredSeqNos(); n != uint32(len(running)) {
			return fmt.Sprintf("after %s, UnretiredSeqNos() is %d with %d Signs running", what, n, len(running))
		}
		has := map[xmssmt.SubTreeAddress]bool{}
		for _, ad := range m.list() {
			has[ad] = true
		}
		for ad := range need {
			for i := range running {
				if needs(a.P, ad, ss[i].no) && !has[ad] {
					return fmt.Sprintf("after %s, subtree %v is not cached any more, but the running Sign with number %d needs it", what, ad, ss[i].no)
				}
			}
		}
		need = has
		if len(running) == 0 {
			n := uint64(sk.SeqNo())
			for ad := range has {
				if obsolete(a.P, ad, n) {
					return fmt.Sprintf("after %s, no Sign is running and the next number is %d, but subtree %v is still cached", what, n, ad)
				}
			}
			if k := sk.CachedSubTrees(); k != len(has) && !strings.Contains(a.Pre, "P") {
				return fmt.Sprintf("after %s, CachedSubTrees() is %d, but %d are", what, k, len(has))
			}
		}
		out += fmt.Sprint(len(has), ".")
		return ""
	}
	settle := func() {
		// let background work finish
		for i := 0; i < 50; i++ {
			vsync.Yield()
		}
	}
	if strings.Contains(a.Pre, "P") {
		settle()
	}
	if s := check("loading"); s != "" {
		return s, out
	}
	for hi, x := range h {
		what := fmt.Sprintf("step %d (%c)", hi, x)
		switch {
		case x == 's':
			s := &sign{g: &gate{data: "message"}}
			s.no = uint64(sk.SeqNo())
			s.none = s.no >= max
			i := len(ss)
			ss = append(ss, s)
			vsync.Go0(func() {
				s.sig, s.err = sk.SignFrom(s.g)
				s.done = true
			})
			vsync.Await("the Sign to read", func() bool { return s.g.reached || s.done })
			if s.none != s.done {
				return fmt.Sprintf("%s: the Sign with number %d of %d returned early: %v, error %v", what, s.no, max, s.done, s.err), out
			}
			if !s.none {
				running[i] = true
			}
		default:
			i := int(x - '0')
			if x >= 'a' {
				i = int(x - 'a')
				ss[i].g.fail = true
			}
			s := ss[i]
			s.g.released = true
			vsync.Await("the Sign to finish", func() bool { return s.done })
			delete(running, i)
			if s.none {
				if s.err == nil {
					return fmt.Sprintf("%s: signed with number %d of %d", what, s.no, max), out
				}
				break
			}
			if s.g.fail {
				if s.err == nil {
					return what + ": signing a message that could not be read succeeds", out
				}
				break
			}
			if s.err != nil {
				return fmt.Sprintf("%s: Sign fails: %v", what, s.err), out
			}
			if uint64(s.sig.SeqNo()) != s.no {
				return fmt.Sprintf("%s: signed with number %d instead of %d", what, s.sig.SeqNo(), s.no), out
			}
			enc, _ := s.sig.MarshalBinary()
			if bad := f.right(s.no, "message", enc); bad != "" {
				return what + ": " + bad, out
			}
		}
		if strings.Contains(a.Pre, "P") {
			settle()
		}
		if s := check(what); s != "" {
			return s, out
		}
	}
	if err := sk.Close(); err != nil {
		return "Close: " + err.Error(), out
	}
	n := uint64(m.seqNo)
	for _, ad := range m.list() {
		if obsolete(a.P, ad, n) {
			return fmt.Sprintf("after Close at number %d, subtree %v is still cached", n, ad), out
		}
	}
	return "", out
}
