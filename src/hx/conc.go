//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	xmssmt "github.com/bwesterb/go-xmssmt"
	"github.com/bwesterb/go-xmssmt/internal/verif/vfs"
	"github.com/bwesterb/go-xmssmt/internal/verif/vsync"
)

// concArg describes a scenario in which goroutines use one private key.
type concArg struct {
	P       P
	Start   uint64   // stored sequence number
	Warm    int      `json:",omitempty"` // signatures made before the key was last closed
	Drop    []string `json:",omitempty"` // cached subtrees "layer/tree" to drop
	Damage  []string `json:",omitempty"` // cached subtrees to damage
	Pre     string   `json:",omitempty"` // operations before the threads start
	Threads []string // operations of each thread
	Post    string   `json:",omitempty"` // operations afterwards
	Tags    string   // what to report
	Seek    uint64   `json:",omitempty"` // DangerousSetSeqNo after loading
	Workers int      `json:",omitempty"` // ctx.Threads
	// The Fault-th call to the environment (from 1) made while the threads
	// run fails, and all later ones if FaultAll.
	Fault     int  `json:",omitempty"`
	FaultMode int  `json:",omitempty"`
	FaultAll  bool `json:",omitempty"`
	// Only calls of this kind, and only those made by the threads themselves
	// (not by goroutines the code started), count and fail.
	FaultKind string `json:",omitempty"`
	Kills     bool   `json:",omitempty"` // check the disk whenever a Sign returns
}

func addrOf(s string) xmssmt.SubTreeAddress {
	var a xmssmt.SubTreeAddress
	fmt.Sscanf(s, "%d/%d", &a.Layer, &a.Tree)
	return a
}

// edited opens the container on an image and returns the image afterwards.
func edited(im *vfs.Image, f func(ctr xmssmt.PrivateKeyContainer)) *vfs.Image {
	w := world(im)
	e := managed(func() {
		ctr, err := xmssmt.OpenFSPrivateKeyContainer(w.path)
		must(err)
		f(ctr)
		must(ctr.Close())
	})
	if e != "" {
		panic("editing a container: " + e)
	}
	r := dropLock(w.fs.Image())
	w.end()
	return r
}

func (a *concArg) image() *vfs.Image {
	f := fix(a.P, "")
	im := f.image(a.Start, a.Warm)
	if len(a.Drop)+len(a.Damage) == 0 {
		return im
	}
	return edited(im, func(ctr xmssmt.PrivateKeyContainer) {
		for _, d := range a.Drop {
			must(ctr.DropSubTree(addrOf(d)))
		}
		for _, d := range a.Damage {
			if !ctr.HasSubTree(addrOf(d)) {
				panic("no such subtree to damage: " + d)
			}
			b, _, err := ctr.GetSubTree(addrOf(d))
			must(err)
			b[3] ^= 1
		}
	})
}

// opRes is the outcome of an operation in a thread.
type opRes struct {
	op   string
	sig  *xmssmt.Signature
	enc  []byte
	err  xmssmt.Error
	msg  string
	n    uint64
	b    uint32
	note string
}

type killAt struct {
	key  string
	next uint64
}

func init() {
	scens["conc"] = func(raw json.RawMessage) func([]int16) run {
		var a concArg
		if err := json.Unmarshal(raw, &a); err != nil {
			panic(err)
		}
		f := fix(a.P, "")
		im := a.image()
		seenKill := map[string]bool{}
		return func(prefix []int16) run { return a.run(f, im, prefix, seenKill) }
	}
}

func doOp(sk *xmssmt.PrivateKey, op, msg string) (r opRes) {
	r.op = op
	switch op[0] {
	case 'S':
		r.msg = msg
		r.sig, r.err = sk.Sign([]byte(msg))
		if r.err == nil && r.sig != nil {
			r.enc, _ = r.sig.MarshalBinary()
		}
	case 'F': // Sign with a reader that fails
		r.sig, r.err = sk.SignFrom(failReader{})
		if r.err == nil {
			r.note = "signing from a failing reader succeeds"
		}
	case 'B':
		var n uint32
		fmt.Sscan(op[1:], &n)
		r.err = sk.BorrowExactly(n)
	case 'I':
		var n, t uint32
		fmt.Sscanf(op[1:], "%d,%d", &n, &t)
		r.err = sk.BorrowExactlyIfBelow(n, t)
	case 'Q':
		r.n = uint64(sk.SeqNo())
		r.b = sk.BorrowedSeqNos()
		sk.CachedSubTrees()
		sk.UnretiredSeqNos()
		pk := sk.PublicKey()
		if pk == nil {
			r.note = "PublicKey() is nil"
		}
	case 'V':
		pk := sk.PublicKey()
		b, err := pk.MarshalBinary()
		if err != nil || len(b) == 0 {
			r.note = "PublicKey().MarshalBinary fails"
		}
	case 'D':
		var n uint64
		fmt.Sscan(op[1:], &n)
		sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(n))
	case 'P':
		sk.EnableSubTreePrecomputation()
	case 'C':
		r.err = sk.Close()
	default:
		panic("no such operation: " + op)
	}
	return
}

type failReader struct{}

func (failReader) Read([]byte) (int, error) { return 0, fmt.Errorf("the reader failed") }

func (a *concArg) run(f *Fix, im *vfs.Image, prefix []int16, seenKill map[string]bool) run {
	w := world(im)
	var finds []finding
	find := func(tag, f string, x ...any) { finds = append(finds, finding{tag, fmt.Sprintf(f, x...)}) }
	var pre, post []opRes
	res := make([][]opRes, len(a.Threads))
	var seq0, seq1 uint64
	var borr1, unret uint32
	var cached int
	var closed bool
	var kills []killAt
	var killIm []*vfs.Image
	var startErr xmssmt.Error
	var sk *xmssmt.PrivateKey
	var killMu vsync.Mutex
	_ = killMu
	finished := false
	mine := map[int]bool{}
	secretEnd := func() {}
	if strings.Contains(a.Tags, "secret") {
		secretEnd = watchSecrets(f, w, find)
		defer xmssmt.SetLogger(nil)
	}
	r := vsync.Run(prefix, horizon, func() {
		var err xmssmt.Error
		sk, _, _, err = xmssmt.LoadPrivateKey(w.path)
		if err != nil {
			startErr = err
			return
		}
		sk.Context().Threads = 1
		if a.Workers > 0 {
			sk.Context().Threads = a.Workers
		}
		if a.Seek > 0 {
			sk.DangerousSetSeqNo(xmssmt.SignatureSeqNo(a.Seek))
		}
		seq0 = uint64(sk.SeqNo())
		for i, op := range strings.Fields(a.Pre) {
			pre = append(pre, doOp(sk, op, fmt.Sprintf("p%d", i%2)))
		}
		if a.Fault > 0 {
			calls := 0
			w.fs.Fault = func(o vfs.Op) vfs.Mode {
				if a.FaultKind != "" && (o.Kind != a.FaultKind || !mine[vsync.Self()]) {
					return vfs.OK
				}
				calls++
				if calls == a.Fault || a.FaultAll && calls > a.Fault {
					return vfs.Mode(a.FaultMode)
				}
				return vfs.OK
			}
		}
		var wg vsync.WaitGroup
		wg.Add(len(a.Threads))
		for i := range a.Threads {
			ops := strings.Fields(a.Threads[i])
			i := i
			vsync.Go0(func() {
				defer wg.Done()
				if a.FaultKind != "" {
					mine[vsync.Self()] = true
				}
				for k, op := range ops {
					x := doOp(sk, op, fmt.Sprintf("t%d.%d", i, k%2))
					res[i] = append(res[i], x)
					if a.Kills && x.sig != nil && !vsync.RaceEnabled {
						addKill(&kills, &killIm, seenKill, w, uint64(x.sig.SeqNo())+1)
					}
				}
			})
		}
		wg.Wait()
		if a.Fault > 0 {
			w.fs.Fault = nil
		}
		for i, op := range strings.Fields(a.Post) {
			post = append(post, doOp(sk, op, fmt.Sprintf("q%d", i%2)))
		}
		for _, rs := range append(append([][]opRes{pre}, res...), post) {
			for _, x := range rs {
				if x.op == "C" {
					closed = true
				}
			}
		}
		seq1 = uint64(sk.SeqNo())
		borr1 = sk.BorrowedSeqNos()
		if !closed {
			unret = sk.UnretiredSeqNos()
			cached = sk.CachedSubTrees()
			if !vsync.RaceEnabled {
				addKill(&kills, &killIm, seenKill, w, seq1)
			}
			if err := sk.Close(); err != nil {
				find("close", "Close fails: %v", err)
			}
		}
		finished = true
	})
	out := run{res: r}
	for _, rs := range append(append([][]opRes{pre}, res...), post) {
		for _, x := range rs {
			if x.err != nil && strings.Contains(a.Tags, "secret") {
				secretLog.WriteString(x.err.Error() + "\n")
			}
		}
	}
	secretEnd()
	if e := r.Err(); e != "" {
		w.end()
		out.bad = "after " + a.describe(res) + ":\n" + e
		if !strings.Contains(a.Tags, "panic") {
			out.bad = ""
			out.sig = "failed"
		}
		return out
	}
	if startErr != nil {
		find("load", "loading fails: %v", startErr)
	}
	image := dropLock(w.fs.Image())
	if m := w.end(); m != "" {
		find("memory", "%s", m)
	}
	if !finished && startErr == nil {
		find("panic", "the scenario did not finish")
	}
	sig := ""
	if startErr == nil {
		sig = a.judge(f, find, pre, res, post, seq0, seq1, borr1, unret, cached, closed)
		// afterwards
		if !closed || strings.Contains(a.Tags, "closed") {
			w2 := world(image)
			e := managed(func() {
				if strings.Contains(a.Tags, "obsolete") {
					ctr, err := xmssmt.OpenFSPrivateKeyContainer(w2.path)
					must(err)
					stas, err := ctr.ListSubTrees()
					must(err)
					for _, sta := range stas {
						if obsolete(a.P, sta, seq1) {
							find("obsolete", "the next number is %d, but subtree %v is still cached", seq1, sta)
						}
					}
					must(ctr.Close())
				}
				sk, _, lost, err := xmssmt.LoadPrivateKey(w2.path)
				if err != nil {
					find("load", "loading the key again fails: %v", err)
					return
				}
				sk.Context().Threads = 1
				n := uint64(sk.SeqNo())
				if n != seq1 {
					find("acct", "after Close, the key continues with %d instead of %d", n, seq1)
				}
				if lost != 0 {
					find("acct", "after Close, %d signatures are reported lost", lost)
				}
				s, err := sk.Sign([]byte("again"))
				if n >= f.max() {
					if err == nil {
						find("end", "signed with number %d", s.SeqNo())
					}
				} else if err != nil {
					find("load", "signing after loading again fails: %v", err)
				} else if enc, _ := s.MarshalBinary(); uint64(s.SeqNo()) != n {
					find("reuse", "after loading again, number %d is used instead of %d", s.SeqNo(), n)
				} else if m := f.right(n, "again", enc); m != "" {
					find("bytes", "after loading again: %s", m)
				}
				if err := sk.Close(); err != nil {
					find("close", "Close fails: %v", err)
				}
			})
			w2.end()
			if e != "" {
				find("load", "using the key again: %s", e)
			}
		}
		for i, k := range kills {
			w2 := world(dropLock(killIm[i]))
			e := managed(func() {
				ctr, err := xmssmt.OpenFSPrivateKeyContainer(w2.path)
				if err != nil || ctr == nil || ctr.Initialized() == nil {
					find("reuse", "killed when number %d had been handed out, the key cannot be opened: %v", k.next-1, err)
					return
				}
				n, lost, err := ctr.GetSeqNo()
				if err != nil || uint64(n) < k.next {
					find("reuse", "killed when number %d had been handed out, the key continues with %d", int64(k.next)-1, n)
				} else if i == len(kills)-1 && !closed && uint64(n)-seq1 > uint64(lost) {
					find("acct", "killed at number %d, the key continues with %d but only %d are reported lost", seq1, n, lost)
				}
				ctr.Close()
			})
			w2.end()
			if e != "" {
				find("load", "%s", e)
			}
		}
	}
	for _, x := range finds {
		if strings.Contains(a.Tags, x.tag) {
			out.bad = "after " + a.describe(res) + ":\n" + x.msg
			return out
		}
	}
	out.sig = sig
	return out
}

func addKill(kills *[]killAt, ims *[]*vfs.Image, seen map[string]bool, w *World, next uint64) {
	im := w.fs.Image()
	k := fmt.Sprint(next, im.Key())
	if seen[k] && len(*kills) > 0 {
		return
	}
	seen[k] = true
	*kills = append(*kills, killAt{k, next})
	*ims = append(*ims, im)
}

func (a *concArg) describe(res [][]opRes) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%v at %d", a.P, a.Start+uint64(a.Warm))
	for i, t := range a.Threads {
		fmt.Fprintf(&sb, "; thread %d did %s:", i, t)
		for _, x := range res[i] {
			fmt.Fprintf(&sb, " %s", x.op)
			if x.sig != nil {
				fmt.Fprintf(&sb, "=%d", x.sig.SeqNo())
			}
			if x.err != nil {
				fmt.Fprintf(&sb, " (%v)", x.err)
			}
		}
	}
	return sb.String()
}

// conState is the state of the model of a key.
type conState struct {
	next uint64
	borr uint32
	used int
}

func modelOp(s conState, op string, max uint64) conState {
	switch op[0] {
	case 'S', 'F':
		if s.next >= max {
			return s
		}
		s.next++
		s.used++
		if s.borr > 0 {
			s.borr--
		}
	case 'D':
		fmt.Sscan(op[1:], &s.next)
	case 'B':
		fmt.Sscan(op[1:], &s.borr)
	case 'I':
		var n, t uint32
		fmt.Sscanf(op[1:], "%d,%d", &n, &t)
		if s.borr <= t {
			s.borr = n
		}
	}
	return s
}

// finals lists the states that sequential executions lead to.
func (a *concArg) finals(s0 conState, max uint64) map[conState]bool {
	out := map[conState]bool{}
	var th [][]string
	for _, t := range a.Threads {
		th = append(th, strings.Fields(t))
	}
	for _, op := range strings.Fields(a.Pre) {
		s0 = modelOp(s0, op, max)
	}
	type node struct {
		pos string
		s   conState
	}
	seen := map[node]bool{}
	var rec func(pos []int, s conState)
	rec = func(pos []int, s conState) {
		n := node{fmt.Sprint(pos), s}
		if seen[n] {
			return
		}
		seen[n] = true
		end := true
		for i := range th {
			if pos[i] < len(th[i]) {
				end = false
				p := append([]int(nil), pos...)
				p[i]++
				rec(p, modelOp(s, th[i][pos[i]], max))
			}
		}
		if end {
			for _, op := range strings.Fields(a.Post) {
				s = modelOp(s, op, max)
			}
			out[s] = true
		}
	}
	rec(make([]int, len(th)), s0)
	return out
}

func (a *concArg) judge(f *Fix, find func(string, string, ...any), pre []opRes, res [][]opRes, post []opRes,
	seq0, seq1 uint64, borr1, unret uint32, cached int, closed bool) string {
	all := append(append([][]opRes{pre}, res...), post)
	used := map[uint64]bool{}
	order := ""
	nsig := 0
	failed := 0
	closeInside := false
	for _, rs := range all {
		var last int64 = -1
		for _, x := range rs {
			if x.op == "C" {
				closeInside = true
			}
			if x.note != "" {
				find("note", "%s: %s", x.op, x.note)
			}
			switch x.op[0] {
			case 'S':
				if x.err != nil {
					failed++
					order += "-"
					if x.sig != nil {
						find("valid", "Sign returns both a signature and an error")
					}
					if seq1 < f.max() && !closed {
						find("end", "Sign fails with %d of %d numbers used: %v", seq1, f.max(), x.err)
					}
					continue
				}
				if x.sig == nil {
					find("valid", "Sign returns neither a signature nor an error")
					continue
				}
				nsig++
				idx := uint64(x.sig.SeqNo())
				order += fmt.Sprint(idx, ",")
				if used[idx] {
					find("reuse", "sequence number %d was handed out twice", idx)
				}
				used[idx] = true
				if int64(idx) < last {
					find("order", "a thread got number %d after %d", idx, last)
				}
				last = int64(idx)
				if idx < seq0 {
					find("reuse", "number %d was handed out, the key started at %d", idx, seq0)
				}
				if idx > f.max() {
					find("end", "number %d was used", idx)
					continue
				}
				if m := f.right(idx, x.msg, x.enc); m != "" {
					find("bytes", "%s", m)
				}
				enc, err := x.sig.MarshalBinary()
				if err != nil || string(enc) != string(x.enc) {
					find("stable", "signature %d changed after it was returned", idx)
				}
			case 'B', 'I', 'C':
				if x.err != nil && !closed {
					find("acct", "%s fails: %v", x.op, x.err)
				}
				if x.op[0] == 'C' && x.err != nil {
					find("close", "Close fails: %v", x.err)
				}
			case 'Q':
				if int64(x.n) < last {
					find("acct", "SeqNo() is %d after %d was handed out", x.n, last)
				}
				order += fmt.Sprintf("q%d.%d,", x.n, x.b)
			}
		}
		order += ";"
	}
	if !closeInside {
		fin := a.finals(conState{next: seq0}, f.max())
		got := conState{seq1, borr1, int(seq1 - seq0)}
		if !fin[got] {
			var l []string
			for s := range fin {
				l = append(l, fmt.Sprintf("next=%d reserved=%d", s.next, s.borr))
			}
			sort.Strings(l)
			find("acct", "afterwards SeqNo()=%d and BorrowedSeqNos()=%d, which no sequential execution leads to (%s)",
				seq1, borr1, strings.Join(l, "; "))
		}
		if unret != 0 {
			find("retire", "UnretiredSeqNos() is %d when no Sign is running any more", unret)
		}
	}
	return order
}
