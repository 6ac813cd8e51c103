//go:build go1.21

package main

import (
	"bytes"
	"fmt"
	"strings"

	xmssmt "github.com/bwesterb/go-xmssmt"
	"github.com/bwesterb/go-xmssmt/internal/verif/vfs"
	"github.com/bwesterb/go-xmssmt/internal/verif/vrand"
	"github.com/bwesterb/go-xmssmt/internal/verif/vsync"
)

// Power failures (C03) and interrupted key creation (C22).

// powerArg enumerates histories of a key in which the power fails at the end
// or in the middle of the last operation.  Operations are those of a life and
// K (the process is killed and restarted without loss of power) and R (Close
// and load again).
type powerArg struct {
	P     P
	Start uint64
	Ops   string
	Len   int
	First string `json:",omitempty"` // the first operation, to split the work
	Deep  bool   `json:",omitempty"` // let the power fail a second time
}

// powerCheck looks at what is left after a power failure.  It returns what is
// wrong, if anything, and what is left on disk after using the key again.
func powerCheck(f *Fix, im *vfs.Image, iss map[uint64]bool, next uint64, msg string) (string, string) {
	w := world(dropLock(im.Clone()))
	bad, sig := "", ""
	e := managed(func() {
		sk, pk, lost, err := xmssmt.LoadPrivateKey(w.path)
		if err != nil {
			bad = fmt.Sprintf("loading the key fails: %v", err)
			return
		}
		sk.Context().Threads = 1
		if m := f.pkRight(pk); m != "" {
			bad = m
			return
		}
		n := uint64(sk.SeqNo())
		if n < next {
			bad = fmt.Sprintf("the key continues with sequence number %d, but %d have been issued", n, next)
			return
		}
		sig = fmt.Sprint(n, " ", lost)
		for i := 0; i < 2; i++ {
			s, err := sk.Sign([]byte(msg))
			if err != nil {
				if n+uint64(i) < f.max() {
					bad = fmt.Sprintf("signing fails: %v", err)
				}
				break
			}
			idx := uint64(s.SeqNo())
			if iss[idx] {
				bad = fmt.Sprintf("sequence number %d is issued again", idx)
				return
			}
			enc, _ := s.MarshalBinary()
			if m := f.right(idx, msg, enc); m != "" {
				bad = m
				return
			}
		}
		if err := sk.Close(); err != nil {
			bad = fmt.Sprintf("closing fails: %v", err)
		}
	})
	if m := w.end(); m != "" && bad == "" {
		bad = m
	}
	if e != "" {
		bad = e
	}
	return bad, sig
}

func powerRun(c *Ctx, a powerArg, ops []string) {
	f := fix(a.P, "")
	w := world(f.image(a.Start, 0))
	s := newSess(f, w, Carry{Next: a.Start}, 2)
	carry := Carry{Next: a.Start, Exact: true, Lost: -1}
	type shot struct {
		im   *vfs.Image
		next uint64
		at   int
	}
	var shots []shot
	seen := map[string]bool{}
	steps := 0
	take := func() {
		steps++
		next := a.Start
		for i := range s.iss {
			if i+1 > next {
				next = i + 1
			}
		}
		for _, im := range w.fs.PowerImages() {
			k := im.Key()
			if !seen[k] {
				seen[k] = true
				shots = append(shots, shot{im, next, steps})
			}
		}
	}
	e := managed(func() {
		if len(ops) == 0 {
			w.fs.OnChange = take
		}
		ok := s.load(carry)
		w.fs.OnChange = nil
		if !ok {
			return
		}
		for i, op := range ops {
			last := i == len(ops)-1
			if last {
				w.fs.OnChange = take
			}
			switch op {
			case "K", "R":
				if op == "R" {
					s.op("C")
				}
				cr := s.carry(carry, op == "R", false)
				w.relife()
				s.w.fs.Pid++
				n := newSess(f, w, cr, 2)
				n.nmsg = s.nmsg
				n.finds = s.finds
				s = n
				if !s.load(cr) {
					return
				}
			default:
				s.op(op)
			}
			w.fs.OnChange = nil
		}
		take()
	})
	w.fs.OnChange = nil
	if e == "" {
		w.end()
	}
	for _, x := range s.finds {
		if x.tag == "load" || x.tag == "reuse" || x.tag == "pk" {
			c.Violation("%s", x.msg)
			return
		}
	}
	c.Count("histories", 1)
	c.Count("transitions", steps)
	iss := s.iss
	for _, sh := range shots {
		c.Count("power_failures", 1)
		c.Count("traces_validated_against_impl", 1)
		is := map[uint64]bool{}
		for i := range iss {
			if i < sh.next {
				is[i] = true
			}
		}
		k := hashStr(fmt.Sprint(a.P), sh.im.Key(), fmt.Sprint(sh.next, is))
		if powerSeen[k] {
			continue
		}
		powerSeen[k] = true
		c.SigHash(k)
		bad, sig := powerCheck(f, sh.im, is, sh.next, "after")
		if bad != "" {
			c.Violation("%v at %d: load, %s; the power fails at change %d of the last operation, leaving%s\n%s",
				a.P, a.Start, strings.Join(ops, ", "), sh.at, sh.im.Desc, bad)
			return
		}
		c.Sample("%v: load, %s; power failure at change %d leaving%s: continues with %s", a.P, strings.Join(ops, ", "), sh.at, sh.im.Desc, sig)
	}
}

var powerSeen = map[uint64]bool{}

func powerJobs(as ...powerArg) []Job {
	var js []Job
	for _, a := range as {
		a := a
		n := a
		n.First = "-"
		js = append(js, mkjob("inst", "power", n))
		seqs(strings.Fields(a.Ops+" C"), 2, func(ops []string) bool {
			if len(ops) == 2 || (len(ops) == 1 && (ops[0] == "C")) {
				n := a
				n.First = strings.Join(ops, " ")
				js = append(js, mkjob("inst", "power", n))
			} else if len(ops) == 1 {
				n := a
				n.First = ops[0]
				n.Len = 1
				js = append(js, mkjob("inst", "power", n))
			}
			return true
		})
	}
	return js
}

// Creation

type createArg struct {
	P     P
	Old   *P     `json:",omitempty"` // what is there before
	Use   int    `json:",omitempty"` // signatures made with the old key
	How   string // derive, generate or reset
	Fault int    `json:",omitempty"` // 0: kill and power failures; 1: faults
	Late  bool   `json:",omitempty"`
}

// afterCreate checks that the disk holds one of: no key, the old key, the new
// key.  must: the new key is acknowledged.
func afterCreate(f, old *Fix, newPk []byte, im *vfs.Image, oldNext uint64, acked bool) (string, string) {
	w := world(dropLock(im.Clone()))
	bad, what := "", ""
	e := managed(func() {
		ctr, err := xmssmt.OpenFSPrivateKeyContainer(w.path)
		if err != nil {
			bad = fmt.Sprintf("opening the key fails: %v", err)
			return
		}
		p := ctr.Initialized()
		ctr.Close()
		if p == nil {
			what = "no key"
			if old != nil {
				bad = "the previous key is gone"
			} else if acked {
				bad = "the key is gone although its creation was acknowledged"
			} else {
				// and the path can be used
				sk, pk, err := f.derive(w.path)
				if err != nil {
					bad = fmt.Sprintf("creating a key there fails: %v", err)
					return
				}
				if m := f.pkRight(pk); m != "" {
					bad = "created again, " + m
				}
				sk.Close()
			}
			return
		}
		sk, pk, lost, err := xmssmt.LoadPrivateKey(w.path)
		if err != nil {
			bad = fmt.Sprintf("loading the key fails: %v", err)
			return
		}
		sk.Context().Threads = 1
		b, err2 := pk.MarshalBinary()
		if err2 != nil {
			bad = err2.Error()
			return
		}
		var g *Fix
		switch {
		case old != nil && bytes.Equal(b, old.Pk):
			g, what = old, "old key"
			if acked {
				bad = "the previous key is there although the creation of the new one was acknowledged"
				return
			}
			if n := uint64(sk.SeqNo()); n != oldNext {
				bad = fmt.Sprintf("the previous key continues with sequence number %d instead of %d", n, oldNext)
				return
			}
		case newPk == nil || bytes.Equal(b, newPk):
			what = "new key"
			g = f
			if n := uint64(sk.SeqNo()); n != 0 {
				bad = fmt.Sprintf("the new key starts with sequence number %d", n)
				return
			}
			if lost != 0 {
				bad = fmt.Sprintf("the new key starts with %d lost signatures", lost)
				return
			}
		default:
			bad = "the public key is neither that of the previous nor that of the new key"
			return
		}
		if *p != g.P.x() {
			bad = fmt.Sprintf("the %s has parameters %v", what, p)
			return
		}
		for i := 0; i < 2; i++ {
			if uint64(sk.SeqNo()) >= g.max() {
				break
			}
			s, err := sk.Sign([]byte("first"))
			if err != nil {
				bad = fmt.Sprintf("signing with the %s fails: %v", what, err)
				return
			}
			ok, err := pk.Verify(s, []byte("first"))
			if !ok {
				bad = fmt.Sprintf("a signature of the %s does not verify: %v", what, err)
				return
			}
			if g == old || newPk != nil && bytes.Equal(newPk, f.Pk) {
				enc, _ := s.MarshalBinary()
				if m := g.right(uint64(s.SeqNo()), "first", enc); m != "" {
					bad = fmt.Sprintf("the %s: %s", what, m)
					return
				}
			}
		}
		if err := sk.Close(); err != nil {
			bad = fmt.Sprintf("closing the %s fails: %v", what, err)
		}
	})
	if m := w.end(); m != "" && bad == "" {
		bad = m
	}
	if e != "" {
		bad = e
	}
	return bad, what
}

func createOn(a createArg, f *Fix, path string) (*xmssmt.PrivateKey, *xmssmt.PublicKey, xmssmt.Error) {
	switch a.How {
	case "derive":
		return f.derive(path)
	case "generate":
		ctx, err := xmssmt.NewContext(f.P.x())
		if err != nil {
			return nil, nil, err
		}
		ctx.Threads = 1
		return ctx.GenerateKeyPair(path)
	}
	panic(a.How)
}

// drawnApart tells whether each of the three secrets is made of randomness
// drawn, and none of it is used twice.
func drawnApart(key []byte, n int, drawn []byte) string {
	names := []string{"secret seed", "PRF key", "public seed"}
	var at []int
	for i := 0; i < 3; i++ {
		s := key[i*n : (i+1)*n]
		k := bytes.Index(drawn, s)
		if k < 0 {
			return fmt.Sprintf("the %s is not made of fresh randomness: %x", names[i], s)
		}
		for j, o := range at {
			if k < o+n && o < k+n {
				return fmt.Sprintf("the %s and the %s share randomness", names[i], names[j])
			}
		}
		at = append(at, k)
	}
	return ""
}

func createRun(c *Ctx, a createArg) {
	f := fix(a.P, "new")
	var old *Fix
	var im *vfs.Image
	oldNext := uint64(a.Use)
	if a.Old != nil {
		old = fix(*a.Old, "old")
		im = old.image(0, a.Use)
	}
	desc := fmt.Sprintf("%s %v over %v (%d signatures)", a.How, a.P, a.Old, a.Use)
	start := func() *World {
		var x *vfs.Image
		if im != nil {
			x = im.Clone()
		}
		return world(x)
	}
	type res struct {
		sk   *xmssmt.PrivateKey
		pk   []byte
		key  []byte
		err  xmssmt.Error
		ops  []vfs.Op
		bad  string
		draw []byte
	}
	create := func(w *World) (r res) {
		w.fs.KeepLog = true
		vrand.Reset(uint64(7))
		r.bad = managed(func() {
			sk, pk, err := createOn(a, f, w.path)
			r.err = err
			if err == nil {
				if sk == nil || pk == nil {
					r.bad = "neither a key nor an error is returned"
					return
				}
				r.sk = sk
				b, e := pk.MarshalBinary()
				if e != nil {
					r.bad = e.Error()
					return
				}
				r.pk = b
				if pk.Context().Params() != a.P.x() {
					r.bad = fmt.Sprintf("the public key has parameters %v", pk.Context().Params())
				}
			} else if sk != nil || pk != nil {
				r.bad = "both a key and an error are returned"
			}
		})
		r.draw = append([]byte(nil), vrand.Drawn()...)
		r.ops = w.fs.Log
		return
	}
	// undisturbed
	w := start()
	type shot struct {
		im    *vfs.Image
		kind  string
		at    int
		acked bool
	}
	var shots []shot
	seen := map[string]bool{}
	n := 0
	inT := false
	take := func(acked bool) {
		n++
		kim := w.fs.Image()
		if k := fmt.Sprint("k", acked, kim.Key()); !seen[k] {
			seen[k] = true
			shots = append(shots, shot{kim, "kill", n, acked})
		}
		if inT {
			return
		}
		for _, p := range w.fs.PowerImages() {
			if k := fmt.Sprint("p", acked, p.Key()); !seen[k] {
				seen[k] = true
				shots = append(shots, shot{p, "power failure, leaving" + p.Desc, n, acked})
			}
		}
	}
	if a.Fault == 0 {
		w.fs.OnChange = func() { take(false) }
	}
	if a.Fault == 0 && a.Old == nil {
		vsync.TickFn = func() {
			if !inT {
				inT = true
				w.fs.Tick()
				inT = false
			}
		}
	}
	r := create(w)
	w.fs.OnChange = nil
	vsync.TickFn = nil
	c.Case(desc + ": undisturbed")
	if r.bad != "" {
		c.Violation("%s: %s", desc, r.bad)
		return
	}
	if r.err != nil {
		c.Violation("%s fails: %v", desc, r.err)
		return
	}
	newPk := r.pk
	if a.How == "derive" {
		if !bytes.Equal(newPk, f.Pk) {
			c.Violation("%s: the public key is not the right one", desc)
			return
		}
	}
	if a.Fault == 0 {
		take(true)
	}
	bad := managed(func() {
		if err := r.sk.Close(); err != nil {
			panic("Close: " + err.Error())
		}
	})
	if bad != "" {
		c.Violation("%s: %s", desc, bad)
		return
	}
	if a.Fault == 0 {
		take(true)
	}
	if a.How == "generate" {
		var key []byte
		managed(func() {
			ctr, err := xmssmt.OpenFSPrivateKeyContainer(w.path)
			must(err)
			key, err = ctr.GetPrivateKey()
			must(err)
			key = append([]byte(nil), key...)
			ctr.Close()
		})
		if len(key) != 3*a.P.N {
			c.Violation("%s: the private key has %d bytes", desc, len(key))
			return
		}
		if m := drawnApart(key, a.P.N, r.draw); m != "" {
			c.Violation("%s: %s", desc, m)
			return
		}
		c.Count("keys_checked_for_randomness", 1)
	}
	w.end()
	if a.Fault == 0 {
		for _, s := range shots {
			if c.Stop() {
				return
			}
			if !c.Case(fmt.Sprintf("%s: %s at change %d, acknowledged %v, %x", desc, s.kind, s.at, s.acked, hashStr(s.im.Key()))) {
				continue
			}
			m, what := afterCreate(f, old, newPk, s.im, oldNext, s.acked)
			c.Count("crash_images", 1)
			c.Count("transitions", 1)
			c.Count("traces_validated_against_impl", 1)
			if m != "" {
				c.Violation("%s: %s at change %d (acknowledged: %v):\n%s", desc, s.kind, s.at, s.acked, m)
				return
			}
			c.Sig(desc, s.kind, s.acked, what, hashStr(s.im.Key()))
			c.Sample("%s: %s at change %d: %s", desc, s.kind, s.at, what)
		}
		return
	}
	// faults
	for i := range r.ops {
		for _, mode := range []vfs.Mode{vfs.FailBefore, vfs.Partial, vfs.FailAfter} {
			if c.Stop() {
				return
			}
			if !c.Case(fmt.Sprintf("%s: %v %v", desc, r.ops[i], mode)) {
				continue
			}
			w = start()
			w.fs.Fault = func(o vfs.Op) vfs.Mode {
				if o.N == i {
					return mode
				}
				return vfs.OK
			}
			x := create(w)
			w.fs.Fault = nil
			fim := w.fs.Image()
			if x.bad != "" {
				c.Violation("%s with %v: %s", desc, mode, x.bad)
				return
			}
			if x.err == nil {
				e := managed(func() { x.sk.Close() })
				if e != "" {
					c.Violation("%s with %v: %s", desc, mode, e)
					return
				}
			}
			c.Count("faults", 1)
			c.Count("transitions", 1)
			c.Count("traces_validated_against_impl", 1)
			if r.ops[i].Kind == "rand" && mode != vfs.FailAfter && x.err == nil {
				c.Violation("%s succeeds although the random source fails (%v)", desc, mode)
				return
			}
			pk := newPk
			if x.err == nil {
				pk = x.pk
			}
			m, what := afterCreate(f, old, pk, fim, oldNext, x.err == nil)
			if m == "" && r.ops[i].Kind == "rand" && mode != vfs.FailAfter && what == "new key" {
				m = "there is a key although the random source failed"
			}
			if m != "" {
				c.Violation("%s with %v at %v (%s):\n%s", desc, mode, r.ops[i], estr(x.err), m)
				return
			}
			// In the same process, too.
			m = sameProcess(f, w, x.err == nil)
			w.end()
			if m != "" {
				c.Violation("%s with %v at %v (%s):\n%s", desc, mode, r.ops[i], estr(x.err), m)
				return
			}
			c.Sig(desc, i, mode, what)
			c.Sample("%s with %v at %v: %s, %s", desc, mode, r.ops[i], estr(x.err), what)
		}
	}
}

// sameProcess checks that the path can be used again by the same process.
func sameProcess(f *Fix, w *World, acked bool) string {
	bad := ""
	e := managed(func() {
		if !acked {
			sk, pk, err := f.derive(w.path)
			if err != nil {
				bad = fmt.Sprintf("creating the key again fails: %v", err)
				return
			}
			if m := f.pkRight(pk); m != "" {
				bad = "creating the key again: " + m
				return
			}
			sk.Close()
		}
		sk, _, _, err := xmssmt.LoadPrivateKey(w.path)
		if err != nil {
			bad = fmt.Sprintf("loading the key in the same process fails: %v", err)
			return
		}
		sk.Context().Threads = 1
		if _, err := sk.Sign([]byte("x")); err != nil {
			bad = fmt.Sprintf("signing in the same process fails: %v", err)
		}
		sk.Close()
	})
	if e != "" {
		return e
	}
	return bad
}

func init() {
	handle("power", func(c *Ctx) {
		var a powerArg
		c.Arg(&a)
		var first []string
		if a.First != "-" {
			first = strings.Fields(a.First)
		}
		alpha := strings.Fields(a.Ops + " C")
		n := a.Len - len(first)
		if a.First == "-" {
			n = 0
		}
		seqs(alpha, n, func(more []string) bool {
			if c.Stop() {
				return false
			}
			ops := append(append([]string(nil), first...), more...)
			if len(first) > 0 && first[len(first)-1] == "C" && len(more) > 0 {
				return false
			}
			if !c.Case(fmt.Sprintf("power failure after or in the last of: %v at %d load %s", a.P, a.Start, strings.Join(ops, " "))) {
				return true
			}
			if c.Only != "" {
				powerSeen = map[uint64]bool{}
			}
			powerRun(c, a, ops)
			return true
		})
	})
	handle("create", func(c *Ctx) {
		var a createArg
		c.Arg(&a)
		createRun(c, a)
	})
	register(&Check{
		ID: "C03", Level: "model_checking", Budget: [2]int{240, 3000},
		Rule:        "histories of operations up to a length (alphabet: Sign, reserve, Close, restart, kill); at every file system change of the last operation and at its end, every power-loss image (all subsets of unsynced directory operations, current/old/torn data per file); distinct = distinct (image, numbers issued)",
		Assumptions: append([]string{"after a power failure, a synced file has its contents, a directory operation whose directory was synced has happened, and everything else may or may not have reached the disk, in any order; unsynced data may be torn at any sector (in one file at a time)"}, lifeAssume...),
		Plan: func(t Tier) []Job {
			as := []powerArg{
				{P: tiny(2, 2), Ops: "S B2 B0 K R", Len: 4},
				{P: tiny(3, 3), Start: 1, Ops: "S B2 K", Len: 3},
				{P: tiny(4, 2), Start: 2, Ops: "S R K", Len: 3},
				{P: tiny(2, 1), Ops: "S I2,0 B1 K", Len: 4},
				{P: P{0, 32, 2, 1, 16, false}, Ops: "S B2 K", Len: 2},
				{P: P{1, 64, 4, 2, 16, false}, Start: 3, Ops: "S B2", Len: 2},
				{P: big(40, 20), Start: 1<<32 - 1, Ops: "S B2", Len: 2},
			}
			if t.Thorough {
				as = []powerArg{
					{P: tiny(2, 2), Ops: "S B2 B0 K R P", Len: 5},
					{P: tiny(3, 3), Start: 1, Ops: "S B2 K R", Len: 4},
					{P: tiny(4, 2), Start: 2, Ops: "S R K B2", Len: 5},
					{P: tiny(3, 1), Ops: "S I2,0 B1 B0 K R", Len: 5},
					{P: P{0, 32, 2, 1, 16, false}, Ops: "S B2 K", Len: 4},
					{P: P{1, 64, 4, 2, 16, false}, Start: 3, Ops: "S B2 R", Len: 3},
					{P: big(40, 20), Start: 1<<32 - 1, Ops: "S B2 R", Len: 3},
				}
			}
			return powerJobs(as...)
		},
	})
	register(&Check{
		ID: "C22", Level: "model_checking", Budget: [2]int{240, 3000},
		Rule:        "key creation (Derive, GenerateKeyPair) at an empty path and over previous keys of the same and of other parameters, used and unused: a kill and every power-loss image at every file system change (and at every statement that changes a mapping), and a failure before, in the middle of and after every file system, mapping, lock and randomness call; distinct = distinct (creation, image or fault, outcome)",
		Assumptions: lifeAssume,
		Plan: func(t Tier) []Job {
			t22, t33, t21, t42 := tiny(2, 2), tiny(3, 3), tiny(2, 1), tiny(4, 2)
			b := P{1, 32, 2, 1, 16, false}
			w256 := P{0, 64, 2, 1, 256, false}
			var js []Job
			add := func(a createArg) {
				for _, how := range []string{"derive", "generate"} {
					for _, ft := range []int{0, 1} {
						x := a
						x.How, x.Fault = how, ft
						js = append(js, mkjob("inst", "create", x))
					}
				}
			}
			add(createArg{P: t21})
			add(createArg{P: t22})
			add(createArg{P: t33})
			add(createArg{P: b})
			add(createArg{P: t22, Old: &t22})
			add(createArg{P: t22, Old: &t22, Use: 2})
			add(createArg{P: t33, Old: &t33, Use: 3})
			add(createArg{P: t22, Old: &t33, Use: 1})
			add(createArg{P: t33, Old: &t22, Use: 1})
			add(createArg{P: t21, Old: &t42, Use: 2})
			add(createArg{P: b, Old: &t22, Use: 1})
			add(createArg{P: t22, Old: &b, Use: 1})
			add(createArg{P: w256})
			for _, p := range []P{{0, 24, 2, 1, 16, true}, {2, 32, 2, 2, 16, false}, {1, 16, 2, 2, 16, false}, {0, 64, 2, 2, 16, false}} {
				add(createArg{P: p})
			}
			if t.Thorough {
				add(createArg{P: t42, Old: &t42, Use: 6})
				add(createArg{P: t33, Old: &t42, Use: 5})
				add(createArg{P: w256, Old: &t42, Use: 5})
				add(createArg{P: t42, Old: &w256, Use: 2})
			}
			return js
		},
	})
}
