//go:build go1.21

package main

import (
	"fmt"
	"strings"

	xmssmt "github.com/bwesterb/go-xmssmt"
	"github.com/bwesterb/go-xmssmt/internal/verif/vfs"
)

// Failing environment calls (C04).
//
// A history is run without failures to number the calls it makes to the
// environment; then it is run again for each of those calls and each way to
// fail.  Failing changes what is called afterwards, so pairs of failures are
// found from the calls made in the run with the first one.

type faultArg struct {
	P      P
	Start  uint64
	Warm   int      `json:",omitempty"`
	Disk   string   `json:",omitempty"` // "": the key; none; other: another key; nocache: the key without cache
	Drop   []string `json:",omitempty"`
	Damage []string `json:",omitempty"`
	Ops    string   // alphabet
	Len    int
	First  string `json:",omitempty"` // the first operation
	Create bool   `json:",omitempty"` // starts with Derive rather than loading
	Sticky bool   `json:",omitempty"` // all later calls fail too
	Pairs  bool   `json:",omitempty"`
	Power  bool   `json:",omitempty"` // also let the power fail afterwards
}

type fault struct {
	n      int
	mode   vfs.Mode
	sticky bool
}

func (x fault) String() string {
	s := fmt.Sprintf("call %d %v", x.n, x.mode)
	if x.sticky {
		s += " and all later ones"
	}
	return s
}

// faultRun runs a history with failures.
func (a *faultArg) run(f *Fix, im *vfs.Image, ops []string, faults []fault) (bad string, log []vfs.Op, sig string) {
	var x *vfs.Image
	if im != nil {
		x = im.Clone()
	}
	w := world(x)
	iss := map[uint64]bool{}
	w.fs.KeepLog = true
	trace := "" // what happened
	fails := func(f string, v ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, v...)
		}
	}
	hit := false
	arm := func() {
		if len(faults) == 0 {
			return
		}
		w.fs.Fault = func(o vfs.Op) vfs.Mode {
			for _, x := range faults {
				if o.N == x.n || x.sticky && o.N > x.n {
					hit = true
					return x.mode
				}
			}
			return vfs.OK
		}
	}
	type shot struct {
		im    *vfs.Image
		next  uint64
		acked bool
		what  string
	}
	var shots []shot
	seen := map[string]bool{}
	next := a.Start + uint64(a.Warm)
	acked := !a.Create
	take := func(what string) {
		if len(faults) > 0 && !hit {
			return
		}
		im := w.fs.Image()
		if k := fmt.Sprint(next, acked, im.Key()); !seen[k] {
			seen[k] = true
			shots = append(shots, shot{im, next, acked, "the process is killed after " + what})
		}
		if a.Power && acked {
			for _, p := range w.fs.PowerImages() {
				if k := fmt.Sprint(next, acked, p.Key()); !seen[k] {
					seen[k] = true
					shots = append(shots, shot{p, next, acked, "the power fails after " + what + ", leaving" + p.Desc})
				}
			}
		}
	}
	var mon []kept
	nmsg := 0
	clean := false // Close has returned without error
	use := func(sk *xmssmt.PrivateKey, must bool) bool {
		msg := fmt.Sprintf("m%d", nmsg)
		nmsg++
		s, err := sk.Sign([]byte(msg))
		if err != nil {
			trace += " S:error"
			if s != nil {
				fails("Sign returns both a signature and an error")
			}
			if must && next < f.max() {
				fails("signing fails although nothing fails any more: %v", err)
			}
			return false
		}
		if s == nil {
			fails("Sign returns neither a signature nor an error")
			return false
		}
		i := uint64(s.SeqNo())
		trace += fmt.Sprint(" S:", i)
		if iss[i] || i < a.Start+uint64(a.Warm) {
			fails("sequence number %d is used again", i)
		}
		iss[i] = true
		if i+1 > next {
			next = i + 1
		}
		enc, err2 := s.MarshalBinary()
		if err2 != nil {
			fails("MarshalBinary: %v", err2)
		}
		if m := f.right(i, msg, enc); m != "" {
			fails("%s", m)
		}
		mon = append(mon, kept{s, enc})
		return true
	}
	e := managed(func() {
		var sk *xmssmt.PrivateKey
		var pk *xmssmt.PublicKey
		var err xmssmt.Error
		arm()
		open := func() {
			if !acked {
				sk, pk, err = f.derive(w.path)
			} else {
				sk, pk, _, err = xmssmt.LoadPrivateKey(w.path)
			}
		}
		open()
		if err != nil {
			trace += " open:error"
			if sk != nil || pk != nil {
				fails("both a key and an error are returned")
			}
			take("opening")
			if len(faults) > 0 && faults[0].sticky {
				w.fs.Fault = nil
			}
			open()
			if err != nil && len(faults) > 1 {
				w.fs.Fault = nil
				open()
			}
			if err != nil {
				fails("opening fails again although nothing fails any more: %v", err)
				return
			}
		}
		if sk == nil || pk == nil {
			fails("neither a key nor an error is returned")
			return
		}
		acked = true
		sk.Context().Threads = 1
		if m := f.pkRight(pk); m != "" {
			fails("%s", m)
		}
		take("opening")
		for _, op := range ops {
			switch op[0] {
			case 'S':
				use(sk, false)
			case 'C':
				err := sk.Close()
				trace += " C:" + estr(err)
				clean = clean || err == nil
			default:
				r := doOp(sk, op, "")
				if r.err != nil {
					trace += " " + op + ":error"
				} else {
					trace += " " + op
				}
			}
			take(op)
			if bad != "" {
				return
			}
		}
		log = append([]vfs.Op(nil), w.fs.Log...)
		w.fs.Fault = nil
		// Nothing fails any more: the key can be closed, loaded again by
		// this very process, and signs.
		err = sk.Close()
		trace += " C:" + estr(err)
		clean = clean || err == nil
		if hit {
			take("closing")
		}
		var lost uint32
		sk, pk, lost, err = xmssmt.LoadPrivateKey(w.path)
		if err != nil {
			fails("loading the key again in the same process fails: %v", err)
			return
		}
		sk.Context().Threads = 1
		if m := f.pkRight(pk); m != "" {
			fails("loaded again: %s", m)
		}
		if n := uint64(sk.SeqNo()); n < next {
			fails("loaded again in the same process, the key continues with %d although %d is next", n, next)
		} else if clean && uint64(lost) > n-next {
			fails("after a Close without error, %d signatures are reported lost although the key continues with %d and %d was next", lost, n, next)
		}
		next = uint64(sk.SeqNo())
		use(sk, true)
		use(sk, true)
		if err := sk.Close(); err != nil {
			fails("closing the key fails although nothing fails any more: %v", err)
		}
		for _, k := range mon {
			enc, err := k.sig.MarshalBinary()
			if err != nil || string(enc) != string(k.enc) {
				fails("signature %d has changed", k.sig.SeqNo())
			}
		}
	})
	w.fs.Fault = nil
	if log == nil {
		log = append([]vfs.Op(nil), w.fs.Log...)
	}
	if e != "" {
		fails("%s", e)
	}
	if m := w.end(); m != "" {
		fails("%s", m)
	}
	if bad != "" {
		bad = "what happened:" + trace + "\n" + bad
		return
	}
	for _, s := range shots {
		k := hashStr(fmt.Sprint(a.P, s.next, s.acked), s.im.Key())
		if killSeen[k] {
			continue
		}
		killSeen[k] = true
		m := ""
		if s.acked {
			m, _ = powerCheck(f, s.im, iss2(iss, s.next), s.next, "after")
		} else {
			m, _ = afterCreate(f, nil, f.Pk, s.im, 0, false)
			if a.Disk == "other" {
				m, _ = afterCreate(f, fix(a.P, "old"), f.Pk, s.im, 0, false)
			}
		}
		if m != "" {
			bad = fmt.Sprintf("what happened:%s\n%s: %s", trace, s.what, m)
			return
		}
		sig += fmt.Sprint(k)
	}
	sig += trace
	return
}

var killSeen = map[uint64]bool{}

func iss2(iss map[uint64]bool, next uint64) map[uint64]bool {
	r := map[uint64]bool{}
	for i := range iss {
		if i < next {
			r[i] = true
		}
	}
	return r
}

var faultModes = []vfs.Mode{vfs.FailBefore, vfs.Partial, vfs.FailAfter}

func (a *faultArg) image(f *Fix) *vfs.Image {
	switch a.Disk {
	case "none":
		return nil
	case "other":
		return fix(a.P, "old").image(0, 0)
	}
	ca := concArg{P: a.P, Start: a.Start, Warm: a.Warm, Drop: a.Drop, Damage: a.Damage}
	im := ca.image().Clone()
	if a.Disk == "nocache" {
		for n := range im.Files {
			if strings.HasSuffix(n, ".cache") {
				delete(im.Files, n)
			}
		}
	}
	return im
}

func init() {
	handle("fault", func(c *Ctx) {
		var a faultArg
		c.Arg(&a)
		f := fix(a.P, "")
		im := a.image(f)
		n := a.Len
		var first []string
		if a.First == "-" {
			n = 0
		} else if a.First != "" {
			first = strings.Fields(a.First)
			n -= len(first)
		}
		desc := fmt.Sprintf("%v at %d+%d, disk %q, dropped %v, damaged %v: ", a.P, a.Start, a.Warm, a.Disk, a.Drop, a.Damage)
		one := func(ops []string, fs []fault) ([]vfs.Op, bool) {
			if !c.Case(fmt.Sprintf("%s%s: %v", desc, strings.Join(ops, " "), fs)) {
				return nil, false
			}
			if c.Only != "" {
				killSeen = map[uint64]bool{}
			}
			bad, log, sig := a.run(f, im, ops, fs)
			c.Count("histories_with_faults", 1)
			c.Count("transitions", len(log))
			c.Count("traces_validated_against_impl", 1)
			if bad != "" {
				what := []string{}
				for _, x := range fs {
					o := "?"
					if x.n < len(log) {
						o = log[x.n].String()
					}
					what = append(what, fmt.Sprintf("%v of %v", x, o))
				}
				kind := "load"
				if a.Create {
					kind = "create"
				}
				c.Violation("%s%s %s with failing %s\n%s", desc, kind, strings.Join(ops, " "), strings.Join(what, ", "), bad)
				return nil, false
			}
			c.Sig(desc, sig)
			c.Sample("%s%s, failing %v: %.300s", desc, strings.Join(ops, " "), fs, sig)
			return log, true
		}
		seqs(strings.Fields(a.Ops), n, func(more []string) bool {
			if c.Stop() {
				return false
			}
			ops := append(append(append([]string(nil), first...), more...), "C")
			bad, log, _ := a.run(f, im, ops, nil)
			if bad != "" {
				c.Case(fmt.Sprintf("%s%s", desc, strings.Join(ops, " ")))
				c.Violation("%s%s without failures: %s", desc, strings.Join(ops, " "), bad)
				return false
			}
			total := len(log)
			c.Max("calls_per_history", total)
			// Failures in all but the last operations are seen with
			// shorter histories as well, but not what happens then.
			for i := 0; i < total; i++ {
				for _, m := range faultModes {
					if c.Stop() {
						return false
					}
					l, ok := one(ops, []fault{{i, m, a.Sticky}})
					if a.Pairs && c.Only != "" {
						l, ok = nil, true
						_, l, _ = a.run(f, im, ops, []fault{{i, m, false}})
					}
					if !a.Pairs || !ok {
						continue
					}
					for j := i + 1; j < len(l); j++ {
						for _, m2 := range faultModes {
							if c.Stop() {
								return false
							}
							one(ops, []fault{{i, m, false}, {j, m2, false}})
						}
					}
				}
			}
			return true
		})
	})
	register(&Check{
		ID: "C04", Level: "model_checking", Budget: [2]int{300, 3300},
		Rule:        "histories of operations up to a length; in each, every single call to the file system, to memory mapping, to the lock or to the random source (thorough: every pair) fails before, in the middle of or after taking effect, or it and all later ones fail; then the history goes on, the process is killed after every operation, and the key is closed and loaded again by the same process; and schedules of concurrent signers with a failing call; distinct = distinct (what happened, what was left on disk)",
		Assumptions: lifeAssume,
		Plan: func(t Tier) []Job {
			var js []Job
			add := func(a faultArg) {
				for _, op := range append(strings.Fields(a.Ops), "-") {
					b := a
					b.First = op
					js = append(js, mkjob("inst", "fault", b))
				}
			}
			t22, t33, t42 := tiny(2, 2), tiny(3, 3), tiny(4, 2)
			l := 3
			if t.Thorough {
				l = 4
			}
			for _, sticky := range []bool{false, true} {
				add(faultArg{P: t22, Ops: "S B2 B0", Len: l, Sticky: sticky})
				add(faultArg{P: t22, Ops: "S B2", Len: l - 1, Sticky: sticky, Power: true})
				add(faultArg{P: t33, Start: 1, Ops: "S B1", Len: l, Sticky: sticky})
				add(faultArg{P: t42, Start: 2, Warm: 1, Ops: "S", Len: l, Sticky: sticky})
				add(faultArg{P: t33, Start: 1, Ops: "S P", Len: l, Sticky: sticky})
				add(faultArg{P: t22, Disk: "none", Create: true, Ops: "S B2", Len: l - 1, Sticky: sticky})
				add(faultArg{P: t22, Disk: "other", Create: true, Ops: "S B2", Len: l - 1, Sticky: sticky})
				add(faultArg{P: t33, Disk: "none", Create: true, Ops: "S P", Len: l - 1, Sticky: sticky})
				add(faultArg{P: t22, Disk: "nocache", Ops: "S B2", Len: l - 1, Sticky: sticky})
				add(faultArg{P: t33, Drop: []string{"0/0"}, Ops: "S B2", Len: l - 1, Sticky: sticky})
				add(faultArg{P: t33, Drop: []string{"1/0"}, Ops: "S", Len: l - 1, Sticky: sticky})
				add(faultArg{P: t33, Drop: []string{"0/0", "1/0", "2/0"}, Ops: "S", Len: l - 1, Sticky: sticky})
				add(faultArg{P: t33, Damage: []string{"0/0", "1/0", "2/0"}, Ops: "S", Len: l - 1, Sticky: sticky})
				add(faultArg{P: t33, Damage: []string{"1/0"}, Ops: "S", Len: l - 1, Sticky: sticky})
				for _, a := range []ctrFaultArg{
					{P: t22, Ops: "S B2 B0", Len: 3},
					{P: t33, Start: 1, Ops: "S B1 P", Len: 3},
					{P: t33, Start: 3, NoTree: true, Ops: "S B2", Len: 3},
					{P: t22, Create: true, Ops: "S B2", Len: 2},
					{P: t33, Create: true, Ops: "S P", Len: 2},
				} {
					if t.Thorough {
						a.Len++
					}
					a.Sticky = sticky
					js = append(js, mkjob("inst", "ctrfault", a))
				}
			}
			for _, a := range []ctrFaultArg{
				{P: t22, Ops: "S B2 B0", Len: 2, Pairs: true},
				{P: t33, Start: 3, NoTree: true, Ops: "S", Len: 2, Pairs: true},
				{P: t22, Create: true, Ops: "S B2", Len: 2, Pairs: true},
			} {
				if t.Thorough {
					a.Len++
				}
				js = append(js, mkjob("inst", "ctrfault", a))
			}
			add(faultArg{P: big(40, 20), Start: 1<<32 - 1, Ops: "S", Len: l - 2})
			add(faultArg{P: t22, Ops: "S", Len: 1, Pairs: true})
			add(faultArg{P: tiny(2, 1), Ops: "S B2", Len: 1, Pairs: true})
			if t.Thorough {
				add(faultArg{P: t22, Ops: "S B2", Len: 2, Pairs: true})
				add(faultArg{P: tiny(2, 1), Ops: "S B2", Len: 2, Pairs: true})
				add(faultArg{P: t33, Start: 1, Ops: "S B1", Len: 2, Pairs: true})
				add(faultArg{P: t22, Disk: "none", Create: true, Ops: "S", Len: 1, Pairs: true})
				add(faultArg{P: t22, Disk: "nocache", Ops: "S", Len: 1, Pairs: true})
			}
			const tags = "reuse bytes valid stable memory panic"
			conc := []concArg{
				{P: t22, Threads: []string{"S", "S"}},
				{P: t22, Drop: []string{"0/0"}, Threads: []string{"S", "S"}},
				{P: t22, Drop: []string{"1/0"}, Threads: []string{"S", "S"}},
				{P: t22, Damage: []string{"0/0"}, Threads: []string{"S", "S"}},
				{P: tiny(4, 2), Start: 3, Threads: []string{"S S", "S"}},
				{P: t33, Start: 1, Pre: "P", Threads: []string{"S"}, Post: "S"},
				{P: tiny(2, 1), Threads: []string{"B2 S", "S"}},
				{P: tiny(4, 2), Start: 3, Threads: []string{"S S", "C"}},
			}
			for _, a := range conc {
				for i := 0; i < 24; i++ {
					for k, m := range faultModes {
						if k == 1 {
							continue
						}
						b := a
						b.Fault = i + 1
						b.FaultMode = int(m)
						b.FaultAll = false
						bound, dev := 1, 2
						if t.Thorough {
							bound, dev = 2, 3
						}
						js = append(js, concJobs(tags, bound, dev, "inst", b)...)
					}
					b := a
					b.Fault = i + 1
					b.FaultMode = int(vfs.FailBefore)
					b.FaultAll = true
					js = append(js, concJobs(tags, 1, 2, "inst", b)...)
				}
			}
			// Signers that fail and retire their numbers while the subtree
			// they would have needed is still being computed.
			for _, a := range []concArg{
				{P: t33, Start: 1, Pre: "P", Threads: []string{"S S S"}, Post: "S"},
				{P: t33, Start: 3, Pre: "P", Threads: []string{"S S S"}, Post: "S"},
				{P: tiny(4, 4), Start: 1, Pre: "P", Threads: []string{"S S S S S"}, Post: "S"},
				{P: t33, Start: 1, Threads: []string{"P S S", "S"}, Post: "S"},
			} {
				for i := 0; i < 3; i++ {
					b := a
					b.FaultKind, b.Fault, b.FaultAll, b.FaultMode = "mmap", i+1, true, int(vfs.FailBefore)
					bound := 1
					if t.Thorough {
						bound = 2
					}
					js = append(js, concJobs(tags, bound, 2, "inst", b)...)
				}
			}
			return js
		},
	})
}
