//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"

	xmssmt "github.com/bwesterb/go-xmssmt"
	"github.com/bwesterb/go-xmssmt/internal/verif/vfs"
	"github.com/bwesterb/go-xmssmt/internal/verif/vsync"
)

// Caching, precomputation and reservations save the work they promise (C27).
//
// Work is counted in statements executed by the library.  The unit is what it
// takes to create a key with a single subtree of the same height; a model tells which
// subtrees have to be computed in a step.

type workArg struct {
	P       P
	Start   uint64
	Warm    int `json:",omitempty"`
	Workers int `json:",omitempty"`
	Ops     string
	Len     int
	First   string `json:",omitempty"`
	// for schedules
	Pre     string   `json:",omitempty"`
	Threads []string `json:",omitempty"`
	Drop    []string `json:",omitempty"`
}

// workAllowed is the number of statements allowed for computing need subtrees,
// checking cached ones and other operations (in units of leaves).
func workAllowed(p P, unit float64, need, checks int, leaves float64) float64 {
	leaf := unit / float64(int(1)<<uint(p.H/p.D))
	return 1.15*unit*float64(need) + 1.5*leaf*float64(checks) + leaf*leaves
}

var workUnits = map[P]float64{}

// counting runs f as a process of its own and returns the number of statements
// executed.
func counting(w *World, n *int, f func()) string {
	vsync.TickFn = func() { *n++ }
	defer func() { vsync.TickFn = nil }()
	return managed(f)
}

// workUnit is the cost of one subtree; it compares that with the cost of verifying.
func workUnit(p P) (float64, string) {
	q := p
	q.H, q.D = p.H/p.D, 1
	if u, ok := workUnits[q]; ok {
		return u, ""
	}
	f := fix(q, "")
	w := world(nil)
	derive, verify := 0, 0
	var sk *xmssmt.PrivateKey
	var pk *xmssmt.PublicKey
	e := counting(w, &derive, func() {
		var err xmssmt.Error
		sk, pk, err = f.derive(w.path)
		must(err)
	})
	if e != "" {
		return 1, e
	}
	sigs := 0
	e = managed(func() {
		for i := 0; i < 4; i++ {
			s, err := sk.Sign([]byte(fmt.Sprint(i)))
			must(err)
			vsync.TickFn = func() { verify++ }
			ok, err := pk.Verify(s, []byte(fmt.Sprint(i)))
			vsync.TickFn = nil
			must(err)
			if ok {
				sigs++
			}
		}
		must(sk.Close())
	})
	w.end()
	if e != "" || sigs != 4 {
		return 1, "a signature does not verify: " + e
	}
	// A leaf takes all steps of all chains and their secrets, and verifying
	// about half the steps.
	leaf := float64(derive) / float64(int(1)<<uint(q.H))
	if r := leaf / (float64(verify) / 4); r > 2.8 {
		return 1, fmt.Sprintf("creating a key of one subtree takes %d statements, verifying %d: computing a leaf seems to cost %.2f verifications", derive, verify/4, r)
	} else {
		workRatio = r
	}
	if os.Getenv("HX_PROF") != "" {
		fmt.Fprintf(os.Stderr, "%v: unit %d, verification %d, ratio %.2f\n", q, derive, verify/4, workRatio)
	}
	workUnits[q] = float64(derive)
	return float64(derive), ""
}

var workRatio float64

type treeSet map[xmssmt.SubTreeAddress]bool

// path adds the subtrees needed for a number to the set and returns how many were not there.
func (s treeSet) path(p P, idx uint64) int {
	ht := uint(p.H / p.D)
	n := 0
	for l := 0; l < p.D; l++ {
		a := xmssmt.SubTreeAddress{Layer: uint32(l), Tree: idx >> (ht * uint(l+1))}
		if !s[a] {
			s[a] = true
			n++
		}
	}
	return n
}

func (a *workArg) image(f *Fix) (*vfs.Image, treeSet) {
	im := f.image(a.Start, a.Warm)
	have := treeSet{}
	im = edited(im, func(ctr xmssmt.PrivateKeyContainer) {
		for _, d := range a.Drop {
			must(ctr.DropSubTree(addrOf(d)))
		}
		l, err := ctr.ListSubTrees()
		must(err)
		for _, s := range l {
			have[s] = true
		}
	})
	return im, have
}

// run executes a history and returns what is wrong.
func (a *workArg) run(f *Fix, ops []string) (bad, sig string, steps int) {
	unit, bad := workUnit(a.P)
	if bad != "" {
		return
	}
	im, have := a.image(f)
	ht := uint(a.P.H / a.P.D)
	trees := uint64(1) << uint(a.P.H-int(ht))
	i := 0
	fails := func(f string, v ...any) {
		if bad == "" {
			bad = fmt.Sprintf(f, v...)
		}
	}
	first := true
	var sb strings.Builder
	for first || i < len(ops) && bad == "" {
		first = false
		w := world(im)
		w.fs.KeepLog = true
		n := 0
		need, checks, leaves := 0, 0, 0.0
		checked := treeSet{}
		what := "loading"
		pre := false
		kill, edit := false, ""
		// settle compares the work with what the model allows.
		settle := func() {
			if max := workAllowed(a.P, unit, need, checks, leaves); float64(n) > max {
				fails("%s takes %.2f times the work of computing a subtree, but only %d need to be computed and %d to be checked, which should take less than %.2f", what, float64(n)/unit, need, checks, max/unit)
			}
			steps++
			fmt.Fprintf(&sb, "%s:%.2f/%d,%d ", what, float64(n)/unit, need, checks)
			n, need, checks, leaves = 0, 0, 0, 0
		}
		next := func(tree uint64) int {
			if tree >= trees {
				return 0
			}
			checks += checked.path(a.P, tree<<ht)
			return have.path(a.P, tree<<ht)
		}
		e := counting(w, &n, func() {
			sk, pk, _, err := xmssmt.LoadPrivateKey(w.path)
			must(err)
			sk.Context().Threads = 1
			if a.Workers > 0 {
				sk.Context().Threads = a.Workers
			}
			root := xmssmt.SubTreeAddress{Layer: uint32(a.P.D - 1)}
			if !have[root] {
				need++
				have[root] = true
			}
			checked[root] = true
			checks++
			leaves++
			settle()
			var last *xmssmt.Signature
			for ; i < len(ops) && !kill && edit == ""; i++ {
				s := uint64(sk.SeqNo())
				op := ops[i]
				leaves += 1.2
				if pre {
					what += " " + op
				} else {
					what = fmt.Sprintf("after [%s] %s with number %d", strings.Join(ops[:i], " "), op, s)
				}
				switch op[0] {
				case 'S', 'F':
					if s >= f.max() {
						doOp(sk, op, op)
						break
					}
					need += have.path(a.P, s)
					checks += checked.path(a.P, s)
					if pre && (s+1)&(1<<ht-1) == 0 {
						need += next((s+1)>>ht + 1)
					}
					free := sk.BorrowedSeqNos() > 0
					before := len(w.fs.Log)
					r := doOp(sk, op, op)
					if op == "S" {
						must(r.err)
						last = r.sig
					}
					for _, o := range w.fs.Log[before:] {
						if free && !strings.HasSuffix(o.Path, ".cache") && !strings.HasSuffix(o.Path, ".lock") && o.Kind != "munmap" && o.Kind != "mmap" {
							fails("after [%s] signing with a reserved number makes the call %v", strings.Join(ops[:i], " "), o)
						}
					}
				case 'V':
					if last != nil {
						pk.Verify(last, []byte("S"))
						leaves += float64(a.P.D)
					}
				case 'P':
					pre = true
					what = "from enabling precomputation after [" + strings.Join(ops[:i], " ") + "]:"
					need += next(s>>ht + 1)
					doOp(sk, op, op)
				case 'L':
					edit = "-"
				case 'K':
					kill = true
				case 'X', 'O':
					edit = op
				default:
					must(doOp(sk, op, op).err)
				}
				if !pre {
					settle()
				}
			}
			if kill && !pre {
				im = dropLock(w.fs.Image())
				return
			}
			leaves++
			must(sk.Close())
			if pre {
				settle()
			}
			im = dropLock(w.fs.Image())
		})
		if e != "" {
			fails("%s", e)
		}
		if m := w.end(); m != "" {
			fails("%s", m)
		}
		if len(edit) > 1 && bad == "" { // damage or drop a subtree
			im = edited(im, func(ctr xmssmt.PrivateKeyContainer) {
				seq, _, err := ctr.GetSeqNo()
				must(err)
				l := int(edit[1] - '0')
				t := xmssmt.SubTreeAddress{Layer: uint32(l), Tree: uint64(seq) >> (ht * uint(l+1))}
				if !ctr.HasSubTree(t) {
					return
				}
				delete(have, t)
				if edit[0] == 'O' {
					must(ctr.DropSubTree(t))
					return
				}
				b, _, err := ctr.GetSubTree(t)
				must(err)
				b[3] ^= 1
			})
		}
	}
	return bad, sb.String(), steps
}

func init() {
	handle("work", func(c *Ctx) {
		var a workArg
		c.Arg(&a)
		f := fix(a.P, "")
		n := a.Len
		var first []string
		if a.First != "" {
			first = []string{a.First}
			n--
		}
		seqs(strings.Fields(a.Ops), n, func(rest []string) bool {
			if c.Stop() {
				return false
			}
			// Shorter histories are beginnings of longer ones.
			if len(rest) < n {
				return true
			}
			ops := append(append([]string(nil), first...), rest...)
			name := fmt.Sprintf("work, %v from %d+%d workers %d: %s", a.P, a.Start, a.Warm, a.Workers, strings.Join(ops, " "))
			if !c.Case(name) {
				return true
			}
			bad, sig, steps := a.run(f, ops)
			c.Count("transitions", steps)
			c.Count("traces_validated_against_impl", 1)
			if bad != "" {
				c.Violation("%s\n%s", name, bad)
				return true
			}
			c.SigHash(hashStr(name, sig))
			c.Sample("%s: %s", name, sig)
			return true
		})
	})
	scens["work"] = func(raw json.RawMessage) func([]int16) run {
		var a workArg
		if err := json.Unmarshal(raw, &a); err != nil {
			panic(err)
		}
		f := fix(a.P, "")
		unit, bad := workUnit(a.P)
		im, have0 := a.image(f)
		return func(prefix []int16) (out run) {
			have := treeSet{}
			for k := range have0 {
				have[k] = true
			}
			w := world(im)
			n, need, checks, leaves := 0, 0, 1, 1.0
			checked := treeSet{{Layer: uint32(a.P.D - 1)}: true}
			vsync.TickFn = func() { n++ }
			out.res = vsync.Run(prefix, 40*horizon, func() {
				sk, _, _, err := xmssmt.LoadPrivateKey(w.path)
				must(err)
				sk.Context().Threads = 1
				if a.Workers > 0 {
					sk.Context().Threads = a.Workers
				}
				s := uint64(sk.SeqNo())
				for _, op := range strings.Fields(a.Pre) {
					doOp(sk, op, op)
					leaves += 1.2
				}
				ht := uint(a.P.H / a.P.D)
				ahead := func(s uint64) { // the subtree after the one of s
					next := (s>>ht + 1) << ht
					need += have.path(a.P, next)
					checks += checked.path(a.P, next)
				}
				if strings.Contains(a.Pre, "P") {
					ahead(s)
				}
				var wg vsync.WaitGroup
				wg.Add(len(a.Threads))
				for i := range a.Threads {
					ops := strings.Fields(a.Threads[i])
					vsync.Go0(func() {
						defer wg.Done()
						for _, op := range ops {
							must(doOp(sk, op, op).err)
						}
					})
					leaves += 1.2 * float64(len(ops))
				}
				wg.Wait()
				end := uint64(sk.SeqNo())
				for ; s < end; s++ {
					if strings.Contains(a.Pre, "P") {
						ahead(s + 1)
					}
					need += have.path(a.P, s)
					checks += checked.path(a.P, s)
				}
				leaves++
				must(sk.Close())
			})
			vsync.TickFn = nil
			w.end()
			out.bad = bad
			if e := out.res.Err(); e != "" {
				out.sig = "failed" // not the subject here
				return
			}
			if max := workAllowed(a.P, unit, need, checks, leaves); float64(n) > max && out.bad == "" {
				out.bad = fmt.Sprintf("%v from %d, threads %q: all in all %.2f times the work of computing a subtree, but only %d need to be computed and %d to be checked, which should take less than %.2f", a.P, a.Start+uint64(a.Warm), a.Threads, float64(n)/unit, need, checks, max/unit)
			}
			out.sig = fmt.Sprintf("%d %.2f", need, float64(n)/unit)
			return
		}
	}
	register(&Check{
		ID: "C27", Level: "model_checking", Budget: [2]int{240, 3000},
		Rule:        "all histories of the stated length of signing, failing to sign, reserving, precomputing, verifying, closing and loading, being killed, and damaging or dropping a cached subtree, from positions around the ends of subtrees; a model says which subtrees have to be computed in each step, and the statements the real code executes are compared with that number of subtrees; calls to the environment while signing with a reserved number are compared with none; all schedules of concurrent signers up to a preemption bound have the same total; distinct = distinct histories with the work of each step",
		Assumptions: append([]string{"work is counted in executed statements of the package, in units of what deriving a key of one subtree takes, which itself is compared with the work of verifying"}, lifeAssume...),
		Plan: func(t Tier) []Job {
			var js []Job
			d := 0
			if t.Thorough {
				d = 1
			}
			add := func(a workArg) {
				for _, o := range strings.Fields(a.Ops) {
					b := a
					b.First = o
					js = append(js, mkjob("inst", "work", b))
				}
			}
			const all = "S B3 P L K F V X0 X1 O0"
			for _, s := range []uint64{0, 14, 15} {
				add(workArg{P: tiny(8, 2), Start: s, Ops: all, Len: 4 + d})
			}
			add(workArg{P: tiny(8, 2), Start: 0, Warm: 15, Ops: "S P L K B3", Len: 5 + d})
			add(workArg{P: tiny(8, 2), Start: 30, Workers: 3, Ops: "S P L X0", Len: 4 + d})
			add(workArg{P: tiny(8, 2), Start: 253, Ops: "S P L K", Len: 5 + d})
			add(workArg{P: tiny(4, 1), Start: 13, Ops: "S P L X0 O0", Len: 5 + d})
			add(workArg{P: tiny(12, 3), Start: 254, Ops: "S P L K X0 X1 X2 O1 O2", Len: 3 + d})
			add(workArg{P: tiny(35, 7), Start: 1<<32 - 2, Ops: "S P L", Len: 4 + d})
			add(workArg{P: P{1, 32, 8, 2, 16, false}, Start: 14, Ops: "S P L K X0", Len: 3 + d})
			add(workArg{P: P{2, 24, 8, 2, 4, true}, Start: 14, Ops: "S P L K X0", Len: 3 + d})
			b := 1 + d
			sc := func(a workArg) { js = append(js, schedJob("inst", "work", b, 2+d, false, a)) }
			sc(workArg{P: tiny(8, 2), Start: 16, Threads: []string{"S", "S"}})
			sc(workArg{P: tiny(8, 2), Start: 15, Threads: []string{"S S", "S"}})
			sc(workArg{P: tiny(8, 2), Start: 14, Pre: "P", Threads: []string{"S S", "S S"}})
			sc(workArg{P: tiny(8, 2), Drop: []string{"0/0", "1/0"}, Threads: []string{"S", "S", "S"}})
			sc(workArg{P: tiny(12, 3), Start: 255, Threads: []string{"S", "S S"}})
			return js
		},
	})
}
