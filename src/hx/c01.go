//go:build go1.21

package main

import "fmt"

// The checks that look at histories of a key: C01, C05, C16, C20, C21.

func lifePlan(cfgs ...lifeCfg) []Job {
	var js []Job
	for _, c := range cfgs {
		js = append(js, mkjob("inst", "life", lifeJob{Cfg: c}))
	}
	return js
}

func concJobs(tags string, bound, dev int, builds string, as ...concArg) []Job {
	var js []Job
	for _, a := range as {
		a.Tags = tags
		js = append(js, schedJob(builds, "conc", bound, dev, false, a))
	}
	return js
}

const lifeRule = "explicit-state search: a state is what can be on disk (the bytes of all files) together with the numbers handed out and the values signed per one-time key; a transition is a session with the real code (load, a sequence of operations, then Close, a kill after or a kill at any file system change or statement during the last operation); distinct = states, deduplicated by content"

var lifeAssume = []string{
	"file system, lock file and memory mapping are an in-memory model with the semantics of the real ones (the uninstrumented build runs the same histories against the real ones in C15)",
	"the hash functions behave as in RFC 8391; expected signatures come from an independent implementation",
}

func big(h, d int) P { return P{0, 16, h, d, 4, false} }

func init() {
	register(&Check{
		ID: "C01", Level: "model_checking", Rule: lifeRule, Assumptions: lifeAssume, Budget: [2]int{240, 3000},
		Plan: func(t Tier) []Job {
			js := lifePlan(
				lifeCfg{P: tiny(2, 2), Ops: "S B0 B1 B3 I2,1", Len: 3, Len2: 2, Tags: "reuse"},
				lifeCfg{P: tiny(2, 1), Ops: "S B0 B2 I2,0", Len: 2, Tags: "reuse", Age: 3, Ticks: true},
				lifeCfg{P: tiny(3, 3), Ops: "S B0 B2 P", Len: 3, Len2: 2, Age: 2, Tags: "reuse"},
				lifeCfg{P: tiny(4, 2), Start: 3, Ops: "S B0 B2", Len: 3, Len2: 2, Age: 3, Tags: "reuse"},
				lifeCfg{P: big(40, 20), Start: 1<<32 - 2, Ops: "S B2", Len: 3, Len2: 1, Age: 2, Tags: "reuse"},
				lifeCfg{P: big(60, 30), Start: 1<<40 - 1, Ops: "S B2", Len: 2, Len2: 1, Age: 2, Tags: "reuse"},
				lifeCfg{P: big(40, 20), Start: 1<<32 - 2, Ops: "S B0 B65536 B2147483648 B2147483649", Len: 3, Len2: 1, Age: 3, Tags: "reuse"},
				lifeCfg{P: P{1, 32, 2, 1, 16, false}, Ops: "S B2", Len: 2, Age: 2, Tags: "reuse"},
			)
			js = append(js, concJobs("reuse", 2, 0, "inst",
				concArg{P: tiny(2, 1), Threads: []string{"B2 S", "S"}, Kills: true},
				concArg{P: tiny(2, 1), Threads: []string{"B1 S", "B0 S"}, Kills: true},
				concArg{P: tiny(2, 1), Pre: "B2", Threads: []string{"S", "S", "B0"}, Kills: true},
				concArg{P: tiny(2, 1), Pre: "B1", Threads: []string{"I2,0", "S"}, Kills: true},
				concArg{P: tiny(2, 1), Pre: "B2 S", Threads: []string{"S", "S", "S"}, Kills: true},
				concArg{P: tiny(2, 2), Pre: "P", Threads: []string{"S S", "S"}, Kills: true},
			)...)
			if t.Thorough {
				js = append(js, lifePlan(
					lifeCfg{P: tiny(2, 1), Ops: "S B0 B1 B2 B3 I2,0 I3,1", Len: 4, Len2: 2, Tags: "reuse"},
					lifeCfg{P: tiny(3, 3), Ops: "S B0 B2 I2,1", Len: 3, Len2: 2, Tags: "reuse"},
					lifeCfg{P: tiny(3, 1), Ops: "S B0 B1 B3 I2,1", Len: 3, Len2: 2, Tags: "reuse"},
					lifeCfg{P: tiny(2, 2), Ops: "S B0 B2 P", Len: 2, Tags: "reuse", Age: 3, Ticks: true},
				)...)
				js = append(js, concJobs("reuse", 3, 0, "inst",
					concArg{P: tiny(2, 1), Threads: []string{"B2 S", "S"}, Kills: true},
					concArg{P: tiny(3, 1), Threads: []string{"B1 S", "B0 S", "S"}, Kills: true},
					concArg{P: tiny(3, 1), Pre: "B2 S", Threads: []string{"S", "S", "S I2,0"}, Kills: true},
				)...)
			}
			return js
		},
	})
	register(&Check{
		ID: "C16", Level: "model_checking", Rule: lifeRule, Assumptions: lifeAssume, Budget: [2]int{240, 3000},
		Plan: func(t Tier) []Job {
			const tags = "acct load panic"
			js := lifePlan(
				lifeCfg{P: tiny(2, 1), Ops: "S B0 B1 B2 I2,0 I1,1", Len: 3, Len2: 2, Tags: tags},
				lifeCfg{P: tiny(3, 1), Ops: "S B0 B2 B5", Len: 4, Len2: 2, Age: 2, Tags: tags},
				lifeCfg{P: tiny(2, 1), Ops: "S B0 B2", Len: 2, Age: 2, Tags: tags, Ticks: true},
				lifeCfg{P: big(40, 20), Start: 1<<32 - 2, Ops: "S B0 B4294967295 B4294967290 B3", Len: 3, Len2: 2, Age: 3, NoMid: true, Tags: tags},
			)
			js = append(js, concJobs(tags, 2, 0, "inst",
				concArg{P: tiny(2, 1), Threads: []string{"B2 S", "S Q"}},
				concArg{P: tiny(2, 1), Threads: []string{"I2,0 S", "I2,1 S"}},
				concArg{P: tiny(3, 1), Threads: []string{"B3 S", "B1 S"}},
				concArg{P: tiny(3, 1), Threads: []string{"I2,0", "I2,0", "S"}},
				concArg{P: tiny(3, 1), Pre: "B2 S", Threads: []string{"B0", "S", "S"}},
				concArg{P: tiny(3, 1), Pre: "B1", Threads: []string{"F", "S", "B2"}},
			)...)
			if t.Thorough {
				js = append(js, lifePlan(
					lifeCfg{P: tiny(2, 2), Ops: "S B0 B1 B2 B3 I2,0 I3,1", Len: 3, Len2: 2, Tags: tags},
					lifeCfg{P: tiny(3, 1), Ops: "S B0 B1 B3 I2,1", Len: 3, Len2: 2, Tags: tags},
				)...)
			}
			return js
		},
	})
	register(&Check{
		ID: "C05", Level: "model_checking", Rule: lifeRule, Assumptions: lifeAssume, Budget: [2]int{240, 3000},
		Plan: func(t Tier) []Job {
			const tags = "valid next stable load pk panic end"
			js := lifePlan(
				lifeCfg{P: tiny(2, 2), Ops: "S B2 P", Len: 3, Len2: 2, Tags: tags},
				lifeCfg{P: tiny(3, 3), Ops: "S B1 P", Len: 3, Len2: 2, Age: 2, Tags: tags},
				lifeCfg{P: tiny(4, 2), Start: 2, Ops: "S P", Len: 4, Len2: 2, Age: 2, Tags: tags},
				lifeCfg{P: tiny(4, 4), Start: 6, Ops: "S P", Len: 4, Len2: 2, Age: 2, Tags: tags},
				lifeCfg{P: tiny(6, 3), Start: 14, Ops: "S P", Len: 4, Len2: 1, Age: 2, Tags: tags},
				lifeCfg{P: tiny(3, 1), Ops: "S B1", Len: 4, Len2: 2, Age: 2, Tags: tags},
				lifeCfg{P: big(40, 20), Start: 1<<32 - 2, Ops: "S P", Len: 4, Len2: 1, Age: 2, Tags: tags},
				lifeCfg{P: big(60, 30), Start: 1<<58 - 2, Ops: "S", Len: 4, Len2: 1, Age: 2, Tags: tags},
			)
			for _, p := range []P{{0, 32, 2, 2, 16, false}, {0, 64, 2, 2, 16, false}, {1, 32, 2, 2, 16, false},
				{1, 64, 2, 1, 16, false}, {2, 32, 2, 2, 16, false}, {0, 24, 2, 2, 16, true}, {2, 24, 2, 2, 16, true},
				{1, 16, 2, 2, 4, false}, {0, 32, 2, 1, 256, false}, {0, 16, 2, 2, 256, false}, {0, 32, 2, 2, 4, true},
				{1, 32, 2, 2, 256, false}, {1, 24, 2, 2, 16, false}, {2, 24, 2, 1, 4, false}} {
				js = append(js, lifePlan(lifeCfg{P: p, Ops: "S P", Len: 3, Len2: 1, Age: 2, NoMid: true, Tags: tags})...)
			}
			js = append(js, concJobs("valid bytes stable order pk panic", 2, 0, "inst",
				concArg{P: tiny(4, 2), Start: 3, Threads: []string{"S", "S"}},
				concArg{P: tiny(3, 3), Start: 3, Threads: []string{"S", "S"}},
				concArg{P: tiny(2, 2), Start: 1, Pre: "P", Threads: []string{"S", "S"}},
				concArg{P: tiny(4, 2), Start: 2, Threads: []string{"S S", "S"}, Drop: []string{"0/0"}},
			)...)
			if t.Thorough {
				js = append(js, lifePlan(
					lifeCfg{P: tiny(3, 3), Ops: "S B1 P", Len: 3, Len2: 2, Tags: tags},
					lifeCfg{P: tiny(4, 2), Ops: "S P", Len: 3, Len2: 2, Tags: tags},
					lifeCfg{P: tiny(4, 4), Ops: "S P", Len: 3, Len2: 2, Age: 6, Tags: tags},
				)...)
				js = append(js, concJobs("valid bytes stable order pk panic", 3, 0, "inst",
					concArg{P: tiny(4, 2), Start: 3, Threads: []string{"S", "S"}},
					concArg{P: tiny(3, 3), Start: 3, Pre: "P", Threads: []string{"S", "S"}},
				)...)
			}
			return js
		},
	})
	register(&Check{
		ID: "C20", Level: "model_checking", Rule: lifeRule, Assumptions: lifeAssume, Budget: [2]int{240, 3000},
		Plan: func(t Tier) []Job {
			const tags = "end next reuse load panic"
			var js []Job
			for h := 1; h <= 6; h++ {
				for d := 1; d <= h; d++ {
					if h%d != 0 || h/d > 4 {
						continue
					}
					start := uint64(0)
					if h > 2 {
						start = 1<<uint(h) - 4
					}
					js = append(js, lifePlan(
						lifeCfg{P: tiny(h, d), Start: start, Ops: "S B2", Len: 3, Len2: 2, Tags: tags, NoMid: h > 3},
					)...)
				}
			}
			for _, p := range []P{big(60, 60), big(60, 30), big(40, 20), big(40, 40), big(33, 33), big(32, 32), big(32, 16), big(31, 31), big(62, 31), big(20, 10), big(16, 16), big(56, 28)} {
				for _, s := range []uint64{3, 1} {
					js = append(js, lifePlan(lifeCfg{P: p, Start: 1<<uint(p.H) - 1 - s, Ops: "S B2", Len: 4, Len2: 2, Age: 2, NoMid: true, Tags: tags})...)
				}
				js = append(js, lifePlan(lifeCfg{P: p, Start: 1<<uint(p.H) - 1, Ops: "S B2", Len: 3, Len2: 2, Age: 2, NoMid: true, Tags: tags})...)
			}
			// whole lives
			for h := 1; h <= 6; h++ {
				for d := 1; d <= h; d++ {
					if h%d == 0 && h/d <= 6 {
						for _, k := range []int{1, 3, 100} {
							js = append(js, mkjob("inst", "whole", wholeArg{tiny(h, d), k}))
						}
					}
				}
			}
			js = append(js, mkjob("inst", "whole", wholeArg{tiny(8, 4), 1000}), mkjob("inst", "whole", wholeArg{tiny(8, 8), 7}))
			js = append(js, concJobs("end reuse panic load", 2, 0, "inst",
				concArg{P: tiny(2, 1), Start: 2, Threads: []string{"S", "S", "S"}},
				concArg{P: tiny(2, 1), Start: 1, Threads: []string{"S S", "S S"}},
				concArg{P: tiny(2, 2), Start: 1, Pre: "B2", Threads: []string{"S S", "S"}},
				concArg{P: tiny(3, 3), Start: 6, Pre: "P", Threads: []string{"S", "S"}},
				concArg{P: tiny(2, 1), Start: 2, Threads: []string{"B5 S", "S"}},
			)...)
			// numbers that are out of range are never used
			for _, p := range []P{tiny(2, 1), tiny(2, 2), tiny(3, 3), tiny(4, 2), big(16, 16), big(31, 31), big(32, 16), big(32, 32), big(33, 33), big(60, 30)} {
				max := uint64(1)<<uint(p.H) - 1
				for _, n := range []uint64{max + 1, max + 2, max + 1 + max/2, 2*max + 1, 2*max + 2, 1 << 62, 1 << 63, 1<<64 - 1} {
					if n < max {
						continue
					}
					for _, pre := range []string{"", "B2", "S P"} {
						js = append(js, concJobs("end panic load", 1, 0, "inst",
							concArg{P: p, Pre: fmt.Sprintf("%s D%d", pre, n), Threads: []string{"S", "B1 S"}})...)
					}
				}
			}
			if t.Thorough {
				js = append(js, lifePlan(
					lifeCfg{P: tiny(3, 1), Ops: "S B0 B1 B3", Len: 3, Len2: 2, Tags: tags},
					lifeCfg{P: tiny(3, 3), Ops: "S B2 P", Len: 3, Len2: 2, Tags: tags},
				)...)
				js = append(js, mkjob("inst", "whole", wholeArg{tiny(10, 5), 3}), mkjob("inst", "whole", wholeArg{tiny(10, 2), 100}),
					mkjob("inst", "whole", wholeArg{tiny(12, 4), 500}))
			}
			return js
		},
	})
	register(&Check{
		ID: "C21", Level: "model_checking", Rule: lifeRule, Assumptions: lifeAssume, Budget: [2]int{240, 3000},
		Plan: func(t Tier) []Job {
			const tags = "bytes pk panic load"
			js := lifePlan(
				lifeCfg{P: tiny(2, 2), Ops: "S B2 P", Len: 3, Len2: 2, Tags: tags},
				lifeCfg{P: tiny(3, 3), Ops: "S B1 P", Len: 3, Len2: 2, Age: 2, Tags: tags},
				lifeCfg{P: tiny(4, 2), Start: 2, Ops: "S P", Len: 4, Len2: 2, Age: 2, Tags: tags},
				lifeCfg{P: tiny(6, 3), Start: 14, Ops: "S P", Len: 4, Len2: 1, Age: 2, Tags: tags},
				lifeCfg{P: big(40, 20), Start: 1<<32 - 2, Ops: "S P", Len: 4, Len2: 1, Age: 2, Tags: tags},
				lifeCfg{P: tiny(2, 2), Ops: "S P", Len: 2, Age: 2, Tags: tags, Ticks: true},
			)
			drops := [][]string{{"0/0"}, {"1/0"}, {"2/0"}, {"0/0", "1/0"}, {"0/0", "2/0"}, {"1/0", "2/0"}, {"0/0", "1/0", "2/0"}}
			for _, d := range drops {
				js = append(js, concJobs(tags, 1, 1, "inst",
					concArg{P: tiny(3, 3), Drop: d, Threads: []string{"S S", "S"}},
					concArg{P: tiny(3, 3), Damage: d, Threads: []string{"S S"}},
				)...)
			}
			dev := 2
			if t.Thorough {
				dev = 0
			}
			js = append(js, concJobs(tags, 2, dev, "inst",
				concArg{P: tiny(3, 3), Start: 3, Pre: "P", Threads: []string{"S", "S"}})...)
			js = append(js, concJobs(tags, 2, 0, "inst",
				concArg{P: tiny(4, 2), Start: 3, Drop: []string{"1/0"}, Threads: []string{"S", "S"}},
				concArg{P: tiny(2, 2), Start: 1, Threads: []string{"S", "S"}, Workers: 2},
				concArg{P: tiny(2, 1), Pre: "B2", Threads: []string{"S", "S"}, Drop: []string{"0/0"}, Workers: 2},
			)...)
			js = append(js, concJobs(tags, 1, 1, "inst",
				concArg{P: tiny(6, 1), Drop: []string{"0/0"}, Threads: []string{"S"}, Workers: 2})...)
			if t.Thorough {
				js = append(js, concJobs(tags, 1, 2, "inst",
					concArg{P: tiny(6, 1), Drop: []string{"0/0"}, Threads: []string{"S", "S"}, Workers: 2})...)
				js = append(js, lifePlan(
					lifeCfg{P: tiny(3, 3), Ops: "S B1 P", Len: 3, Len2: 2, Tags: tags},
					lifeCfg{P: tiny(4, 2), Ops: "S P", Len: 3, Len2: 2, Tags: tags},
				)...)
				for _, d := range drops {
					js = append(js, concJobs(tags, 2, 0, "inst",
						concArg{P: tiny(3, 3), Drop: d, Threads: []string{"S S", "S"}},
						concArg{P: tiny(3, 3), Damage: d, Threads: []string{"S", "S"}},
					)...)
				}
			}
			return js
		},
	})

	handle("whole", func(c *Ctx) {
		var a wholeArg
		c.Arg(&a)
		wholeLife(c, a)
	})
}

// wholeArg is the whole life of a key, with a restart every so many signatures.
type wholeArg struct {
	P     P
	Every int
}

func wholeLife(c *Ctx, a wholeArg) {
	if !c.Case(fmt.Sprintf("whole life of %v, restarted every %d signatures", a.P, a.Every)) {
		return
	}
	f := fix(a.P, "")
	im := f.image(0, 0)
	carry := Carry{Exact: true}
	for n := 0; n < 1<<uint(a.P.H)+1000; n++ {
		w := world(im)
		s := newSess(f, w, carry, 2)
		s.tags = "end"
		before := s.next
		e := managed(func() {
			if !s.load(carry) {
				return
			}
			before = s.next
			for i := 0; i < a.Every && len(s.finds) == 0 && i < 1<<uint(a.P.H)+3; i++ {
				if i%4 == 3 {
					s.borrow(uint32(i%3) + 1)
				}
				s.sign()
			}
			if s.sk != nil {
				s.op("C")
			}
		})
		im = dropLock(w.fs.Image())
		w.end()
		if e != "" {
			c.Violation("%s", e)
			return
		}
		for _, x := range s.finds {
			c.Violation("%s", x.msg)
			return
		}
		c.Count("sessions", 1)
		c.Count("transitions", int(s.next-before)+2)
		c.Count("traces_validated_against_impl", 1)
		if s.sk == nil {
			c.Violation("the key cannot be loaded any more after %d signatures", s.next)
			return
		}
		carry = s.carry(carry, true, false)
		if s.next == before {
			break
		}
	}
	if carry.Next != f.max() || uint64(len(carry.Issued)) != f.max() {
		c.Violation("the key made %d signatures (next number %d) instead of %d", len(carry.Issued), carry.Next, f.max())
	}
	c.Sig(a.P, a.Every, len(carry.Issued))
	c.Sample("whole life of %v, restarted every %d signatures: %d signatures", a.P, a.Every, len(carry.Issued))
}
