//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"time"

	"github.com/bwesterb/go-xmssmt/internal/verif/vsync"
)

// Exploration of schedules.  A scenario runs the code under test under the
// controlled scheduler, following a prefix of choices.  All schedules with a
// bounded number of preemptions and of deviations from the default schedule
// are run: each run is extended by every alternative choice at each of its
// scheduling points after the prefix.

type schedArgs struct {
	Scen   string
	Arg    json.RawMessage `json:",omitempty"`
	Bound  int             // preemptions
	Dev    int             // deviations from the default schedule (0: any)
	Ticks  bool            `json:",omitempty"` // statements are scheduling points too
	Start  []int16         `json:",omitempty"`
	Splits int             `json:",omitempty"`
}

// run is one execution.
type run struct {
	res  *vsync.Result
	bad  string // what is wrong, if anything
	sig  string // outcome
	fact []string
}

type scenario func(arg json.RawMessage) func(prefix []int16) run

var scens = map[string]scenario{}

// sched is a job that explores the schedules of a scenario.
func schedJob(build, scen string, bound, dev int, ticks bool, arg any) Job {
	b, err := json.Marshal(arg)
	if err != nil {
		panic(err)
	}
	return mkjob(build, "sched", schedArgs{Scen: scen, Arg: b, Bound: bound, Dev: dev, Ticks: ticks})
}

func init() {
	handle("sched", func(c *Ctx) {
		var a schedArgs
		c.Arg(&a)
		f := scens[a.Scen](a.Arg)
		c.explore(a, f)
	})
}

func devs(p []int16) int {
	n := 0
	for _, x := range p {
		if x != 0 {
			n++
		}
	}
	return n
}

func (c *Ctx) explore(a schedArgs, f func(prefix []int16) run) {
	name := func(p []int16) string {
		n := fmt.Sprintf("%s %s %v", a.Scen, a.Arg, p)
		if a.Ticks {
			n += " at statements"
		}
		return n
	}
	if c.Only != "" {
		// the case tells the prefix
		var p []int16
		for i := len(c.Only) - 1; i >= 0; i-- {
			if c.Only[i] == '[' {
				s := c.Only[i+1:]
				for len(s) > 0 && s[0] != ']' {
					var n int
					k, _ := fmt.Sscan(s, &n)
					if k != 1 {
						break
					}
					p = append(p, int16(n))
					for len(s) > 0 && s[0] >= '0' && s[0] <= '9' {
						s = s[1:]
					}
					for len(s) > 0 && s[0] == ' ' {
						s = s[1:]
					}
				}
				break
			}
		}
		if name(p) != c.Only {
			return
		}
		c.Case(c.Only)
		races := vsync.RaceErrors()
		vsync.PointAtTicks = a.Ticks
		r := f(p)
		vsync.PointAtTicks = false
		if vsync.RaceErrors() != races {
			c.Violation("data race (the report is on standard error)")
		}
		if r.bad != "" {
			c.Violation("%s", r.bad)
		}
		return
	}
	stack := [][]int16{a.Start}
	runs := 0
	begin := time.Now()
	for len(stack) > 0 {
		if c.Stop() {
			return
		}
		if (runs >= 200 || time.Since(begin) > 1500*time.Millisecond) && len(stack) > 1 && runs > 0 {
			// hand out the rest
			for _, p := range stack {
				b := a
				b.Start = p
				c.More(mkjob(c.Build, "sched", b))
			}
			return
		}
		p := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		c.Case(name(p))
		races := vsync.RaceErrors()
		vsync.PointAtTicks = a.Ticks
		r := f(p)
		vsync.PointAtTicks = false
		runs++
		c.Count("schedules", 1)
		if a.Ticks {
			c.Count("schedules_at_statements", 1)
		}
		if vsync.RaceEnabled {
			c.Count("schedules_race_detector", 1)
		}
		if r.res == nil {
			// nothing to explore (set-up failed)
			if r.bad != "" {
				c.Violation("%s", r.bad)
			}
			continue
		}
		c.Count("transitions", r.res.Steps)
		c.Count("traces_validated_against_impl", 1)
		c.Max("threads", r.res.Threads)
		c.Max("points_per_schedule", len(r.res.Points))
		if r.res.Diverged {
			c.Out.Notes = append(c.Out.Notes, "a schedule could not be followed")
			c.Out.Capped = true
			continue
		}
		if vsync.RaceErrors() != races {
			c.Violation("data race (the report is on standard error)")
			continue
		}
		if r.bad != "" {
			c.Violation("%s", r.bad)
			continue
		}
		c.Sig(a.Scen, string(a.Arg), r.sig)
		c.Sample("%s: schedule %v: %s", a.Scen, p, r.sig)
		pre := r.res.Preempt(len(p))
		nd := devs(p)
		for i := len(p); i < len(r.res.Points); i++ {
			pt := r.res.Points[i]
			cost := 0
			if pt.CurEnabled {
				cost = 1
			}
			if pre+cost <= a.Bound && (a.Dev == 0 || nd+1 <= a.Dev) {
				for k := int16(1); k < pt.N; k++ {
					q := make([]int16, i+1)
					copy(q, p)
					q[i] = k
					stack = append(stack, q)
				}
			}
		}
	}
}
