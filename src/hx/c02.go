//go:build go1.21

package main

const c02Tags = "reuse bytes valid stable acct end order load close memory panic note"

func concScenarios() []concArg {
	p22, p21 := tiny(2, 2), tiny(2, 1)
	return []concArg{
		// fresh key, cached but not yet checked subtrees
		{P: p22, Threads: []string{"S", "S"}},
		{P: p21, Threads: []string{"S Q", "S Q"}},
		// a subtree is missing
		{P: p22, Drop: []string{"0/0"}, Threads: []string{"S", "S"}},
		{P: p22, Drop: []string{"1/0"}, Threads: []string{"S", "S"}},
		{P: p22, Drop: []string{"0/0", "1/0"}, Threads: []string{"S", "S"}},
		// a cached subtree is damaged
		{P: p22, Damage: []string{"0/0"}, Threads: []string{"S", "S"}},
		{P: p22, Damage: []string{"1/0"}, Threads: []string{"S", "S"}},
		{P: p22, Damage: []string{"0/0", "1/0"}, Threads: []string{"S", "S"}},
		// crossing into the next subtree, while the previous one is dropped
		{P: tiny(4, 2), Start: 3, Threads: []string{"S S", "S"}},
		{P: tiny(3, 3), Start: 3, Threads: []string{"S", "S"}},
		{P: p22, Start: 1, Threads: []string{"S", "S"}},
		// reserving
		{P: p21, Threads: []string{"B2 S", "S Q"}, Kills: true},
		{P: p21, Threads: []string{"B3", "B1"}, Kills: true},
		{P: p21, Pre: "B2", Threads: []string{"S", "S", "Q"}, Kills: true},
		{P: p21, Pre: "B1", Threads: []string{"I2,0", "S"}, Kills: true},
		{P: p21, Threads: []string{"I2,0 S", "I2,1 S"}, Kills: true},
		// failing readers
		{P: p22, Threads: []string{"F S", "S"}},
		// precomputation
		{P: tiny(3, 3), Start: 1, Pre: "P", Threads: []string{"S", "S"}},
	}
}

func c02Plan(t Tier) []Job {
	var js []Job
	add := func(build string, bound, dev int, a concArg) {
		a.Tags = c02Tags
		js = append(js, schedJob(build, "conc", bound, dev, false, a))
	}
	for _, a := range concScenarios() {
		b := 2
		if t.Thorough {
			b = 3
		}
		dev := 0
		if a.Pre == "P" && !t.Thorough {
			dev = 2
		}
		add("inst", b, dev, a)
		if t.Thorough {
			add("race", 2, 0, a)
		} else {
			add("race", 1, 2, a)
		}
	}
	three := []concArg{
		{P: tiny(2, 2), Threads: []string{"S", "S", "S"}},
		{P: tiny(2, 2), Damage: []string{"0/0"}, Threads: []string{"S", "S", "S"}},
		{P: tiny(2, 2), Drop: []string{"1/0"}, Threads: []string{"S", "S", "Q"}},
		// all in the same subtree
		{P: tiny(4, 2), Drop: []string{"0/0"}, Threads: []string{"S", "S", "S"}},
		{P: tiny(4, 2), Damage: []string{"0/0"}, Threads: []string{"S", "S", "S"}},
		{P: tiny(4, 2), Damage: []string{"0/0", "1/0"}, Threads: []string{"S", "S", "S"}},
	}
	for _, a := range three {
		d := 2
		if t.Thorough {
			d = 3
		}
		add("inst", 2, d, a)
		if !t.Thorough {
			d = 1
		}
		add("race", 1, d, a)
	}
	return js
}

func init() {
	register(&Check{
		ID: "C02", Level: "model_checking",
		Rule:        "stateless search over schedules: every schedule of the scenario with at most the given number of preemptions (2; thorough 3) and, where stated, of deviations from the default schedule, is run on the real code under a controlled scheduler (a scheduling point at every lock, unlock, wait, signal, file system call and goroutine start), once in the instrumented build and once under the race detector; distinct = distinct outcomes of a scenario",
		Assumptions: append([]string{"between scheduling points a goroutine runs undisturbed; the race detector covers accesses in between"}, lifeAssume...),
		Plan:        c02Plan,
	})
}
