package main

import (
	"runtime"
	"strings"
)

// C26: the history of the host process doesn't matter. Several interpreters,
// each with suspended and abandoned scripts, run interleaved (also one from within
// a native command of another), sharing parsed and compiled scripts; each must
// behave as it does alone.
func init() {
	register(&Check{ID: "C26", Quick: 40000, Deep: 1500000,
		Rule: "a case is a history: several interpreters with several suspended, finished, failed or abandoned scripts each, run in random interleaving, also from within commands of each other, reusing parsed and compiled scripts; every operation of every interpreter is compared with the reference interpreter running that track alone; objects recycled by the implementation are watched; distinct = distinct histories",
		Run:  historyCase})
}

func historyCase(c *Ctx) {
	var tracks []*track
	n := 1 + c.R.IntN(3)
	for i := 0; i < n; i++ {
		tracks = append(tracks, genTrack(c, "interpreter "+string(rune('A'+i)), 1+c.R.IntN(3)))
	}
	// Twins run the same scripts with other interruptions
	for i := 0; i < n; i++ {
		for c.R.IntN(2) == 0 {
			a := tracks[i]
			b := &track{name: a.name + "'", o: a.o}
			for _, th := range a.threads {
				var l []tstep
				for _, s := range th {
					if c.R.IntN(6) == 0 {
						s.limit = 1 + c.R.IntN(3)
					}
					l = append(l, s)
				}
				b.threads = append(b.threads, l)
			}
			b.makeOrder(c.R)
			tracks = append(tracks, b)
		}
	}
	var text strings.Builder
	for _, t := range tracks {
		text.WriteString(t.text())
	}
	c.Input(text.String())
	for _, t := range tracks {
		t.expect()
		if t.why != "" {
			c.Count("undecided: "+t.why, 1)
		}
	}
	policy := poolPolicies[c.R.IntN(len(poolPolicies))]
	poolStart(policy, c.R.Uint64())
	c.Count("recycling "+policy, 1)
	progs := &programs{m: map[string]sharedProg{}}
	var rs []*runner
	for _, t := range tracks {
		rs = append(rs, newRunner(t, c.R, progs))
	}
	nested := pick(c.R, []int{0, 0, 5, 20, 50})
	depth := 0
	ops, inner := 0, 0
	fail := ""
	pickRunner := func() *runner {
		for k := 0; k < 4; k++ {
			x := rs[c.R.IntN(len(rs))]
			if !x.busy && !x.done() {
				return x
			}
		}
		for _, x := range rs {
			if !x.busy && !x.done() {
				return x
			}
		}
		return nil
	}
	run := func(x *runner) {
		ops++
		if d := x.step(); d != "" && fail == "" {
			fail = d
		}
	}
	for _, x := range rs {
		x.inside = func() {
			if fail == "" && depth < 3 && c.R.IntN(100) < nested {
				if y := pickRunner(); y != nil {
					depth++
					inner++
					run(y)
					depth--
				}
			}
		}
	}
	burst := c.R.IntN(3) == 0
	for fail == "" {
		x := pickRunner()
		if x == nil {
			break
		}
		run(x)
		for burst && fail == "" && !x.done() && c.R.IntN(6) > 0 {
			run(x)
		}
		if c.R.IntN(400) == 0 {
			runtime.GC()
		}
	}
	st, bad := poolEnd()
	for k, v := range st {
		c.Count(k, v)
	}
	if fail != "" {
		c.Fail("history", "%s", fail)
		return
	}
	if bad != "" {
		c.Fail("recycled object", "%s", bad)
		return
	}
	for _, x := range rs {
		if a := x.s.altered(); a != "" {
			c.Fail("altered value", "%s: %s", x.t.name, a)
			return
		}
		c.Count("values watched", len(x.s.kept))
		c.Count("scripts finished", x.finished)
		c.Count("suspensions", x.yields)
		c.Count("scripts abandoned", x.left)
		c.Count("programs reused", x.reused)
		c.Count("error levels compared", x.levels)
	}
	c.Count("operations", ops)
	c.Count("operations within commands of another interpreter", inner)
	c.Count("interpreters", len(rs))
	c.Eval(text.String())
}
