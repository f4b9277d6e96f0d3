package main

// Free-form differential exploration, not a registered property: used while
// developing (-id X00)
func init() {
	register(&Check{ID: "X00", Rule: "development", Quick: 20000, Deep: 200000, Run: func(c *Ctx) {
		topics := []string{"basic", "num", "str", "list", "dict", "logic", "if", "loop", "catch", "var", "call", "argspec", "co", "ns", "ens", "alias", "script", "help", "word"}
		var ts []string
		for i, k := 0, 1+c.R.IntN(4); i < k; i++ {
			ts = append(ts, pick(c.R, topics))
		}
		g := newGen(c.R, append(ts, "basic")...)
		if c.R.IntN(2) == 0 {
			g.yield = c.R.IntN(10)
		}
		scripts := []string{g.prelude()}
		for i, k := 0, 1+c.R.IntN(12); i < k; i++ {
			g.n = 0
			scripts = append(scripts, g.script(1+c.R.IntN(3)))
		}
		o := sessOpts{capture: c.R.IntN(2) == 0, errStack: c.R.IntN(2) == 0, stacks: true, feed: feedDefault}
		c.session(o, scripts)
	}})
}

func feedDefault(n, k int) string { return []string{"y", "1", "true", "z"}[(n+k)%4] }
