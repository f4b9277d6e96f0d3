package main

import (
	"math/rand/v2"
	"strings"
)

// C28: Picol scripts compared with the specification

type pgen struct {
	r     *rand.Rand
	depth int
	wrong int
	loops int
}

func (g *pgen) one(xs ...string) string { return xs[g.r.IntN(len(xs))] }
func (g *pgen) p(n int) bool            { return g.r.IntN(100) < n }

func (g *pgen) num() string {
	g.depth++
	defer func() { g.depth-- }()
	switch k := g.r.IntN(10); {
	case g.r.IntN(1000) < g.wrong:
		return g.any()
	case k < 4 || g.depth > 4:
		return g.one("0", "1", "2", "3", "-1", "10", "7", "2.5", "-0.5", "1e3", "123")
	case k == 4:
		return g.one("9223372036854775807", "1e400", "-1e-400", "0.1", "1e21", "NaN", "Inf", "-Inf", "0x10", "007", "+1", "1_0", "9007199254740993", "-0", "1.", ".5")
	case k < 8:
		return g.one("$i", "$n", "$j", "$x", "$i", "[set n]")
	}
	return "[" + g.numCmd() + "]"
}

func (g *pgen) numCmd() string {
	switch g.r.IntN(6) {
	case 0:
		return "incr " + g.one("i", "n", "j", "x") + g.one("", " 1", " -1", " "+g.num())
	case 1:
		return g.call()
	}
	s := g.one("+", "-", "*", "/")
	for i, n := 0, 1+g.r.IntN(4); i < n; i++ {
		s += " " + g.num()
	}
	return s
}

func (g *pgen) any() string {
	switch g.r.IntN(9) {
	case 0:
		return g.one("a", "b", "foo", `""`, `"a b"`, "yes", "no", "true", "false", "él", "TRUE", "on")
	case 1:
		return g.one("(a b)", "()", "(1 $i)", "(a (b c))", "{a b}", "{}", "{a}", "a(b)", "$(i n)", "$t[0]", "$t", "$t(0)", "[]", "[set t]")
	case 2:
		return g.one("$s", "$b", "$e", "$nope", "$args", "$p", "$q")
	case 3:
		return g.cond()
	}
	return g.num()
}

func (g *pgen) cond() string {
	g.depth++
	defer func() { g.depth-- }()
	if g.r.IntN(1000) < g.wrong {
		return g.any()
	}
	if g.depth > 4 {
		return g.one("true", "false", "1", "0", "yes", "no")
	}
	switch g.r.IntN(10) {
	case 0:
		return g.one("true", "false", "1", "0", "yes", "no", "2", "-1", "00", "1.0", "$i", "$b", "5.5", "0.0")
	case 1:
		return "[" + g.condCmd() + "]"
	case 2:
		return g.one("{return cr}", "{error ce}", "{break}", "{continue}", "{}", "{probe c; idemx}", "{probe c; set b}", "{set b true}", "{set i 0}", "{probe c true}", "{probe c false}", "{return true}", "{probe c yes}")
	}
	return "{" + g.one("", "probe cond; ") + g.condCmd() + "}"
}

func (g *pgen) condCmd() string {
	switch g.r.IntN(8) {
	case 0:
		return "! " + g.cond()
	case 1, 2:
		s := g.one("&&", "||")
		for i, n := 0, 1+g.r.IntN(3); i < n; i++ {
			s += " " + g.cond()
		}
		return s
	case 3:
		return g.one("==", "!=") + " " + g.any() + " " + g.any()
	}
	return g.one("<", "<=", ">", ">=", "==", "!=") + " " + g.num() + " " + g.num()
}

func (g *pgen) call() string {
	s := g.one("p0", "p1", "p2", "pa", "pd", "pr", "pl", "rec")
	n := g.r.IntN(5)
	switch s {
	case "p0":
		n = 0
	case "p1", "rec":
		n = 1
	case "p2":
		n = 2
	}
	if g.p(10) {
		n = g.r.IntN(4)
	}
	for i := 0; i < n; i++ {
		if s == "rec" {
			s += " " + g.one("0", "1", "2", "3", "4")
		} else {
			s += " " + g.any()
		}
	}
	return s
}

func (g *pgen) formal() string {
	return g.one("{}", "{}", "{a}", "{a b}", "{a {b 1}}", "{{a 1} b}", "{{a 1} {b 2}}", "{args}", "{a args}", "{a {b def} args}", "{args a}", "(a b)", "(a {b 2})", "(a (b 2))", "{{a}}", "{{a b c}}", "{{}}", "{{{} x}}", "a", "{a a}", "{\n a\n b\n}", "{a; b}", "{\"a\" b}", "{{a (1 2)}}", "{{args 1}}", "{{a $x}}", "{[x]}", "{$x}", "{a {b {}}}", "{i}", "{i n}", "\"a b\"", "{1 2}", "{{a \"\"}}")
}

func (g *pgen) body(n int) string {
	if g.depth > 4 {
		return g.one("{}", "{probe b}", "{set i 1}")
	}
	g.depth++
	defer func() { g.depth-- }()
	if g.r.IntN(1000) < g.wrong {
		return g.any()
	}
	s := "{"
	for i, k := 0, g.r.IntN(n+1); i < k; i++ {
		if i > 0 {
			s += g.one("; ", "\n")
		}
		s += g.stmt()
	}
	return s + "}"
}

func (g *pgen) stmt() string {
	if g.depth > 6 {
		return "probe deep"
	}
	g.depth++
	defer func() { g.depth-- }()
	s := g.stmt0()
	if g.r.IntN(1000) < g.wrong {
		switch g.r.IntN(3) {
		case 0:
			s += " " + g.any()
		default:
			ws := splitWords(s)
			if len(ws) > 1 {
				i := 1 + g.r.IntN(len(ws)-1)
				s = strings.Join(append(append([]string{}, ws[:i]...), ws[i+1:]...), " ")
			}
		}
	}
	return s
}

func (g *pgen) stmt0() string {
	switch g.r.IntN(16) {
	case 0:
		return "set " + g.one("i", "n", "j", "x") + " " + g.num()
	case 1:
		return "set " + g.one("s", "b", "e", "t", "p", "q", "a") + " " + g.any()
	case 2:
		return g.numCmd()
	case 3:
		return g.condCmd()
	case 4, 5:
		return "if " + g.cond() + " " + g.body(2) + g.one("", " else "+g.body(2), " else "+g.body(2))
	case 6:
		v := g.one("k", "l", "w")
		return "for {set " + v + " 0} {< $" + v + " " + g.one("0", "1", "3", "5") + "} {" + g.one("incr "+v, "incr "+v+"; probe next $"+v, "incr "+v+" 2", "probe next; incr "+v+"; break", "incr "+v+"; return nx", "incr "+v+"; continue") + "} " + g.loopBody()
	case 7:
		v := g.one("k", "l", "w")
		return "set " + v + " 0; while {<= [incr " + v + "] " + g.one("0", "1", "3", "5") + "} " + g.loopBody()
	case 8:
		return "while " + g.cond() + " {probe w; break}"
	case 9:
		return "proc " + g.one("p0", "p1", "p2", "pa", "pd", "pr", "pl", "set", "+", `""`) + " " + g.formal() + " " + g.body(3)
	case 10, 11:
		return g.call()
	case 12:
		return g.one("return", "return "+g.any(), "break", "continue", "error "+g.any(), "return 1 2", "break 1", "error", "continue x")
	case 13:
		return "probe " + g.any() + " " + g.any()
	case 14:
		return "set " + g.one("i", "a", "nope", "args", "s", "t")
	}
	return g.one("nope", "probe $i $s $t", "for {} {probe t; < [incr g] 3} {} {probe f}", "12", "{set} i 2", "(set i) 3", "[set i]", "for {set i 0} true {return done} {continue}", "probe [if false {}] [while false {}] [proc zz {} {}]")
}

func (g *pgen) loopBody() string {
	s := "{"
	for i, k := 0, g.r.IntN(4); i < k; i++ {
		s += g.one(g.stmt(), "probe $i", "break", "continue", "if "+g.cond()+" {break}", "if "+g.cond()+" {continue}", "if "+g.cond()+" {return lr}", g.stmt()) + "; "
	}
	return s + "probe turn}"
}

const picolPrelude = `set i 3; set j 1; set n -2; set x 2.5; set s hello; set b true; set e ""; set t (a b); set g 0
proc p0 {} {probe p0; set i}; proc p1 {a} {probe p1 $a; set a}; proc p2 {a {b 5}} {probe p2 $a $b; + $a $b}; proc pa {a args} {probe pa $a $args; set args}; proc pd {{a 1} {b 2}} {probe pd $a $b; incr a $b}; proc pr {{a x}} {return $a; probe no}; proc pl {args} {for {set k 0} {< $k 3} {incr k} {if {== $k 1} {continue}; probe $k $args}; break}; proc rec {n} {probe rec $n; if {<= $n 0} {return end}; rec [- $n 1]}`

func init() {
	register(&Check{ID: "C28", Quick: 60000, Deep: 2500000,
		Rule: "a case is a session of generated Picol scripts run in one scope; values, outcomes and the probe log of each script are compared with the reference interpreter; distinct = distinct session texts",
		Run: func(c *Ctx) {
			g := &pgen{r: c.R, wrong: c.R.IntN(40)}
			scripts := []string{picolPrelude}
			for i, k := 0, 1+c.R.IntN(8); i < k; i++ {
				g.depth = 0
				s := g.stmt()
				for j, l := 0, c.R.IntN(3); j < l; j++ {
					s += "; " + g.stmt()
				}
				scripts = append(scripts, s)
			}
			c.picolSession(scripts)
		}})
}

func (c *Ctx) picolSession(scripts []string) {
	all := strings.Join(scripts, "\n--------\n")
	c.Input(all)
	want, why := picolExpect(scripts)
	if why != "" {
		c.Count("undecided: "+why, 1)
	}
	ps := newPicolSession()
	for n := range want {
		got := ps.run(parseReal(scripts[n], false))
		lines := strings.Split(got, "\n")
		code, _, _ := strings.Cut(lines[len(lines)-1], " ")
		c.Count("outcome "+code, 1)
		c.Count("probes", len(lines)-1)
		if got != want[n] {
			c.Fail("behaviour", "script %d: %s\ngot\n%s\nwant\n%s", n+1, trunc(scripts[n], 600), trunc(got, 1500), trunc(want[n], 1500))
			return
		}
		c.Count("scripts compared", 1)
	}
	if a := ps.s.altered(); a != "" {
		c.Fail("altered value", "%s", a)
	}
	c.Eval(all)
}
