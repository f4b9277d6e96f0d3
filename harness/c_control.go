package main

import (
	"fmt"
	"strings"
)

// controlCase runs nested conditionals and loops whose tests, sources and
// bodies do something else each time they are evaluated
func controlCase(c *Ctx) {
	g := newGen(c.R, "if", "loop", "basic", "catch", "list")
	g.wrong, g.hold, g.maxDepth = 5, 0, 2
	o := sessOpts{feed: feedDefault}
	if g.p(25) {
		o.stacks, o.capture, o.errStack = true, g.p(80), g.p(80)
	}
	if g.p(40) {
		g.yield = g.num(15)
	}
	scripts := []string{g.randPrelude()}
	odd := g.num(3)
	values := func() string {
		return g.one("{idem a1}", "{probe p1; idem 2}", "{idem 1}", "{list (a b)}", "{idem (u w)}", "{}", "{idem 3}", "{get i none}", "{get v none}", "{idem true}", "{catch {continue} continue {idem cc}}", "{set v [list ([get v none] s)]}", "{tuple (1 2)}", "{idem [list (x y)]}")
	}
	// A list of scripts to run one after the other
	actions := func(kind int) string {
		var xs []string
		for i, n := 0, 1+g.num(6); i < n; i++ {
			switch {
			case g.p(6 * odd):
				xs = append(xs, g.one("{continue}", "{continue}", "{break}", "{yield y1}", "{probe [yield y2]; idem z}", "{yield y3; continue}", "{yield y4; break}", "{return r}", "{error e}", "{pass}", "{tailcall {idem tc}}", "{nope}", "{catch {error e2} error m {idem $m}}", "{yield y5; error e5}", "{yield y6; return r6}"))
			case kind == 1:
				// Tests
				xs = append(xs, g.one("{idem true}", "{idem true}", "{idem true}", "{idem false}", "{idem false}", "{probe pt; idem true}", "{probe pf; idem false}", "{yield true}", "{yield yt; idem true}", "{yield yf; idem false}", "{idem true}", "{[1 > 0]}", "{[idem 1] > 2}", "{idem "+g.one("true", "false", "true", "no", "1")+"}"))
			case g.p(15):
				xs = append(xs, g.one("{continue}", "{continue}", "{break}", "{yield w1}", "{yield w2; continue}"))
			default:
				xs = append(xs, values())
			}
		}
		return strings.Join(xs, " ")
	}
	nb := 0
	var defs []string
	reset := ""
	var step func(kind int) string
	step = func(kind int) string {
		if nb > 9 && g.p(70) {
			// Share what exists
			return fmt.Sprintf("step%d", g.num(nb))
		}
		n := nb
		nb++
		defs = append(defs, fmt.Sprintf("set acts%d [list (%s)]; %s step%d {*more%d} {set n%d [+ $n%d 1]; probe step%d $n%d $more%d; eval [list $acts%d at [- $n%d 1] %s]}", n, actions(kind), "macro", n, n, n, n, n, n, n, n, n, map[bool]string{true: "{idem false}", false: "{break}"}[kind == 1 && g.p(80)]))
		reset += fmt.Sprintf("set n%d 0; ", n)
		return fmt.Sprintf("step%d", n)
	}
	depth := 0
	var construct func() string
	body := func() string {
		s := ""
		if g.p(15) {
			s = g.one("set v [list (b $[get v none])]; ", "probe [get i none] [get v none] [get w none]; ", "probe bodyv [exists v]; ")
		}
		if depth < 2 && g.p(35) {
			depth++
			inner := construct()
			depth--
			return "{" + s + g.one(inner, "probe ["+inner+"]; "+step(0), step(0)+"; "+inner, "catch {"+inner+"} error e {idem $e}; "+step(0)) + "}"
		}
		return "{" + s + g.one(step(0), step(0), step(0), "probe ["+step(0)+"]", step(0)+"; probe after", "idem first; "+step(0)) + "}"
	}
	test := func() string {
		if depth < 2 && g.p(12) {
			depth++
			inner := construct()
			depth--
			return "{" + inner + "; " + step(1) + "}"
		}
		return g.one("{"+step(1)+"}", "{"+step(1)+"}", "{"+step(1)+"}", "["+step(1)+"]", "true", "false", "{probe t; "+step(1)+"}", "true", g.one("false", "abc", "$z"), "{! {"+step(1)+"}}")
	}
	construct = func() string {
		switch g.num(9) {
		case 0:
			return "while {" + step(1) + "} " + body()
		case 1:
			return "while " + g.one("true", "true", "true", "[idem true]", "$y", "{idem true}") + " " + body()
		case 2, 3:
			s := "if " + test() + " " + body()
			for i := g.num(4); i > 0; i-- {
				s += " elseif " + test() + " " + body()
			}
			if g.p(60) {
				s += " else " + body()
			}
			return s
		case 4, 5:
			s, cmd := "when", false
			if g.p(50) {
				cmd = true
				s += " " + g.one("{"+step(1)+"; idem (idem)}", "{idem "+step(1)+"}", "idem", "{probe cmd; idem idem}", "{probe cmd; idem [+ 1]}", "{probe cmd; tuple ([+ 1] ==)}", "{probe cmd; idem 1}", "(1 ==)", "{"+g.one(step(0), step(1))+"; idem !}", "{set v 7; idem !}", "{idem $[macro {*a} {probe m $a; "+step(1)+"}]}", step(1), "("+step(1)+" a b)", "{"+step(0)+"}")
			}
			s += " {"
			for i := g.num(4); i > 0; i-- {
				if cmd {
					s += g.one("true", "false", "true", "false", "(true)", "()", "1", "(== 1)", "(== 1)", "(!= 1)", "(> 0)", "{"+step(1)+"}", test()) + " " + body() + " "
				} else {
					s += g.one(test(), test(), "("+step(1)+")", "("+step(1)+" a (b c))", "(idem false)") + " " + body() + " "
				}
			}
			if g.p(60) {
				s += body()
			}
			return s + "}"
		}
		// Loops over sources
		s := "loop"
		idx := ""
		if g.p(50) {
			idx = g.one("i", "i", "v", "ix")
			s += " " + idx
		}
		names := []string{"v", "w", "a"}
		if g.p(15) {
			names = []string{"(v w)", "w", "i"}
		}
		g.r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		if g.p(20) {
			names = append([]string{g.one("(v w)", "(v *)", "*", "(w (v a))", "()", "v")}, "a", "i")
		}
		for k := g.num(3); k >= 0; k-- {
			s += " " + names[k]
			s += " " + g.one("{"+step(0)+"}", "{"+step(0)+"}", "{probe [get i none] [get v none]; "+step(0)+"}", step(0), step(0), "("+step(0)+" x)", "$[macro {n} {probe src $n [get i none] [get v none]; "+step(0)+"}]", "$[closure {n} {probe src $n [get i none]; "+step(0)+"}]", "(get i)", "(get v)", "(idem)", "(list (a b c) at)", "[list (a b c)]", "[list ((1 2) (3 4) (5 6))]", "[list ()]", "[dict (k u)]", "[dict ()]", g.one("nope", "(nope 1)", "()", "5", "[list (a)]", "[dict (a b)]", "{"+step(0)+"}", "{"+step(0)+"}", "("+step(0)+" y)"), "$[proc {n} {if [$n > 2] {break}; if [$n == 1] {continue}; idem $n}]", "$[proc {n} {if [$n > 1] {return r}; idem $n}]", "$[macro {n} {if [$n > 1] {error s}; idem $n}]")
		}
		return s + " " + body()
	}
	for i, n := 0, 1+g.num(3); i < n; i++ {
		s := construct()
		switch g.num(10) {
		case 0:
			s = "probe [" + s + "]"
		case 1:
			s = "macro mc {} {" + s + "; idem rest}; mc"
		case 2:
			s = "closure cc {} {" + s + "}; cc"
		case 3:
			s = "catch {" + s + "} return r {idem (ret $r)} error e {idem (err $e)} break {idem brk} continue {idem cont}"
		case 4:
			s = "set co [coroutine {" + s + "}]; while {! [$co done]} {probe [$co wait]}"
		case 5:
			s = "list (" + "[" + s + "] [get v none])"
		}
		if len(defs) > 0 {
			scripts = append(scripts, strings.Join(defs, "; "))
			defs = nil
		}
		scripts = append(scripts, reset+s, reset+s)
		if g.p(30) {
			scripts = append(scripts, "list ([get i none] [get v none] [get w none])", g.script(1))
		}
	}
	c.session(o, scripts)
}
