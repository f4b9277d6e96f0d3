package main

import (
	"fmt"
	"runtime"
	"strings"

	"helena/core"
	hd "helena/helena_dialect"
)

// C27: host stack depth and memory measured within scripts

// stackLinks are ways a command runs a body: % stands for the body
var stackLinks = []string{
	"%",
	"if true {%}", "if false {} else {%}", "if false {} elseif true {%} else {}", "if {%; idem true} {idem a}", "if false {} elseif {%; idem false} {idem a} else {idem b}",
	"when {true {%}}", "when (1 ==) {2 {} 1 {%}}", "when {{%; idem true} {idem a}}", "when {false {a} {%}}", "when [[macro {a} {%; idem true}]] {1 {idem a}}", "when {idem !} {true {} false {%}}",
	"set k 0; while {$[[get k] < 1]} {set k 1; %; set k 1}", "set k 0; while {if [[get k] < 1] {set k 1; %; set k 1; idem true} else {idem false}} {idem a}",
	"loop x [list (1)] {%}", "loop (a b) [dict (a 1)] {%}", "loop i {%; break}", "loop i {if [$i > 0] {break}; %; continue}", "loop v {%; break}",
	"list (1) foreach x {%}", "dict (a 1) foreach (p q) {%}", "list ((1 2)) foreach (a b) {%}", "list (1 2) foreach i x {%; break}",
	"eval {%}", "eval (eval {%})", "eval [parse {%}]",
	"&& true {%; idem true}", "&& {%; idem true} true", "|| false {%; idem true}", "! {%; idem true}", "|| {%; idem false} false",
	"closure c {} {%}; c", "[[closure {} {%}]]", "[[closure {} {%}]]",
	"macro c {} {%}; c", "[[macro {} {%}]]", "[[macro {*a} {%}]] 1 2",
	"proc c {} {%}; c", "[[proc {} {%}]]", "proc c {a ?b?} {%}; c 1", "proc c {a (?b {idem a})} {%}; c 1",
	"proc c {(int a)} {%; idem $a}; c 1", "proc c () {%}; c", "closure c {*a} {%; idem $a}; c 1 2", "macro c ((list a)) {%}; c (1)",
	"closure c {} {%}; alias a c; a", "closure c {a b} {%}; alias a (c 1); a 2", "alias a (eval {%}); a", "alias a (if true); a {%}", "[[alias a (eval)]] {%}",
	"(eval) {%}", "((eval {%}))", "(((eval))) {%}", "(if true) {%} else {}",
	"namespace {%}", "[namespace {}] eval {%}", "[namespace {closure g {} {%}}] call g", "namespace n {proc g {} {%}}; [n] call g", "namespace n {macro g {} {%}}; n g", "namespace n {closure g {} {%}}; [n] import g; g",
	"closure c {} (idem {%}); c", "proc c {} (idem {%}); c", "macro c {} (idem {%}); c", "proc c {a} ((idem) {%; idem $a}); c 1", "closure c {a} (list {%; idem (1)}); c 1", "macro c {a} (int {%; idem $a}); c 1", "[[proc {} (idem {%})]]", "namespace n {proc g {} (idem {%})}; n g", "ensemble e {v} {proc g {v} (idem {%})}; e 1 g", "ensemble e {(int v)} {macro g {v} (idem {%})}; e 1 g", "proc c {} (idem {return [%]}); c", "closure c {} (idem {return [%]}); c", "proc c {(int a)} (int {%; idem $a}); c 1", "macro w {b} {eval {%}; idem $b}; proc c {} (w {idem a}); c", "closure w {b} {%; idem $b}; macro c {} (w {idem a}); c", "proc w {b} {%}; closure c {} (w {idem a}); c", "proc w {b} {%}; proc c {} (w {idem a}); c", "proc c {} (idem {yield 1; %}); c", "alias a (eval); proc c {} (a {idem {%}}); c",
	"scope {%}", "[scope {}] eval {%}", "scope n {closure g {} {%}}; [n] call g",
	"ensemble e {v} {closure g {v} {%}}; e 1 g", "ensemble e {v} {macro g {v} {%}}; e 1 g", "ensemble e {v} {proc g {v a} {%}}; e 1 g 2", "[ensemble {} {}] eval {%}", "[ensemble {v} {macro g {v} {%}}] call g 1", "ensemble e {} {alias g (eval {%})}; e g",
	"idem [%]", "idem a; idem [idem b; %]", "idem \"x[%; idem a]\"", "idem (a [%; idem b])", "idem $[%]", "set l [list (a b)]; idem $l[%; idem 0]", "set d [dict (a 1)]; idem $d([%; idem a])", "set l [list (a b)]; idem $l[0; %; idem 1]", "set r [%]", "return [%]",
	"idem a; (closure {} {}) ; %", "[[closure {?a?} {%}]]", "[% ; idem eval] {idem a}",
	"eval {yield 1; %}", "yield [%]", "%; yield a", "if [yield true] {%}",

	"list [%; idem ()]", "+ 1 [%; idem 2]", "1 + [%; idem 2]", "true ? [%; idem 1]", "string a append [%; idem b]",
	"tuple ([%])",
}

type stackRun struct {
	again, n  int
	max, last int
	samples   int
	pcs       []uintptr
}

func (s *stackRun) measure() {
	d := runtime.Callers(0, s.pcs)
	s.samples++
	s.last = d
	if d > s.max {
		s.max = d
	}
}

func (s *stackRun) scope() *hd.Scope {
	scope := hd.NewRootScope(nil)
	hd.InitCommands(scope)
	s.pcs = make([]uintptr, 200000)
	scope.RegisterNamedCommand("depth", nativeCmd{func(args []core.Value, _ any) core.Result {
		s.measure()
		return core.OK(core.TRUE)
	}})
	scope.RegisterNamedCommand("again", nativeCmd{func(args []core.Value, _ any) core.Result {
		s.again++
		if s.again <= s.n {
			return core.OK(core.TRUE)
		}
		return core.OK(core.FALSE)
	}})
	return scope
}

// run runs a script with the given number of turns
func (s *stackRun) run(scope *hd.Scope, src string, n int) string {
	s.again, s.n, s.max, s.samples, s.last = 0, n, 0, 0, 0
	r := parseReal(src, false)
	if !r.Success {
		return "parse: " + r.Message
	}
	p := scope.PrepareProcess(scope.Compile(*r.Script))
	for k := 0; ; k++ {
		res := p.Run()
		if res.Code != core.ResultCode_YIELD || k > 3*n+1000 {
			return trunc(resultText(realCode(res), canonReal(res.Value)), 60)
		}
	}
}

func stackCase(c *Ctx) {
	g := newGen(c.R, "basic")
	var src string
	kind, first := c.R.IntN(6), 0
	if i := c.Case/8*7 + c.Case%8; i < 2*len(stackLinks) {
		kind, first = -1, i%len(stackLinks)
	}
	link := func() string { return pick(c.R, stackLinks) }
	nest := func(k int, body string) string {
		for ; k > 0; k-- {
			body = strings.ReplaceAll(link(), "%", body)
		}
		return body
	}
	lo, hi := 10, 300+c.R.IntN(500)
	switch kind {
	case -1:
		src = g.one("closure", "macro", "proc") + " f {} {depth; if [again] {" + strings.ReplaceAll(stackLinks[first], "%", "f") + "} else {depth}}; f"
	case 0, 1, 2:
		def := g.one("closure f {} {", "macro f {} {", "proc f {} {", "proc f {*a} {", "alias f {eval {", "namespace nz {closure f {} {", "ensemble f {} {closure zz {} {", "closure f {*a} {", "proc f {} (idem {", "macro f {} (idem {", "closure f {} (idem {")
		rec := "f"
		end := "}"
		switch {
		case strings.HasSuffix(def, "(idem {"):
			end = "})"
		case strings.HasPrefix(def, "alias"):
			def, end = "alias f (eval {", "})"
		case strings.HasPrefix(def, "namespace"):
			rec, end = "[nz] call f", "}}"
		case strings.HasPrefix(def, "ensemble"):
			rec, end = "f zz", "}}"
		}
		test := g.one("if [again] {%} else {depth}", "if {again} {%}", "when {{again} {%} {depth}}", "|| {! [again]} {%}", "&& {again} {%; idem true}", "if {! {again}} {depth} else {%}")
		src = def + "depth; " + strings.ReplaceAll(test, "%", nest(1+c.R.IntN(3), rec)) + "; depth" + end + "; " + rec
		if c.R.IntN(3) == 0 {
			// Last command of its body
			src = strings.Replace(src, "; depth"+end, end, 1)
		}
	case 3:
		// Mutual recursion
		n := 2 + c.R.IntN(3)
		for i := 0; i < n; i++ {
			src += fmt.Sprintf("%s f%d {} {depth; if [again] {%s} else {depth}}; ", g.one("closure", "macro", "proc"), i, nest(1, fmt.Sprintf("f%d", (i+1)%n)))
		}
		src += "f0"
	case 4:
		// Loops
		body := "depth; " + nest(c.R.IntN(3), "depth")
		src = g.one("while {again} {"+body+"}", "while [again] {break}; while {again} {"+body+"; continue}", "loop i {if [again] {"+body+"} else {break}}", "loop {if [again] {"+body+"} else {break}}",
			"closure f {} {while {again} {"+body+"}}; f", "loop v [[closure {*a} {if [again] {idem 1} else {break}}]] {"+body+"}", "loop v [[macro {*a} {if [again] {idem 1} else {break}}]] {depth}", "set co [coroutine {while {again} {depth; yield}}]; while {! [$co done]} {$co wait; depth}",
			"while {again} {depth; while {again} {depth; "+body+"}}", "set l [list ()]; while {again} {set l [list $l append (x)]}; set again 1; list $l foreach x {"+body+"}; loop x $l {"+body+"}", "while {again} {eval {yield}; "+body+"}")
	case 5:
		// Long sentences, scripts and chains
		word := g.one("[depth]", "$[depth]", "\"[depth]\"", "([depth])", "[eval {depth}]", "[if true {depth}]")
		n := []int{lo, hi}
		var text [2]string
		shape := c.R.IntN(6)
		for i := range text {
			switch shape {
			case 0:
				text[i] = "tuple (" + strings.Repeat(word+" ", n[i]) + ")"
			case 1:
				text[i] = strings.Repeat("idem "+word+"; ", n[i])
			case 2:
				text[i] = "idem \"" + strings.Repeat(strings.ReplaceAll(word, "\"", ""), n[i]) + "\""
			case 3:
				text[i] = "list (" + strings.Repeat(word+" ", n[i]) + ") foreach x {depth}"
			case 4:
				text[i] = "closure h0 {} {depth}; "
				for k := 0; k < n[i]; k++ {
					text[i] += fmt.Sprintf("closure h%d {} {h%d}; ", k+1, k)
				}
				text[i] += fmt.Sprintf("h%d", n[i])
			case 5:
				text[i] = "proc h0 {} {depth}; "
				for k := 0; k < n[i]; k++ {
					text[i] += fmt.Sprintf("%s h%d {} {if true {h%d}}; ", []string{"macro", "closure", "proc"}[k%3], k+1, k)
				}
				text[i] += fmt.Sprintf("h%d", n[i])
			}
		}
		c.Input(text[0])
		var s stackRun
		ra := s.run(s.scope(), text[0], lo)
		a := s.max
		rb := s.run(s.scope(), text[1], hi)
		if shape >= 4 && s.samples > 0 {
			// Only measured at the end of the chain
			s.samples += hi
		}
		c.stackVerdict(text[0], a, s.max, s.samples, lo, hi, ra, rb)
		return
	}
	c.Input(src)
	var s stackRun
	ra := s.run(s.scope(), src, lo)
	a := s.max
	rb := s.run(s.scope(), src, hi)
	c.stackVerdict(src, a, s.max, s.samples, lo, hi, ra, rb)
}

func (c *Ctx) stackVerdict(src string, a, b, samples, lo, hi int, ra, rb string) {
	if samples < hi/2 {
		c.Count("too few measures ("+rb+")", 1)
		if debugErrors {
			println(rb, src)
		}
		return
	}
	c.Count("host stack measures", samples)
	code, _, _ := strings.Cut(rb, " ")
	c.Count("outcome "+code, 1)
	if b-a > 40 {
		c.Fail("host stack", "host stack of %d frames at %d turns, %d frames at %d turns", a, lo, b, hi)
	}
	c.Eval(src)
}

func init() {
	register(&Check{ID: "C27", Quick: 7000, Deep: 250000,
		Rule: "a case is a recursive, repetitive or long script run with few and many turns, measuring the host stack within it; or a script repeated many times, measuring the memory retained; distinct = distinct scripts with enough measures",
		Run: func(c *Ctx) {
			if c.Case%8 == 7 {
				memoryCase(c)
				return
			}
			stackCase(c)
		}})
}

// Other ways, through processes of their own
var processLinks = []string{
	"catch {%}", "catch {error e} error m {%}", "catch {%} error m {idem $m} return r {idem $r} finally {idem f}", "catch {idem a} finally {%}", "catch {yield 1} yield v {%}", "catch {%} yield v {pass}",
	"[[coroutine {%}]] wait", "set co [coroutine {%; yield a; %}]; [$co] wait; [$co] wait", "set co [coroutine {yield 1; %}]; [$co] wait", "module {export a; closure a {} {%}}", "module m {export a; macro a {} {%}}; [m] import a; a",
	"closure c {?a? *b} {%}; c 1; c; c 1 2 3 4", "[argspec {a b}] set (1 2); %", "set s [script {a} append {b}]; %", "set q [dict (a 1) add b [list (1 2 3)]]; %", "set q [string abc append def]; %", "unset q2; set q2 1; %", "set q2 1; unset q2; %",
	"help if; %", "ensemble en {a} {alias b {}; macro c {a} {%}}; en 1 c; en subcommands", "namespace nn {let k 1; set v 2}; [nn] eval {get k}; %", "parse {a {b} c}; %", "catch {nope}; %", "catch {parse a{}; %",
}

func heapNow() (uint64, uint64) {
	runtime.GC()
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc, m.Mallocs
}

// memoryCase repeats a script in one interpreter
func memoryCase(c *Ctx) {
	g := newGen(c.R, "basic")
	leaf := g.one("idem a", "set v 1", "error e", "yield 1", "return 1", "break", "nope", "list (1 2)", "get novar", "pass", "set v [list (a b c)]", "idem $nope", "idem \"a$[idem b]\"", "parse \"}\"")
	src := leaf
	for k := c.R.IntN(4); k > 0; k-- {
		if c.R.IntN(2) == 0 {
			src = strings.ReplaceAll(pick(c.R, processLinks), "%", src)
		} else {
			src = strings.ReplaceAll(pick(c.R, stackLinks), "%", src)
		}
	}
	if c.R.IntN(4) == 0 {
		src = "closure f {} {" + src + "}; f"
	}
	capture := c.R.IntN(2) == 0
	c.Input(src)
	var s stackRun
	s.n = 1 << 60
	scope := hd.NewRootScope(&hd.ScopeOptions{CapturePositions: capture, CaptureErrorStack: capture})
	hd.InitCommandsForModule(scope, hd.NewModuleRegistry(&hd.ModuleOptions{}), "/nonexistent")
	r := parseReal(src, capture)
	if !r.Success {
		c.Count("parse error", 1)
		return
	}
	prog := scope.Compile(*r.Script)
	reparse, abandon := c.R.IntN(2) == 0, c.R.IntN(3) == 0
	last := ""
	repeat := func(n int) {
		for i := 0; i < n; i++ {
			p := prog
			if reparse {
				r := parseReal(src, capture)
				p = scope.Compile(*r.Script)
			}
			pr := scope.PrepareProcess(p)
			for k := 0; k < 20; k++ {
				res := pr.Run()
				if res.Code != core.ResultCode_YIELD || abandon {
					last = realCode(res)
					break
				}
			}
		}
	}
	const reps = 600
	repeat(200)
	h1, m1 := heapNow()
	repeat(reps)
	h2, m2 := heapNow()
	c.Count("repetitions", 2*reps+200)
	if grown := int64(h2) - int64(h1); grown > 16*reps {
		// Once more, against accidents
		repeat(4 * reps)
		h3, _ := heapNow()
		if grown = int64(h3) - int64(h2); grown > 16*4*reps {
			c.Fail("memory", "%d bytes more after %d more repetitions", grown, 4*reps)
			return
		}
		_, m2 = heapNow()
	}
	m2b := m2
	repeat(reps)
	_, m3 := heapNow()
	if a, b := int64(m2-m1), int64(m3-m2b); a > 0 && b > a+a/4+8*reps {
		c.Fail("allocations", "%d allocations for %d repetitions, then %d", a, reps, b)
		return
	}
	c.Count("outcome of repetitions "+last, 1)
	c.Eval(fmt.Sprint(capture, reparse, abandon, src))
}
