package main

import (
	"fmt"
	"sort"
	"strings"

	"helena/core"
)

// Checks that compare sessions with the specification, by topic

type topicCheck struct {
	id, rule    string
	quick, deep int
	topics      []string
	// Topics mixed in one case out of two
	extra  []string
	length int
	yield  int
	wrong  int
	stacks bool
	tune   func(c *Ctx, g *gen, o *sessOpts) []string
	// Another kind of case, run once out of specialOdds
	special     func(c *Ctx)
	specialOdds int
}

const sessionRule = "a case is a generated session of scripts run in one interpreter; values, errors, suspensions and the probe log of each script are compared with the reference interpreter; distinct = distinct session texts"

func (t topicCheck) register() {
	if t.length == 0 {
		t.length = 8
	}
	register(&Check{ID: t.id, Rule: t.rule + "; " + sessionRule, Quick: t.quick, Deep: t.deep, Run: func(c *Ctx) { t.run(c) }})
}

func (t topicCheck) run(c *Ctx) {
	if t.special != nil && c.R.IntN(t.specialOdds) == 0 {
		t.special(c)
		return
	}
	topics := append([]string{}, t.topics...)
	if len(t.extra) > 0 && c.R.IntN(2) == 0 {
		topics = append(topics, pick(c.R, t.extra))
		if c.R.IntN(3) == 0 {
			topics = append(topics, pick(c.R, t.extra))
		}
	}
	g := newGen(c.R, topics...)
	g.wrong = 25
	if t.wrong > 0 {
		g.wrong = t.wrong
	}
	switch c.R.IntN(4) {
	case 0:
		g.wrong = 0
	case 1:
		g.wrong *= 3
	}
	if t.yield > 0 && c.R.IntN(3) > 0 {
		g.yield = c.R.IntN(t.yield)
	} else if c.R.IntN(6) == 0 {
		g.yield = c.R.IntN(8)
	}
	g.maxDepth = 1 + c.R.IntN(5)
	g.pipes = pick(c.R, []int{1, 1, 1, 4, 15})
	o := sessOpts{feed: feedDefault, stacks: t.stacks}
	if t.stacks || c.R.IntN(4) == 0 {
		o.stacks = true
		o.capture, o.errStack = c.R.IntN(4) > 0, c.R.IntN(4) > 0
	}
	for _, x := range topics {
		if x == "mod" && o.dir == "" {
			// Modules have capture options of their own
			o.stacks = false
		}
	}
	scripts := []string{g.randPrelude()}
	if c.R.IntN(4) > 0 {
		seen := map[string]bool{}
		for _, x := range topics {
			if !seen[x] {
				seen[x] = true
				scripts = append(scripts, g.definitions(x)...)
			}
		}
	}
	if t.tune != nil {
		scripts = append(scripts, t.tune(c, g, &o)...)
	}
	for i, k := 0, 1+c.R.IntN(t.length); i < k; i++ {
		g.n = 0
		scripts = append(scripts, g.script(1+c.R.IntN(3)))
	}
	c.session(o, scripts)
}

func init() {
	for _, t := range []topicCheck{
		{id: "C04", rule: "word and sentence evaluation", quick: 60000, deep: 1500000, topics: []string{"word", "word", "word", "basic"}, extra: []string{"var", "script", "list", "dict", "call", "alias", "if", "co"}, special: coreCase, specialOdds: 3},
		{id: "C07", rule: "suspensions at any point", quick: 30000, deep: 1200000, topics: []string{"basic", "call"}, extra: []string{"if", "loop", "catch", "logic", "co", "ns", "ens", "alias", "word", "script", "call", "argspec", "mod", "list", "dict"}, yield: 25, special: yieldingCatch, specialOdds: 6},
		{id: "C08", rule: "values held while scripts go on", quick: 30000, deep: 1000000, topics: []string{"list", "dict", "str", "var", "script"}, extra: []string{"call", "word", "loop", "co", "ens", "alias", "argspec"}, special: func(c *Ctx) { heldValues(c, "") }, specialOdds: 3},
		{id: "C10", rule: "numbers", quick: 40000, deep: 1500000, topics: []string{"num", "num", "num", "num", "basic"}, extra: []string{"logic", "alias", "if", "var"}},
		{id: "C11", rule: "lists and tuples", quick: 40000, deep: 1500000, topics: []string{"list", "list", "list"}, extra: []string{"var", "basic", "word", "call", "dict", "alias"}, special: func(c *Ctx) {
			if c.R.IntN(3) == 0 {
				sortCase(c)
			} else {
				heldValues(c, "l")
			}
		}, specialOdds: 3},
		{id: "C12", rule: "strings", quick: 40000, deep: 1500000, topics: []string{"str", "str", "str"}, extra: []string{"word", "var", "basic", "logic"}},
		{id: "C13", rule: "dictionaries", quick: 40000, deep: 1500000, topics: []string{"dict", "dict", "dict"}, extra: []string{"list", "word", "var", "basic", "loop"}, special: dictOrder, specialOdds: 5},
		{id: "C14", rule: "logic", quick: 40000, deep: 1500000, topics: []string{"logic", "logic", "logic"}, extra: []string{"basic", "if", "call", "catch"}, yield: 15},
		{id: "C15", rule: "conditionals and loops", quick: 25000, deep: 1200000, topics: []string{"if", "loop", "loop", "basic"}, extra: []string{"call", "catch", "var", "list", "dict", "co"}, yield: 12, special: controlCase, specialOdds: 2},
		{id: "C16", rule: "catch", quick: 20000, deep: 1500000, topics: []string{"catch", "catch", "basic"}, extra: []string{"call", "loop", "if", "co", "ns", "ens", "script"}, yield: 15},
		{id: "C17", rule: "variables", quick: 40000, deep: 1500000, topics: []string{"var", "var", "var"}, extra: []string{"call", "ns", "loop", "word", "argspec", "catch"}, special: scopesCase, specialOdds: 6},
		{id: "C18", rule: "closures, macros, procedures", quick: 35000, deep: 1200000, topics: []string{"call", "call", "call", "basic"}, extra: []string{"var", "ns", "catch", "loop", "alias", "ens"}, yield: 10, special: either(scopesCase, redefCase), specialOdds: 2},
		{id: "C19", rule: "argument specifications", quick: 35000, deep: 1200000, topics: []string{"argspec", "argspec", "argspec"}, extra: []string{"call", "ens", "help"}, wrong: 60, special: specCase, specialOdds: 3},
		{id: "C20", rule: "coroutines", quick: 35000, deep: 1200000, topics: []string{"co", "co", "co", "basic"}, extra: []string{"call", "catch", "loop", "if", "var", "ns"}, yield: 15, special: either(scopesCase, redefCase), specialOdds: 3},
		{id: "C21", rule: "namespaces and scopes", quick: 35000, deep: 1200000, topics: []string{"ns", "ns", "ns"}, extra: []string{"call", "var", "alias", "ens", "basic", "catch"}, yield: 8, special: either(scopesCase, redefCase), specialOdds: 3},
		{id: "C22", rule: "ensembles", quick: 35000, deep: 1200000, topics: []string{"ens", "ens", "ens"}, extra: []string{"call", "var", "alias", "ns", "list", "dict", "basic"}, yield: 8, special: redefCase, specialOdds: 4},
		{id: "C23", rule: "command values, prefixes, aliases", quick: 35000, deep: 1200000, topics: []string{"alias", "alias", "call"}, extra: []string{"ens", "ns", "num", "logic", "help", "basic", "word"}, yield: 8, special: redefCase, specialOdds: 5},
		{id: "C32", rule: "script values", quick: 40000, deep: 1500000, topics: []string{"script", "script", "basic"}, extra: []string{"word", "var", "call", "if"}, yield: 5, special: func(c *Ctx) { heldValues(c, "s") }, specialOdds: 4},
	} {
		t.register()
	}
}

// randPrelude defines the usual variables with varied values
func (g *gen) randPrelude() string {
	if g.big {
		was := g.big
		g.big = false
		defer func() { g.big = was }()
		return g.randPrelude() + g.bigPrelude()
	}
	if g.p(40) {
		return g.prelude()
	}
	elems := func(xs []string, n int) string {
		s := ""
		for i := 0; i < n; i++ {
			s += " " + pick(g.r, xs)
		}
		return s
	}
	words := []string{"a", "b", "c", "d", "x", "foo", "1", "2", `"p q"`, "(u v)", "[list (i j)]", "(a)", "true"}
	nums := []string{"1", "2", "3", "-1", "10", "0", "7", "100", "2.5"}
	s := "set i " + g.intLit() + "; set n " + g.one("-2", "-1", "0", "1", "2") + "; set x " + g.one("2.5", "-0.5", "1e3", "3", "0.1")
	s += "; set s " + g.strLit() + "; set l [list (" + elems(words, g.num(6)) + ")]; set m [list (" + elems(nums, g.num(6)) + ")]"
	s += "; set t (" + elems(words, g.num(4)) + "); set u (1 (2 3) 4); set d [dict (a " + g.strLit() + " b " + g.intLit() + " k " + pick(g.r, words) + ")]; let k const; set ll " + bigList + "; set dd " + bigDict + "; set bl {probe body; idem val}; set z 0; set e \"\"; set y " + g.one("true", "false") + "; set d1 [dict (a " + pick(g.r, words) + ")]; set d2 [dict (k [list (1 2)])]"
	if g.p(50) {
		s += "; macro f {a} {probe f $a}; closure g {a ?b?} {probe g $a; idem $a}; proc h {*args} {probe h $args}"
	}
	if g.p(50) {
		s += "; ensemble en {v} {macro show {v *r} {probe show $v $r}; proc two {v w} {probe two $v $w}}"
	}
	if g.p(50) {
		s += "; namespace ns {set v nsv; macro mm {} {get v none}; closure cc {a} {set v $a}; proc pp {a} {probe pp $a}}; set nsv [ns]"
	}
	if g.p(50) {
		s += "; alias al (probe al); alias am f; set cv $[macro {*a} {probe cv $a}]; set co [coroutine {probe co [yield 1]; yield 2; idem 3}]"
	}
	return s
}

// dictOrder compares the enumerations of a dictionary with its entries, in any
// order
func dictOrder(c *Ctx) {
	g := newGen(c.R, "dict")
	g.wrong, g.yield, g.wrap, g.hold = 0, 0, 0, 0
	g.maxDepth = 2
	o := sessOpts{}
	pre := g.randPrelude()
	expr := g.word("dict")
	for i := g.num(4); i > 0; i-- {
		expr = "[dict " + expr + " " + g.one("add "+g.strLit()+" "+g.word("any"), "merge "+g.word("dict"), "remove "+g.one("a", "b", "x", "k", g.strLit()), "add "+g.one("a", "b", "c")+" "+g.word("any")) + "]"
	}
	scripts := []string{pre, "set it [dict " + expr + "]"}
	text := strings.Join(scripts, "\n--------\n")
	c.Input(text)
	want, _, why, _ := refRun(o, scripts)
	if why != "" || len(want) != 2 || !strings.HasPrefix(want[1][len(want[1])-1], "ok ") {
		c.Count("not a dictionary", 1)
		return
	}
	s := newRealSession(o)
	for n, src := range scripts {
		got, _ := s.runScript(n, src)
		if got.String() != want[n].String() {
			c.Fail("behaviour", "got\n%s\nwant\n%s", got, want[n])
			return
		}
	}
	d, is := s.scope.ResolveVariable("it").(core.DictionaryValue)
	if !is {
		c.Fail("behaviour", "not a dictionary")
		return
	}
	var keys, values, entries, indexed []string
	for k, v := range d.Map {
		keys = append(keys, canonReal(core.STR(k)))
		values = append(values, canonReal(v))
		e := canonReal(core.STR(k)) + " " + canonReal(v)
		entries = append(entries, e)
		indexed = append(indexed, e)
	}
	items := func(src string) (out []string) {
		ob, _ := s.runScript(9, src)
		c.Count("enumerations", 1)
		return ob[:len(ob)-1]
	}
	trim := func(in []string) (out []string) {
		for _, x := range in {
			out = append(out, strings.TrimPrefix(x, "\"probe\" "))
		}
		return
	}
	same := func(src string, want []string) {
		got := trim(items(src))
		// Enumerations with an index carry it first, in order
		if strings.Contains(src, " ix ") {
			for i, x := range got {
				p, rest, _ := strings.Cut(x, " ")
				if p != fmt.Sprintf("i:%d", i) {
					c.Fail("index", "%s: index %s for entry %d", src, p, i)
					return
				}
				got[i] = rest
			}
		}
		a, b := append([]string{}, got...), append([]string{}, want...)
		sort.Strings(a)
		sort.Strings(b)
		if strings.Join(a, "\n") != strings.Join(b, "\n") {
			c.Fail("enumeration", "%s\ngot\n%s\nwant (any order)\n%s", src, strings.Join(got, "\n"), strings.Join(b, "\n"))
		}
	}
	same("list [dict $it keys] foreach x {probe $x}", keys)
	same("list [dict $it values] foreach x {probe $x}", values)
	same("list [dict $it entries] foreach (a b) {probe $a $b}", entries)
	same("dict $it foreach (a b) {probe $a $b}", entries)
	same("dict $it foreach ix (a b) {probe $ix $a $b}", entries)
	same("dict $it foreach e {set p2 [list $e]; probe $p2[0] $p2[1]}", entries)
	same("loop ix (a b) $it {probe $ix $a $b}", entries)
	same("loop e $it {set p2 [list $e]; probe $p2[0] $p2[1]}", entries)
	same("list [dict $it keys] foreach x {probe $x [dict $it get $x]}", entries)
	same("list [dict $it keys] foreach x {probe $x $it($x)}", entries)
	same("list [list [dict $it keys] sort] foreach x {probe $x}", keys)
	same("set back [dict ()]; list [dict $it entries] foreach (a b) {set back [dict $back add $a $b]}; dict $back foreach (a b) {probe $a $b}", entries)
	same("set flat [list ()]; dict $it foreach (a b) {set flat [list $flat append ($a $b)]}; dict $flat foreach (a b) {probe $a $b}", entries)
	same("probe [dict $it size]", []string{fmt.Sprintf("i:%d", len(d.Map))})
	// Enumerating stops and skips
	n := len(d.Map)
	if got := len(items("set kk 0; dict $it foreach (a b) {if [$[set kk [+ $kk 1]] > 2] {break}; probe $a $b}")); got != min(n, 2) {
		c.Fail("break", "%d turns of %d entries", got, n)
	}
	if got := len(items("dict $it foreach (a b) {probe $a $b; continue; probe no}")); got != n {
		c.Fail("continue", "%d turns of %d entries", got, n)
	}
	if n > 1 {
		c.Eval(text)
	}
}

// yieldingCatch runs suspending commands with a state of their own through
// prefixes, aliases and ensembles
func yieldingCatch(c *Ctx) {
	g := newGen(c.R, "catch", "basic", "catch", "basic", pick(c.R, []string{"ens", "alias", "call", "if", "ns", "loop"}))
	g.wrong, g.hold = 5, 0
	g.wrap = 30
	g.yield = 10 + g.num(20)
	g.maxDepth = 1 + g.num(3)
	o := sessOpts{feed: feedDefault}
	if g.p(30) {
		o.stacks, o.capture, o.errStack = true, true, true
	}
	scripts := []string{g.randPrelude()}
	for i, k := 0, 1+g.num(4); i < k; i++ {
		g.n = 0
		body := g.one("{probe [yield 1]; probe [yield 2]; "+g.one("idem end", "error ee", "return rr", "break", "yield 3", g.stmt())+"}", "{"+g.sentences(3)+"}", "{yield a; yield b; yield c}")
		s := "catch " + body
		for j := g.num(4); j > 0; j-- {
			s += " " + g.one("yield v {probe y $v; pass}", "yield v {pass}", "yield v {yield $v; yield again; pass}", "yield v {probe [yield h1]; idem hv}", "error m {probe e $m; yield 2; yield 3; probe after}", "return m {yield r1; yield r2; pass}", "break {yield b1; yield b2; pass}", "error m {pass}", "return m {pass}")
		}
		s += g.one("", " finally {probe fin}", " finally {yield f1; yield f2; probe fin}", " finally "+g.body(2))
		switch g.num(6) {
		case 0, 1, 2:
			s = g.wrapped(s)
		case 3:
			s = "ensemble ec {} {alias go (" + s + ")}; ec go"
		case 4:
			s = "alias ac catch; (ac) " + s[6:]
		}
		if g.p(30) {
			s = "probe [" + strings.NewReplacer("\n", "; ").Replace(s) + "]"
		}
		scripts = append(scripts, s, g.script(1))
	}
	c.session(o, scripts)
}

// heldValues runs a history of operations on values that stay held, each one
// used again and again as an operand
func heldValues(c *Ctx, kinds string) {
	g := newGen(c.R, "list", "dict", "str", "script")
	n := 0
	names := map[string][]string{}
	id := func() string { n++; return fmt.Sprintf("e%d", n) }
	elems := func(k int) string {
		var xs []string
		if c.R.IntN(4) == 0 {
			xs = append(xs, g.one("idem", "probe", "list", "tuple", "f", "en", "(idem)"))
		}
		for i := c.R.IntN(k + 1); i > 0; i-- {
			xs = append(xs, id())
		}
		return strings.Join(xs, " ")
	}
	sents := func(k int) string {
		var xs []string
		for i := c.R.IntN(k + 1); i > 0; i-- {
			xs = append(xs, "probe "+id())
		}
		return strings.Join(xs, "; ")
	}
	of := func(k string) string {
		if len(names[k]) == 0 || c.R.IntN(8) == 0 {
			switch k {
			case "l":
				return "(" + elems(9) + ")"
			case "t":
				return "(" + elems(5) + ")"
			case "d":
				return "(" + id() + " 1 " + id() + " 2 k " + id() + ")"
			case "s":
				return g.one("{"+sents(7)+"}", "[parse {"+sents(7)+"}]")
			case "b":
				return g.one(id(), `"\xff\x01"`+id(), `""`)
			case "q":
				return "[idem " + g.one(id()+"("+id()+")", id()+"["+fmt.Sprint(c.R.IntN(4))+"]", "("+id()+" "+id()+")("+id()+")", id()+"("+id()+" "+id()+")") + "]"
			}
		}
		return "$" + pick(c.R, names[k])
	}
	i := func() string { return fmt.Sprint(c.R.IntN(8) - 1) }
	step := func(k string) string {
		switch k {
		case "l":
			return g.one("list "+of("l")+" append "+of("l"), "list "+of("l")+" append "+of("l")+" "+of("t"), "list "+of("l")+" range "+i()+" "+i(), "list "+of("l")+" range "+i(), "list "+of("l")+" insert "+i()+" "+of("l"), "list "+of("l")+" remove "+i()+" "+i(), "list "+of("l")+" replace "+i()+" "+i()+" "+of("l"), "list "+of("l")+" sort", "list "+of("t"), "list ("+id()+" $*[list "+of("l")+"] "+id()+")", "list ("+elems(9)+")", "list "+of("l")+" append ("+id()+")", "list "+of("l")+" append ("+id()+")", "dict "+of("d")+" entries", "list [script "+of("s")+" split]", "list ("+of("l")+" "+of("l")+")", "list "+of("s"))
		case "t":
			return g.one("tuple "+of("l"), "idem ("+id()+" $*[list "+of("l")+"])", "idem ("+of("l")+" "+of("d")+")", "tuple ("+elems(6)+")", "idem ($*[tuple "+of("t")+"] "+id()+")", "al "+id(), "en "+id()+" show "+id(), "tuple "+of("s"), "f "+elems(4), "(list "+of("l")+" append) ("+id()+")", "[argspec {a *r}] set (1 "+elems(4)+"); idem $r", "argspec (*r) set "+of("t")+"; idem $r")
		case "d":
			return g.one("dict "+of("d")+" add "+g.one("k", id())+" "+id(), "dict "+of("d")+" add "+id()+" "+of("l"), "dict "+of("d")+" remove k", "dict "+of("d")+" merge "+of("d"), "dict "+of("d")+" merge "+of("d")+" "+of("d"), "dict (a "+id()+" b "+id()+" k "+of("l")+")", "dict (k "+of("d")+" k2 "+of("l")+")", "dict "+of("d"), "dict "+of("d")+" merge", "dict "+of("d")+" remove nope")
		case "s":
			return g.one("script "+of("s")+" append "+of("s"), "script "+of("s")+" append {"+sents(2)+"}", "script "+of("s")+" append {"+sents(3)+"} {"+sents(1)+"}", `parse "`+sents(8)+`"`, "parse {"+sents(8)+"}", "script ("+elems(4)+")", "script "+of("s"), "script "+of("s")+" append "+of("t"), "list [script "+of("s")+" split] at 0 {}")
		case "b":
			return g.one("string "+of("b")+" append "+of("b"), "string "+of("b")+" insert "+i()+" "+of("b"), "string "+of("b")+" range "+i()+" "+i(), "string "+of("b")+" remove "+i()+" "+i(), "string "+of("b")+" replace "+i()+" "+i()+" "+of("b"), "idem "+id(), "idem \""+of("b")+"-"+of("b")+"\"")
		case "q":
			q := of("q")
			if !strings.HasPrefix(q, "$") {
				q = "$" + q
			}
			for j := 1 + c.R.IntN(3); j > 0; j-- {
				q += g.one("("+id()+")", "("+id()+")", "("+id()+" "+id()+")", "["+fmt.Sprint(c.R.IntN(4))+"]")
			}
			return g.one("idem "+q, "idem "+q, "idem "+q, "idem "+of("q"), "al "+q)
		}
		return ""
	}
	if kinds == "" {
		kinds = pick(c.R, []string{"l", "lt", "ltd", "s", "sl", "d", "ltdsb", "b", "q"})
	} else if c.R.IntN(3) == 0 {
		kinds += "ltd"
	}
	scripts := []string{"alias al (idem); macro f {*a} {idem $a}; ensemble en {v} {macro show {v *r} {idem ($v $r)}}"}
	for j, total := 0, 4+c.R.IntN(22); j < total; j++ {
		k := string(kinds[c.R.IntN(len(kinds))])
		switch c.R.IntN(12) {
		case 0:
			scripts = append(scripts, "probe "+of(k)+" "+of(k))
			continue
		case 1:
			if k == "s" {
				scripts = append(scripts, "eval "+of("s"))
				continue
			}
			if k == "l" {
				scripts = append(scripts, "list "+of("l")+" foreach x {probe $x}")
				continue
			}
			if k == "t" || k == "q" {
				k = "t"
				t := g.one(of("t"), "[tuple "+of("l")+"]", "[tuple [list "+of("l")+" range "+i()+" "+i()+"]]")
				scripts = append(scripts, g.one(
					t+" "+elems(3), t+" "+elems(3), "("+t+" "+elems(2)+") "+id(), "alias al2 "+t+"; al2 "+elems(2)+"; al2 "+id(),
					"alias al2 ("+t+" "+id()+"); al2 "+elems(2)+"; al2 "+id(), "eval "+t, "catch {"+t+" "+elems(2)+"} error e {idem $e}",
					"[coroutine {"+t+" "+elems(2)+"}] wait", "list (3 1 2) sort "+t, "macro cc (("+t+" x)) {idem $x}; cc "+id()+"; cc "+id(),
					"when "+t+" {"+id()+" {idem 1} "+id()+" {idem 2}}", "when {("+t+" 1) {idem 1} true {idem 2}}", "help "+t, "tailcall {"+t+" "+id()+"}",
					"set "+t+" "+of("l"), "list "+of("l")+" foreach "+t+" {probe "+id()+"}", "en "+t+" show "+elems(2), "f "+starred(t)+" "+id(), "while "+t+" {break}"))
				continue
			}
		case 2:
			if len(names["t"]) > 0 {
				scripts = append(scripts, g.one("probe ", "f ", "en ", "al ")+" $*"+pick(c.R, names["t"]))
				continue
			}
		}
		v := fmt.Sprintf("%s%d", k, c.R.IntN(6))
		scripts = append(scripts, "set "+v+" ["+step(k)+"]")
		known := false
		for _, x := range names[k] {
			known = known || x == v
		}
		if !known {
			names[k] = append(names[k], v)
		}
	}
	c.session(sessOpts{feed: feedDefault}, scripts)
}

// sortCase sorts lists with comparators of several kinds: the outcome must
// hold the same elements in an order the comparator agrees with
func sortCase(c *Ctx) {
	r := c.R
	n := pick(r, []int{0, 1, 2, 3, 5, 8, 11, 13, 20, 40, 80})
	kind := r.IntN(5)
	span := pick(r, []int64{3, 10, 1000, 1 << 31, 1 << 33, 1 << 51})
	key := func() int64 {
		if r.IntN(4) == 0 {
			return pick(r, []int64{0, 1, -1, 1 << 31, 1<<31 - 1, -(1 << 31), 1 << 32, -(1 << 32), 3 << 31, 255, 256})
		}
		return r.Int64N(2*span+1) - span
	}
	var elems []string
	keys := map[string]any{}
	add := func(canon string, k any, src string) {
		elems = append(elems, src)
		keys[canon] = k
	}
	for i := 0; i < n; i++ {
		switch kind {
		case 0, 1: // numbers
			k := key()
			add(canonReal(core.STR(fmt.Sprint(k))), k, fmt.Sprint(k))
		case 2: // records with a key
			k := key()
			add(canonReal(core.LIST([]core.Value{core.STR(fmt.Sprint(k)), core.STR(fmt.Sprintf("e%d", i))})), k, fmt.Sprintf("[list (%d e%d)]", k, i))
		case 3: // strings by length
			s := strings.Repeat("x", r.IntN(6)) + pick(r, []string{"a", "b", "zz", "Z", "é"})
			if r.IntN(8) == 0 {
				s = strings.Repeat(s, 30)
			}
			add(canonReal(core.STR(s)), int64(len(s)), s)
		case 4: // default order
			s := pick(r, []string{"", "a", "B", "10", "9", "é", "zz"}) + fmt.Sprint(r.IntN(30)) + pick(r, []string{"", "a", "B"})
			add(canonReal(core.STR(s)), s, s)
		}
	}
	desc := kind != 4 && r.IntN(2) == 0
	x, y := "$a", "$b"
	switch kind {
	case 2:
		x, y = "[list $a at 0]", "[list $b at 0]"
	case 3:
		x, y = "[string $a length]", "[string $b length]"
	}
	if desc {
		x, y = y, x
	}
	body := pick(r, []string{
		"- " + x + " " + y,
		"int [- " + x + " " + y + "]",
		"if [" + x + " < " + y + "] {idem -1} elseif [" + x + " > " + y + "] {idem 1} else {idem 0}",
		"if [" + x + " < " + y + "] {idem -5000000000} elseif [" + x + " > " + y + "] {idem 4294967296} else {idem 0}",
		"if [" + x + " < " + y + "] {idem -4294967296} elseif [" + x + " > " + y + "] {idem 6442450944} else {idem 0}",
		"if [" + x + " == " + y + "] {idem 0} elseif [" + x + " < " + y + "] {idem -256} else {idem 65536}",
		"set p [- " + x + " " + y + "]; if [$p == 0] {idem 0} else {idem $p}",
	})
	probed := r.IntN(2) == 0
	if probed {
		body = "probe $a $b; " + body
	}
	cmp := " " + pick(r, []string{
		"[[macro {a b} {" + body + "}]]",
		"[[closure {a b} {" + body + "}]]",
		"[[proc {a b} {" + body + "}]]",
		"cmp", "(cmp)", "(cmpx extra)", "((cmpx) extra)", "ac",
	})
	fails := n > 1 && r.IntN(12) == 0
	if fails {
		cmp = pick(r, []string{" [[macro {a b} {error sorting}]]", " (error sorting)", " nope", " [[macro {a b} {idem notanumber}]]", " [[macro {a b} {idem 1.5}]]", " [[macro {a} {idem 1}]]", " [[macro {a b} {idem ()}]]"})
	}
	if kind == 4 {
		cmp, fails, probed = "", false, false
	}
	pre := "macro cmp {a b} {" + body + "}; closure cmpx {w a b} {" + body + "}; alias ac (cmp); set l [list (" + strings.Join(elems, " ") + ")]"
	src := pick(r, []string{"idem [list $l sort" + cmp + "]", "list $l sort" + cmp, "set m [list $l sort" + cmp + "]; get m", "list [list $l sort" + cmp + "] sort" + cmp})
	c.Input(pre + "\n--------\n" + src)
	s := newRealSession(sessOpts{})
	if got, _ := s.runScript(0, pre); !strings.HasPrefix(got[len(got)-1], "ok ") {
		c.Fail("setup", "%s", got)
		return
	}
	before, _ := s.scope.ResolveVariable("l").(core.ListValue)
	var in []string
	for _, v := range before.Values {
		in = append(in, canonReal(v))
	}
	ob, _ := s.runScript(1, src)
	end := ob[len(ob)-1]
	if fails {
		if strings.HasPrefix(end, "ok ") {
			c.Fail("sort failure", "failing comparator, got %s", end)
		}
		c.Eval(pre + src)
		return
	}
	if !strings.HasPrefix(end, "ok ") {
		c.Fail("sort", "got %s", end)
		return
	}
	for _, l := range ob[:len(ob)-1] {
		rest := strings.TrimPrefix(l, "\"probe\" ")
		found := false
		for k := range keys {
			if strings.HasPrefix(rest, k+" ") {
				if _, ok := keys[rest[len(k)+1:]]; ok {
					found = true
				}
			}
		}
		if !found {
			c.Fail("sort", "compared %s", l)
			return
		}
		c.Count("comparisons", 1)
	}
	s.runScript(3, "set out ["+src+"]")
	after, ok := s.scope.ResolveVariable("out").(core.ListValue)
	if !ok {
		c.Fail("sort", "not a list")
		return
	}
	var out []string
	for _, v := range after.Values {
		out = append(out, canonReal(v))
	}
	for i := 1; i < len(out); i++ {
		a, b := keys[out[i-1]], keys[out[i]]
		wrong := false
		switch a := a.(type) {
		case int64:
			b, is := b.(int64)
			wrong = !is || a > b && !desc || a < b && desc
		case string:
			b, is := b.(string)
			wrong = !is || a > b
		default:
			wrong = true
		}
		if wrong {
			c.Fail("sort order", "elements %d and %d of\n%s", i-1, i, strings.Join(out, "\n"))
			return
		}
	}
	now, _ := s.scope.ResolveVariable("l").(core.ListValue)
	for i, v := range now.Values {
		if i >= len(in) || canonReal(v) != in[i] {
			c.Fail("sort argument", "the list sorted changed")
			return
		}
	}
	sort.Strings(in)
	sort.Strings(out)
	if strings.Join(in, "\n") != strings.Join(out, "\n") {
		c.Fail("sort elements", "got\n%s\nof\n%s", strings.Join(out, "\n"), strings.Join(in, "\n"))
		return
	}
	c.Count("lists sorted", 1)
	if n > 1 {
		c.Eval(pre + src)
	}
}

// scopesCase nests bodies with locals of the same names, and creates and calls
// in them commands whose bodies, guards and defaults read those names
func scopesCase(c *Ctx) {
	g := newGen(c.R, "basic")
	n := 0
	budget := 14 + g.num(30)
	name := func() string { return g.one("x", "x", "y", "z") }
	val := func() string { n++; return fmt.Sprintf("v%d", n) }
	show := func() string { n++; return fmt.Sprintf("probe s%d [get x none] [get y none] [get z none]", n) }
	guards := []string{"gx", "gx", "gy", "gp", "{gx}", "(gq w)", "idem", "exists", "get", "(exists)"}
	var seq func(d int) string
	param := func(a string) string {
		def := g.one("dd", "{get x none}", "{idem $x}", "{get y none}", "{set x d; idem dv}", "{probe def [get x none]; get z none}")
		switch g.num(9) {
		case 0, 1:
			return a
		case 2:
			return "?" + a + "?"
		case 3, 4:
			return "(?" + a + " " + def + ")"
		case 5:
			return "(" + pick(c.R, guards) + " " + a + ")"
		case 6:
			return "(" + pick(c.R, guards) + " ?" + a + " " + def + ")"
		case 7:
			return "(?w " + def + ")"
		}
		return "*" + a
	}
	spec := func() string {
		s := "("
		order := c.R.Perm(3)
		for i := g.num(3); i >= 0; i-- {
			s += param("xyz"[order[i]:order[i]+1]) + " "
		}
		if strings.Count(s, "*") > 1 || strings.Count(s, "(?w") > 1 {
			s = "(x "
		}
		return g.one("{}", "{x}", "{?x?}", s+")", s+")", s+")", s+")")
	}
	vals := func() string {
		s := ""
		for i := 1 + g.num(6)/5; i > 0; i-- {
			s += " " + g.one(val(), val(), "[get x none]", "[get y none]")
		}
		return s
	}
	block := func(d int) string {
		return "{" + show() + "; " + seq(d-1) + g.one("", "; "+show(), "; get "+name()+" none", "; get "+name()+" none") + "}"
	}
	stmt := func(d int) string {
		budget--
		k := 20
		if d <= 0 || budget < 0 {
			k = 9
		}
		switch g.num(k) {
		case 0, 1:
			return show()
		case 2:
			return g.one("probe [", "probe [catch {") + "[$" + g.one("co", "cp") + "] " + g.one("wait", "wait", "yield "+val(), "active") + "]"
		case 3, 4:
			return "set " + name() + " " + g.one(val(), val(), val(), "[yield "+val()+"]")
		case 5:
			return g.one("unset "+name(), "let k"+val()+" "+val(), "set ("+name()+" q) ("+val()+" 2)", "probe [exists "+name()+"]", "let "+name()+" "+val())
		case 6, 7, 8:
			return g.one("probe [", "probe [catch {") + g.one("f", "g", "h", "f", "g", "e 1 sub") + vals() + "]"
		case 9, 10, 11, 12, 13:
			body := block(d)
			if g.p(25) {
				guard := pick(c.R, guards)
				if g.p(40) {
					guard, body = g.one("exists", "get", "(exists)", "(get)"), g.one("{"+show()+"; idem "+name()+"}", "{idem "+name()+"}")
				}
				body = "(" + guard + " " + body + ")"
			}
			return g.one("closure", "macro", "proc") + " " + g.one("f", "g", "h") + " " + spec() + " " + body
		case 14:
			return g.one("loop i "+name()+" ("+val()+" "+val()+") ", "list ("+val()+" "+val()+") foreach "+name()+" ", "dict (k "+val()+") foreach (k "+name()+") ", "set cc 0; while {[set cc [+ $cc 1]] < 3} ", "loop "+name()+" 2 ") + block(d)
		case 15:
			return "probe [[[" + g.one("closure", "macro", "proc") + " " + spec() + " " + block(d) + "]]" + vals() + "]"
		case 16:
			return g.one("catch {error "+val()+"} error "+name()+" ", "catch {yield "+val()+"} yield "+name()+" ", "catch {return "+val()+"} return "+name()+" ") + block(d)
		case 17:
			return g.one("eval ", "if true ", "scope sc ", "namespace nn ", "[scope] eval ", "[[coroutine ", "when {true} ", "set "+g.one("co", "cp")+" [coroutine ", "set "+g.one("co", "cp")+" [coroutine ", "idem [coroutine ") + block(d)
		case 18:
			return g.one("[sc] eval "+block(d), "[nn] eval "+block(d), "[sc] call f"+vals(), "[nn] call f"+vals(), "nn f"+vals(), "[nn] import f")
		}
		return "ensemble e {" + g.one("x", "(gx x)", "y", "") + "} {" + show() + "; " + g.one("macro", "closure", "proc") + " sub " + spec() + " " + block(d) + "}; probe [e " + val() + " sub" + vals() + "]"
	}
	seq = func(d int) string {
		var xs []string
		for i := 1 + g.num(4); i > 0; i-- {
			s := stmt(d)
			if strings.HasPrefix(s, "probe [catch {") {
				s = s[:len(s)-1] + "} error m {idem caught}]"
			}
			if strings.HasPrefix(s, "[[coroutine") {
				s += "]] wait"
			} else if strings.Contains(s, " [coroutine ") && strings.HasSuffix(s, "}") && !strings.HasPrefix(s, "eval") && (strings.HasPrefix(s, "set co [cor") || strings.HasPrefix(s, "set cp [cor") || strings.HasPrefix(s, "idem [cor")) {
				s += "]"
			}
			xs = append(xs, s)
		}
		return strings.Join(xs, "; ")
	}
	pre := "set x gx; set y gyv; set co [coroutine {yield cy; get x none}]; ;; set cp [coroutine " + block(1) + "];; " + g.one("set z gz; ", "") + "macro gx {v} {probe gx [get x none] $v; idem $v}; closure gy {v} {probe gy [get x none] [get y none] $v; idem ($v)}; proc gp {y} {probe gp [get x none]; idem $y}; closure gq {w v} {probe $w [get y none]; idem $v}; " +
		"; ensemble e {x} {closure sub " + spec() + " " + block(1) + "};; scope sc {set x sx; closure f " + spec() + " " + block(1) + "};; namespace nn {set y ny; macro f " + spec() + " " + block(1) + "};; closure f " + spec() + " " + block(1) + ";; macro g " + spec() + " " + block(1) + ";; proc h " + spec() + " " + block(1)
	scripts := strings.Split(pre, ";; ")
	for i := 2 + g.num(6); i > 0; i-- {
		if i%2 == 0 {
			scripts = append(scripts, seq(1+g.num(3)))
		} else {
			s := "probe [" + g.one("f", "g", "h", "f", "g", "h", "e 1 sub", "sc", "nn", "[sc] call f", "[nn] call f", "[$co] wait;", "[$cp] wait;") + vals() + "]"
			scripts = append(scripts, s, s)
		}
	}
	o := sessOpts{feed: feedDefault}
	if g.p(20) {
		o.stacks, o.capture, o.errStack = true, true, true
	}
	c.session(o, scripts)
}

// specCase calls commands with elaborate argument lists with values close to
// those they accept
func specCase(c *Ctx) {
	g := newGen(c.R, "basic")
	if g.num(15) == 0 {
		g.big = true
		scripts := []string{}
		for i := 1 + g.num(3); i > 0; i-- {
			scripts = append(scripts, g.bigCall())
		}
		c.session(sessOpts{feed: feedDefault}, scripts)
		return
	}
	type param struct{ opt, pos string }
	guard := func() string {
		return g.one("int", "int", "tag", "tag", "(tag2 w)", "list", "idem", "odd", "{tag}", "[[macro {x} {idem g$x}]]", "nil", "bad")
	}
	def := func() string {
		return g.one("7", "7", "8", "d", "{idem 5}", "{probe def; idem 9}", "{error defbad}", "{idem d}", "(1 2)", "{}", "[list (3)]", "$i", "{get a none}", "{break}", "{return 6}", "{yield dy}")
	}
	val := func() string {
		return g.one("1", "2", "3", "12", "v", "w", "(1 2)", "true", `""`, "[list (1)]", "-o1", "1.5")
	}
	names := []string{"a", "b", "c", "d", "e"}
	spec := func() (string, []param) {
		var ps []param
		s := ""
		rest := false
		for i, k := 0, g.num(6); i < k && i < len(names); i++ {
			n := names[i]
			p := param{}
			if g.p(40) {
				o := fmt.Sprintf("-o%d", i)
				q := fmt.Sprintf("-p%d", i)
				switch g.num(6) {
				case 0, 1:
					s += o + " "
				case 2:
					s += "?" + o + "? "
				case 3:
					s += "(" + o + " " + q + ") "
					o = g.one(o, q)
				case 4:
					s += "?(" + o + " " + q + ")? "
					o = g.one(o, q)
				case 5:
					s += "?" + o + "? "
					if g.p(50) {
						s += "?" + n + "? "
						ps = append(ps, param{opt: o})
						continue
					}
				}
				p.opt = o
			}
			switch g.num(10) {
			case 0, 1:
				s += n
			case 2:
				s += "?" + n + "?"
			case 3:
				s += "(?" + n + " " + def() + ")"
			case 4:
				s += "(" + guard() + " " + n + ")"
			case 5:
				s += "(" + guard() + " ?" + n + "?)"
			case 6, 7:
				s += "(" + guard() + " ?" + n + " " + def() + ")"
			case 8:
				if rest || p.opt != "" {
					s += n
					break
				}
				rest = true
				s += "*" + n
			case 9:
				s += "(" + n + ")"
			}
			s += " "
			p.pos = n
			ps = append(ps, p)
		}
		return s, ps
	}
	call := func(ps []param) string {
		var xs []string
		for _, p := range ps {
			if p.opt != "" {
				if g.p(35) {
					continue
				}
				xs = append(xs, p.opt)
			}
			if g.p(80) {
				xs = append(xs, val())
			}
		}
		for i := g.one("", "", "", "x", "xx"); i != ""; i = i[1:] {
			xs = append(xs, val())
		}
		if len(xs) > 1 && g.p(15) {
			i, j := g.num(len(xs)), g.num(len(xs))
			xs[i], xs[j] = xs[j], xs[i]
		}
		return strings.Join(xs, " ")
	}
	show := "probe [get a none] [get b none] [get c none] [get d none] [get e none]"
	scripts := []string{"set i 3; macro tag {v} {probe tag $v; idem (t $v)}; closure tag2 {w v} {probe $w $v; idem ($w $v)}; proc odd {v} {if [string $v == 3] {error three} elseif [string $v == 2] {yield ov} else {idem o$v}}; macro nil {v} {}; alias bad 12"}
	for i := 1 + g.num(3); i > 0; i-- {
		s, ps := spec()
		body := "{" + show + g.one("", "; idem $a", "; yield yy; "+show) + "}"
		k := g.one("macro", "closure", "proc", "set", "argspec", "ensemble", "anon")
		def := ""
		do := "f"
		switch k {
		case "set":
			def, do = "set as [argspec ("+s+")]; probe [argspec $as usage]", "argspec $as set"
		case "argspec":
			def, do = "", "argspec ("+s+") set"
		case "ensemble":
			def, do = "ensemble en (q) {macro sub ("+s+") "+body+"}", "en 1 sub"
		case "anon":
			def, do = "", "[["+g.one("macro", "closure", "proc")+" ("+s+") "+body+"]]"
		default:
			def = k + " f (" + s + ") " + body
		}
		if def != "" {
			scripts = append(scripts, def)
		}
		for j := 1 + g.num(4); j > 0; j-- {
			if k == "set" || k == "argspec" {
				scripts = append(scripts, "eval {"+do+" ("+call(ps)+"); "+show+"}")
			} else {
				scripts = append(scripts, do+" "+call(ps))
			}
		}
		if def != "" && k != "set" {
			scripts = append(scripts, "help "+strings.TrimSuffix(do, " 1 sub"), "help "+do+" "+call(ps))
		}
	}
	o := sessOpts{feed: feedDefault}
	if g.p(20) {
		o.stacks, o.capture, o.errStack = true, true, true
	}
	c.session(o, scripts)
}

// starred expands a word
func starred(w string) string {
	if strings.HasPrefix(w, "$") {
		return "$*" + w[1:]
	}
	return "$*[idem " + w + "]"
}
