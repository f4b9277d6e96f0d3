package main

import (
	"fmt"
	"math/rand/v2"
	"strings"
)

// gen generates Helena programs
type gen struct {
	r *rand.Rand
	// Directory of the modules
	dir   string
	depth int
	// Weights of the topics
	topics []string
	// Per cent of words replaced with a suspension
	yield int
	// Per mille of sentences made wrong
	wrong int
	// Local names in scope
	locals []string
	// In a loop, procedure...
	inLoop, inCall bool
	// Avoid constructs for which error stacks are not specified
	stacks   bool
	n        int
	maxDepth int
	// Per cent of sentences called through a prefix tuple or alias
	wrap int
	// Per cent of sentences whose result is held
	hold int
	// Per cent of scripts starting or ending with an intrinsic command
	pipes int
	// Use large values
	big bool
}

func newGen(r *rand.Rand, topics ...string) *gen {
	g := &gen{r: r, topics: topics, wrong: 25, maxDepth: 5, wrap: 2, hold: 3, pipes: 1}
	switch r.IntN(7) {
	case 0, 2:
		g.wrap = 25
	case 1:
		g.hold = 25
	}
	g.big = r.IntN(12) == 0
	return g
}

// size gives sizes around those where implementations could change
func (g *gen) size() int {
	return []int{8, 9, 11, 16, 17, 20, 32, 33, 50, 64, 65, 100, 127, 129, 257, 300}[min(g.r.IntN(16), g.r.IntN(16)+2)]
}

func (g *gen) bigElems(n int) string {
	var b strings.Builder
	k := g.num(5)
	step := 1 + g.num(n)
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteByte(' ')
		}
		x := i * step % n
		switch k {
		case 0:
			fmt.Fprint(&b, x)
		case 1:
			fmt.Fprintf(&b, "e%d", x)
		case 2:
			fmt.Fprintf(&b, "%d", (x*7919)%23-5)
		case 3:
			b.WriteString(g.one("a", "b", "(x y)", "[+ 1 2]", "$i", `"p q"`, "1", "{z}"))
		case 4:
			b.WriteString(g.one("a", "b", "c"))
		}
	}
	return b.String()
}

func (g *gen) bigEntries(n int) string {
	var b strings.Builder
	step := 1 + g.num(n)
	for i := 0; i < n; i++ {
		fmt.Fprintf(&b, "%s%d %s ", g.one("k", "k", "k", "", "a b"[:1]), i*step%n, g.one("1", "v", "(x y)", "$i", fmt.Sprint(i)))
	}
	return b.String() + "a last k " + g.one("1", "v")
}

func (g *gen) bigLit(t string) string {
	n := g.size()
	switch t {
	case "int", "num":
		return g.one("7", "8", "9", "15", "16", "17", "31", "32", "33", "63", "64", "65", "99", "127", "128", "255", "256", "1000")
	case "list":
		return g.one("[list (", "(", "[list (") + g.bigElems(n) + ")"
	case "tuple":
		if g.p(25) {
			n = min(n, 60)
			return strings.Repeat("(a ", n) + "b" + strings.Repeat(")", n)
		}
		return "(" + g.bigElems(n) + ")"
	case "dict":
		return "[dict (" + g.bigEntries(n) + ")]"
	case "block":
		return "{" + strings.Repeat(g.one("idem a; ", "probe x; ", "set v $i; ", "idem [+ $i 1]; "), n) + g.one("idem z", "probe z", "break", "") + "}"
	}
	return `"` + strings.Repeat(g.one("a", "ab", "é", "x ", "\\xff", "ab\\n"), n*g.one2(1, 1, 1, 20)) + `"`
}

func (g *gen) one2(xs ...int) int { return xs[g.num(len(xs))] }

// bigPrelude defines large values and commands
func (g *gen) bigPrelude() string {
	n := g.size()
	s := "; set ll [list (" + g.bigElems(n) + ")]; set dd [dict (" + g.bigEntries(g.size()) + ")]"
	if g.p(50) {
		s += "; set s " + g.bigLit("str")
	}
	if g.p(50) {
		s += "; set t " + g.bigLit("tuple") + "; set l [list (" + g.bigElems(g.size()) + ")]; set d [dict (" + g.bigEntries(g.size()) + ")]"
	}
	if g.p(40) {
		s += "; set bl " + g.bigLit("block")
	}
	if g.p(40) {
		// Many arguments
		n := min(g.size(), 70)
		spec, all := "", ""
		for i := 0; i < n; i++ {
			spec += fmt.Sprintf(g.one("a%d ", "a%d ", "?a%d? ", "(int a%d) ", "(?a%d {idem def}) "), i)
			all += fmt.Sprintf("$a%d ", i)
		}
		s += "; " + g.one("macro", "closure", "proc") + " f {" + g.one("a ", "a ?b? ") + spec + "} {probe f $a " + all + "}"
		s += "; f x " + g.bigElems(n)
	}
	if g.p(30) {
		// Many commands
		s += "; ensemble en {v} {"
		for i := min(n, 100); i > 0; i-- {
			s += fmt.Sprintf("macro c%d {v *r} {probe c%d $v $r}; ", i, i)
		}
		s += "macro show {v *r} {probe show $v $r}; proc two {v w} {probe two $v $w}}"
	}
	if g.p(30) {
		for i := n; i > 0; i-- {
			s += fmt.Sprintf("; set v%d %s", i, g.one("a", "$i", "[idem b]"))
		}
	}
	return s
}

func (g *gen) p(n int) bool            { return g.r.IntN(100) < n }
func (g *gen) one(xs ...string) string { return xs[g.r.IntN(len(xs))] }
func (g *gen) num(n int) int           { return g.r.IntN(n) }

func (g *gen) prelude() string {
	return `set i 3; set n -2; set x 2.5; set s hello; set l [list (a b c)]; set m [list (3 1 2 10)]; set t (a b); set u (1 (2 3) 4); set d [dict (a 1 b 2 k v)]; let k const; set ll ` + bigList + `; set dd ` + bigDict + `; set bl {probe body; idem val}; set z 0; set e ""; set y true; set d1 [dict (a 1)]; set d2 [dict (k [list (1 2)])]`
}

// ---- words

func (g *gen) intLit() string {
	return g.one("0", "1", "2", "3", "-1", "-2", "5", "10", "12", "100", "1000000", "-7", "4")
}
func (g *gen) wildNum() string {
	return g.one("9223372036854775807", "-9223372036854775808", "9223372036854775806", "9223372036854775808", "9007199254740993", "1e3", "1.5", "-0.5", "0.1", "1e400", "-1e400", "1e-320", "0x10", "1_000", "NaN", "Inf", "-inf", "+5", "-0", "-0.0", "1e15", "1e21", "123456789012345678", "1.0", "2.50", "1e0", ".5", "5.", "infinity", "0b11", "0o17", "017", "1e", "0x1p4", "+", "-", "")
}

// idx gives an index
func (g *gen) idx() string {
	if g.p(8) {
		return g.one("9223372036854775807", "9223372036854775806", "-9223372036854775808", "-9223372036854775807", "4294967295", "4294967296", "2147483647", "2147483648", "-2147483649", "255", "256", "65536", "[- 9223372036854775807 $i]", "9223372036854775808", "1.0", "2.0", "1e0", "1.5")
	}
	return g.word("int")
}
func (g *gen) strLit() string {
	return g.one("a", "b", "c", "k", "foo", "bar", "hello", `""`, `"a b"`, `"x y z"`, `"é"`, `"日本語"`, "abc", "abcdef", `"a\x80b"`, `"\$x"`, `"{"`, `"a\nb"`, "v", "val", "z", "Z", "0", "1", "10", "9", "true", "false", "nil")
}

var typNames = []string{"int", "num", "bool", "str", "list", "tuple", "dict", "block", "any", "cmd", "name"}

// word gives a word of about the given type
func (g *gen) word(t string) string {
	g.n++
	if g.depth > 12 || g.n > 400 {
		return g.lit(t)
	}
	if g.yield > 0 && g.p(g.yield) {
		if g.num(6) == 0 {
			return "[yield " + g.lit(t) + g.one("; |> idem", "; ^", "; idem [^]", "; |>", "; |> probe a; ^") + "]"
		}
		return "[yield " + g.lit(t) + "]"
	}
	if g.num(1000) < g.wrong {
		t = pick(g.r, typNames)
	}
	if t == "any" {
		t = pick(g.r, []string{"int", "num", "bool", "str", "str", "list", "tuple", "dict", "block"})
		if g.num(25) == 0 {
			return "[]"
		}
	}
	switch g.num(10) {
	case 0, 1, 2, 3:
		return g.lit(t)
	case 4, 5, 6:
		return g.varOf(t)
	}
	if g.depth > g.maxDepth {
		return g.varOf(t)
	}
	g.depth++
	defer func() { g.depth-- }()
	return "[" + g.exprOf(t) + "]"
}

const bigDict = "[dict (a 9 b 8 k 7 x 1 c 2 e 3 f 4 g 5 h 6 i 7 j 8 l 9 m 10 \"a b\" 11)]"
const bigList = "[list (5 3 9 1 a 12 7 b 2 30 11 4 8 6 c (x y) 10 0)]"

func (g *gen) lit(t string) string {
	if g.num(120) == 0 {
		return "[]"
	}
	if g.big && g.num(10) == 0 {
		s := g.bigLit(t)
		if strings.HasPrefix(s, "[") && !strings.HasSuffix(s, "]") {
			s += "]"
		}
		return s
	}
	if g.num(25) == 0 {
		switch t {
		case "dict":
			return g.one(bigDict, "(x 2 a 1 b 1 c 1 d 1 e 1 f 1 g 1 h 1 i 1 j 1)", "[dict (1 a 2 b 3 c 4 d 5 e 6 f 7 g 8 h 9 i k j)]")
		case "list":
			return g.one(bigList, "(1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20)", "[list (b a d c f e h g j i l k n m)]")
		}
	}
	switch t {
	case "int":
		if g.p(6) {
			return g.wildNum()
		}
		return g.intLit()
	case "num":
		switch g.num(5) {
		case 0:
			return g.wildNum()
		case 1:
			return g.one("1.5", "-2.25", "0.5", "3.0", "1e2")
		}
		return g.intLit()
	case "bool":
		return g.one("true", "false", "true", "false", "[true]", "[false]")
	case "str", "any":
		return g.strLit()
	case "list":
		return g.one("[list ()]", "[list (a b c)]", "[list (3 1 2)]", "[list ((a b) (c d))]", "(a b c)", "()", "(1 2 3 4 5)", "[list (a)]", `("a b" c)`)
	case "tuple":
		return g.one("()", "(a)", "(a b)", "(a b c)", "(1 (2 3))", "((a b) c)", "(a 1 b 2)")
	case "dict":
		return g.one("[dict ()]", "[dict (a 1 b 2)]", "[dict (k v)]", "(a 1)", "(a 1 b 2)", "[list (a 1 b 2)]", "[dict (a 1 a 2)]")
	case "block":
		return g.one("{}", "{idem a}", "{probe x}", "{list (a b)}", "{a b c}", "{idem a; idem b}", "{idem $i}")
	case "cmd":
		return g.one("idem", "probe", "list", "f", "g", "h", "(idem a)", "(list (a b))", "en", "ns", "al", "[macro {} {idem anon}]", "(f 1)", "12", "true")
	case "name":
		return g.one("a", "b", "c", "v", "w", "i", "x")
	}
	return "a"
}

func (g *gen) varOf(t string) string {
	if len(g.locals) > 0 && g.p(35) {
		v := pick(g.r, g.locals)
		return g.one("$", "$", "$", "$$")[:1] + v
	}
	switch t {
	case "int":
		return g.one("$i", "$n", "$z", "$m[0]", "$u[0]", "[list $l length]", "$d(a)", "${i}")
	case "num":
		return g.one("$i", "$n", "$x", "$z", "$m[1]", "$d(b)")
	case "bool":
		return g.one("$y", "[$i > 2]", "[! $y]", "[exists v]", "[string $s == hello]", "[true]")
	case "str":
		return g.one("$s", "$e", "$k", "$l[0]", "$d(k)", `"${s}-$i"`, `"a$[idem b]c"`, "a$s", "$s$s", `"[idem $s] x"`, "$s[1]", "${s}", `"$d(a)"`, "$i$s")
	case "list":
		return g.one("$l", "$l", "$m", "$ll", "[list $l]", "$d2(k)", "$[list (a b)]", "($l[0] $*m)", "[list ($*l $*m)]")
	case "tuple":
		return g.one("$t", "$u", "$u[1]", "($*t x)", "($i $s)", "$(i n)", "$(s l)[0]", "($*l)", "[$t]", "($d)(a)")
	case "dict":
		return g.one("$d", "$d", "$d1", "$d2", "[dict $d]", "$dd")
	case "block":
		return g.one("$bl", "{$i}", "{idem $s}", "{probe $i; idem $s}")
	case "cmd":
		return g.one("$cv", "$[closure {a} {idem $a}]", "idem", "$ens", "$nsv", "$co")
	case "name":
		return g.one("v", "w", `"v"`, "$k")
	}
	return g.one("$v", "$w", "$i", "$s", "$l", "$t", "$d", "$nope")
}

// exprOf gives a sentence whose result is about the given type
func (g *gen) exprOf(t string) string {
	if g.p(12) {
		return g.stmt()
	}
	w := g.word
	switch t {
	case "int":
		switch g.num(8) {
		case 0:
			return "list " + w("list") + " length"
		case 1:
			return "string " + w("str") + " length"
		case 2:
			return "dict " + w("dict") + " size"
		case 3:
			return "+ " + w("int") + " " + w("int")
		case 4:
			return w("int") + g.one(" + ", " - ", " * ") + w("int")
		case 5:
			return "int " + w("int")
		case 6:
			return "idem " + w("int")
		}
		return "list " + w("list") + " at " + w("int") + " " + w("int")
	case "num":
		return g.arith()
	case "bool":
		if g.p(85) {
			return g.boolSentence()
		}
		return g.logicSentence()
	case "str":
		if g.p(50) {
			return "idem " + w("str")
		}
		return g.stringSentence()
	case "list":
		s := "list " + w("list")
		switch g.num(7) {
		case 0:
			return s + " range " + g.idx() + " " + g.idx()
		case 1:
			return s + " append " + w("list")
		case 2:
			return s + " remove " + g.idx() + " " + g.idx()
		case 3:
			return s + " insert " + g.idx() + " " + w("list")
		case 4:
			return s + " replace " + g.idx() + " " + g.idx() + " " + w("list")
		case 5:
			return s + " sort"
		}
		return s
	case "tuple":
		return g.one("idem ", "probe ", "tuple ") + w("tuple")
	case "dict":
		s := "dict " + w("dict")
		switch g.num(5) {
		case 0:
			return s + " add " + g.one("a", "b", "c", "k", w("str")) + " " + w("any")
		case 1:
			return s + " remove " + g.one("a", "b", "c", "k", w("str"))
		case 2:
			return s + " merge " + w("dict")
		}
		return s
	case "block":
		return "idem " + w("block")
	case "cmd":
		return g.one("macro ", "closure ", "proc ") + g.argspec() + " " + g.body(2)
	}
	return "idem " + w("any")
}

func (g *gen) locally(names ...string) func() {
	old := g.locals
	g.locals = append(append([]string{}, old...), names...)
	return func() { g.locals = old }
}

// body gives a block of up to n sentences
func (g *gen) body(n int) string {
	if g.depth > g.maxDepth+1 || g.n > 400 {
		return g.lit("block")
	}
	g.depth++
	defer func() { g.depth-- }()
	if g.p(3) {
		return g.word("any")
	}
	return "{" + g.sentences(n) + "}"
}

func (g *gen) sentences(n int) string {
	var b strings.Builder
	k := 1 + g.num(n)
	for i := 0; i < k; i++ {
		if i > 0 {
			b.WriteString(g.one("; ", "\n", "; "))
		}
		if g.p(g.pipes) {
			b.WriteString(g.one("|>", "^", "|> probe a", "|> idem", "|> idem; ", "^; |>; "))
			if i < k-1 {
				continue
			}
			b.WriteString("; ")
		}
		b.WriteString(g.stmt())
	}
	if g.p(g.pipes) {
		b.WriteString(g.one("; |>", "; ^", "; |> idem"))
	}
	return b.String()
}

// script gives a top-level script
func (g *gen) script(n int) string { return g.sentences(n) }

// stmt gives a sentence
func (g *gen) stmt() string {
	g.n++
	if g.depth > 12 || g.n > 400 {
		return "idem a"
	}
	g.depth++
	defer func() { g.depth-- }()
	s := g.stmtOf(pick(g.r, g.topics))
	if g.num(1000) < g.wrong {
		s = g.spoil(s)
	}
	if g.p(g.wrap) {
		s = g.wrapped(s)
	}
	if g.p(g.hold) && single(s) {
		s = g.held(s)
	}
	return s
}

// held keeps the result of a sentence and looks at the ones held before
func (g *gen) held(s string) string {
	switch g.num(5) {
	case 0:
		return "set h1 [" + s + "]"
	case 1:
		return "set h2 [" + s + "]; probe [get h1 none]"
	case 2:
		return "probe [" + s + "] [get h1 none] [get h2 none]"
	case 3:
		return "set h1 [" + s + "]; set h2 $h1; probe [" + s + "] $h1"
	}
	return "probe [" + s + "] [" + s + "]"
}

// single tells whether the text is one sentence
func single(s string) bool {
	depth := 0
	str := false
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\':
			i++
		case '"':
			str = !str
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		case ';', '\n', '#':
			if depth == 0 && !str {
				return false
			}
		}
	}
	return depth == 0 && !str
}

// wrapped calls a sentence through a prefix
func (g *gen) wrapped(s string) string {
	if !single(s) {
		return s
	}
	ws := splitWords(s)
	if len(ws) == 0 {
		return s
	}
	i := 1 + g.num(len(ws))
	head, tail := strings.Join(ws[:i], " "), strings.Join(ws[i:], " ")
	switch g.num(6) {
	case 0:
		j := 1 + g.num(i)
		return "((" + strings.Join(ws[:j], " ") + ") " + strings.Join(ws[j:i], " ") + ") " + tail
	case 1:
		return "alias zz (" + head + "); zz " + tail
	case 2:
		return "set pz (" + head + "); $pz " + tail + "; probe $pz"
	case 3:
		return "set pz (" + head + "); alias zy $pz; " + g.one("zy ", "zy "+tail+"; $pz ", "[zy] call ", "(zy) ") + tail
	case 4:
		return "set pz (" + tail + "); (" + head + ") $*pz"
	}
	return "(" + head + ") " + tail
}

// spoil changes the number of words of a sentence
func (g *gen) spoil(s string) string {
	switch g.num(4) {
	case 0:
		return s + " " + g.lit("any")
	case 1:
		ws := splitWords(s)
		if len(ws) > 1 {
			i := 1 + g.num(len(ws)-1)
			return strings.Join(append(append([]string{}, ws[:i]...), ws[i+1:]...), " ")
		}
	case 2:
		ws := splitWords(s)
		if len(ws) > 2 {
			i, j := 1+g.num(len(ws)-1), 1+g.num(len(ws)-1)
			ws[i], ws[j] = ws[j], ws[i]
			return strings.Join(ws, " ")
		}
	case 3:
		ws := splitWords(s)
		i := g.num(len(ws))
		ws[i] = g.lit(pick(g.r, typNames))
		return strings.Join(ws, " ")
	}
	return s
}

// splitWords splits a sentence at its top-level spaces
func splitWords(s string) []string {
	var ws []string
	depth, start := 0, 0
	str := false
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '\\':
			i++
		case '"':
			str = !str
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		case ' ':
			if depth == 0 && !str {
				ws = append(ws, s[start:i])
				start = i + 1
			}
		}
	}
	return append(ws, s[start:])
}

// definitions gives sentences that define what those of a topic refer to
func (g *gen) definitions(topic string) []string {
	var prefixes []string
	switch topic {
	case "co":
		prefixes = []string{"set co [coroutine ", "set cp [coroutine "}
	case "ns":
		prefixes = []string{"namespace ns {", "namespace nt {", "scope sc {", "scope sd {"}
	case "ens":
		prefixes = []string{"ensemble en ", "ensemble eo "}
	case "call":
		prefixes = []string{"macro ", "closure ", "proc ", "set cv ["}
	case "alias":
		prefixes = []string{"alias al ", "alias am "}
	}
	var defs []string
	for _, p := range prefixes {
		for try := 0; try < 30; try++ {
			g.n = 0
			if s := g.stmtOf(topic); strings.HasPrefix(s, p) {
				defs = append(defs, s)
				break
			}
		}
	}
	g.n = 0
	if g.p(70) {
		// Definitions that succeed
		for i, d := range defs {
			if k := strings.Index(d, "{"); k > 0 && (strings.HasPrefix(d, "namespace") || strings.HasPrefix(d, "scope")) {
				was := g.wrong
				g.wrong = 0
				defs[i] = d[:k+1] + g.one("macro mm {} {probe mm; get v none}", "set v nsv; macro mm {} {probe $v}", "macro mm {*r} {set v $r}") + "; " + g.one("closure cc {} {set cnt [+ [get cnt 0] 1]}", "closure cc {a} {set v $a; get v}", "closure cc {*r} {probe cc $r}", "proc cc {} {probe cc}") + g.one("; proc pp {a} {probe $a; get v none}", "; let k2 kv", "; alias pp cc", "", "; namespace ni {macro mm {} {probe ni}; set v niv}") + "; catch {" + g.sentences(2) + "}}"
				g.wrong = was
			} else if strings.HasPrefix(d, "ensemble") {
				was := g.wrong
				g.wrong = 0
				defs[i] = d[:11] + " " + g.one("{v}", "v", "{}", "{(int v)}", "{(list v)}", "{v w}", "{(f v)}", "{v}", "{v}") + " {" + g.one("macro show {v *r} {probe show $v $r}; proc two {v ?w?} {probe $v [get w none]}", "macro add {v ?a?} {probe $v [get a none]}; closure inc {*v} {set cnt [+ [get cnt 0] 1]}", "ensemble sub {x} {macro in {*v} {probe $v}}; macro show {*r} {probe $r}", "alias show (probe al); alias add idem; proc inc {*r} {return $r}", "namespace show {macro a {} {idem nsa}}; macro add {*v} {yield $v}") + g.one("", "; catch {"+g.sentences(2)+"}") + "}"
				g.wrong = was
			}
		}
		g.n = 0
	}
	switch topic {
	case "ns":
		defs = append(defs, g.one("set nv [ns]", "set nv [nt]", "set nv [namespace {macro mm {} {get v none}; closure cc {a} {set v $a}}]")+"; set sv "+g.one("[sc]", "[sd]", "[scope {set v svv; macro mm {} {get v}}]"))
	case "alias":
		defs = append(defs, "set cv "+g.one("[[macro {*a} {probe cv $a}]]", "[[closure {a} {idem $a}]]", "[[proc {?a?} {get a none}]]", "[macro {a} {probe $a}]", "(probe cv)", "f"))
	}
	return defs
}

func (g *gen) stmtOf(topic string) string {
	w := g.word
	if g.yield > 0 && g.p(g.yield/2) {
		if g.num(5) == 0 {
			return "yield " + w("any") + g.one("; |> idem", "; ^", "; idem [^]", "; |>", "; |> probe a", "; |> list", "; probe [idem a; ^]")
		}
		return "yield " + w("any")
	}
	switch topic {
	case "basic":
		switch g.num(9) {
		case 0:
			return "idem " + w("any")
		case 1:
			return "return " + w("any")
		case 2:
			return "eval " + g.body(2)
		case 3:
			return "error " + w("str")
		case 4:
			return g.one("break", "continue", "pass", "return", "yield", "yield "+w("any"))
		case 5:
			return "eval " + g.body(3)
		case 6:
			return g.stmt() + "; " + g.one("probe [^]", "idem $[^]", "^", "^ 1", "probe "+"[^] [^]", "|> probe a", "|> idem", "|> list", "|>")
		}
		return "probe " + w("any") + g.one("", " "+w("any"))
	case "num":
		return g.mathSentence()
	case "str":
		return g.stringSentence()
	case "list":
		return g.listSentence()
	case "dict":
		return g.dictSentence()
	case "logic":
		return g.logicSentence()
	case "if":
		return g.ifSentence()
	case "loop":
		return g.loopSentence()
	case "catch":
		return g.catchSentence()
	case "var":
		return g.varSentence()
	case "call":
		return g.callSentence()
	case "argspec":
		return g.argspecSentence()
	case "co":
		return g.coSentence()
	case "ns":
		return g.nsSentence()
	case "ens":
		return g.ensSentence()
	case "alias":
		return g.aliasSentence()
	case "script":
		return g.scriptSentence()
	case "help":
		return g.helpSentence()
	case "mod":
		return g.modSentence()
	case "word":
		return g.wordSentence()
	}
	panic("topic " + topic)
}

// arith gives a sentence whose result is a number
func (g *gen) arith() string {
	w := g.word
	if g.p(50) {
		op := g.one("+", "-", "*", "/")
		s := op
		n := g.num(5)
		if op == "/" && n == 0 && g.p(80) {
			n = 1
		}
		for i := n; i >= 0; i-- {
			s += " " + w("num")
		}
		return s
	}
	s := w("num")
	for i := g.num(5); i > 0; i-- {
		s += " " + g.one("+", "-", "*", "/") + " " + w("num")
	}
	return s
}

// boolSentence gives a sentence whose result is a boolean
func (g *gen) boolSentence() string {
	w := g.word
	switch g.num(7) {
	case 0:
		return "! " + w("bool")
	case 1, 2:
		return g.one("&& ", "|| ") + w("bool") + g.one("", " "+w("bool"), " {"+g.one("true", "false", "probe q; idem true")+"} "+w("bool"))
	case 3:
		return "string " + w("str") + " " + g.one("==", "!=", ">", ">=", "<", "<=") + " " + w("str")
	case 4:
		return "exists " + g.one("i", "nope", "s", "v", "w")
	}
	return w("num") + " " + g.one("==", "!=", ">", ">=", "<", "<=") + " " + w("num")
}

func (g *gen) mathSentence() string {
	w := g.word
	switch g.num(7) {
	case 0, 1, 2, 3:
		return g.arith()
	case 4:
		return w("num") + " " + g.one("==", "!=", ">", ">=", "<", "<=") + " " + w("num")
	case 5:
		return g.one("int", "real", "int", "real", "bool") + " " + w(g.one("num", "int", "str", "bool"))
	}
	if g.p(30) {
		return g.one("list", "idem") + " (" + w("num") + " " + w("num") + ")"
	}
	return g.arith()
}

func (g *gen) logicSentence() string {
	w := g.word
	operand := func() string {
		switch g.num(5) {
		case 0, 1:
			return w("bool")
		case 2:
			return "{probe p" + fmt.Sprint(g.num(10)) + "; idem " + w("bool") + "}"
		case 3:
			return "{" + g.one("true", "false", g.stmt()) + "}"
		}
		return g.body(2)
	}
	switch g.num(8) {
	case 0:
		return "! " + operand()
	case 1, 2:
		s := g.one("&&", "||")
		for i := g.num(4); i >= 0; i-- {
			s += " " + operand()
		}
		return s
	case 3:
		return g.one("true", "false") + " " + g.one("?", "!?") + " " + w("any") + g.one("", " "+w("any"), " "+w("any"))
	case 4:
		return w("bool") + g.one("", " ? "+w("any")+" "+w("any"), " !? "+w("any")+" "+w("any"), " ? "+w("any"), " !? "+w("any"), " subcommands")
	case 5:
		return "bool " + w(g.one("bool", "any"))
	case 6:
		return w("num") + " " + g.one("==", "!=", ">", ">=", "<", "<=") + " " + w("num")
	}
	return "string " + w("str") + " " + g.one("==", "!=", ">", ">=", "<", "<=") + " " + w("str")
}

func (g *gen) stringSentence() string {
	w := g.word
	s := "string " + w("str")
	switch g.num(11) {
	case 0:
		return s
	case 1:
		return s + " length"
	case 2:
		return s + " at " + g.idx() + g.one("", " "+w("any"))
	case 3:
		return s + " range " + g.idx() + g.one("", " "+g.idx(), " "+g.idx())
	case 4:
		s += " append"
		for i := g.num(3); i > 0; i-- {
			s += " " + w("str")
		}
		return s
	case 5:
		return s + " remove " + g.idx() + " " + g.idx()
	case 6:
		return s + " insert " + g.idx() + " " + w("str")
	case 7:
		return s + " replace " + g.idx() + " " + g.idx() + " " + w("str")
	case 8, 9:
		return s + " " + g.one("==", "!=", ">", ">=", "<", "<=") + " " + w("str")
	}
	if g.p(50) {
		return s + " append " + w("str")
	}
	return s + " " + g.one("subcommands", "foo", "at", "range", "length x", `""`, "()", "insert 1", "insert 1 a b", "replace 1 2", "replace 1 2 a b")
}

func (g *gen) listSentence() string {
	w := g.word
	s := "list " + w("list")
	switch g.num(14) {
	case 0:
		return s
	case 1:
		return s + " length"
	case 2:
		return s + " at " + g.idx() + g.one("", " "+w("any"))
	case 3:
		return s + " range " + g.idx() + g.one("", " "+g.idx())
	case 4:
		s += " append"
		for i := g.num(3); i > 0; i-- {
			s += " " + w("list")
		}
		return s
	case 5:
		return s + " remove " + g.idx() + " " + g.idx()
	case 6:
		return s + " insert " + g.idx() + " " + w("list")
	case 7:
		return s + " replace " + g.idx() + " " + g.idx() + " " + w("list")
	case 8:
		return s + " sort" + g.one("", " [macro {a b} {string $a < $b}]", " [macro {a b} {$a > $b}]", " [closure {a b} {$a < $b}]", " [macro {a b} {probe $a $b; string $a <= $b}]", " (string)", "")
	case 9, 10, 11:
		v := g.one("v", "w", "a")
		idx := ""
		ls := []string{v}
		if g.p(30) {
			idx = "ix "
			ls = append(ls, "ix")
		}
		elem := v
		if g.p(25) {
			elem = "(" + v + " e2)"
			ls = append(ls, "e2")
		}
		done := g.locally(ls...)
		defer done()
		was := g.inLoop
		g.inLoop = true
		defer func() { g.inLoop = was }()
		return s + " foreach " + idx + elem + " " + g.loopBody()
	case 12:
		return g.one("idem ", "probe ") + g.varOf("list") + g.one("["+w("int")+"]", "["+w("int")+"]", "("+w("str")+")", "["+w("int")+"]["+w("int")+"]")
	}
	if g.p(50) {
		return s + " append " + w("list")
	}
	return s + " " + g.one("subcommands", "foo", "at", "range", "length x", `""`, "()", "sort a", "foreach")
}

func (g *gen) dictSentence() string {
	w := g.word
	s := "dict " + w("dict")
	key := func() string {
		if g.p(70) {
			return g.one("a", "b", "k", "c", "$s", `"a b"`, "1")
		}
		return w("str")
	}
	switch g.num(13) {
	case 0:
		return s
	case 1:
		return s + " size"
	case 2:
		return s + " has " + key()
	case 3, 4:
		return s + " get " + g.one(key(), "("+key()+" "+key()+")", key()) + g.one("", "", " "+w("any"))
	case 5:
		return s + " add " + key() + " " + w("any")
	case 6:
		return s + " remove" + g.one("", " ", " "+key(), " "+key()+" "+key())
	case 7:
		return s + " merge" + g.one("", " ", " "+w("dict"), " "+w("dict")+" "+w("dict"))
	case 8:
		// One entry: no order
		return "dict " + g.one("$d1", "(a 1)", "()") + " " + g.one("keys", "values", "entries")
	case 9:
		done := g.locally("a", "b")
		defer done()
		return "dict " + g.one("$d1", "(a 1)", "()", "$d2") + " foreach " + g.one("", "ix ") + g.one("(a b)", "(a b)", "a") + " " + g.loopBody()
	case 10:
		return g.one("idem ", "probe ") + "$d" + g.one("(a)", "(b)", "(k)", "(nope)", "(a b)", "(a)(b)", "("+key()+")", "[0]", "{idem}")
	case 11:
		return g.one("list", "tuple", "dict") + " " + g.one("[dict (a 1)]", "[dict ()]", "(a 1 b)", w("tuple"), w("list"))
	}
	return s + " " + g.one("subcommands", "foo", "get", "has", `""`, "()", "size a")
}

func (g *gen) test() string {
	switch g.num(4) {
	case 0, 1:
		return g.word("bool")
	case 2:
		return "{probe test; " + g.logicSentence() + "}"
	}
	return g.body(2)
}

func (g *gen) ifSentence() string {
	if g.p(25) {
		// when
		cmd := ""
		if g.p(40) {
			cmd = " " + g.one("{idem}", "idem", "{list}", "(2 ==)", "{! }", "{"+g.num2()+" ==}", "{string a ==}", "", "$k", "{macro {a} {idem $a}}")
		}
		s := "when" + cmd + " {"
		for i := g.num(4); i > 0; i-- {
			s += g.one(g.word("bool"), g.test(), g.word("any")) + " " + g.body(2) + g.one("; ", "\n", " ")
		}
		if g.p(60) {
			s += g.body(2)
		}
		return s + "}"
	}
	s := "if " + g.test() + " " + g.body(2)
	for i := g.num(3); i > 0; i-- {
		s += " elseif " + g.test() + " " + g.body(2)
	}
	if g.p(60) {
		s += " else " + g.body(2)
	}
	return s
}
func (g *gen) num2() string { return g.word("num") }

func (g *gen) loopBody() string {
	if g.depth > g.maxDepth+1 || g.n > 400 {
		return g.one("{}", "{continue}", "{break}", "{probe $v}")
	}
	s := "{"
	if g.p(30) {
		s += "if " + g.test() + " " + g.one("{break}", "{continue}", "{return [idem r]}", "{error e}") + "; "
	}
	g.depth++
	s += g.sentences(2)
	g.depth--
	if g.p(12) {
		s += "; " + g.one("break", "continue", "return rr", "pass")
	}
	return s + "}"
}

func (g *gen) loopSentence() string {
	switch g.num(8) {
	case 0, 1:
		v := g.one("c1", "c2")
		return "set " + v + " 0; while {$[" + "get " + v + "] < " + fmt.Sprint(g.num(4)) + "} {set " + v + " [+ $" + v + " 1]; " + g.loopBody()[1:]
	case 2:
		return "while " + g.one("false", "{false}", g.test()) + " {" + g.sentences(2) + "; break}"
	case 3, 4:
		v := g.one("v", "w", "a")
		done := g.locally(v)
		defer done()
		return g.one("loop "+v+" "+g.word("list"), "list "+g.word("list")+" foreach "+v) + " " + g.loopBody()
	}
	if g.big && g.p(20) {
		return g.bigLoop()
	}
	// loop with sources
	s := "loop"
	var ls []string
	if g.p(25) {
		s += " ix"
		ls = append(ls, "ix")
	}
	for i := g.num(3); i > 0; i-- {
		v := g.one("v", "w", "a", "(v w)", "*", "(v *)", "(v (w a))", "v", "w")
		for _, x := range strings.Fields(strings.NewReplacer("(", " ", ")", " ", "*", " ").Replace(v)) {
			ls = append(ls, x)
		}
		src := ""
		switch g.num(6) {
		case 0:
			src = g.word("dict")
			if g.p(70) {
				src = g.one("$d1", "[dict ()]", "$d2")
			}
		case 1:
			src = g.one("[closure {a} {if [$a < 3] {idem $a} else {break}}]", "idem", "[macro {a} {return [+ $a 1]}]", "(list (a b) at)", "f")
		case 2:
			src = g.one("{if [$[exists q] ] {break}; set q 1; idem z}", "{break}", "{probe s; return r}", "{error x}", g.body(2))
		case 3:
			src = g.word("any")
		default:
			src = g.word("list")
		}
		s += " " + v + " " + src
	}
	if s == "loop" || !strings.Contains(s, "(") {
		// Bounded by the body
		done := g.locally(ls...)
		defer done()
		return "set q1 0; " + s + " {set q1 [+ $q1 1]; if [$q1 > " + fmt.Sprint(g.num(5)) + "] {break}; " + g.loopBody()[1:]
	}
	done := g.locally(ls...)
	defer done()
	return "set q1 0; " + s + " {set q1 [+ $q1 1]; if [$q1 > 6] {break}; " + g.loopBody()[1:]
}

func (g *gen) catchSentence() string {
	s := "catch " + g.one(g.body(3), "{"+g.one("return ", "yield ", "error ", "idem ")+g.word("str")+"}", "{"+g.one("break", "continue", "pass", "return", "error a; idem b")+"}", g.body(2))
	for i := g.num(4); i > 0; i-- {
		switch g.num(6) {
		case 0, 1:
			h := g.one("error", "return", "yield", "error")
			done := g.locally("h")
			s += " " + h + " h " + g.handler()
			done()
		case 2:
			s += " " + g.one("return", "yield", "error") + " " + g.one("h", "(h h2)", `"h"`, "h") + " " + g.handler()
		default:
			s += " " + g.one("break", "continue", "break", "continue", "error h", "return h") + " " + strings.ReplaceAll(g.handler(), "$h", "[get h none]")
		}
	}
	if g.p(40) {
		s += " finally " + g.handler()
	}
	return s
}

func (g *gen) handler() string {
	switch g.num(6) {
	case 0:
		return "{pass}"
	case 1:
		return "{probe handler; " + g.one("pass", "return hr", "error he", "break", "continue", "yield hy", "idem hv", "yield hy; idem after") + "}"
	case 2:
		return g.one("{probe h $h; idem $h}", "{probe h [get h none]; idem [get h none]}", "{probe h [get h none]; pass}")
	}
	return g.body(2)
}

func (g *gen) varSentence() string {
	w := g.word
	name := func() string {
		if g.p(80) {
			return g.one("v", "w", "i", "s", "l", "d", "t", "k", "c", "vv")
		}
		return g.one("(v w)", "(v (w c))", "v[0]", "l[0]", "d(a)", `""`, "()", "(v v)", "[list (v w)]", "{v}", "(i n)", "12", "true", "u[1]", "(a b)", "(v k)", "((v) w)")
	}
	switch g.num(9) {
	case 0, 1:
		n := name()
		if strings.HasPrefix(n, "(") {
			return "set " + n + " " + w("tuple")
		}
		return "set " + n + " " + w("any")
	case 2:
		n := g.one("c1", "c2", "(c1 c2)", "(c3 v)", name())
		if strings.HasPrefix(n, "(") {
			return "let " + n + " " + w("tuple")
		}
		return "let " + n + " " + w("any")
	case 3, 4:
		return "get " + g.one(name(), name()+g.one("", "[0]", "(a)"), "l[1]", "d(a)", "u[1][0]", "(i s)", "(i nope)", "(d d1)(a)") + g.one("", "", " "+w("any"))
	case 5:
		return "exists " + g.one(name(), "l[0]", "l[9]", "d(a)", "d(zz)", "(i s)", "i[0]")
	case 6:
		return "unset " + name()
	case 7:
		return "probe " + g.one("$v", "$w", "$(v w)", "$$k", "$v[0]", "$nope", "$c1", "${v}", "$[get v]")
	}
	return "probe [get v none] [get w none] [get c none] [exists c1]"
}

func (g *gen) argspec() string {
	switch g.num(10) {
	case 0, 1:
		return g.one("{}", "()", "{a}", "a", "{a b}", "(a b)")
	case 2:
		return g.one("{a ?b?}", "{?a?}", "{?a? b}", "{a (?b def)}", "{(?a def) b}", "{(?a {idem $i})}", "{(?b [list (x)])}")
	case 3:
		return g.one("{*args}", "{a *args}", "{*a b}", "{a *b c}", "{*}", "{* a}", "{a ?b? *c d}")
	case 4:
		return g.one("{(int a)}", "{(list a) b}", "{(?a 3)}", "{(int ?a 3)}", "{(int ?a?)}", "{(bool a)}", "{(f a)}", "{(*a)}", "{(list *a)}", "{((list (x)) a)}")
	case 5:
		return g.one("{-o a}", "{?-o? a}", "{(?-o?) a}", "{(-o a)}", "{?-o? ?a? b}", "{?-f? b}", "{(-o -p) a}", "{?(-o -p)? a}", "{?-o? (a def)}", "{?-a? ?b?}")
	}
	s := "{"
	for i := g.num(4); i > 0; i-- {
		s += g.one("a", "b", "c", "?b?", "?c?", "*d", "(?e 1)", "(int f)", "-o o", "?-p? p", "?-q?", "(?r {idem $s})", "*", "(a b)", "*?x?", "?*x?", "()", `""`, "?", "$s", "(int ?g 2)", "(?h?)") + " "
	}
	return s + "}"
}

var argNames = []string{"a", "b", "args"}

func (g *gen) callSentence() string {
	w := g.word
	if g.big && g.p(5) {
		return g.bigCall()
	}
	switch g.num(8) {
	case 0, 1, 2:
		done := g.locally("a")
		defer done()
		was := g.locals
		if g.p(30) {
			g.locals = append(append([]string{}, was...), "b")
		}
		defer func() { g.locals = was }()
		name := g.one(" f", " g", " h", " f", " g", "")
		body := g.body(3)
		if g.p(35) {
			body = "{" + strings.TrimSuffix(strings.TrimPrefix(body, "{"), "}") + "; " + g.one("return $a", "return r", "break", "continue", "error e", "eval {return tc}", "yield y", "idem $a", "probe $a", "set v $a", "set a 5", "let k 3", "f 1", "g 1", "pass") + "}"
		}
		if g.p(20) {
			body = "(" + g.one("int", "list", "idem", "f", "{idem}", "(probe g)", "bool", "nope", "string", "[macro {x} {return $x}]") + " " + body + ")"
		}
		s := g.one("macro", "closure", "proc", "closure", "proc") + name + " " + g.argspec() + " " + body
		if name == "" {
			return g.one("set cv ["+s+"]", "["+s+"] call "+w("any"), "["+s+"] argspec", "argspec [["+s+"] argspec] usage", "["+s+"] subcommands", "["+s+"]")
		}
		return s
	case 3, 4, 5:
		s := g.one("f", "g", "h", "f", "g", "[$cv]", "$cv", "$[$cv]", "(f 1)", "(g)", "((h a) b)")
		for i := g.num(4); i > 0; i-- {
			s += " " + w("any")
		}
		return s
	case 6:
		return "f " + w("any")
	}
	return g.one("[$cv] call", "set cv $[macro {a} {probe $a}]", "[$cv] argspec", "help f", "help g 1", "proc f {n} {if [$n > 0] {f [- $n 1]} else {idem done}}; f 3", "closure g {a} {set v $a; probe $v}; g 1; get v none") + g.one("", " "+w("any"))
}

// bigCall declares a command with many parameters and calls it
func (g *gen) bigCall() string {
	n := g.size()
	spec, show := "", ""
	var args, opts []string
	rest := g.num(n * 3)
	lo := g.num(n)
	kinds := g.one("r", "ro", "rog", "roi", "i", "rogi", "o")
	optional := g.num(2 * n)
	for i := 0; i < n; i++ {
		p := fmt.Sprintf("p%d", i)
		switch k := kinds[g.num(len(kinds))]; {
		case i == rest:
			spec += "*" + p + " "
			args = append(args, "r1 r2 r3")
		case k == 'o' && i > optional:
			spec += g.one("?"+p+"? ", "(?"+p+" d"+p+") ")
			if g.p(70) {
				args = append(args, fmt.Sprint(i))
			}
		case k == 'g':
			spec += "(int " + p + ") "
			args = append(args, fmt.Sprint(i))
		case k == 'i':
			spec += "-o" + p + " " + p + " "
			opts = append(opts, fmt.Sprintf("-o%s %d", p, i))
		default:
			spec += p + " "
			args = append(args, fmt.Sprint(i))
		}
		if i < 3 || i >= n-3 || i == lo || i == rest || i == rest+1 {
			show += " [get " + p + " none]"
		}
	}
	for i := range opts {
		j := g.num(i + 1)
		opts[i], opts[j] = opts[j], opts[i]
	}
	if g.p(20) && len(args) > 0 {
		args = args[:len(args)-1-g.num(2)%len(args)]
	} else if g.p(20) {
		args = append(args, "x")
	}
	call := strings.Join(append(opts, args...), " ")
	switch g.num(5) {
	case 0:
		return "argspec (" + spec + ") set (" + call + "); probe" + show
	case 1:
		return "ensemble eo (" + spec + ") {macro show {*v} {list ($*v) length}}; eo " + call + " show"
	}
	return g.one("proc", "macro", "closure") + " ff (" + spec + ") {probe" + show + "}; ff " + call
}

// bigLoop iterates with many variables
func (g *gen) bigLoop() string {
	n := g.size()
	if g.num(3) == 0 {
		// Many names in one source
		names, vals, show := "", "", ""
		k := g.num(2)
		for i := 0; i < n; i++ {
			if i > 0 && g.num(40) == 0 {
				names, vals = names+" (", vals+" ("
				k++
			}
			names += fmt.Sprintf(" v%d", i)
			vals += fmt.Sprintf(" %d", i*7)
			if i < 2 || i >= n-2 || i == 255 || i == 256 || g.p(2) {
				show += fmt.Sprintf(" [get v%d none]", i)
			}
			if strings.Count(names, "(") > strings.Count(names, ")") && g.num(3) == 0 {
				names, vals = names+")", vals+")"
			}
		}
		end := strings.Repeat(")", strings.Count(names, "(")-strings.Count(names, ")"))
		list := "[list ((" + vals + end + "))]"
		if k%2 == 0 {
			return "list " + list + " foreach (" + names + end + ") {probe" + show + "}"
		}
		return "loop i (" + names + end + ") " + list + " w [list (a b)] {probe" + show + " [get w none]; if [$i > 1] {break}}"
	}
	if n > 100 {
		n = 100
	}
	s, show := "loop"+g.one("", " i"), " [get i none]"
	for i := 0; i < n; i++ {
		v := fmt.Sprintf("v%d", i)
		if i < 2 || i >= n-3 || g.p(5) {
			show += " [get " + v + " none]"
		}
		switch g.num(7) {
		case 0:
			s += " (" + v + " w" + v + ") [list ((1 a) (2 b) (3 c))]"
		case 1:
			s += " " + v + " {if {$[set q" + v + " [+ [get q" + v + " 0] 1]] > " + fmt.Sprint(1+g.num(3)) + "} {" + g.one("break", "continue", "continue") + "}; idem s}"
		case 2:
			s += " (" + v + " w" + v + ") [dict (k" + v + " 1)]"
		case 3:
			s += " " + v + " [closure {x} {if [$x " + g.one("> ", "== ", "< ") + fmt.Sprint(g.num(4)) + "] {" + g.one("break", "continue", "continue") + "}; idem $x}]"
		default:
			s += " " + v + " [list (" + g.one("1", "1 2", "1 2 3", "") + ")]"
		}
	}
	return "set q1 0; " + s + " {set q1 [+ $q1 1]; if [$q1 > 5] {break}; probe" + show + "}"
}

func (g *gen) argspecSentence() string {
	if g.big && g.p(12) {
		return g.bigCall()
	}
	w := g.word
	vals := func() string {
		s := "("
		for i := g.num(6); i > 0; i-- {
			s += g.one(w("any"), "-o", "-p", "-q", "1", "2") + " "
		}
		return s + ")"
	}
	show := "; probe [get a none] [get b none] [get c none] [get d none] [get e none] [get o none] [get p none] [get q none] [get args none] [get f none]"
	switch g.num(7) {
	case 0:
		return "argspec " + g.argspec()
	case 1:
		return "argspec " + g.argspec() + g.one(" usage", " usage", " set "+vals()) + g.one("", show)
	case 2, 3:
		return "eval {argspec " + g.argspec() + " set " + vals() + show + "}"
	case 4:
		v := vals()
		return "proc ff " + g.argspec() + " {" + show[2:] + "}; ff " + v[1:len(v)-1]
	case 5:
		return "proc ff " + g.argspec() + " {idem x}; help ff" + g.one("", " 1", " 1 2", " 1 2 3", " 1 2 3 4")
	}
	return "argspec " + g.one("$as", "[argspec {a b}]", w("any")) + g.one("", " usage", " set "+vals(), " subcommands", " foo", " usage a")
}

func (g *gen) coSentence() string {
	w := g.word
	v := g.one("co", "cp")
	switch g.num(8) {
	case 0, 1, 2:
		old := g.yield
		g.yield = max(g.yield, 15)
		defer func() { g.yield = old }()
		b := g.one("{probe one; probe [yield 1]; probe [yield 2]; idem end}", "{"+g.sentences(3)+"}", "{set q2 0; while {$q2 < 3} {set q2 [+ $q2 1]; probe [yield $q2]}; idem end}", "{["+"get co] active}", "{[get co] wait}", "{yield a; error b}", "{return [yield 1]}", "{break}")
		return "set " + v + " [coroutine " + b + "]"
	case 3, 4, 5:
		return "[$" + v + "] wait"
	case 6:
		return "[$" + v + "] " + g.one("done", "active", "yield "+w("any"), "yield", "yield []", "yield "+w("any"), "wait x", "foo", "subcommands", "active a")
	}
	return "while {! [[$" + v + "] done]} {probe [[$" + v + "] wait]; set q3 [+ [get q3 0] 1]; if [$q3 > 8] {break}}"
}

func (g *gen) nsSentence() string {
	w := g.word
	n := g.one("ns", "ns", "nt")
	sc := g.one("sc", "sd")
	switch g.num(9) {
	case 0, 1:
		b := "{"
		if g.p(60) {
			b += g.one("macro mm {} {probe mm; get v none}; ", "proc pp {a} {probe $a; get v none}; ", "closure cc {a} {set v $a; get v}; ", "let v nsv; ", "set v nsv; ")
		}
		if g.p(60) {
			b += g.one("closure cc {} {set cnt [+ [get cnt 0] 1]}; ", "macro mm {} {set v mmv}; ", "set v nsw; ")
		}
		b += g.sentences(2) + "}"
		return "namespace " + g.one(n, n, n, "") + " " + b
	case 2, 3:
		return n + " " + g.one("eval {"+g.sentences(2)+"}", "call "+g.one("mm", "cc", "pp", "f", "idem")+" "+w("any"), "call "+g.one("mm", "cc", "pp", "probe"), "mm", "cc", "cc "+w("any"), "pp "+w("any"), "import "+g.one("mm", "cc", "pp", "f", "nope")+g.one("", " f", " imp"), "subcommands", "", "foo")
	case 4:
		return g.one("probe $["+n+"](v)", "["+n+"] import cc f", "["+n+"] eval {get v}", "set nv ["+n+"]", "[$nv] eval {set v 1}", "[$nv] call cc", "probe $["+n+"](nope)", "help "+n+" mm", "help "+n, "help "+n+" cc 1", n+" import mm m2; m2", "f", "imp")
	case 5, 6:
		return "scope " + g.one(sc, sc, "") + " " + g.one("{set v sv; macro mm {} {get v}; closure cc {a} {set v $a}}", "{let w cst; "+g.sentences(2)+"}", g.body(3))
	}
	return g.one(sc, "["+sc+"]", "[$sv]") + " " + g.one("eval {"+g.sentences(2)+"}", "call mm", "call cc "+w("any"), "eval {get v none}", "eval "+w("any"), "call "+w("cmd"), "foo", "subcommands", "eval {set v 2}; get v none")
}

func (g *gen) ensSentence() string {
	w := g.word
	n := g.one("en", "en", "eo")
	switch g.num(8) {
	case 0, 1:
		b := g.one("{macro show {v} {probe $v; get i none}; proc two {v w} {probe $v $w}}", "{macro add {v a} {+ $v $a}; closure inc {v} {set cnt [+ [get cnt 0] 1]}}", "{"+g.sentences(2)+"; macro show {v *r} {probe $v $r}}", "{ensemble sub {x} {macro in {v x} {probe $v $x}}}", "{alias show (probe al)}", "{namespace show {macro a {} {idem nsa}}}")
		return "ensemble " + g.one(n, n, n, "") + " " + g.one("{v}", "v", "{}", "{(int v)}", "{(list v)}", "{v w}", "{(f v)}", g.one("{?v?}", "{*v}", "v", "{v w x}"), "{(probe v)}", "{v}") + " " + b
	case 2, 3, 4:
		return n + " " + g.one(w("any"), w("any")+" "+w("any"), "") + " " + g.one("show", "add 2", "inc", "two 2", "sub 3 in", "sub", "subcommands", "foo", "", w("any"), "show "+w("any"))
	case 5:
		return "[" + g.one("list", "dict", "string", "int", "bool", "real", "script", n, "tuple", "argspec") + "] " + g.one("eval {macro extra {v *r} {probe ext $v $r}}", "eval {proc last {v} {list $v at [- [list $v length] 1]}}", "call length "+w("list"), "call append", "eval {"+g.stmt()+"}", "call extra "+w("any"), "argspec", "foo", "subcommands x", "eval {alias size length}")
	case 6:
		return g.one("list "+w("list")+" extra "+w("any"), "list "+w("list")+" last", "string $s extra 1", "dict $d extra", "list $l size")
	}
	return g.one("help "+n+" 1 show", "help list () append", "help "+n, "help "+n+" 1 2 3 4", n+" subcommands", "help dict () foreach a", "help list () at 1 2 3", "alias le (list $l); le length", "alias la list; la (a b) at 0", "("+n+" 1) show")
}

func (g *gen) aliasSentence() string {
	w := g.word
	switch g.num(7) {
	case 0, 1, 2:
		return "alias " + g.one("al", "am", "al") + " " + g.one("f", "(f 1)", "idem", "(idem)", "(list (a b c))", "(list $l at)", "((probe a) b)", "(+ 1)", "[macro {a} {probe $a}]", "()", "am", "(am x)", "nope", "12", "true", "(string abc)", "$cv", "[list]", "({idem} a)", "set", "(set v)", "probe", "(if true)", w("cmd"))
	case 3, 4, 5:
		s := g.one("al", "am", "(al)", "(al a)", "[al]", "((am) b)", "(probe (al x) y)", "$[al]", "$t", "(idem)", "((list (a b)) length)", "()", "(())", "$i", "$y", "12", "[+ 1 2]", "true", "[true]", "(12 +)", "(true ?)", "(1 < 2)", "((idem))", `"12"`, "\"true\"")
		for i := g.num(3); i > 0; i-- {
			s += " " + g.one(w("any"), "length", "at 0", "call", "command", "+ 1", "? a b", "(idem x)")
		}
		return s
	}
	return g.one("[alias al idem] command", "[al] command", "[al] call", "[al] foo", "help al", "help am 1", "help (list () append)", "help (f 1)", "set cv [idem [al]]", "[[alias am (idem a)] command]") + g.one("", " "+w("any"))
}

func (g *gen) scriptSentence() string {
	w := g.word
	src := g.one(`"idem a; idem b"`, `{a b; c "d $x" [e f]}`, `"probe 1"`, `"a {b"`, `""`, `"a; b; c"`, "\"\"\"probe \"a b\" $i\nidem c\"\"\"", `"\"`, `{}`, "{idem [idem b] # c\n}", "{a; ; b}", "{\n\nprobe x\n\n}", `"# c"`, "$bl")
	sv := g.one("[parse "+src+"]", src, "{a b; c}", "$bl", "[script (a b c)]", "[script "+w("any")+"]")
	switch g.num(10) {
	case 9:
		v := g.one("h1", "h2", "sp")
		return g.one("set "+v+" [script "+sv+" append "+sv+"]", "set sp [parse "+src+"]", "set "+v+" [script [get "+v+" {}] append {idem "+fmt.Sprint(g.num(10))+"}]", "probe [script [get "+v+" {}] append {x}] [script [get "+v+" {}] append {y; z}]", "eval [get "+v+" {}]")
	case 0:
		return "parse " + g.one(src, w("str"))
	case 1:
		return "script " + g.one(sv, w("any"))
	case 2:
		return "script " + sv + " length"
	case 3:
		return "script " + sv + " append" + g.one("", " {idem z}", " "+src, " "+sv, " {a} {b}", " "+w("any"))
	case 4:
		return "script " + sv + " split"
	case 5:
		return "eval " + sv
	case 6:
		return "eval [script " + sv + " append {probe tail; idem t}]"
	case 7:
		return "list [script " + sv + " split] foreach sc {probe [script $sc length] $sc}"
	}
	return "script " + sv + " " + g.one("foo", "length a", "subcommands", `""`, "()", "split x") + "; string {a [b] \"c\"} length"
}

func (g *gen) helpSentence() string {
	cmd := g.one("idem", "list", "list () at", "list () append", "dict () get", "string s range", "if", "catch", "while", "loop", "foreach", "set", "let", "f", "f 1", "al", "en", "en 1", "en 1 show", "ns", "ns mm", "(list ())", "+", "/", "12", "true", "true ?", "!", "&&", "macro", "closure", "proc", "namespace", "ensemble", "scope", "coroutine", "alias", "module", "import", "help", "help list", "argspec () set", "script {} append", "parse", "tuple", "int", "pass", "break", "return", "yield", "error", "tailcall", "eval", "when", "exists", "unset", "get", "nope", "$cv", "$l", "()", `""`, "list () sort", "dict () foreach", "[list]", "real", "bool", "string s ==", "list 1 2 3", "numbers", "^", "|>", "probe")
	for i := g.num(4); i > 0; i-- {
		cmd += " " + g.lit("any")
	}
	return "help " + cmd
}

func (g *gen) modSentence() string {
	w := g.word
	if g.p(10) {
		return g.renamed()
	}
	if g.p(8) {
		return "regmod " + g.one("reg", "m1", "m2", "sub/m3", "./m1", "m4", "bad", "nofile", "cyc", "sub/m5", "../m1", "m5", g.dir+"/m1", g.dir+"/sub/m3", g.dir+"/nofile") + " " + g.one("[mo]", "[mp]", "$mv", "$mw", "[$mv]", "[module {macro inc {} {idem reginc}; closure at {} {idem regat}; export inc; export at}]", "[module {import m1 (inc at); export inc; export at}]", w("any"))
	}
	if g.p(10) {
		return g.one("[$mv] import late; [$mv] import redef; ", "mo import late; mo import redef; ", "mp import late; ", "import m1 (late redef); ", "import m2 (late redef); ", "import sub/m3 ((late late2) redef); ", "[$mw] import late; [$mw] import redef;") + g.one("late ", "late ", "late ", "redef ", "late2 ") + g.one("inc", "f", "gv", "hidden", "show", "at", "nope", "idem") + "; " + g.one("[$mv]", "[$mw]", "mo", "mp") + " import " + g.one("inc", "f", "gv", "hidden", "show", "at", "nope", "idem", "hidden g; g", "inc g; probe [g]")
	}
	switch g.num(7) {
	case 0, 1:
		return "module " + g.one("mo", "mo", "mp", "") + " {" + g.one("set cnt 0; closure inc {} {set cnt [+ $cnt 1]}; export inc", "macro show {a} {list ($a)}; export show; export nope; macro inc {} {idem minc}; export inc", g.sentences(2), "export f; macro f {} {idem mf}; set cnt 3; closure inc {} {set cnt [+ $cnt 2]}; export inc; export show; alias show (idem)", g.one("error bad", "return x", "yield x", "break", "export \"\"; export ()"), "let v 1; proc gv {} {get v none}; export gv", "export at; alias at inc; macro inc {} {get cnt none}; export inc") + "}"
	case 2, 3:
		return g.one("mo", "[mo]", "mp", "[$mv]") + " " + g.one("import inc", "import show f", "import f", "import gv g", "import nope", "import inc g; g; g", "exports a", "import "+w("any"), "foo", "subcommands", "import inc "+w("str"))
	case 4, 5:
		pre, post := "import ", ""
		if g.p(30) {
			pre, post = "set mv [import ", "]; probe [[$mv] import at; at]"
		}
		return pre + g.one("reg", "m1", "m2", "sub/m3", "m4", "bad", "nofile", "cyc", "m1", "m2", "sub/m5", "m4", "./m1", "sub/../m2", "tick", "m1/", "sub", "m1", "m2") + g.importList() + post
	}
	return g.one("inc", "inc2", "f", "probe [show 1]", "mo", "get v none", "gv", "probe [inc] [inc]", "probe [at]", "probe [at2]", "probe [inc2]", "other", "probe [tick]", "probe [f 1]", "[$mv] exports", "set mv [import m1]", "set mw [import m2]; set mv [import m2]", "probe [en 1 show]", "ns cc", "[$mv] import at at2; probe [at2]", "[$mw] import inc inc2; probe [inc2]", "set cnt 7; probe [inc]; get cnt", "set v rootv; probe [gv]", "catch {inc} error e {probe $e}")
}

// renamed imports an exported built-in command under some name, then calls it by that name
func (g *gen) renamed() string {
	name := g.one("if", "when", "catch", "list", "dict", "string", "tuple", "true", "false", "+", "*", "==", "&&", "||", "!", "idem", "closure", "macro", "proc", "namespace", "ensemble", "loop", "while", "set", "let", "get", "exists", "unset", "error", "return", "yield", "tailcall", "eval", "parse", "script", "argspec", "help", "alias", "import", "module", "export", "scope", "coroutine", "pass", "break", "continue", "^", "$", "!=", "-", "max", "if", "if", "catch", "when")
	to := g.one("else", "elseif", "finally", "error", "return", "value", "subcommands", "r9", "1", "-1", "default", "call", "eval", "true", "if", "idem", "(", "{}", "\"\"", "*", "?", "yield")
	if to == "(" {
		to = "(a b)"
	}
	args := []string{}
	switch name {
	case "if":
		args = []string{"true {idem 1}", "false {idem 1} else {idem 2}", "{probe a; idem false} {idem 1} elseif true {idem 2}", "false {idem 1}", "{idem true} {probe b}", "true", "else {idem 3}", "false {} else", "no {idem 1}"}
	case "when":
		args = []string{"{true {idem 1}}", "{false {idem 1} {idem 2}}", "{idem 5} {(== 5) {idem yes} {idem no}}", "()", ""}
	case "catch":
		args = []string{"{error a} error e {idem $e} finally {probe f}", "{return a} return v {idem $v}", "{break}", "{continue} break {idem b} continue {idem c}", "{error a} return v {}", "{yield 1} yield v {pass}"}
	case "list", "tuple":
		args = []string{"(a b c) length", "(a b c) at 1", "(a b c) foreach x {probe $x}", "(a b) append (c)", ""}
	case "dict":
		args = []string{"(a b c d) size", "(a b) get a", "(a b) entries", ""}
	case "string":
		args = []string{"abc length", "abc at 1", "abc == abd", ""}
	case "true", "false":
		args = []string{"? a b", "!? a b", "", "? a", "nope"}
	case "+", "*", "-", "max", "^", "==", "!=":
		args = []string{"1 2 3", "1 2", "", "a 1", "2"}
	case "&&", "||", "!", "$":
		args = []string{"true {probe b; idem false}", "false true", "true", "", "{idem true} {yield 1; idem true} false", "{probe n; idem false}"}
	case "closure", "macro", "proc":
		args = []string{"q8 {a} {idem $a}; q8 5", "q8 {} {get x none}; q8", "{a} {list ($a)}", ""}
	case "namespace", "scope":
		args = []string{"q8 {set x 3; closure c {} {get x}}; q8 call c", "{}", "q8 {macro c {} {idem here}}; q8 eval {c}", ""}
	case "ensemble":
		args = []string{"q8 {a} {macro c {v} {idem ($v)}}; q8 5 c", "{} {}", ""}
	case "loop":
		args = []string{"i {if [== $i 3] {break}; probe $i}", "v (1 2 3) {probe $v}", "i v [list (a b)] {probe $i $v}", "v [list (a b)] {continue}", ""}
	case "while":
		args = []string{"false {}", "{idem false} {}", "true {break}", ""}
	case "set", "let":
		args = []string{"x9 3; get x9", "(a9 b9) (1 2); get b9 none", "x 4", "v 1; gv", ""}
	case "get", "exists", "unset":
		args = []string{"x9 none", "v", "x", "v none", "cnt", ""}
	case "coroutine":
		args = []string{"{yield 1; idem 2}", "", "{}"}
	case "help":
		args = []string{"if", "idem", "nope", ""}
	case "alias":
		args = []string{"q8 idem; q8 3", "q8 (list (a b)); q8 length", ""}
	case "import":
		args = []string{"m1", "m2 (inc)", "nofile", "m1 ((at at3)); at3"}
	case "module":
		args = []string{"{export if}", "q8 {macro f {} {idem q8}; export f}; q8 import f; f", ""}
	case "export":
		args = []string{"f", "x", ""}
	case "argspec":
		args = []string{"(a ?b) usage", "a set b", ""}
	case "tailcall", "eval", "parse", "script":
		args = []string{"{idem t}", "{probe s; idem u}", "\"idem z\"", ""}
	default:
		args = []string{"a", "", "a b", "{}"}
	}
	call := to
	s := g.one("mb", "[$mb]", "mb", "[$mb]") + " import " + name + " " + to + "; "
	switch g.num(4) {
	case 0:
		s = "import bi ((" + name + " " + to + ")); "
	case 1:
		return s + "catch {" + call + " " + g.one(args...) + "} error e {probe $e}"
	}
	call += " " + g.one(args...)
	return s + g.one(call, call, "probe ["+call+"]", "closure r8 {} {"+call+"}; r8", "export "+to+"; "+call)
}

func (g *gen) importList() string {
	s := g.one("", "", " (at)", " (at inc)", " ((at at2) (inc inc2))", " (inc)", " (tick)", " (f)", " (inc f)", " (show)", " at", " inc", " ()", " (inc nope at)", " ((inc f))", " (c1)", " (inc (inc inc2))", " (at (a b c))", " ((inc \"\"))", " "+g.word("any"), " (other)", " ((other inc))")
	return s
}

// wordSentence exercises word evaluation
func (g *gen) wordSentence() string {
	s := g.one("probe", "idem", "probe", "list")
	if s == "list" {
		return "list (" + g.rawWords(3) + ")"
	}
	return s + " " + g.rawWords(3)
}

func (g *gen) rawWords(n int) string {
	var ws []string
	for i := g.num(n); i >= 0; i-- {
		ws = append(ws, g.rawWord(0))
	}
	return strings.Join(ws, " ")
}

func (g *gen) sel(d int) string {
	switch g.num(8) {
	case 0, 1, 2:
		return "[" + g.one("0", "1", "2", "-1", "$i", "a", "idem 0", "idem 1", "list ()", "", "[0]", "list $l length", "idem "+g.rawWord(d+1)) + "]"
	case 3, 4, 5:
		return "(" + g.one("a", "b", "k", "a b", "$s", "", "zz", "(a)", g.rawWord(d+1)) + ")"
	}
	return "{" + g.one("idem", "list", "f", "idem; list", "probe sel", "at 0", "list; at 0", "", "nope", "get", "{idem}", "idem a", "(list)", "+ 1", "$i") + "}"
}

func (g *gen) rawWord(d int) string {
	if d > 4 {
		return g.strLit()
	}
	sels := func() string {
		s := ""
		for g.p(45) && len(s) < 40 {
			s += g.sel(d)
		}
		return s
	}
	name := g.one("i", "s", "l", "m", "t", "u", "d", "k", "x", "bl", "e", "d2", "nope")
	switch g.num(12) {
	case 0:
		return g.strLit()
	case 1, 2:
		return "$" + name + sels()
	case 3:
		return g.one("$*", "$$", "$*$", "$$*", "$$$") + g.one(name, "k", "t", "(i s)") + sels()
	case 4:
		return "$[" + g.one("idem "+g.rawWord(d+1), "list ("+g.rawWord(d+1)+")", "dict (a 1)", "list $l", "idem $t", "idem s") + "]" + sels()
	case 5:
		return "$(" + name + " " + g.one("i", "s", "(l t)", name, "") + ")" + sels()
	case 6:
		return "(" + g.one("", g.rawWord(d+1), g.rawWord(d+1)+" "+g.rawWord(d+1)) + ")" + g.one("", "", sels())
	case 7:
		return "{" + g.one("", g.rawWord(d+1), g.rawWord(d+1)+"; "+g.rawWord(d+1)) + "}" + g.one("", "", sels())
	case 8:
		s := "\""
		for i := g.num(4); i > 0; i-- {
			s += g.one("a", " ", "x y", "$i", "$s", "$l[0]", "[idem q]", "$$k", "$d(a)", "\\n", "é", "$[idem z]", "$t", "$(i s)", "$nope", "${s}", "$*l", "[]", "$bl", "(", "}", "#", "$d", "[^]", "$i$s")
		}
		return s + "\""
	case 9:
		s := g.one("a", "$i", "[idem b]", "$s")
		for i := 1 + g.num(3); i > 0; i-- {
			s += g.one("b", "$s", "$i", "[idem c]", "$l[1]", "$k", "${e}", "$[idem q]", "$t", "$d(b)", "1")
		}
		return s
	case 10:
		return name + g.one("", "[0]", "(a)", "[1](b)", "(a b)", "{idem}", "[$i]", "($s)", "[]", "()")
	}
	return g.one("[idem "+g.rawWord(d+1)+"]", "\"\"\"raw $x \"q\" \"\"\"", "[]", "#{c}#", "[^]", "$*()", "$*t", "$*[list (a b)]", "$*[idem c]", "\"\"T\n  tagged $i\n  T\"\"")
}
