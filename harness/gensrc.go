package main

import (
	"math/rand/v2"
	"strings"
)

// Source text generators

func pick[T any](r *rand.Rand, xs []T) T      { return xs[r.IntN(len(xs))] }
func pickw(r *rand.Rand, xs ...string) string { return xs[r.IntN(len(xs))] }

var lexAtoms = []string{
	" ", "  ", "\t", "\r", "\f", "\n", "\n\n", "\r\n", "\\\n", "\\\n  \t", "\\\n\n", " \\\n ",
	"a", "ab", "foo", "1", "12", "a1", "-", ".", "/", "é", "日本", "\x80", "\xff\xfe", "\x00", "\v", "'", "`", "~",
	"\\a", "\\b", "\\f", "\\n", "\\r", "\\t", "\\v", "\\\\", "\\\"", "\\$", "\\[", "\\{", "\\}", "\\(", "\\)", "\\;", "\\#", "\\*", "\\ ", "\\é", "\\\xff", "\\\t",
	"\\0", "\\7", "\\01", "\\123", "\\1234", "\\777", "\\8", "\\08", "\\400",
	"\\x", "\\x4", "\\x41", "\\x412", "\\xg", "\\xFf", "\\xa",
	"\\u", "\\u1", "\\u00e9", "\\u00E9a", "\\ud800", "\\uFFFF", "\\u12g",
	"\\U", "\\U1", "\\U0001F600", "\\U00110000", "\\UFFFFFFFF", "\\U7fffffff", "\\U80000000", "\\U000000410",
	"#", "##", "###", "#{", "##{", "}#", "}##", "# ", "#a",
	"(", ")", "()", "{", "}", "{}", "[", "]", "[]",
	"\"", "\"\"", "\"\"\"", "\"\"\"\"", "\"\"TAG\n", "TAG\"\"", "\"\"T\n", "T\"\"", "\"\"\"\"\"",
	"$", "$$", "$*", "$$*", "$*$", "$*$*", "*", "**", ";", ";;", "\\",
	"$a", "$(", "$[", "${", "$\"", "$#", "$*(", "$a(", "$a[", "a(", "a[", "a{",
}

// randomSource concatenates lexical atoms at random
func randomSource(r *rand.Rand, max int) string {
	var b strings.Builder
	n := 1 + r.IntN(max)
	for i := 0; i < n; i++ {
		if r.IntN(40) == 0 {
			b.WriteByte(byte(r.IntN(256)))
		} else {
			b.WriteString(pick(r, lexAtoms))
		}
	}
	return b.String()
}

// srcGen generates mostly well-formed sources
type srcGen struct {
	r     *rand.Rand
	depth int
	// Only words that can be evaluated
	valid bool
}

func (g *srcGen) ws() string {
	return pickw(g.r, " ", " ", " ", "  ", "\t", "\\\n", " \\\n  ", "\r", "\f ")
}
func (g *srcGen) sep() string {
	return pickw(g.r, "\n", ";", "; ", "\n\n", " ; ", "\n\t", ";\n", " \n ")
}
func (g *srcGen) lit() string {
	if g.valid {
		return pickw(g.r, "a", "foo", "x1", "1", "-3", "1.5", "é", "a*b", "a#b", "\\x41", "\\n", "a\\tb", "\\$x", "\\{", "日", "\x80", "*", "true", "b", "0", "2")
	}
	return pickw(g.r, "a", "foo", "x1", "1", "-3", "1.5", "é", "a*b", "a#b", "*", "a*", "\\x41", "\\n", "a\\tb", "\\$x", "\\{", "日", "\x80", "a\\", "$", "a$", "**", "true", "\\\"q")
}
func (g *srcGen) name() string {
	return pickw(g.r, "a", "b", "foo", "x1", "\\x41", "é")
}
func (g *srcGen) body() string {
	if g.depth > 5 {
		if g.valid {
			return pickw(g.r, "a", "a b", "$b", "1", "idem $a; b c")
		}
		return pickw(g.r, "", "a", "a b")
	}
	g.depth++
	defer func() { g.depth-- }()
	if g.valid && g.r.IntN(8) > 0 {
		return g.script(2)
	}
	switch g.r.IntN(8) {
	case 0:
		return ""
	case 1:
		return pickw(g.r, " ", "\n", ";", " \n ", "# c\n", "\\\n")
	}
	return g.script(3)
}
func (g *srcGen) group() string {
	switch g.r.IntN(3) {
	case 0:
		return "(" + g.body() + ")"
	case 1:
		return "[" + g.body() + "]"
	}
	return "{" + g.body() + "}"
}
func (g *srcGen) selectors() string {
	s := ""
	for g.r.IntN(2) == 0 && len(s) < 60 {
		s += g.group()
	}
	return s
}
func (g *srcGen) subst() string {
	s := pickw(g.r, "$", "$", "$", "$$", "$*", "$*$", "$$$", "$$*", "$*$*")
	switch g.r.IntN(4) {
	case 0:
		s += g.group()
	case 1:
		s += "[" + g.body() + "]"
	default:
		s += g.name()
	}
	return s + g.selectors()
}
func (g *srcGen) str() string {
	var b strings.Builder
	b.WriteByte('"')
	n := g.r.IntN(6)
	for i := 0; i < n; i++ {
		switch g.r.IntN(9) {
		case 0, 1:
			b.WriteString(g.subst())
		case 2:
			b.WriteString("[" + g.body() + "]")
		case 3:
			if g.valid {
				b.WriteString(pickw(g.r, ";", "#", "*", "\n", " ", "$ ", "$;", "x"))
				continue
			}
			b.WriteString(pickw(g.r, "(", ")", "{", "}", "]", ";", "#", "##{", "*", "\n", " ", "$", "$*", "$ ", "$;", "$)", "$}", "$]", "$#", "$*\\\n"))
		default:
			b.WriteString(pickw(g.r, "a", "b c", "\\n", "\\\"", "\\x41", "é", "\\\n  ", "x$", "1"))
		}
	}
	b.WriteByte('"')
	return b.String()
}
func (g *srcGen) here() string {
	q := strings.Repeat("\"", 3+g.r.IntN(3))
	return q + pickw(g.r, "a", "a \"b\" c", "\n x\n", "$a [b] {", "\\n\\\n", "\"\"x", "#{ }# ", "a\"\"\"\"\"\"\"b") + pickw(g.r, "", "\n", " ", "x") + q
}
func (g *srcGen) tagged() string {
	tag := pickw(g.r, "T", "TAG", "é", "T", "x1")
	indent := pickw(g.r, "", "  ", "    ", "\t")
	return "\"\"" + tag + pickw(g.r, "", " junk", " \"x [", ";") + "\n" +
		indent + pickw(g.r, "a", "", "  deeper", "$x [", "\"\"T", "T \"\"", "\"\"") + "\n" +
		pickw(g.r, "", indent+"b\n", " \n", "\n\n", indent+"\\n\\\n  c\n") + indent + tag + "\"\""
}
func (g *srcGen) comment() string {
	d := strings.Repeat("#", 1+g.r.IntN(3))
	switch g.r.IntN(4) {
	case 0:
		return d + pickw(g.r, "", " c", " \\\n more", " ) } ] \"", "x{", " $a") + "\n"
	case 1:
		return d + "{" + pickw(g.r, "", " c ", "#", "# {", "}", " \" ( [ ", "}####", "\n") + "}" + d
	case 2:
		return d + "{ " + d + "{ in }" + d + " out }" + d
	}
	return d + "{" + pickw(g.r, d+"{ a }"+d, d+"#{ }"+d+"#", "}", "\n\\\n}") + pickw(g.r, "", "}"+d) + "}" + d
}
func (g *srcGen) word() string {
	if g.depth > 6 {
		return g.lit()
	}
	g.depth++
	defer func() { g.depth-- }()
	n := g.r.IntN(14)
	if g.valid {
		switch n {
		case 5:
			return pickw(g.r, "("+g.body()+")", "{"+g.lit()+"}", g.name()) + g.selectors()
		case 11:
			s := ""
			for i := 0; i < 2+g.r.IntN(3); i++ {
				s += pickw(g.r, g.name(), g.subst(), "["+g.body()+"]")
			}
			return s
		case 13:
			n = 7
		}
	}
	switch n {
	case 0, 1, 2, 3:
		return g.lit()
	case 4:
		return g.group()
	case 5:
		return g.group() + g.selectors()
	case 6:
		return g.name() + g.selectors()
	case 7, 8:
		return g.subst()
	case 9:
		return g.str()
	case 10:
		if g.valid {
			return pickw(g.r, "\"\"\"a $b\"\"\"", "\"\"T\n  x [\n  T\"\"")
		}
		if g.r.IntN(2) == 0 {
			return g.here()
		}
		return g.tagged()
	case 11:
		s := ""
		for i := 0; i < 2+g.r.IntN(3); i++ {
			switch g.r.IntN(4) {
			case 0:
				s += g.lit()
			case 1:
				s += g.subst()
			case 2:
				s += "[" + g.body() + "]"
			case 3:
				s += pickw(g.r, "$", "#", "*", "a", "$$a$", "(b)", "{c}")
			}
		}
		return s
	case 12:
		if g.valid {
			return pickw(g.r, "#{ c }#", g.lit())
		}
		if g.r.IntN(3) == 0 {
			return g.comment()
		}
		return g.lit()
	}
	// Odd combinations
	return g.group() + g.lit() + pickw(g.r, "", g.subst(), g.group(), "\"a\"")
}
func (g *srcGen) sentence() string {
	s := ""
	n := 1 + g.r.IntN(4)
	for i := 0; i < n; i++ {
		if i > 0 {
			s += g.ws()
		}
		s += g.word()
	}
	return s
}
func (g *srcGen) script(n int) string {
	s := pickw(g.r, "", "", "", " ", "\n", "# c\n")
	k := 1 + g.r.IntN(n)
	for i := 0; i < k; i++ {
		if i > 0 {
			s += g.sep()
		}
		s += g.sentence()
	}
	if g.valid {
		return s + pickw(g.r, "", "", " ", "\n", ";")
	}
	return s + pickw(g.r, "", "", "", " ", "\n", " # end", ";")
}

// mutate edits a source at random: deletes, duplicates, inserts, truncates
func mutate(r *rand.Rand, s string) string {
	for k := 1 + r.IntN(3); k > 0; k-- {
		i := r.IntN(len(s) + 1)
		j := min(len(s), i+r.IntN(4))
		switch r.IntN(5) {
		case 0:
			s = s[:i] + s[j:]
		case 1:
			s = s[:j] + s[i:]
		case 2, 3:
			s = s[:i] + pick(r, lexAtoms) + s[i:]
		case 4:
			s = s[:i]
		}
	}
	return s
}

// anySource draws from all generators
func anySource(r *rand.Rand) string {
	g := &srcGen{r: r}
	if r.IntN(60) == 0 {
		return longSource(r)
	}
	switch r.IntN(6) {
	case 0:
		return randomSource(r, 12)
	case 1, 2:
		return g.script(3)
	case 3:
		return g.sentence()
	}
	return mutate(r, g.script(3))
}

// longSource generates sources with one dimension well beyond usual sizes:
// counts, depths, delimiter and line lengths
func longSource(r *rand.Rand) string {
	g := &srcGen{r: r}
	n := pick(r, []int{20, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 258, 300, 511, 513})
	rep := func(f func() string, n int) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteString(f())
		}
		return b.String()
	}
	s := ""
	switch r.IntN(13) {
	case 0: // One atom over and over
		a := pick(r, lexAtoms)
		s = strings.Repeat(a, n)
	case 1: // Many sentences
		s = rep(func() string { return g.lit() + pickw(r, " a", " $b", " [c]", "") + g.sep() }, n)
	case 2: // Many words
		s = rep(func() string { return g.word() + " " }, n)
	case 3: // Long delimiters
		m := pick(r, []int{n, 3, 3, 4, 5})
		q := strings.Repeat("\"", m)
		w := strings.Repeat("\"", max(3, pick(r, []int{m - 1, m + 1, m + 64, m + 128, m + 256, m + 512, m + 65536, n})))
		s = q + pickw(r, "a", "a\n", "", " ") + w + pickw(r, " ", "b", "", " b ") + q
	case 4:
		n = pick(r, []int{n, 1, 2, 3})
		d := strings.Repeat("#", n)
		m := strings.Repeat("#", pick(r, []int{1, max(1, n-1), n + 1, n + 64, n + 128, n + 256, n + 512, n + 65536}))
		s = d + "{ a" + pickw(r, "", m+"{", "}"+m, d+"{ b }"+d) + " }" + d
	case 5: // Long tags, deep indentation
		tag := strings.Repeat(pickw(r, "T", "ab"), n)
		in := strings.Repeat(pickw(r, " ", "\t"), pick(r, []int{0, 4, n}))
		s = "\"\"" + tag + "\n" + in + "x\n" + pickw(r, "", in+" y\n", "  z\n", in+tag[1:]+"\"\"\n") + in + tag + "\"\""
	case 6: // Deep nesting
		open, cl := "", ""
		for i := 0; i < n; i++ {
			switch r.IntN(6) {
			case 0:
				open, cl = open+"(", ")"+cl
			case 1:
				open, cl = open+"[", "]"+cl
			case 2:
				open, cl = open+"{", "}"+cl
			case 3:
				open, cl = open+"a (b ", ")"+cl
			case 4:
				open, cl = open+"\"x[", "]\""+cl
			case 5:
				open, cl = open+"a[", "]"+cl
			}
		}
		s = open + pickw(r, "", "a", "$x") + cl
	case 7: // Long chains of selectors and substitutions
		s = pickw(r, "$a", "$[a]", "a", "(a)", "${a}") + rep(g.group, n)
	case 8:
		s = strings.Repeat("$", n) + pickw(r, "*", "") + pickw(r, "a", "[a]", "(a b)", "")
	case 9: // Long strings
		s = "\"" + rep(func() string { return pickw(r, "a", "$b", "[c]", "\\n", " ", "$*d", "\n") }, n) + "\""
	case 10: // Long compound words
		s = rep(func() string { return pickw(r, "a", "$b", "[c]", "é", "\\x41", "${d}(e)") }, n)
	case 11: // Long lines
		s = strings.Repeat(pickw(r, "abcdefghijklmnop", "é ", "a b ", "\\n", "[a]", "#"), pick(r, []int{n, 4200}))
	case 12: // Many lines
		s = strings.Repeat(pickw(r, "\n", "a\n", "\\\n", "\r\n", "# b\n", " \n"), pick(r, []int{n, 4200}))
	}
	switch r.IntN(4) {
	case 0:
		s = g.sentence() + g.sep() + s + g.sep() + g.sentence()
	case 1:
		s = mutate(r, s)
	case 2:
		s += pickw(r, "", "a", "\n", ")", "]", "}", "\"", "#", "\\")
	}
	return s
}
