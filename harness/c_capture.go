package main

import (
	"fmt"
	"path/filepath"
	"strings"
)

// C05: the four combinations of capture options give the same behaviour, and
// error stacks are those of the specification
func init() {
	all := []string{"basic", "num", "str", "list", "dict", "logic", "if", "loop", "catch", "var", "call", "argspec", "co", "ns", "ens", "alias", "script", "help", "word", "call", "call", "mod"}
	register(&Check{ID: "C05", Quick: 16000, Deep: 500000,
		Rule: "a case is a session run with and without position and error stack capture; outcomes, probes and error stacks (words, lines, columns, indexes, sources) are compared with the reference interpreter; distinct = distinct session texts",
		Run: func(c *Ctx) {
			var ts []string
			for i := 0; i < 1+c.R.IntN(4); i++ {
				ts = append(ts, pick(c.R, all))
			}
			g := newGen(c.R, append(ts, "basic")...)
			g.yield = c.R.IntN(8)
			g.wrong = 60
			g.maxDepth = 1 + c.R.IntN(5)
			scripts := []string{g.randPrelude()}
			for i, k := 0, 1+c.R.IntN(8); i < k; i++ {
				g.n = 0
				scripts = append(scripts, respace(c, g.script(1+c.R.IntN(4))))
			}
			dir := filepath.Join(workDir, "mods")
			for _, t := range ts {
				if t == "mod" {
					c.extra = writeModules(g, dir)
				}
			}
			if c.R.IntN(25) == 0 {
				scripts = deepCalls(c)
			}
			for i := 0; i < 4; i++ {
				if !c.session(sessOpts{dir: dir, feed: feedDefault, stacks: true, capture: i&1 == 1, errStack: i&2 == 2}, scripts) || c.failed {
					return
				}
			}
		}})
}

// respace changes the layout of a script: indentation, blank lines, comments,
// multi-byte characters before commands
func respace(c *Ctx, s string) string {
	if c.R.IntN(2) == 0 {
		return s
	}
	var b strings.Builder
	b.WriteString(pickw(c.R, "", "\n", "  ", "# é\n", "\n\n   ", "#{ é }# ", "\\\n "))
	str := false
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '"':
			str = !str
		case s[i] == '\\' && i+1 < len(s):
			b.WriteString(s[i : i+2])
			i++
			continue
		case str:
		case s[i] == ';' && c.R.IntN(3) == 0:
			b.WriteString(pickw(c.R, ";", "\n", ";\n  ", "; #{日}# ", "\n# c\n\t", "\r\n"))
			continue
		case s[i] == '{' && c.R.IntN(5) == 0:
			b.WriteString("{" + pickw(c.R, " ", "\n", "\n  ", "#{é}# "))
			continue
		case s[i] == ' ' && c.R.IntN(12) == 0:
			b.WriteString(pickw(c.R, "  ", "\t", " \\\n ", " #{é}# "))
			continue
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// deepCalls makes errors at the bottom of long chains of calls
func deepCalls(c *Ctx) []string {
	n := []int{5, 20, 40, 60, 100, 150, 250, 400}[c.R.IntN(8)]
	if c.R.IntN(2) == 0 {
		// Recursion
		bottom := pickw(c.R, "error bottom", "idem $nope", "nope", "list", "break", "+ 1 a", "return $n", "idem a", "(probe x; error b)", "error ()")
		call := pickw(c.R, "rec [$n - 1]", "idem [rec [$n - 1]]", "(rec) [$n - 1]", "al [$n - 1]", "[rec] call [$n - 1]", "if true {rec [$n - 1]}", "when {true} {\n  rec [$n - 1]}", "idem $[rec [$n - 1]]", "if false {} else {\n  rec [$n - 1] }", "set x [rec [$n - 1]]", "probe ([rec [$n - 1]])")
		body := "if [$n == 0] {" + bottom + "} else {\n " + call + "}"
		def := pickw(c.R, "macro", "closure", "proc")
		return []string{"alias al rec; " + def + " rec {n} {" + body + "}", fmt.Sprintf("rec %d", n), fmt.Sprintf("catch {rec %d} error e {idem $e}", n), fmt.Sprintf("idem a; rec %d", n/2)}
	}
	// A command for each level
	if n > 150 {
		n = 150
	}
	lines := []string{"macro m0 {} {" + pickw(c.R, "error bottom", "nope", "idem $nope", "idem ok", "list") + "}"}
	for i := 1; i <= n; i++ {
		call := fmt.Sprintf(pickw(c.R, "m%d", "idem [m%d]", "if true {m%d}", "(m%d)", "\n# c\n  m%d; idem x", "when {[m%d]} {}", "loop {m%d; break}", "idem $[m%d]", "[list ([m%d])] length", "eval {m%d}", "scope {m%d}", "let x%[1]d [m%[1]d]"), i-1)
		lines = append(lines, fmt.Sprintf(pickw(c.R, "macro m%d {} {%s}", "closure m%d {} {%s}", "proc m%d {} {%s}", "alias m%d (eval {%s})", "ensemble m%d {} {macro go {} {%s}}"), i, call))
		if strings.HasPrefix(lines[i], "ens") {
			lines[i] = fmt.Sprintf("ensemble q%d {} {macro go {} {%s}}; alias m%d (q%d go)", i, call, i, i)
		}
	}
	return append(lines, fmt.Sprintf("m%d", n), fmt.Sprintf("m%d", n/2), fmt.Sprintf("catch {m%d} error e {idem $e}", n))
}
