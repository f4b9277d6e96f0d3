package main

import (
	"fmt"
	"strings"
)

// redefCase defines and redefines commands of the same few names in nested
// scopes, namespaces and ensembles, between repeated calls through every path
// that leads to them: what runs is what the names mean at the time of the call
func redefCase(c *Ctx) {
	g := newGen(c.R, "basic")
	g.big = false
	n := 0
	tag := func() string { n++; return fmt.Sprintf("t%d", n) }
	places := []string{"%s", "%s", "[sc] eval {%s}", "[sc] eval {[in] eval {%s}}", "[nn] eval {%s}", "[nn] eval {[ni] eval {%s}}", "[en] eval {%s}", "[sc] eval {[es] eval {%s}}", "[nn] eval {[sn] eval {%s}}"}
	few := c.R.Perm(len(places))[:2+g.num(3)]
	at := func(s string) string {
		if g.p(15) {
			return fmt.Sprintf(pick(c.R, places), s)
		}
		return fmt.Sprintf(places[few[g.num(len(few))]], s)
	}
	names := []string{"f", "g", "h"}
	// Commands only call those of higher ranks, so that calls end
	callee := func(rank int) string {
		if rank >= len(names)-1 {
			return "idem"
		}
		return names[rank+1+g.num(len(names)-rank-1)]
	}
	args := func() string { return g.one("", " a", " a", " a b", " (a b)") }
	body := func(rank int) string {
		s := "{probe " + tag()
		if g.p(60) {
			s += "; " + g.one("%s 1", "%s 1 2", "(%s 1) 2", "if true {%s 3}", "probe [%s 4]", "yield; %s 5", "%s 6; %[1]s 7", "list (1 2) foreach v {%s $v}", "catch {%s 8} error m {probe $m}")
			s = fmt.Sprintf(s, callee(rank))
		}
		return s + g.one("", "; idem "+tag()) + "}"
	}
	var define func(rank int) string
	define = func(rank int) string {
		name := names[rank]
		switch g.num(12) {
		case 0:
			return "alias " + name + " " + g.one("(%s x)", "%s", "(%s)", "$[macro {*r} {%s}]", "((%s y) z)")
		case 1:
			return "ensemble " + name + " {v} {macro a {*r} " + body(rank) + "; macro b {*r} " + body(rank) + "}"
		case 2:
			if g.p(50) {
				return "catch {[" + g.one("nn", "[nn] eval {ni}") + "] import " + name + "} error m {probe $m}"
			}
			return "namespace " + name + " {macro call " + "{*r} " + body(rank) + "}"
		case 3:
			return "scope " + name + " {macro " + name + " {} {probe " + tag() + "}}"
		}
		return g.one("macro", "macro", "closure", "proc") + " " + name + " " + g.one("{*r}", "{*r}", "{*r}", "{}", "{a}") + " " + body(rank)
	}
	def := func() string {
		rank := g.num(len(names))
		s := define(rank)
		if s[0] == 'a' && s[1] == 'l' {
			s = fmt.Sprintf(s, callee(rank))
		}
		if strings.Contains(s, "import") {
			return s
		}
		switch g.num(8) {
		case 0:
			return "set kv [" + s + "]"
		case 1:
			return "set kv [[" + s + "]]"
		}
		return s
	}
	call := func() string {
		f := pick(c.R, names)
		switch g.num(14) {
		case 0:
			return "(" + f + g.one("", " p", " p q") + ")" + args()
		case 1:
			return g.one("[sc]", "[nn]", "nn", "[en]", "sc") + " call " + f + args()
		case 2:
			return g.one("en 1 ", "[sc] eval {es 1 ", "en 1 ", "(en 2) ") + f + args()
		case 3:
			return "loop i a (1 2 3) {if [$i > 2] {break}; " + f + " $i; " + g.one("", g.one("macro", "closure")+" "+f+" {*r} {probe "+tag()+"}", "if [$i == 1] {"+"alias "+f+" (probe "+tag()+")}") + "}"
		case 4:
			return g.one("k", "ka", "kn", "[$kv]", "[$kv]", "$kv", "k1") + args()
		case 5:
			return "[$" + g.one("co", "cp") + "] " + g.one("wait", "wait", "yield r")
		case 6:
			return "set kv [" + f + g.one("", " a") + "]"
		case 7:
			return "help " + f + args()
		case 8:
			return f + " 1 " + g.one("a", "b") + args()
		case 9:
			return g.one("string abc", "list (a b)", "dict (a b)", "argspec (a)", "script {a;b}") + " " + f + args()
		case 10:
			return "set " + g.one("co", "cp") + " [coroutine {probe [" + f + args() + "]; yield 1; probe [" + f + args() + "]; yield 2; " + f + "}]"
		case 11:
			return "alias ka " + g.one(f, "("+f+" p)", "$["+f+"]")
		}
		return f + args()
	}
	safe := func(s string) string { return "probe [catch {" + s + "} error m {idem $m} yield v {probe $v; pass}]" }
	scripts := []string{
		"macro k {*r} {f; g}; closure kn {*r} {h; f 1}; proc k1 {*r} {g 1; h}; alias ka f; set kv 0; set co [coroutine {f; yield; f; yield; g}]; set cp [coroutine {g; yield; h}]",
		"scope sc {scope in {}; ensemble es {v} {}}; namespace nn {namespace ni {}; scope sn {}}; ensemble en {v} {}",
	}
	if g.p(50) {
		scripts = append(scripts, "[list] eval {"+def()+"}; [string] eval {"+def()+"}; [dict] eval {"+def()+"}")
	}
	same := []string{}
	for i := 0; i < 3; i++ {
		same = append(same, safe(at(call())))
	}
	for i := 8 + g.num(20); i > 0; i-- {
		switch g.num(6) {
		case 0, 1:
			scripts = append(scripts, g.one(at(def()), safe(at(def()))))
		case 2, 3:
			s := pick(c.R, same)
			scripts = append(scripts, s, s)
		case 4:
			if s := safe(at(call())); g.p(50) {
				same = append(same, s)
				scripts = append(scripts, s)
			} else {
				scripts = append(scripts, s, s)
			}
		default:
			scripts = append(scripts, at(call()))
		}
	}
	o := sessOpts{feed: feedDefault}
	if g.p(15) {
		o.stacks, o.capture, o.errStack = true, true, true
	}
	c.session(o, scripts)
}

// either draws one of the given special cases
func either(fs ...func(c *Ctx)) func(c *Ctx) {
	return func(c *Ctx) { pick(c.R, fs)(c) }
}
