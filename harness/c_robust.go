package main

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"helena/core"
	hd "helena/helena_dialect"
	"helena/native/go_os"
	"helena/native/go_regexp"
)

// C09: any command with any arguments, and altered sources

var (
	anyCommands = strings.Fields("! != && ^ alias argspec bool catch closure coroutine dict ensemble error eval exists export get help idem if import int let list loop macro module namespace parse pass proc real return scope script set string tailcall tuple true false unset when while yield |> || + - * / == > >= < <= 1 2.5 a probe nope true? $* break continue ? !? []")
	subWords    = strings.Fields("subcommands valid? usage set get add merge remove insert replace append length at range foreach sort keys values entries has size join split eval call import export wait active done argspec help error return yield break continue finally else elseif == != < > <= >= ? !? && || + - * / resume indexOf replaceAll sub % ** first last rest")
	anyValues   = []string{
		"a", "b", "foo", `""`, `"a b"`, "1", "0", "-1", "2.5", "1e400", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "true", "false", "NaN", "0x10", "é", "\"\\xff\\xfe\"", "\"\\x00\"", "*", "?a?", "*a", "(?a 1)", "(-o x)", "(int n)", "((-o a) b)", "?-o?",
		"[]", "()", "(a)", "(a b)", "((a b) (c d))", "(1 2 3)", "([] [])", "(a)(b)", "{}", "{a}", "{a b; c}", "{idem a}", "{error e}", "{yield 1}", "{break}", "{return r}", "{continue}", "{pass}", "{{}}", "{$nope}", "{\"}", "{(}", "{probe in; idem 1}", "{nope}", "{[idem a] b}", "{$*(a b)}",
		"[list ()]", "[list (a b c)]", "[list (1 [list (2)])]", "[dict ()]", "[dict (a 1)]", "[dict (a [dict (b 1)])]", "[argspec ()]", "[argspec {a ?b? *c}]", "[script {a} append {b}]", "[script ()]", "[parse {a b}]",
		"[[closure {} {idem c}]]", "[[closure {a} {idem $a}]]", "[[macro {*a} {idem $a}]]", "[[proc {a ?b?} {idem $a}]]", "[closure {} {}]", "[macro {a} {}]", "[proc {} {}]", "[alias x9 idem]", "[[alias x9 (idem a)]]", "[namespace {closure cc {a} {idem $a}}]", "[[namespace {}]]", "[scope {}]", "[[scope {}]]", "[ensemble {} {}]", "[[ensemble {v} {closure s {v} {}}]]", "[coroutine {yield 1; yield 2}]", "[[coroutine {idem 1}]]", "[catch {a}]", "[module {}]", "[[module {}]]", "[list]", "[[list]]", "[dict]", "[true]", "[int]", "[string]", "[tuple (a)]", "$[list (a b)]",
		"$[idem list]", "a(b)", "a[1]", "$l", "$l[0]", "$l[9]", "$d(a)", "$d(zz)", "$t[1]", "$s[0]", "$(i n)", "$l(a)", "$d[0]", "$i[0]", "$s(a)", "$bl", "$nope", "$t", "$d", "$i", "$*t", "$*l", "$*d", "$*()", "$*bl", "$*s", "[get l]", "${i}", "$$s", "$f", "$[f 1]", "$x{sel}", "$l{idem 0}", "a$i", "$cv", "[$cv 1]", "[yield 1]", "[^]", "(f 1)", "((f))", "[list (a [[closure {} {}]])]", "([[macro {} {}]])", "list", "dict", "string", "ens en", "en", "ns", "[ns]", "\"\"\"a\"\"\"", "#{c}#",
	}
)

func anyArg(r *rand.Rand, depth int) string {
	switch k := r.IntN(20); {
	case k < 4:
		return pick(r, subWords)
	case k == 4 && depth < 3:
		return "[" + anySentence(r, depth+1) + "]"
	case k == 5 && depth < 3:
		return "{" + anySentence(r, depth+1) + "}"
	case k == 6 && depth < 3:
		return "(" + anyArg(r, depth+1) + " " + anyArg(r, depth+1) + ")"
	case k == 7:
		return pick(r, anyCommands)
	}
	return pick(r, anyValues)
}

// anySentence calls any command with any number of any arguments
func anySentence(r *rand.Rand, depth int) string {
	var words []string
	if r.IntN(12) == 0 {
		words = append(words, pick(r, anyValues))
	} else {
		words = append(words, pick(r, anyCommands))
	}
	n := r.IntN(6)
	if r.IntN(30) == 0 {
		n += r.IntN(10)
	}
	sub := r.IntN(3)
	for i := 0; i < n; i++ {
		if i == sub && r.IntN(2) == 0 {
			words = append(words, pick(r, subWords))
			continue
		}
		words = append(words, anyArg(r, depth))
	}
	s := strings.Join(words, " ")
	if r.IntN(10) == 0 {
		s = "help " + s
	}
	return s
}

// subcommandSentence calls a subcommand that exists with any arguments
func subcommandSentence(r *rand.Rand) string {
	type sc struct{ v, subs string }
	x := pick(r, []sc{
		{"list", "length at range append remove insert replace foreach sort subcommands"}, {"dict", "size has get add remove merge keys values entries foreach subcommands"}, {"string", "length at range append remove insert replace == != < > <= >= subcommands"},
		{"script", "length append split subcommands"}, {"argspec", "usage set subcommands"}, {"int", "subcommands +"}, {"bool", "subcommands ? !?"}, {"real", "subcommands"}, {"tuple", "subcommands"},
		{"[ns]", "eval call import subcommands"}, {"[en]", "eval call argspec subcommands"}, {"[$co]", "wait active done subcommands"}, {"[scope {}]", "eval call subcommands"}, {"[closure {a} {}]", "argspec subcommands"}, {"[macro {} {}]", "argspec subcommands"}, {"[proc {a *b} {}]", "argspec subcommands"}, {"[alias q9 idem]", "command subcommands"}, {"[module {}]", "import subcommands"}, {"[list]", "eval call argspec subcommands"}, {"true", "? !? subcommands"}, {"1", "+ - * / == != < <= > >= subcommands"}, {"en", "show two subcommands"},
	})
	sub := pick(r, strings.Fields(x.subs))
	s := x.v
	takes := map[string]bool{"list": true, "dict": true, "string": true, "script": true, "argspec": true, "int": true, "bool": true, "real": true, "tuple": true, "en": true}
	if takes[x.v] {
		s += " " + anyArg(r, 1)
	}
	if sub == "foreach" || sub == "sort" {
		s += " " + sub + " " + pick(r, anyValues)
		for k := r.IntN(3); k > 0; k-- {
			s += " " + pick(r, anyValues)
		}
		return s
	}
	s += " " + sub
	for k := r.IntN(5); k > 0; k-- {
		s += " " + anyArg(r, 1)
	}
	return s
}

var robustPrelude = `set i 3; set n -2; set x 2.5; set s hello; set l [list (a b c)]; set t (a b); set d [dict (a 1 b 2)]; set bl {probe body; idem val}; macro f {a} {probe f $a; idem $a}; set cv [[macro {*a} {probe cv $a}]]; namespace ns {closure cc {a} {set v $a}}; ensemble en {v} {macro show {v *r} {probe show $v $r}; proc two {v w} {probe two $v $w}}; set co [coroutine {yield 1; idem 2}]`

// canary tells whether the interpreter still works
const canary = `set cz1 [list (1 2 3)]; set cz2 0; list $cz1 foreach q {set cz2 [+ $cz2 $q]}; closure cz {a} {if [$a > 5] {idem big} else {idem small}}; probe canary $cz2 [cz $cz2] [catch {cz} error m {idem $m}] [dict (a 1) get a]`

func robustCase(c *Ctx) {
	r := c.R
	switch k := r.IntN(20); {
	case k < 11:
		// Any call; the specification tells the outcome and what comes after
		scripts := []string{robustPrelude}
		for j := 1 + r.IntN(6); j > 0; j-- {
			if r.IntN(2) == 0 {
				scripts = append(scripts, anySentence(r, 0))
			} else {
				scripts = append(scripts, subcommandSentence(r))
			}
		}
		scripts = append(scripts, canary)
		o := sessOpts{feed: feedDefault, stacks: !strings.Contains(strings.Join(scripts[1:], " "), "module")}
		o.capture, o.errStack = r.IntN(2) == 0, r.IntN(2) == 0
		c.robustSession(o, scripts)
	case k < 15:
		// Altered sources
		var ts []string
		for j := 1 + r.IntN(3); j > 0; j-- {
			ts = append(ts, pick(r, allTopics))
		}
		g := newGen(r, append(ts, "basic")...)
		g.yield = r.IntN(10)
		scripts := []string{g.randPrelude()}
		for j := 1 + r.IntN(4); j > 0; j-- {
			g.n = 0
			s := g.script(1 + r.IntN(3))
			for m := 1 + r.IntN(3); m > 0; m-- {
				s = alter(r, s)
			}
			scripts = append(scripts, s)
		}
		scripts = append(scripts, canary)
		o := sessOpts{feed: feedDefault}
		o.capture, o.errStack = r.IntN(2) == 0, r.IntN(2) == 0
		c.robustSession(o, scripts)
	case k < 17:
		// Picol
		var scripts []string
		for j := 1 + r.IntN(5); j > 0; j-- {
			scripts = append(scripts, anyPicol(r, 0))
		}
		scripts = append(scripts, `proc cz {a} {if {> $a 5} {return big}; return small}; probe canary [cz 6] [cz 1] [+ 1 2]`)
		c.picolSession(append([]string{picolPrelude}, scripts...))
	case k < 19:
		c.nativeFuzz()
	default:
		c.deepCase()
	}
}

// alter changes a source: bytes, or words exchanged
func alter(r *rand.Rand, s string) string {
	if r.IntN(3) == 0 {
		return mutate(r, s)
	}
	w := strings.Split(s, " ")
	i := r.IntN(len(w))
	switch r.IntN(5) {
	case 0:
		w[i] = pick(r, anyValues)
	case 1:
		w = append(w[:i], w[i+1:]...)
	case 2:
		w[i] += " " + pick(r, anyValues)
	case 3:
		j := r.IntN(len(w))
		w[i], w[j] = w[j], w[i]
	case 4:
		w[i] = "[" + anySentence(r, 2) + "]"
	}
	return strings.Join(w, " ")
}

// robustSession is a session whose undecided scripts also run, for crashes
func (c *Ctx) robustSession(o sessOpts, scripts []string) {
	o.maxYields = 12
	n := c.robustLen(o, scripts)
	c.session(o, scripts)
	if c.failed || n == len(scripts) {
		return
	}
	// The specification doesn't tell what the script does: run it when it cannot
	// last
	all := strings.Join(scripts[:n+1], "\n")
	if strings.Contains(all, "while") || strings.Contains(all, "loop") {
		return
	}
	s := newRealSession(o)
	for k := 0; k <= n; k++ {
		ob, _ := s.runScript(k, scripts[k])
		for _, l := range ob {
			code, _, _ := strings.Cut(l, " ")
			if strings.HasPrefix(code, "parse") || strings.HasPrefix(code, "\"") {
				continue
			}
			c.Count("crash-only outcomes", 1)
		}
	}
	if ob, _ := s.runScript(0, "[[closure {a} {idem $a}]] works"); len(ob) == 0 || !strings.HasSuffix(ob[len(ob)-1], `"works"`) {
		c.Fail("unusable", "after the scripts, a call gives %v", ob)
	}
}

// robustLen returns the number of scripts the specification decides, or all
// when it gave up for being too long
func (c *Ctx) robustLen(o sessOpts, scripts []string) int {
	want, _, why, _ := refRun(o, scripts)
	switch why {
	case "", "fuel", "depth", "size", "sort size":
		return len(scripts)
	}
	return len(want)
}

var picolCommands = strings.Fields("+ - * / == != > >= < <= ! && || if proc set incr return break continue true false idem probe p1 p2 pa pd nope eval error list a 1")

func anyPicol(r *rand.Rand, depth int) string {
	var words []string
	words = append(words, pick(r, picolCommands))
	for n := r.IntN(6); n > 0; n-- {
		switch k := r.IntN(12); {
		case k == 0 && depth < 3:
			words = append(words, "["+anyPicol(r, depth+1)+"]")
		case k == 1 && depth < 3:
			words = append(words, "{"+anyPicol(r, depth+1)+"}")
		case k == 2:
			words = append(words, pickw(r, "else", "args", "{a args}", "{{a 1} b}", "{}", "{a {b}}", "{{}}", "{{a b c}}"))
		default:
			words = append(words, pickw(r, "a", "1", "0", "-1", "2.5", `""`, "$i", "$t", "$nope", "()", "(a b)", "[]", "{}", "{a}", "{idem 1}", "{error}", "{break}", "{return 1}", "true", "false", "1e400", "x", "$s", "[set t]", "p1", "{p1 1}", "a(b)", "$t[0]", "$*t", "#{c}#", `"a b"`, "{$i}", "{[p1 2]}", "([] [])", "NaN"))
		}
	}
	return strings.Join(words, " ")
}

// nativeScope has the native modules imported
func nativeScope() *hd.Scope {
	reg := hd.NewModuleRegistry(&hd.ModuleOptions{CapturePositions: true, CaptureErrorStack: true})
	scope := hd.NewRootScope(&hd.ScopeOptions{CapturePositions: true, CaptureErrorStack: true})
	hd.InitCommandsForModule(scope, reg, workDir)
	reg.Register("go:regexp", go_regexp.Initmodule())
	reg.Register("go:os", go_os.Initmodule())
	return scope
}

var regexpMethods = strings.Fields("QuoteMeta Compile CompilePOSIX FindAllString FindAllStringIndex FindAllStringSubmatch FindAllStringSubmatchIndex FindString FindStringIndex FindStringSubmatch FindStringSubmatchIndex LiteralPrefix Longest MatchString NumSubexp ReplaceAllLiteralString ReplaceAllString ReplaceAllStringFunc Split String SubexpIndex SubexpNames Foo")

// nativeFuzz calls native commands with anything: they must answer
func (c *Ctx) nativeFuzz() {
	scope := nativeScope()
	run := func(src string) (core.Result, bool) {
		r := parseReal(src, true)
		if !r.Success {
			return core.Result{}, false
		}
		p := scope.PrepareProcess(scope.Compile(*r.Script))
		for k := 0; ; k++ {
			if res := p.Run(); res.Code != core.ResultCode_YIELD || k > 20 {
				return res, true
			}
		}
	}
	run("import go:regexp (regexp); import go:os (os)")
	run(robustPrelude)
	run(`set re [regexp Compile "a(b*)c"]`)
	var all []string
	for k := 2 + c.R.IntN(6); k > 0; k-- {
		s := "regexp " + pick(c.R, regexpMethods)
		if c.R.IntN(8) == 0 {
			s = "os " + pickw(c.R, "ReadFile", "Foo", "[]")
		} else if c.R.IntN(3) > 0 {
			s += " $re"
		}
		for n := c.R.IntN(4); n > 0; n-- {
			s += " " + pick(c.R, anyValues)
		}
		if strings.Contains(s, "CompilePOSIX") || strings.Contains(s, "Compile") {
			s = "idem [" + s + "]"
		}
		all = append(all, s)
		c.Input(strings.Join(all, "\n"))
		res, parsed := run(s)
		if !parsed {
			continue
		}
		c.Count("native outcome "+realCode(res), 1)
		if _, is := realCodes[res.Code]; !is {
			c.Count("custom result codes", 1)
		}
		canonReal(res.Value)
		core.Display(res.Value, nil)
	}
	if res, _ := run(`regexp MatchString $re xabbcx`); res.Code != core.ResultCode_OK || res.Value != core.TRUE {
		c.Fail("unusable", "after the calls, matching gives %v %v", res.Code, res.Value)
	}
	c.Eval(strings.Join(all, "\n"))
}

// deepCase evaluates deeply nested sources
func (c *Ctx) deepCase() {
	r := c.R
	n := 10 << r.IntN(11)
	rep := strings.Repeat
	type shape struct{ open, mid, close string }
	sh := pick(r, []shape{
		{"(", "a", ")"}, {"{", "a", "}"}, {"[idem ", "a", "]"}, {"[", "idem", "]"}, {"\"$[idem ", "a", "]\""}, {"idem [", "idem", "]"}, {"$", "i", ""}, {"$(", "i", ")"}, {"${", "i", "}"}, {"$[", "idem i", "]"}, {"a[", "idem 0", "]"}, {"$l[", "idem 0", "]"}, {"a(", "b", ")"}, {"#{", "c", "}#"}, {"", "a", "[0]"}, {"", "a", "(k)"}, {"", "$l", "[0]"}, {"", "$d", "(a)"}, {"", "$d", "{idem}"}, {"eval {", "idem a", "}"}, {"if true {", "idem a", "}"}, {"$*(", "a", ")"}, {"((", "a", "))"}, {"!{", "true", "}"}, {"! {", "true", "}"}, {"idem ", "", ""}, {"\"", "a", "\""}, {"\"\"\"", "a", "\"\"\""}, {"help ", "help", ""},
	})
	if sh.open == "\"$[idem " {
		n = min(n, 2000)
	}
	body := rep(sh.open, n) + sh.mid + rep(sh.close, n)
	if r.IntN(6) == 0 {
		// Unbalanced
		body = body[:r.IntN(len(body)+1)]
	}
	src := pickw(r, "", "probe ", "set dp ", "parse ", "list ", "script ", "help ", "closure cc ", "alias aa ", "probe $[script ") + body
	if strings.HasPrefix(src, "probe $[") {
		src += " length]"
	}
	c.Input(fmt.Sprintf("%s: %d times %q %q %q", src[:min(len(src), 12)], n, sh.open, sh.mid, sh.close))
	s := newRealSession(sessOpts{capture: r.IntN(2) == 0})
	s.runScript(0, robustPrelude)
	rs := parseReal(src, s.o.capture)
	if rs.Success {
		p := s.scope.PrepareProcess(s.scope.Compile(*rs.Script))
		for k := 0; k < 20; k++ {
			res := p.Run()
			if res.Code != core.ResultCode_YIELD {
				c.Count("deep outcome "+realCode(res), 1)
				break
			}
		}
	} else {
		c.Count("deep parse errors", 1)
	}
	if ob, _ := s.runScript(1, "[[closure {a} {idem $a}]] works"); len(ob) == 0 || !strings.HasSuffix(ob[len(ob)-1], `"works"`) {
		c.Fail("unusable", "after the script, a call gives %v", ob)
	}
	c.Eval(src)
}

func init() {
	register(&Check{ID: "C09", Quick: 40000, Deep: 2000000,
		Rule: "a case calls commands of the dialects and native modules with any number and type of arguments, or evaluates altered or deeply nested sources, then uses the interpreter again; crashes, hangs, outcomes and later state are watched and compared with the reference interpreter; distinct = distinct inputs",
		Run:  robustCase})
}
