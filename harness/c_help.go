package main

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"

	"helena/core"

	"verif/ref"
)

// C31: arity errors, usage and help agree with what each command accepts

func init() {
	register(&Check{ID: "C31", Quick: 8000, Deep: 300000,
		Rule: "a case is either a session of calls and help requests with all numbers of words on built-in and generated commands, compared with the reference interpreter, or a command whose displayed usage decides which numbers of words its calls and its help must accept; distinct = distinct inputs",
		Run: func(c *Ctx) {
			if c.Case < len(sweptCalls)/8 {
				helpSweep(c, sweptCalls[c.Case*8:c.Case*8+8])
				return
			}
			switch c.R.IntN(4) {
			case 0, 1:
				helpSession(c)
			case 2:
				usageCase(c)
			default:
				subcommandsCase(c)
			}
		}})
}

// Built-in commands up to their subcommand; every one is a fixed arity text
var builtinCalls = []string{
	"idem", "return", "yield", "error", "break", "continue", "eval", "let", "set", "get", "exists", "unset",
	"while", "+", "-", "*", "/", "!", "&&", "||", "true ?", "true !?", "false ?", "false !?", "true subcommands", "false subcommands",
	"int 1 subcommands", "real 1 subcommands", "bool true subcommands",
	"string s subcommands", "string s length", "string s at", "string s range", "string s append", "string s remove", "string s insert", "string s replace", "list (a b) subcommands", "list (a b) length", "list (a b) at", "list (a b) range", "list (a b) append", "list (a b) remove", "list (a b) insert", "list (a b) replace", "list (a b) foreach", "list (a b) sort",
	"dict (a b) subcommands", "dict (a b) size", "dict (a b) has", "dict (a b) get", "dict (a b) add", "dict (a b) remove", "dict (a b) merge", "dict (a b) keys", "dict (a b) values", "dict (a b) entries", "dict (a b) foreach",
	"tuple (a b) subcommands", "tuple (a b) length", "tuple (a b) at", "tuple (a b) foreach",
	"script {a} subcommands", "script {a} length", "script {a} append", "script {a} split",
	"argspec (a b) subcommands", "argspec (a b) usage", "argspec (a b) set",
	"parse", "alias", "macro", "closure", "proc", "coroutine", "scope", "namespace", "ensemble", "module", "import", "export",
}

// Commands whose words are counted by something else than their usage
var looseCalls = []string{"help", "help", "if", "when", "loop", "catch", "pass", "true", "false", "12", "12 +", "1 -", "2 ==", "3 >=", "-1 subcommands", "1.5 *", "int", "int 1", "real", "real 2", "bool", "bool true", "string", "string s", "list", "list (a b)", "dict", "dict (a b)", "tuple", "tuple ()", "script", "script {}", "argspec", "argspec (a)", "string s foo", "string s ==", "string s !=", "string s >", "string s >=", "string s <", "string s <=", "list () foo", "dict () foo", "tuple () foo", "script {} foo", "argspec () foo", "int 1 foo", "real 1 foo", "bool true foo", "nope", "()", "[]", "^", "|>", "$l", "$d", "{a}", "(idem)", "((idem a))", "(list (a))", "(list (a) at)", "(string s) ==", "(dict (a b) get a)", "((list ()) append)", "(help)", "(help list)", "(help idem a)", "((true ?))"}

// Values with subcommands
var metaCalls = []string{"[list]", "[dict]", "[string]", "[tuple]", "[script]", "[argspec]", "[int]", "[real]", "[bool]", "$cv", "$mv", "$pv", "$ev", "$nv", "$sv", "$av", "$bv", "$co", "$yv", "[f]", "ns", "sc", "mo", "[en]", "[al]"}
var metaSubs = []string{"subcommands", "argspec", "call", "eval", "import", "exports", "command", "wait", "yield", "active", "done", "foo", "usage"}

func arityWord(r *rand.Rand) string {
	return pickw(r, "a", "a", "b", "1", "2", "-1", "()", "(a)", "(a 1)", "(a b)", "{}", "{idem a}", "{probe x}", "[list ()]", "[list (a b)]", "[dict (a 1)]", "$l", "$d", "$s", "true", "\"\"", "x", "[]", "idem", "f", "list", "length", "subcommands", "nope", "error", "[probe w]", "(x y)", "v", "else", "[closure {} {}]")
}

func arityWords(r *rand.Rand, n int) string {
	s := ""
	for ; n > 0; n-- {
		s += " " + arityWord(r)
	}
	return s
}

func randomSpec(g *gen, lead ...string) string {
	if g.wrong == 0 || g.p(60) {
		names := append([]string{}, lead...)
		seen := map[string]bool{}
		add := func(n, f string) {
			if !seen[n] {
				seen[n] = true
				names = append(names, fmt.Sprintf(f, n))
			}
		}
		for i := g.num(3); i > 0; i-- {
			add(g.one("a", "b", "c"), g.one("%s", "%s", "(int %s)", "({probe g; idem a} %s)", "(list %s)"))
		}
		for i := g.num(3); i > 0; i-- {
			add(g.one("d", "e", "f"), g.one("?%s", "(?%s 1)", "(?%s {idem dflt})", "(int ?%s 5)", "({idem} ?%s k)", "(list ?%s)", "(?%s ())"))
		}
		if g.p(30) {
			add("rest", "*%s")
		}
		if g.p(30) {
			add("z", "%s")
		}
		return "(" + strings.Join(names, " ") + ")"
	}
	return g.argspec()
}

// userCommands defines commands under known names
func userCommands(g *gen) []string {
	def := func(kind, name string, lead ...string) string {
		return kind + " " + name + " " + randomSpec(g, lead...) + " {probe ran-" + name + "; idem " + name + "}"
	}
	ens := func(name, spec string) string {
		// Subcommands take the arguments of the ensemble, except by mistake
		var lead []string
		if strings.HasPrefix(spec, "{") && g.wrong == 0 {
			lead = strings.Fields(strings.Trim(spec, "{}"))
		}
		s := "ensemble " + name + " " + spec + " {"
		for i := 1 + g.num(3); i > 0; i-- {
			s += def(g.one("macro", "closure", "proc"), g.one("x", "y", "show", "length"), lead...) + "; "
		}
		deep := append(append([]string{}, lead...), []string{"i", "j"}[:g.num(3)]...)
		if g.wrong > 0 {
			deep = pick(g.r, [][]string{{}, {"b"}, {"b", "c"}, {"?o"}})
		}
		s += g.one("", "", "ensemble sub {"+strings.Join(deep, " ")+"} {"+def("macro", "deep", deep...)+"; "+def("closure", "x", deep...)+"}; ")
		s += g.one("", "alias "+g.one("y", "al")+" "+g.one("idem", "(list (1 2))", "list", "f", "(f 1)")+"; ")
		return s + g.one("", "", "set v 1; ", "idem a; ") + "}"
	}
	out := []string{
		"set l [list (a b)]; set d [dict (a 1)]; set s str",
		def(g.one("macro", "closure", "proc"), "f"),
		def(g.one("macro", "closure", "proc"), "g"),
		"set cv [closure " + randomSpec(g) + " {probe cv}]", "set mv [macro " + randomSpec(g) + " {probe mv}]", "set pv [proc " + randomSpec(g) + " {probe pv}]",
		ens("en", g.one("{}", "{v}", "{v}", "{v w}", g.guardedSpec(), g.guardedSpec())),
		"set ev [" + ens("", g.one("{}", "{v}", "{v w}")) + "]",
		"namespace ns {" + def("closure", "f") + "; " + def("macro", "h") + "; " + g.one("", "alias g h; ", ens("en", "{v}")+"; ", ens("en", "{v}")) + "}",
		"set nv [namespace {" + def("macro", "f") + "}]", "scope sc {" + def("closure", "h") + "}", "set sv [scope {" + def("macro", "f") + "}]",
		"module mo {" + def("closure", "f") + "; export f}", "set bv [module {" + def("macro", "h") + "; export h}]",
		"set co [coroutine {probe co; yield 1; idem 2}]; set yv [coroutine {}]",
		"alias al " + g.one("idem", "f", "(f a)", "(f a b)", "list", "(list (a b))", "(list (a b) at)", "en", "(en 1)", "(en 1 x)", "$cv", "($cv)", "nope", "al2", "(string s)", "+", "ns", "(ns f)", "true", "12", "(12 +)", "[]", "()"),
		"alias al2 " + g.one("al", "(al 1)", "(al a)", "((al))", "f", "en"),
		"set av [alias al3 " + g.one("f", "(en 1)", "((f 1) 2)", "(dict (a b))") + "]",
	}
	if g.p(30) {
		out = append(out, "["+g.one("list", "string", "dict", "tuple", "script", "argspec", "int", "real", "bool")+"] eval {"+def("macro", g.one("x", "length", "foo", "at"), "val")+"; "+def("closure", "y", "val")+"}")
	}
	if g.wrong > 0 && g.p(10) {
		out = append(out, def("macro", g.one("idem", "help", "set", "list")))
	}
	return out
}

// guardedSpec gives the arguments of an ensemble, guarded when g.wrong is set
func (g *gen) guardedSpec() string {
	if g.wrong == 0 {
		return "{v}"
	}
	return g.one("{(int v)}", "(({probe guard; idem a} v))", "{(list v)}")
}

// sameUsage compares the usage of a rejection with the one of help; commands
// called by value have a placeholder for name, and subcommands of ensembles
// count the arguments that the ensemble gives them
func sameUsage(msg, text string) bool {
	if !strings.HasPrefix(msg, arityPrefix) {
		return false
	}
	u := strings.TrimSuffix(strings.TrimPrefix(msg, arityPrefix), "\"")
	if u == text {
		return true
	}
	head, tail, _ := strings.Cut(u, " ")
	if strings.HasPrefix(text, "<") {
		// What runs another command tells its own usage
		return false
	}
	if head == "<macro>" || head == "<closure>" || head == "<proc>" {
		return true
	}
	return strings.HasPrefix(head, "<") && strings.HasSuffix(head, ">") && strings.HasSuffix(" "+text, strings.TrimSuffix(" "+tail, " "))
}

func (g *gen) callTarget() string {
	r := g.r
	switch r.IntN(10) {
	case 0, 1, 2:
		return pick(r, builtinCalls)
	case 3:
		return pick(r, looseCalls)
	case 4, 5:
		return pick(r, metaCalls) + g.one("", " "+pick(r, metaSubs), " "+pick(r, metaSubs), " call "+g.one("f", "h", "x", "a", "idem"))
	}
	return g.one("f", "g", "$cv", "[$cv]", "[$mv]", "[$pv]", "en", "en 1", "en 1 x", "en 1 y", "en 1 show", "en 1 2 x", "en x", "en 1 subcommands", "en subcommands", "en 1 sub", "en 1 sub 2 deep", "en 1 sub deep", "en 1 sub 2 3 x", "en 1 al", "[$ev] x", "[$ev] 1 x", "[$ev] 1 2 y", "ns f", "ns h", "ns en", "ns en 1 x", "[ns] call f", "[ns] call h", "[$nv]", "[$sv]", "[mo]", "al", "al2", "[$av]", "al x", "al 1 x", "((f))", "((f) a)", "(en 1) x", "((en) 1)", "(en (1) x)", "[[closure (a ?b) {probe anon}]]", "[[macro {} {}]]", "string s x", "list (a) x", "list (a) y", "int 1 foo", "dict (a 1) x", "tuple (a) x", "list (a) foo", "script {} x", "[$co]", "[$yv]", "sc", "$l", "[alias zz f]", "[ns] eval", "mo")
}

// sweptCalls are all calls of the built-in commands, subcommands and command
// values with up to a few words, each run and asked for help in turn
var sweptCalls = func() (out []string) {
	heads := append(append([]string{}, builtinCalls...), looseCalls...)
	for _, m := range metaCalls {
		heads = append(heads, m)
		for _, s := range metaSubs {
			heads = append(heads, m+" "+s)
		}
	}
	for _, h := range heads {
		for n := 0; n < 6; n++ {
			out = append(out, h+strings.Repeat(" %s", n))
		}
	}
	for len(out)%8 != 0 {
		out = append(out, "idem")
	}
	return
}()

func helpSweep(c *Ctx, calls []string) {
	g := newGen(c.R, "basic")
	g.wrap, g.hold, g.pipes, g.wrong = 0, 0, 0, 0
	scripts := userCommands(g)
	for _, t := range calls {
		for strings.Contains(t, "%s") {
			t = strings.Replace(t, "%s", arityWord(c.R), 1)
		}
		scripts = append(scripts, "help "+t, t)
	}
	o := sessOpts{}
	if ok := refDecides(o, scripts); ok != nil {
		scripts = ok
	}
	c.session(o, scripts)
}

func helpSession(c *Ctx) {
	g := newGen(c.R, "basic")
	g.wrap, g.hold, g.pipes, g.wrong = 0, 0, 0, 1
	scripts := userCommands(g)
	for i, n := 0, 8+c.R.IntN(20); i < n; i++ {
		t := g.callTarget()
		words := arityWords(c.R, c.R.IntN(7))
		switch c.R.IntN(8) {
		case 0, 1, 2, 3:
			scripts = append(scripts, "help "+t+words)
		case 4:
			scripts = append(scripts, "help "+t+words, t+words)
		case 5:
			scripts = append(scripts, "help ("+t+")"+words)
		default:
			scripts = append(scripts, t+words)
		}
	}
	// Each script has its own fuel: what is left out is left out alone
	o := sessOpts{}
	ok := refDecides(o, scripts)
	if ok != nil {
		scripts = ok
	}
	c.session(o, scripts)
}

// ends tells whether a script is known to end
func ends(before []string, src string) bool {
	want, _, why, _ := refRun(sessOpts{}, append(append([]string{}, before...), src))
	return why == "" || why == "commands order" && len(want) == len(before)
}

// refDecides keeps the scripts that the specification decides, run in order
func refDecides(o sessOpts, scripts []string) []string {
	for try := 0; try < 6; try++ {
		want, _, why, _ := refRun(o, scripts)
		if why == "" {
			return scripts
		}
		scripts = append(append([]string{}, scripts[:len(want)]...), scripts[len(want)+1:]...)
	}
	return nil
}

// usage is the language of word counts of a usage text
type usage struct {
	min, max int // max < 0: no limit
	// Optional parts not made of a single word
	groups bool
}

// parseUsage reads a usage text
func parseUsage(s string) (u usage) {
	for s = strings.TrimSpace(s); s != ""; s = strings.TrimSpace(s) {
		if s[0] == '?' {
			i := strings.IndexByte(s[1:], '?')
			if i < 0 {
				u.groups = true
				return
			}
			in := strings.Fields(s[1 : i+1])
			s = s[i+2:]
			switch {
			case len(in) > 0 && in[len(in)-1] == "...":
				u.max = -1
				if len(in) > 2 {
					u.groups = true
				}
			case len(in) == 1:
				if u.max >= 0 {
					u.max++
				}
			default:
				u.groups = true
			}
			continue
		}
		w, rest, _ := strings.Cut(s, " ")
		s = rest
		u.min++
		if u.max >= 0 {
			u.max++
		}
		if strings.ContainsAny(w, "{}?") {
			u.groups = true
		}
	}
	return
}

func (u usage) admits(n int) bool { return n >= u.min && (u.max < 0 || n <= u.max) }

const arityPrefix = "wrong # args: should be \""

// one runs a script and gives its error message, or its value
func (s *realSession) one(src string) (val core.Value, msg string, bad bool) {
	r := parseReal(src, false)
	if !r.Success {
		return nil, "parse: " + r.Message, true
	}
	res := s.scope.PrepareProcess(s.scope.Compile(*r.Script)).Run()
	if res.Code == core.ResultCode_ERROR {
		_, m := core.ValueToString(res.Value)
		return nil, m, true
	}
	return res.Value, "", false
}

func helpText(v core.Value) string { _, s := core.ValueToString(v); return s }

func usageCase(c *Ctx) {
	r := c.R
	g := newGen(r, "basic")
	g.wrong = 0
	scripts := userCommands(g)
	// The command, its words, and whether the last one comes from the user
	t := ""
	switch r.IntN(3) {
	case 0:
		t = pick(r, builtinCalls)
	default:
		t = g.one("f", "g", "[$cv]", "[$mv]", "[$pv]", "en 1 x", "en 1 y", "en 1 show", "en x", "en y", "en 1 sub 2 deep", "en 1 sub deep", "en 1 sub x", "[$ev] x", "[$ev] 1 x", "ns f", "ns h", "ns en 1 x", "[[closure "+randomSpec(g)+" {probe anon}]]", "al", "al2", "[$av]", "(f)", "((f 1) 2)", "$cv subcommands", "$cv argspec", "$ev call", "$ev eval", "$nv eval", "$nv call", "$nv import", "$co wait", "$av command", "[ns] import", "mo import", "mo exports", "string s x", "list (a) x", "dict (a b) y")
	}
	all := strings.Join(scripts, "\n") + "\nusage of: " + t
	c.Input(all)
	if !ends(scripts, "help "+t) {
		return
	}
	s := newRealSession(sessOpts{})
	for _, d := range scripts {
		if _, m, bad := s.one(d); bad && strings.HasPrefix(m, "parse: ") {
			return
		}
	}
	s.takeLog()
	v, msg, bad := s.one("help " + t)
	if l := s.takeLog(); len(l) > 0 && !strings.HasPrefix(t, "[") {
		c.Fail("help runs", "help %s: %s", t, strings.Join(l, ", "))
		return
	}
	if bad {
		// Not a command, no help, or too many words
		if !strings.HasPrefix(msg, arityPrefix) {
			c.Count("commands without help", 1)
			return
		}
	}
	text := msg
	if !bad {
		text = helpText(v)
	} else {
		text = strings.TrimSuffix(strings.TrimPrefix(text, arityPrefix), "\"")
	}
	u := parseUsage(text)
	if u.groups || strings.Contains(text, "?subcommand?") || strings.Contains(text+" ", " -") || strings.Contains(text, "?-") {
		c.Count("usages not counted", 1)
		return
	}
	// Words already given: the ones of the command
	given := wordCount(t)
	if given < 0 {
		return
	}
	lead := given
	for n := 0; n < 8; n++ {
		words := arityWords(r, n)
		call := t + words
		// Calls are only made when they are known to end
		if !ends(scripts, call) || !ends(scripts, "help "+call) {
			c.Count("undecided", 1)
			continue
		}
		total := lead + n
		_, hmsg, hbad := s.one("help " + call)
		wrongWord := false
		if hbad && !strings.HasPrefix(hmsg, arityPrefix) {
			wrongWord = true
		}
		full := arityPrefix + text + "\""
		tooMany := u.max >= 0 && total > u.max
		// Arguments may run commands of their own
		if !wrongWord && hbad != tooMany {
			c.Fail("help", "help %s: %q, but the usage is %q", call, hmsg, text)
			return
		}
		if hbad && !wrongWord && hmsg != full {
			c.Fail("help", "help %s: %q instead of %q", call, hmsg, full)
			return
		}
		// A fresh interpreter for each call
		s2 := newRealSession(sessOpts{})
		for _, d := range scripts {
			s2.one(d)
		}
		s2.takeLog()
		_, cmsg, cbad := s2.one(call)
		ran := strings.Join(s2.takeLog(), "\n")
		rejected := cbad && sameUsage(cmsg, text)
		if rejected == u.admits(total) {
			c.Fail("arity", "%s: %q, but the usage is %q", call, cmsg, text)
			return
		}
		if rejected && strings.Contains(ran, "ran-") {
			c.Fail("arity", "%s is rejected after it ran: %s", call, ran)
			return
		}
		c.Count("calls compared with a usage", 1)
		if rejected {
			c.Count("calls rejected", 1)
		}
	}
	c.Eval(all)
}

// wordCount counts the words of a command, a tuple counting as its words
func wordCount(t string) int {
	sc, msg := ref.Parse(t)
	if msg != "" || len(sc.Sents) != 1 {
		return -1
	}
	return len(sc.Sents[0].Words)
}

func subcommandsCase(c *Ctx) {
	r := c.R
	g := newGen(r, "basic")
	g.wrong = 0
	scripts := userCommands(g)
	t := pickw(r, "true", "false", "12", "1.5", "int 1", "real 1", "bool true", "string s", "list (a b)", "dict (a b)", "tuple (a)", "script {a}", "argspec (a)", "en 1", "en", "en 1 sub 2", "en 1 sub", "[$ev]", "[$ev] 1", "[list]", "[string]", "$cv", "$mv", "$pv", "$ev", "$nv", "$sv", "$av", "$bv", "$co", "ns", "sc", "mo", "[ns]", "[f]", "[en]", "[al]", "al", "(list (a))", "(en 1)", "ns en 1")
	all := strings.Join(scripts, "\n") + "\nsubcommands of: " + t
	c.Input(all)
	if !ends(scripts, t+" subcommands") {
		return
	}
	fresh := func() *realSession {
		s := newRealSession(sessOpts{})
		for _, d := range scripts {
			s.one(d)
		}
		s.takeLog()
		return s
	}
	s := fresh()
	v, msg, bad := s.one(t + " subcommands")
	if bad {
		_ = msg
		return
	}
	lv, is := v.(core.ListValue)
	if !is {
		return
	}
	seen := map[string]bool{}
	var names []string
	for _, w := range lv.Values {
		n := helpText(w)
		if seen[n] {
			c.Fail("subcommands", "%s subcommands: %s twice", t, n)
			return
		}
		seen[n] = true
		names = append(names, n)
	}
	if !seen["subcommands"] {
		// The command answered by itself
		return
	}
	sort.Strings(names)
	for _, n := range append(append([]string{}, names...), "foo", "x", "y", "show", "length", "at", "eval", "call", "import", "exports", "argspec", "command", "wait", "active", "usage", "set", "+", "==", "?", "!?", "f", "h", "al", "sub", "deep", "idem", "get", "size", "foreach", "append", "subcommand", "") {
		call := t + " " + quoted(n)
		if !ends(scripts, call) || !ends(scripts, "help "+call) {
			c.Count("undecided", 1)
			continue
		}
		_, m, _ := fresh().one(call)
		unknown := m == `unknown subcommand "`+n+`"`
		if unknown == seen[n] {
			c.Fail("subcommands", "%s: %q, but the subcommands are %s", call, m, strings.Join(names, " "))
			return
		}
		c.Count("subcommands compared with the list", 1)
		// Help knows the same ones
		if n != "subcommands" {
			_, hm, hbad := s.one("help " + call)
			if hbad && hm == `unknown subcommand "`+n+`"` && seen[n] {
				c.Fail("subcommands", "help %s: %q, but the subcommands are %s", call, hm, strings.Join(names, " "))
				return
			}
			if !seen[n] && !hbad {
				c.Fail("subcommands", "help %s is known, but the subcommands are %s", call, strings.Join(names, " "))
				return
			}
		}
	}
	c.Eval(all)
}

func quoted(n string) string {
	if n == "" {
		return `""`
	}
	return n
}
