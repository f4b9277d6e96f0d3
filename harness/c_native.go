package main

import (
	"context"
	"fmt"
	"log/slog"
	"math/rand/v2"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"helena/core"
	hd "helena/helena_dialect"
	"helena/native/go_os"
	"helena/native/go_regexp"
	"helena/native/go_slog"
)

// C29: native commands compared with the host library called directly

func init() {
	register(&Check{ID: "C29", Quick: 150000, Deep: 3000000,
		Rule: "a case is a history of calls of the regular expression, logging and file commands with any arguments; each result is compared with the host library called directly, and values held before must not change; distinct = distinct histories",
		Run:  nativeCase})
}

// hostArg is an argument: a value and its string and integer forms
type hostArg struct {
	v     core.Value
	s     string
	isStr bool
}

func (a hostArg) integer() (int64, bool) {
	if !a.isStr {
		return 0, false
	}
	n, err := strconv.ParseInt(a.s, 10, 64)
	return n, err == nil
}

func strArg(s string) hostArg { return hostArg{core.STR(s), s, true} }

func badArg(r *rand.Rand) hostArg {
	p := parseReal("a b", false)
	return hostArg{v: pick(r, []core.Value{core.NIL, core.LIST([]core.Value{core.STR("a")}), core.TUPLE([]core.Value{}), core.DICT(map[string]core.Value{"a": core.NIL}), core.NewCommandValue(nativeCmd{}), core.NewScriptValueWithNoSource(*p.Script)})}
}

func randPattern(r *rand.Rand, depth int) string {
	var b strings.Builder
	for n := 1 + r.IntN(3); n > 0; n-- {
		switch k := r.IntN(16); {
		case k < 5 || depth > 3:
			b.WriteString(pickw(r, "a", "b", "c", "ab", "é", "x", "A", "1", " ", "-"))
		case k == 5:
			b.WriteString(pickw(r, ".", "\\w", "\\d", "\\s", "\\b", "^", "$", "[ab]", "[^a]", "[a-c]", "\\pL", "[[:alpha:]]", "\\.", "\\B", "\\A", "\\z", "\\x41", "\\Qa.b\\E"))
		case k < 9:
			b.WriteString("(" + pickw(r, "", "", "?:", "?P<n>", "?P<m"+strconv.Itoa(r.IntN(90))+">", "?i:", "?<k>") + randPattern(r, depth+1) + ")")
		case k < 11:
			b.WriteString(randPattern(r, depth+1) + "|" + randPattern(r, depth+1))
		case k == 11:
			b.WriteString("(" + randPattern(r, depth+1) + "|)")
		case k == 12:
			b.WriteString(pickw(r, "(?i)", "(?s)", "(?U)", "(?m)"))
		default:
			b.WriteString(pickw(r, "a", "b", "(a)", "[ab]", ".", "(?:ab)") + pickw(r, "*", "+", "?", "{2}", "{1,2}", "*?", "+?", "{0}", "??"))
		}
	}
	if depth == 0 && r.IntN(12) == 0 {
		return mutate(r, b.String())
	}
	return b.String()
}

func randText(r *rand.Rand) string {
	var b strings.Builder
	for n := r.IntN(12); n > 0; n-- {
		b.WriteString(pickw(r, "a", "b", "c", "ab", "aab", "abc", "é", "x", "A", "B", "1", "12", " ", "\n", "-", "bb", "\xff", "日", "\x00", "."))
	}
	return b.String()
}

func randArg(r *rand.Rand) hostArg {
	switch k := r.IntN(30); {
	case k == 0:
		return badArg(r)
	case k == 1:
		n := r.IntN(200) - 50
		return hostArg{core.INT(int64(n)), strconv.Itoa(n), true}
	case k == 2:
		return hostArg{core.TRUE, "true", true}
	case k == 3:
		return hostArg{core.REAL(1.5), "1.5", true}
	case k == 4:
		src := pickw(r, "a b", "aa(b)", "", "a.b c")
		return hostArg{core.NewScriptValue(*parseReal(src, false).Script, src), src, true}
	}
	return strArg(randText(r))
}

func countArg(r *rand.Rand) hostArg {
	switch k := r.IntN(12); {
	case k == 0:
		return badArg(r)
	case k == 1:
		return strArg(pickw(r, "", "a", "1.5", "0x1", "9223372036854775808", "1e1", " 1", "true", "--1"))
	case k < 5:
		n := r.IntN(5) - 1
		return strArg(strconv.Itoa(n))
	}
	n := pick(r, []int64{-1, -1, 0, 1, 2, 3, 5, 100, -7, 1 << 62, -1 << 63})
	return hostArg{core.INT(n), strconv.FormatInt(n, 10), true}
}

// A regular expression held by the script and its twin
type heldRegexp struct {
	v    core.Value
	twin *regexp.Regexp
}

type logRecord struct {
	level slog.Level
	msg   string
	attrs int
}

type recorder struct {
	min     slog.Level
	records *[]logRecord
}

func (h recorder) Enabled(_ context.Context, l slog.Level) bool { return l >= h.min }
func (h recorder) Handle(_ context.Context, r slog.Record) error {
	*h.records = append(*h.records, logRecord{r.Level, r.Message, r.NumAttrs()})
	return nil
}
func (h recorder) WithAttrs([]slog.Attr) slog.Handler { return h }
func (h recorder) WithGroup(string) slog.Handler      { return h }

// expectation of a call: an error, or a value
type hostResult struct {
	fails bool
	// Error message if known
	message string
	value   string
}

func hostOK(v string) hostResult      { return hostResult{value: v} }
func hostStr(s string) string         { return strconv.Quote(s) }
func hostInt(n int) string            { return "i:" + strconv.Itoa(n) }
func hostList(xs []string) string     { return "list(" + strings.Join(xs, " ") + ")" }
func hostFails(msg string) hostResult { return hostResult{fails: true, message: msg} }

func mapped[T any](xs []T, f func(T) string) string {
	l := []string{}
	for _, x := range xs {
		l = append(l, f(x))
	}
	return hostList(l)
}

// regexpArgs gives the arguments of a method: r is a regular expression, s a
// string, n a count
var regexpArgs = map[string]string{
	"QuoteMeta": "s", "Compile": "s", "CompilePOSIX": "s", "FindAllString": "rsn", "FindAllStringIndex": "rsn", "FindAllStringSubmatch": "rsn", "FindAllStringSubmatchIndex": "rsn", "FindString": "rs", "FindStringIndex": "rs", "FindStringSubmatch": "rs", "FindStringSubmatchIndex": "rs", "LiteralPrefix": "r", "Longest": "r", "MatchString": "rs", "NumSubexp": "r", "ReplaceAllLiteralString": "rss", "ReplaceAllString": "rss", "Split": "rsn", "String": "r", "SubexpIndex": "rs", "SubexpNames": "r",
}

func strs(xs []string) string { return mapped(xs, hostStr) }
func ints(xs []int) string    { return mapped(xs, hostInt) }

// callRegexp is what the host library gives
func callRegexp(method string, re *regexp.Regexp, ss []string, n int) hostResult {
	switch method {
	case "QuoteMeta":
		return hostOK(hostStr(regexp.QuoteMeta(ss[0])))
	case "FindAllString":
		if m := re.FindAllString(ss[0], n); m != nil {
			return hostOK(strs(m))
		}
	case "FindAllStringIndex":
		if m := re.FindAllStringIndex(ss[0], n); m != nil {
			return hostOK(mapped(m, ints))
		}
	case "FindAllStringSubmatch":
		if m := re.FindAllStringSubmatch(ss[0], n); m != nil {
			return hostOK(mapped(m, strs))
		}
	case "FindAllStringSubmatchIndex":
		if m := re.FindAllStringSubmatchIndex(ss[0], n); m != nil {
			return hostOK(mapped(m, ints))
		}
	case "FindString":
		return hostOK(hostStr(re.FindString(ss[0])))
	case "FindStringIndex":
		if m := re.FindStringIndex(ss[0]); m != nil {
			return hostOK(ints(m))
		}
	case "FindStringSubmatch":
		if m := re.FindStringSubmatch(ss[0]); m != nil {
			return hostOK(strs(m))
		}
	case "FindStringSubmatchIndex":
		if m := re.FindStringSubmatchIndex(ss[0]); m != nil {
			return hostOK(ints(m))
		}
	case "LiteralPrefix":
		p, all := re.LiteralPrefix()
		return hostOK(fmt.Sprintf("(%s b:%v)", hostStr(p), all))
	case "Longest":
		re.Longest()
	case "MatchString":
		return hostOK(fmt.Sprintf("b:%v", re.MatchString(ss[0])))
	case "NumSubexp":
		return hostOK(hostInt(re.NumSubexp()))
	case "ReplaceAllLiteralString":
		return hostOK(hostStr(re.ReplaceAllLiteralString(ss[0], ss[1])))
	case "ReplaceAllString":
		return hostOK(hostStr(re.ReplaceAllString(ss[0], ss[1])))
	case "Split":
		return hostOK(strs(re.Split(ss[0], n)))
	case "String":
		return hostOK(hostStr(re.String()))
	case "SubexpIndex":
		return hostOK(hostInt(re.SubexpIndex(ss[0])))
	case "SubexpNames":
		return hostOK(strs(re.SubexpNames()))
	}
	return hostOK("nil")
}

type nativeRun struct {
	c     *Ctx
	scope *hd.Scope
	args  []core.Value
	text  []string
	held  []heldRegexp
	kept  []retained
	names [3]string
	files []string
	logs  []logRecord
	level slog.Level
}

// call runs a command with argument values
func (x *nativeRun) call(cmd string, args []hostArg) core.Result {
	x.args = nil
	var w strings.Builder
	w.WriteString(cmd)
	desc := cmd
	for i, a := range args {
		x.args = append(x.args, a.v)
		fmt.Fprintf(&w, " [arg %d]", i)
		desc += " " + trunc(canonReal(a.v), 200)
		x.kept = append(x.kept, retained{a.v, canonReal(a.v)})
	}
	x.text = append(x.text, desc)
	x.c.Input(strings.Join(x.text, "\n"))
	p := parseReal(w.String(), false)
	return x.scope.PrepareProcess(x.scope.Compile(*p.Script)).Run()
}

// compare tells how a result differs from what is expected
func (x *nativeRun) compare(what string, res core.Result, want hostResult) bool {
	x.kept = append(x.kept, retained{res.Value, canonReal(res.Value)})
	if want.fails {
		x.c.Count("failures compared", 1)
		if res.Code != core.ResultCode_ERROR {
			x.c.Fail(what, "%s %s instead of an error", realCode(res), canonReal(res.Value))
			return false
		}
		if s, is := res.Value.(core.StringValue); !is || want.message != "" && s.Value != want.message {
			x.c.Fail(what, "error %s instead of %s", canonReal(res.Value), strconv.Quote(want.message))
			return false
		}
		return true
	}
	x.c.Count("results compared", 1)
	if res.Code != core.ResultCode_OK || canonReal(res.Value) != want.value {
		x.c.Fail(what, "%s %s instead of %s", realCode(res), canonReal(res.Value), want.value)
		return false
	}
	return true
}

func nativeCase(c *Ctx) {
	r := c.R
	x := &nativeRun{c: c}
	opts := r.IntN(2) == 0
	reg := hd.NewModuleRegistry(&hd.ModuleOptions{CapturePositions: opts, CaptureErrorStack: opts})
	x.scope = hd.NewRootScope(&hd.ScopeOptions{CapturePositions: opts, CaptureErrorStack: opts})
	hd.InitCommandsForModule(x.scope, reg, workDir)
	reg.Register("go:regexp", go_regexp.Initmodule())
	reg.Register("go:os", go_os.Initmodule())
	reg.Register("go:slog", go_slog.Initmodule())
	x.scope.RegisterNamedCommand("arg", nativeCmd{func(args []core.Value, _ any) core.Result {
		_, i := core.ValueToInteger(args[1])
		return core.OK(x.args[i])
	}})
	for i, m := range []string{"regexp", "os", "slog"} {
		x.names[i] = m
		src := "import go:" + m + " (" + m + ")"
		switch r.IntN(4) {
		case 0:
			x.names[i] = "my" + m
			src = "import go:" + m + " ((" + m + " my" + m + "))"
		case 1:
			src = "set mod" + m + " [import go:" + m + "]; [$mod" + m + "] import " + m
		}
		p := parseReal(src, false)
		if res := x.scope.PrepareProcess(x.scope.Compile(*p.Script)).Run(); res.Code != core.ResultCode_OK {
			c.Input(src)
			c.Fail("import", "%s", canonReal(res.Value))
			return
		}
	}
	x.level = pick(r, []slog.Level{slog.LevelDebug, slog.LevelDebug, slog.LevelInfo, slog.LevelError, slog.Level(100)})
	slog.SetDefault(slog.New(recorder{x.level, &x.logs}))
	dir := filepath.Join(workDir, "native")
	os.MkdirAll(dir, 0o755)
	defer os.RemoveAll(dir)
	for n := 4 + r.IntN(40); n > 0; n-- {
		k := r.IntN(8)
		switch {
		case k < 6:
			x.regexpCall()
		case k == 6:
			x.logCall()
		default:
			x.fileCall(dir)
		}
		if c.failed {
			return
		}
	}
	for _, k := range x.kept {
		if now := canonReal(k.v); now != k.text {
			c.Fail("altered", "value %s is now %s", k.text, now)
			return
		}
	}
	c.Count("values watched", len(x.kept))
	c.Eval(strings.Join(x.text, "\n"))
}

func (x *nativeRun) method(name string) hostArg {
	return strArg(name)
}

func (x *nativeRun) regexpCall() {
	r := x.c.R
	cmd := x.names[0]
	methods := strings.Fields("QuoteMeta Compile CompilePOSIX FindAllString FindAllStringIndex FindAllStringSubmatch FindAllStringSubmatchIndex FindString FindStringIndex FindStringSubmatch FindStringSubmatchIndex LiteralPrefix Longest MatchString NumSubexp ReplaceAllLiteralString ReplaceAllString Split String SubexpIndex SubexpNames")
	m := pick(r, methods)
	if len(x.held) == 0 || r.IntN(9) == 0 {
		m = pickw(r, "Compile", "Compile", "CompilePOSIX")
	}
	if r.IntN(60) == 0 {
		// No such method
		a := pick(r, []hostArg{strArg("Foo"), strArg(""), strArg("compile"), strArg("FindAll"), strArg("ReplaceAllStringFunc"), badArg(r), {core.INT(1), "1", true}})
		args := []hostArg{a}
		for n := r.IntN(4); n > 0; n-- {
			args = append(args, randArg(r))
		}
		x.compare("method", x.call(cmd, args), hostFails(""))
		return
	}
	args := []hostArg{x.method(m)}
	var h heldRegexp
	var ss []string
	n, fails := int64(0), false
	for _, k := range regexpArgs[m] {
		var a hostArg
		switch k {
		case 'r':
			if len(x.held) == 0 || r.IntN(40) == 0 {
				a, fails = pick(r, []hostArg{strArg("a"), badArg(r)}), true
				break
			}
			h = pick(r, x.held)
			a = hostArg{v: h.v}
		case 's':
			a = randArg(r)
			if len(args) == 1 && (m == "Compile" || m == "CompilePOSIX") && r.IntN(10) > 0 {
				a = strArg(randPattern(r, 0))
				if len(x.held) > 0 && r.IntN(3) == 0 {
					// The same again
					a = strArg(pick(r, x.held).twin.String())
				}
			}
			if m == "SubexpIndex" && r.IntN(4) > 0 {
				a = strArg(pickw(r, "n", "k", "m1", "", "m2"))
				if names := h.twin; names != nil && r.IntN(2) == 0 {
					a = strArg(pick(r, names.SubexpNames()))
				}
			}
			if len(ss) == 1 && strings.HasPrefix(m, "Replace") && r.IntN(3) > 0 {
				a = strArg(pickw(r, "X", "$1", "${1}", "[$0]", "$n", "${n}x", "$1x", "$$", "$", "\\1", "$2$1", "${", "$é", ""))
			}
			ss = append(ss, a.s)
			fails = fails || !a.isStr
		case 'n':
			a = countArg(r)
			var ok bool
			if n, ok = a.integer(); !ok {
				fails = true
			}
		}
		args = append(args, a)
	}
	if r.IntN(40) == 0 {
		// Wrong number of arguments
		if r.IntN(2) == 0 {
			args = args[:len(args)-1]
		} else {
			args = append(args, randArg(r))
		}
		x.c.Count("wrong arity", 1)
		x.compare("arity", x.call(cmd, args), hostFails(""))
		return
	}
	x.c.Count("regexp "+m, 1)
	res := x.call(cmd, args)
	if fails {
		x.compare(m, res, hostFails(""))
		return
	}
	switch m {
	case "Compile", "CompilePOSIX":
		re, err := regexp.Compile(ss[0])
		if m == "CompilePOSIX" {
			re, err = regexp.CompilePOSIX(ss[0])
		}
		if err != nil {
			x.compare(m, res, hostFails(err.Error()))
			return
		}
		if x.compare(m, res, hostOK("custom:go:Regexp")) {
			x.held = append(x.held, heldRegexp{res.Value, re})
		}
		return
	}
	x.compare(m, res, callRegexp(m, h.twin, ss, int(n)))
}

func (x *nativeRun) logCall() {
	r := x.c.R
	before := len(x.logs)
	levels := map[string]slog.Level{"Debug": slog.LevelDebug, "Info": slog.LevelInfo, "Warn": slog.LevelWarn, "Error": slog.LevelError}
	m := pickw(r, "Debug", "Info", "Warn", "Error")
	args := []hostArg{x.method(m)}
	a := randArg(r)
	want := hostOK("nil")
	var records []logRecord
	switch r.IntN(12) {
	case 0:
		want = hostFails("")
	case 1:
		args[0] = pick(r, []hostArg{strArg("Foo"), strArg("info"), strArg(""), badArg(r)})
		args = append(args, a)
		want = hostFails("")
	default:
		args = append(args, a)
		if !a.isStr {
			want = hostFails("")
		} else if levels[m] >= x.level {
			records = append(records, logRecord{levels[m], a.s, 0})
		}
	}
	if !x.compare("log", x.call(x.names[2], args), want) {
		return
	}
	if got := x.logs[before:]; fmt.Sprint(got) != fmt.Sprint(records) || len(got) != len(records) {
		x.c.Fail("log", "messages %q instead of %q", fmt.Sprint(got), fmt.Sprint(records))
		return
	}
	x.c.Count("log messages observed", len(records))
}

func (x *nativeRun) fileCall(dir string) {
	r := x.c.R
	name := filepath.Join(dir, pickw(r, "a", "b", "a b", "é", "c\n", "{x}", "$y", "\xff", "d"))
	switch r.IntN(6) {
	case 0:
		os.RemoveAll(name)
	case 1:
		os.RemoveAll(name)
		os.Mkdir(name, 0o755)
	case 2:
		os.RemoveAll(name)
		os.Symlink(filepath.Join(dir, pickw(r, "a", "b", "nope", "d")), name)
	default:
		data := []byte(randText(r))
		for n := r.IntN(60); n > 0; n-- {
			data = append(data, byte(r.IntN(256)))
		}
		if r.IntN(30) == 0 {
			data = []byte(strings.Repeat("0123456789\n", 20000))
		}
		if st, err := os.Lstat(name); err == nil && !st.Mode().IsRegular() {
			os.RemoveAll(name)
		}
		os.WriteFile(name, data, 0o644)
	}
	if r.IntN(3) == 0 {
		name = filepath.Join(dir, pickw(r, "a", "b", "a b", "nope", "d", "", "a/x", "\x00"))
	}
	args := []hostArg{x.method("ReadFile"), strArg(name)}
	var want hostResult
	before, err := os.ReadFile(name)
	if err != nil {
		want = hostFails(err.Error())
	} else {
		want = hostOK(hostStr(string(before)))
	}
	switch r.IntN(20) {
	case 0:
		args, want = args[:1], hostFails("")
	case 1:
		args[1], want = badArg(r), hostFails("")
	case 2:
		args[0], want = pick(r, []hostArg{strArg("WriteFile"), strArg("readFile"), strArg(""), badArg(r)}), hostFails("")
	}
	x.c.Count("files read", 1)
	if !x.compare("file", x.call(x.names[1], args), want) {
		return
	}
	if after, err2 := os.ReadFile(name); string(after) != string(before) || (err == nil) != (err2 == nil) {
		x.c.Fail("file", "%q changed by the call", name)
	}
}
