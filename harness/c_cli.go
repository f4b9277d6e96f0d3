package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"helena/core"
	hd "helena/helena_dialect"
	"helena/native/go_os"
	"helena/native/go_regexp"
	"helena/native/go_slog"
	"helena/picol_dialect"

	"verif/ref"
)

// C30: the command line runs scripts and sessions faithfully

func init() {
	register(&Check{ID: "C30", Quick: 15000, Deep: 200000,
		Rule:  "a case runs the built command line on a generated session (lines piped all at once or one by one) or file; output, log lines, their order and the exit status are compared with an interpreter driven by the harness; distinct = distinct inputs",
		Setup: cliSetup, Run: cliCase,
		Assume: []string{"standard input and output are pipes: prompts, colours and line editing are not exercised"}})
}

var cliStart string

func cliSetup() {
	log.SetFlags(0)
	dir, err := filepath.EvalSymlinks(workDir)
	if err != nil {
		panic(err)
	}
	cliStart = filepath.Join(dir, "cli")
	if err := os.MkdirAll(cliStart, 0o755); err != nil {
		panic(err)
	}
	if err := os.Chdir(cliStart); err != nil {
		panic(err)
	}
}

var typeNames = map[core.ValueType]string{
	core.ValueType_NIL: "NIL", core.ValueType_BOOLEAN: "BOOLEAN", core.ValueType_INTEGER: "INTEGER",
	core.ValueType_REAL: "REAL", core.ValueType_STRING: "STRING", core.ValueType_LIST: "LIST",
	core.ValueType_DICTIONARY: "DICTIONARY", core.ValueType_TUPLE: "TUPLE", core.ValueType_SCRIPT: "SCRIPT",
	core.ValueType_COMMAND: "COMMAND", core.ValueType_QUALIFIED: "QUALIFIED",
}

// cliTwin is an interpreter set up as the documentation of the command line says
type cliTwin struct {
	scope *hd.Scope
	reg   *hd.ModuleRegistry
	out   bytes.Buffer
	// Pending lines
	pending string
	waiting bool
	last    core.Value
	exited  bool
	// Counters
	waits, runs, errs, logs int
}

type cliExit struct{}

func newCliTwin() *cliTwin {
	t := &cliTwin{last: core.NIL}
	t.reg = hd.NewModuleRegistry(&hd.ModuleOptions{CaptureErrorStack: true, CapturePositions: true})
	t.scope = hd.NewRootScope(&hd.ScopeOptions{CaptureErrorStack: true, CapturePositions: true})
	hd.InitCommandsForModule(t.scope, t.reg, cliStart)
	natives := map[string]func() *hd.Module{"native/go_slog": go_slog.Initmodule, "native/go_os": go_os.Initmodule, "native/go_regexp": go_regexp.Initmodule}
	t.reg.Register("go:slog", go_slog.Initmodule())
	t.reg.Register("go:os", go_os.Initmodule())
	t.reg.Register("go:regexp", go_regexp.Initmodule())
	arity := func(s string) core.Result { return core.ERROR(`wrong # args: should be "` + s + `"`) }
	t.scope.RegisterNamedCommand("source", nativeCmd{func(args []core.Value, context any) core.Result {
		if len(args) != 2 {
			return arity("source path")
		}
		_, path := core.ValueToString(args[1])
		data, err := os.ReadFile(path)
		if err != nil {
			return core.ERROR("error reading file: " + err.Error())
		}
		input := core.NewStringStreamFromFile(string(data), path)
		output := core.NewArrayTokenStream([]core.Token{}, input.Source())
		(&core.Tokenizer{}).TokenizeStream(input, output)
		r := core.NewParser(&core.ParserOptions{CapturePositions: true}).Parse(output)
		if !r.Success {
			return core.ERROR(r.Message)
		}
		sc := context.(*hd.Scope)
		return hd.CreateContinuationValue(sc, sc.Compile(*r.Script))
	}})
	t.scope.RegisterNamedCommand("exit", nativeCmd{func(args []core.Value, _ any) core.Result {
		if len(args) != 1 {
			return arity("exit")
		}
		panic(cliExit{})
	}})
	t.scope.RegisterNamedCommand("picol", nativeCmd{func(args []core.Value, _ any) core.Result {
		if len(args) != 2 {
			return arity("picol script")
		}
		b, is := args[1].(core.ScriptValue)
		if !is {
			return core.ERROR("invalid script")
		}
		scope := picol_dialect.NewPicolScope(nil)
		picol_dialect.InitPicolCommands(scope)
		return scope.Evaluator.EvaluateScript(b.Script)
	}})
	t.scope.RegisterNamedCommand("load", nativeCmd{func(args []core.Value, _ any) core.Result {
		if len(args) != 3 {
			return arity("load path name")
		}
		_, path := core.ValueToString(args[1])
		_, name := core.ValueToString(args[2])
		f := natives[path]
		if f == nil {
			return core.ERROR("native module " + path + " not found")
		}
		t.reg.Register(name, f())
		return core.OK(core.NIL)
	}})
	return t
}

func cliDisplay(v any) string {
	switch v := v.(type) {
	case core.ListValue:
		return hd.DisplayListValue(v, cliDisplay)
	case core.DictionaryValue:
		return hd.DisplayDictionaryValue(v, cliDisplay)
	case core.CommandValue:
		return core.UndisplayableValueWithLabel("command")
	}
	return core.DefaultDisplayFunction(v)
}

func cliFrameArg(v any) string {
	switch v.(type) {
	case core.ListValue:
		return "[list (...)]"
	case core.DictionaryValue:
		return "[dict (...)]"
	case core.ScriptValue:
		return "{...}"
	}
	return cliDisplay(v)
}

func (t *cliTwin) value(v core.Value) {
	name := typeNames[v.Type()]
	if c, is := v.(core.CustomValue); is {
		name = "CUSTOM[" + c.CustomType().Name + "]"
	}
	t.out.WriteString(core.Display(v, cliDisplay) + " # " + name + "\n")
}

// guarded runs code up to an exit
func (t *cliTwin) guarded(f func()) {
	log.SetOutput(io.MultiWriter(&t.out))
	defer log.SetOutput(io.Discard)
	defer func() {
		if e := recover(); e != nil {
			if _, is := e.(cliExit); !is {
				panic(e)
			}
			t.exited = true
		}
	}()
	f()
}

// outcome gives the message for a result, if it is not a value
func outcome(res core.Result) (string, bool) {
	switch res.Code {
	case core.ResultCode_OK:
		return "", false
	case core.ResultCode_ERROR:
		_, s := core.ValueToString(res.Value)
		return s, true
	}
	return "unexpected " + realCode(res), true
}

// cliWaits tells whether a script waits for another line
func cliWaits(s string) bool {
	n := len(s) - len(strings.TrimRight(s, "\\"))
	_, msg := ref.Parse(s)
	return n%2 == 1 || ref.Incomplete(msg)
}

// line gives a line to the session and returns the output expected
func (t *cliTwin) line(s string) string {
	t.out.Reset()
	buf := t.pending + s
	_, msg := ref.Parse(buf)
	if cliWaits(buf) {
		t.pending = buf + "\n"
		t.waits++
		return ""
	}
	t.pending = ""
	if msg != "" {
		t.errs++
		return msg + "\n"
	}
	t.guarded(func() { t.evaluate(buf) })
	return t.out.String()
}

func (t *cliTwin) evaluate(src string) {
	r := parseReal(src, true)
	if !r.Success {
		t.out.WriteString(r.Message + "\n")
		return
	}
	p := t.scope.PrepareProcess(t.scope.Compile(*r.Script))
	p.SetResult(core.OK(t.last))
	res := p.Run()
	t.runs++
	t.last = res.Value
	if res.Code == core.ResultCode_ERROR {
		t.stack(res)
	}
	if msg, bad := outcome(res); bad {
		t.errs++
		t.out.WriteString(msg + "\n")
		return
	}
	t.value(res.Value)
}

func (t *cliTwin) stack(res core.Result) {
	es, _ := res.Data.(*core.ErrorStack)
	if es == nil {
		return
	}
	for i := uint(0); i < es.Depth(); i++ {
		l := es.Level(i)
		where := "(script)"
		if l.Source != nil && l.Source.Filename != nil {
			where = *l.Source.Filename
		}
		if l.Position != nil {
			where += fmt.Sprintf(":%d:%d:", l.Position.Line+1, l.Position.Column+1)
		}
		var words []string
		if l.Frame != nil {
			for _, a := range *l.Frame {
				words = append(words, core.Display(a, cliFrameArg))
			}
		}
		fmt.Fprintf(&t.out, "[%d] %s %s\n", i, where, strings.Join(words, " "))
	}
}

// file runs a file; returns the output, the log lines and message, and the status
func (t *cliTwin) file(path string) (stdout, stderr string, status int) {
	data, err := os.ReadFile(path)
	if err != nil {
		return "", "error reading file: " + err.Error() + "\n", 255
	}
	if _, msg := ref.Parse(string(data)); msg != "" {
		return "", msg + "\n", 255
	}
	var res core.Result
	r := core.NewParser(nil).ParseTokens(core.Tokenizer{}.Tokenize(string(data)), nil)
	t.guarded(func() { res = t.scope.PrepareProcess(t.scope.Compile(*r.Script)).Run() })
	stderr = t.out.String()
	t.out.Reset()
	if t.exited {
		return "", stderr, 0
	}
	if msg, bad := outcome(res); bad {
		return "", stderr + msg + "\n", 255
	}
	t.value(res.Value)
	return t.out.String(), stderr, 0
}

const cliProbe = "macro probe {*args} {catch {Info [list $args at 0]} error e {Info unprintable}; catch {list $args at [- [list $args length] 1]} error e {idem []}}"

var cliNatives = []string{"import go:slog (slog)", "macro Info {a} {slog Info $a}"}

// cliWords are lines about the session itself
func cliLine(r *rand.Rand, files []string) string {
	switch r.IntN(18) {
	case 0:
		return "source " + pick(r, files)
	case 1:
		return pickw(r, "source", "source a b", "source nofile", "source [list ()]", "exit 1", "load", "load a", "load a b", "load native/go_os zz; import zz (os); os ReadFile one.h", "load native/go_regexp go:re; import go:re (regexp)", "picol", "picol a", "catch {source nofile} error e {idem $e}", "load native/go_slog go:slog")
	case 2:
		return "picol {" + pickw(r, "set a 1; incr a", "error boom", "+ 1 2", "foo", "while {== 1 1} {break}; set x 5", "proc f {a} {return $a}; f 7", "set a", "return 5", "break", "continue", "if true {set a b}", "* 2.5 2", "for {set i 0} {< $i 3} {incr i} {}; set i", "") + "}"
	case 3:
		return "catch {" + pickw(r, "source one.h", "source bad.h", "picol {error x}", "error a; idem b") + "} error e {Info $e; idem caught}"
	case 4:
		return "import go:os (os); os ReadFile " + pick(r, files)
	case 5:
		return "import go:regexp (regexp); regexp MatchString b abc; regexp Compile \"[a-c]+\""
	case 6:
		return pickw(r, "^", "|> idem", "|> probe", "|> list", "|>", "^; ^", "idem [^]", "idem a |> probe b", "|> set last; idem $last")
	case 7, 8:
		return ""
	case 9:
		return "import " + pickw(r, "./mod.h", "mod.h (f)", "./sub/mod2.h (g f)", "nomod.h", "badmod.h", "mod.h ((f ff)); ff; ff", "./mod.h (f); f", "sub/../mod.h (f); f")
	case 10:
		return pickw(r, "yield 1", "return 2", "break", "continue", "pass", "error", "error boom", "error \"a\nb\"", "nope", "idem $nope", "tailcall", "closure f {} {error inf}; f", "proc g {} {nope}; g", "set cnt [+ [get cnt 0] 1]", "set cnt [+ [get cnt 0] 1]", "f", "g", "error (a b)", "error [list ()]")
	case 11:
		return "idem " + pickw(r, "[]", "true", "12", "1.5", "\"a b\"", "\"\"", "[list (a [list (b)])]", "[dict (a 1)]", "(a (b c) \"\")", "{a $b}", "[closure {} {}]", "[ensemble {} {}]", "[alias al idem]", "[coroutine {idem a}]", "[macro {a} {}]", "[namespace {}]", "[argspec (a ?b)]", "[module {}]", "é\"日本\"", "a$[idem b]", "[list]", "[if true]", "[dict (a [dict (b [list (c)])])]", "\"\\x41\\n\"", "\"\\\\\"", "$[list (a b)][1]", "[idem a; error b]")
	case 12:
		return "idem " + strings.Repeat(pickw(r, "a", "é", "ab ", "(", "[]"), 1+r.IntN(400)) + pickw(r, "", ")", "))")
	case 13:
		return pickw(r, "a)", "]", "}", "\"a\"b", "{a}b", "(a)b", "a (b", "{", "\"", "\"\"\"", "#{", "#{ a", "}#", "# x", "\"\"T", "$", "$*", "a \\", "\\", "\\\\", "# a \\", "\"a\\", "b\\\\\\", "[idem a", "]", "\")", "T\"\"", "idem \"\"\"a")
	}
	return ""
}

// respaced splits a script over lines
func respaced(r *rand.Rand, s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		b.WriteByte(s[i])
		if r.IntN(6) > 0 {
			continue
		}
		switch s[i] {
		case '{', '(', '[', ';':
			b.WriteString(pickw(r, "\n", "\n\n", " \\\n", "\n\t"))
		case ' ':
			b.WriteString(pickw(r, "\\\n", "\\\n ", "\\\n\t "))
		}
	}
	return b.String()
}

func plainLine(s string) bool {
	if !utf8.ValidString(s) {
		return false
	}
	for _, c := range s {
		if c < ' ' && c != '\t' || c == 0x7f {
			return false
		}
	}
	return true
}

// guard runs what precedes in the specification, which decides whether it ends
type cliGuard struct {
	s      *refSession
	last   ref.Value
	exited bool
}

type guardExit struct{}

func newCliGuard() *cliGuard {
	g := &cliGuard{s: newRefSession(sessOpts{dir: cliStart, fuel: 20000})}
	fn := func(name string, f func(m *ref.Machine, args []ref.Value, sc *ref.Scope) ref.Result) {
		g.s.root.Register(name, ref.Fn(f))
	}
	none := func(m *ref.Machine, args []ref.Value, _ *ref.Scope) ref.Result {
		return ref.Result{Code: ref.OK, Val: ref.Nil{}}
	}
	for _, n := range []string{"slog", "os", "regexp", "load", "picol"} {
		fn(n, none)
	}
	fn("Info", func(m *ref.Machine, args []ref.Value, _ *ref.Scope) ref.Result {
		if len(args) != 2 {
			return ref.Result{Code: ref.ERROR, Val: ref.Str(`wrong # args: should be "Info a"`)}
		}
		if _, is := ref.String(args[1]); !is {
			return ref.Result{Code: ref.ERROR, Val: ref.Str("value has no string representation")}
		}
		return ref.Result{Code: ref.OK, Val: ref.Nil{}}
	})
	fn("exit", func(m *ref.Machine, args []ref.Value, _ *ref.Scope) ref.Result {
		if len(args) != 1 {
			return ref.Result{Code: ref.ERROR, Val: ref.Str(`wrong # args: should be "exit"`)}
		}
		panic(guardExit{})
	})
	imports := g.s.root.Command("import")
	fn("import", func(m *ref.Machine, args []ref.Value, sc *ref.Scope) ref.Result {
		if len(args) > 1 {
			if p, is := args[1].(ref.Str); is && strings.HasPrefix(string(p), "go:") {
				return ref.Result{Code: ref.OK, Val: ref.Nil{}}
			}
		}
		return imports.Exec(m, args, sc)
	})
	fn("source", func(m *ref.Machine, args []ref.Value, sc *ref.Scope) ref.Result {
		if len(args) == 2 {
			if p, is := args[1].(ref.Str); is {
				if src, bad := refReadFile(string(p)); bad == "" {
					if s, msg := ref.Parse(src); msg == "" {
						return m.Source(s, sc)
					}
				}
			}
		}
		return ref.Result{Code: ref.ERROR, Val: ref.Str("source")}
	})
	return g
}

// ends tells whether a script is known to end
func (g *cliGuard) ends(src string) (yes bool) {
	if g.exited {
		return true
	}
	defer func() {
		switch e := recover().(type) {
		case nil:
		case guardExit:
			g.exited = true
			yes = true
		case ref.Inconclusive:
			yes = false
		default:
			panic(e)
		}
	}()
	sc, msg := ref.Parse(src)
	if msg != "" {
		return true
	}
	ref.SetSource(sc, "", &src)
	if g.last == nil {
		g.last = ref.Nil{}
	}
	g.last = g.s.m.StartFrom(sc, g.s.root, g.last).Run().Val
	return true
}

var slogTime = regexp.MustCompile(`(?m)^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d (INFO|WARN|ERROR|DEBUG) `)

func untimed(s string) string { return slogTime.ReplaceAllString(s, "$1 ") }

func sortedBytes(s string) string {
	b := []byte(s)
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return string(b)
}

// sameOutput compares outputs, with dictionaries and lists of subcommands in any
// order
func sameOutput(got, want string) bool {
	return got == want || len(got) == len(want) && (strings.Contains(want, "[dict (") || strings.Contains(want, "(subcommands ")) && sortedBytes(got) == sortedBytes(want)
}

// collector gathers the output of a process
type collector struct {
	mu  sync.Mutex
	buf bytes.Buffer
}

func (c *collector) Write(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.buf.Write(b)
}
func (c *collector) text() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	return untimed(c.buf.String())
}

func exitStatus(err error) int {
	if err == nil {
		return 0
	}
	var e *exec.ExitError
	if errors.As(err, &e) {
		return e.ExitCode()
	}
	return -2
}

func (c *Ctx) cliFiles(g *gen) []string {
	r := c.R
	files := map[string]string{
		"one.h":       g.script(2),
		"two.h":       g.script(2) + "\n" + pickw(r, "", "source one.h", "source sub/three.h\n", "error in2", "set cnt [+ [get cnt 0] 1]", "yield 1", "return 2", "\n\n  nope a b"),
		"sub/three.h": pickw(r, "", "idem a", "source one.h; source one.h", "error in3", "\n  idem [error x]", "proc f {} {\n  nope\n}\nf", "set cnt [+ [get cnt 0] 1]", "exit"),
		"bad.h":       pickw(r, "a {", "a)", "\"", "", "idem \"a\"b", "idem a\nerror late\n"),
		"mod.h":       "closure f {} {set n [+ [get n 0] 1]}; export f",
		"sub/mod2.h":  "import ../mod.h (f); export f; closure g {} {error ing}; export g",
		"badmod.h":    pickw(r, "error inmod", "a {", "import nope", "\n nope"),
	}
	text := ""
	names := []string{}
	for n := range files {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		os.MkdirAll(filepath.Dir(n), 0o755)
		if err := os.WriteFile(n, []byte(files[n]), 0o644); err != nil {
			panic(err)
		}
		text += "--- " + n + ": " + files[n] + "\n"
	}
	c.extra = text
	return names
}

func cliCase(c *Ctx) {
	r := c.R
	helena := os.Getenv("VERIF_HELENA")
	topics := []string{"basic", "call", "list", "var"}
	for i := r.IntN(4); i > 0; i-- {
		topics = append(topics, pick(r, []string{"num", "str", "dict", "logic", "if", "loop", "catch", "argspec", "co", "ns", "ens", "alias", "script", "help", "word"}))
	}
	g := newGen(r, topics...)
	g.maxDepth = 1 + r.IntN(4)
	g.wrong = pick(r, []int{0, 20, 80})
	files := c.cliFiles(g)
	if r.IntN(5) == 0 {
		c.cliFile(helena, g, files)
		return
	}
	// Lines of the session
	text := strings.Join(cliNatives, "\n") + "\n" + cliProbe + "\n"
	if r.IntN(2) == 0 {
		text += g.prelude() + "\n"
	}
	open := 0
	for i, n := 0, 1+r.IntN(25); i < n; i++ {
		g.n = 0
		e := ""
		switch k := r.IntN(20); {
		case k < 7:
			e = g.script(1 + r.IntN(2))
		case k < 11:
			e = respaced(r, g.script(1+r.IntN(2)))
		case k < 12:
			e = anySource(r)
		default:
			e = cliLine(r, files)
		}
		if r.IntN(4) == 0 {
			e = pickw(r, "probe a; ", "Info b; ", "probe $[get cnt 0]; set cnt [+ [get cnt 0] 1]; ") + e
		}
		bad := false
		for _, l := range strings.Split(e, "\n") {
			bad = bad || !plainLine(l)
		}
		if bad {
			continue
		}
		if _, msg := ref.Parse(e); ref.Incomplete(msg) && open == 0 {
			// Most scripts are completed
			if r.IntN(4) > 0 {
				continue
			}
			open = 1 + r.IntN(4)
		} else if open > 0 {
			open--
			if open == 0 {
				e = pickw(r, "}", "]", ")", "\"", "\"\"\"", "}#", "a\n}\n]\n)")
			}
		}
		text += e + "\n"
	}
	if r.IntN(6) == 0 {
		text += pickw(r, "exit", "if true {exit}", "idem [exit]; probe no", "source sub/three.h", "a {\nexit\n}") + "\n" + "idem after\nprobe after\n"
	}
	if r.IntN(300) == 0 {
		text += "string " + strings.Repeat("abc", 1+r.IntN(2000)) + " length\n"
	}
	if r.IntN(10) == 0 {
		text += pickw(r, "idem (", "probe a \\", "{", "\"", "set z {")
	} else if r.IntN(10) == 0 {
		text = strings.TrimSuffix(text, "\n")
	}
	lines := strings.SplitAfter(text, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	}
	// What is expected
	guard := newCliGuard()
	defer guard.s.m.Close()
	twin := newCliTwin()
	var fed, chunks []string
	all := ""
	c.Input(text)
	for _, l := range lines {
		s := strings.TrimSuffix(l, "\n")
		if !plainLine(s) || s != l && strings.HasSuffix(s, "\r") {
			c.Count("lines left out", 1)
			continue
		}
		if !twin.exited && len(fed) >= len(cliNatives) {
			if t := twin.pending + s; !cliWaits(t) && !guard.ends(t) {
				c.Count("undecided", 1)
				break
			}
		}
		fed = append(fed, l)
		e := ""
		if !twin.exited {
			e = twin.line(s)
		}
		chunks = append(chunks, e)
		all += e
	}
	input := strings.Join(fed, "")
	c.Input(input)
	cmd := exec.Command(helena)
	cmd.Env = []string{"HOME=" + cliStart, "PATH=/usr/bin:/bin", "TERM=" + pickw(r, "dumb", "xterm-256color")}
	var out collector
	cmd.Stdout, cmd.Stderr = &out, &out
	stepwise := r.IntN(10) < 3
	var err error
	if stepwise {
		var in io.WriteCloser
		in, err = cmd.StdinPipe()
		if err == nil {
			err = cmd.Start()
		}
		if err != nil {
			panic(err)
		}
		done := 0
		for i, l := range fed {
			io.WriteString(in, l)
			done += len(chunks[i])
			if !strings.HasSuffix(l, "\n") {
				break
			}
			// The answer comes before the next line
			for until := time.Now().Add(60 * time.Second); len(out.text()) < done; time.Sleep(200 * time.Microsecond) {
				if time.Now().After(until) {
					in.Close()
					cmd.Process.Kill()
					cmd.Wait()
					c.Fail("session", "no full answer to line %d: %s\ngot\n%s\nwant\n%s", i+1, trunc(l, 300), trunc(out.text(), 2000), trunc(all, 2000))
					return
				}
			}
			if len(chunks[i]) > 0 {
				c.Count("answers before the next line", 1)
			}
		}
		in.Close()
	} else {
		cmd.Stdin = strings.NewReader(input)
		if err = cmd.Start(); err != nil {
			panic(err)
		}
	}
	timer := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
	status := exitStatus(cmd.Wait())
	timer.Stop()
	got := out.text()
	rest := got
	for i, e := range chunks {
		if len(rest) < len(e) || !sameOutput(rest[:len(e)], e) {
			c.Fail("session", "line %d: %s\ngot\n%s\nwant\n%s\nwhole output\n%s", i+1, trunc(fed[i], 300), trunc(rest, 1500), trunc(e, 1500), trunc(got, 3000))
			return
		}
		rest = rest[len(e):]
	}
	if rest != "" {
		c.Fail("session", "output not expected: %s\nwhole output\n%s", trunc(rest, 1500), trunc(got, 3000))
		return
	}
	if status != 0 {
		c.Fail("session", "status %d\n%s", status, trunc(got, 3000))
		return
	}
	c.Count("sessions", 1)
	c.Count("lines", len(fed))
	c.Count("lines waiting for more", twin.waits)
	c.Count("scripts evaluated", twin.runs)
	c.Count("errors reported", twin.errs)
	c.Count("log lines", strings.Count(all, "INFO "))
	if twin.exited {
		c.Count("sessions exited", 1)
	}
	c.Eval(c.extra + input)
}

func (c *Ctx) cliFile(helena string, g *gen, files []string) {
	r := c.R
	src := strings.Join(cliNatives, "\n") + pickw(r, "\n", ";", "\r\n") + cliProbe + "\n"
	if r.IntN(3) > 0 {
		src += g.prelude() + "\n"
	}
	for i, n := 0, r.IntN(4); i < n; i++ {
		g.n = 0
		switch k := r.IntN(12); {
		case k < 9:
			if r.IntN(2) == 0 {
				g.wrong = 0
			}
			src += g.script(3)
		case k == 9 && r.IntN(3) == 0:
			src += anySource(r)
		default:
			src += cliLine(r, files)
		}
		src += pickw(r, "\n", "\n", "\r\n", "\n\n", ";")
	}
	if r.IntN(3) == 0 {
		src += pickw(r, "exit", "nope", "error boom", "yield 1", "return 3", "break", "\\", "# end", "idem \"\\", "\x00", "idem \xff")
	}
	if r.IntN(8) == 0 {
		src = pickw(r, "", "\n", "a {", "idem a", "\ufeffidem a", "#!/usr/bin/helena\nidem ok")
	}
	name := "main.h"
	if err := os.WriteFile(name, []byte(src), 0o644); err != nil {
		panic(err)
	}
	args := []string{name}
	if r.IntN(20) == 0 {
		args = []string{pickw(r, "none.h", "sub", "", ".")}
	}
	if r.IntN(4) == 0 {
		args[0] = filepath.Join(cliStart, args[0])
	}
	input := "file " + args[0] + ":\n" + src
	c.Input(input)
	guard := newCliGuard()
	defer guard.s.m.Close()
	if _, tail, found := strings.Cut(src, cliProbe); found && !guard.ends(cliProbe+tail) {
		c.Count("undecided", 1)
		return
	}
	twin := newCliTwin()
	stdout, stderr, status := twin.file(args[0])
	if r.IntN(60) == 0 {
		args = append(args, "other")
		stdout, stderr, status = "", "Usage: helena [script]\n", 0
	}
	cmd := exec.Command(helena, args...)
	cmd.Env = []string{"HOME=" + cliStart, "PATH=/usr/bin:/bin"}
	cmd.Stdin = strings.NewReader("probe stdin\n")
	var o, e collector
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	timer := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
	got := exitStatus(cmd.Wait())
	timer.Stop()
	if got != status || !sameOutput(o.text(), stdout) || !sameOutput(e.text(), stderr) {
		c.Fail("file", "status %d, output\n%s\nerrors\n%s\nwant status %d, output\n%s\nerrors\n%s", got, trunc(o.text(), 1500), trunc(e.text(), 1500), status, trunc(stdout, 1500), trunc(stderr, 1500))
		return
	}
	c.Count(fmt.Sprintf("files with status %d", status), 1)
	c.Count("log lines", strings.Count(stderr, "INFO "))
	c.Eval(c.extra + input)
}
