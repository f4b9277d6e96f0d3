package main

import (
	"fmt"
	"os"
	"strings"

	"helena/core"
	hd "helena/helena_dialect"

	"verif/ref"
)

var debugErrors = os.Getenv("VERIF_DEBUG_ERRORS") != ""

// A session is a list of scripts run one after another in one interpreter.
// Every suspension is resumed with a value of its own.
type sessOpts struct {
	capture   bool
	errStack  bool
	fuel      int
	maxYields int
	// Module files (name to source), made available to both sides
	files map[string]string
	dir   string
	// Compare error stacks
	stacks bool
	// Resume only suspensions of the first n scripts... (0: all)
	noResume bool
	// Whether to resume with a value of our own (false: with the yielded value)
	feed func(script, k int) string
}

// obs is the observation of one script: a list of events
type obs []string

func (o obs) String() string { return strings.Join(o, "\n") }

// retained is a value kept by the host, with its content at that time
type retained struct {
	v    core.Value
	text string
}

// realSession runs scripts with the implementation
type realSession struct {
	o      sessOpts
	scope  *hd.Scope
	log    []string
	kept   []retained
	keepOn bool
	// called by probes
	hook func()
	// results
	yields, errors, commands int
}

type nativeCmd struct {
	f func(args []core.Value, context any) core.Result
}

func (n nativeCmd) Execute(args []core.Value, context any) core.Result { return n.f(args, context) }

func newRealSession(o sessOpts) *realSession {
	s := &realSession{o: o}
	s.scope = hd.NewRootScope(&hd.ScopeOptions{CapturePositions: o.capture, CaptureErrorStack: o.errStack})
	if o.dir != "" {
		registry := hd.NewModuleRegistry(&hd.ModuleOptions{CapturePositions: o.capture, CaptureErrorStack: o.errStack})
		hd.InitCommandsForModule(s.scope, registry, o.dir)
		// The host registers modules
		s.scope.RegisterNamedCommand("regmod", nativeCmd{func(args []core.Value, _ any) core.Result {
			if len(args) == 3 {
				if _, name := core.ValueToString(args[1]); args[2].Type() == core.ValueType_COMMAND {
					if mod, is := args[2].(core.CommandValue).Command().(*hd.Module); is {
						registry.Register(name, mod)
						return core.OK(args[2])
					}
				}
			}
			return core.ERROR("regmod")
		}})
	} else {
		hd.InitCommands(s.scope)
	}
	s.scope.RegisterNamedCommand("probe", nativeCmd{func(args []core.Value, _ any) core.Result {
		s.commands++
		parts := make([]string, len(args))
		for i, a := range args {
			parts[i] = canonReal(a)
			if s.keepOn {
				s.keep(a)
			}
		}
		s.log = append(s.log, strings.Join(parts, " "))
		if s.hook != nil {
			s.hook()
		}
		if len(args) == 1 {
			return core.OK(core.NIL)
		}
		return core.OK(args[len(args)-1])
	}})
	return s
}

func (s *realSession) keep(v core.Value) {
	if len(s.kept) < 4000 {
		s.kept = append(s.kept, retained{v, canonReal(v)})
	}
}

// altered returns a description of a kept value that has changed
func (s *realSession) altered() string {
	for _, k := range s.kept {
		if now := canonReal(k.v); now != k.text {
			return fmt.Sprintf("value held as %s is now %s", trunc(k.text, 300), trunc(now, 300))
		}
	}
	return ""
}

func (s *realSession) takeLog() []string {
	l := s.log
	s.log = nil
	return l
}

func parseReal(src string, capture bool) core.ParseResult {
	return realParse(core.NewParser(&core.ParserOptions{CapturePositions: capture}), src)
}

func resultText(code string, val string) string { return code + " " + val }

var realCodes = map[core.ResultCode]string{
	core.ResultCode_OK: "ok", core.ResultCode_RETURN: "return", core.ResultCode_YIELD: "yield", core.ResultCode_ERROR: "error",
	core.ResultCode_BREAK: "break", core.ResultCode_CONTINUE: "continue",
}

func realCode(r core.Result) string {
	if n, is := realCodes[r.Code]; is {
		return n
	}
	return core.RESULT_CODE_NAME(r)
}

// stackText describes the error stack of a result
func realStack(r core.Result) []string {
	es, is := r.Data.(*core.ErrorStack)
	if !is || es == nil {
		return nil
	}
	var out []string
	for i := uint(0); i < es.Depth(); i++ {
		l := es.Level(i)
		var b strings.Builder
		if l.Position != nil {
			fmt.Fprintf(&b, "%d:%d:%d ", l.Position.Index, l.Position.Line, l.Position.Column)
		} else {
			b.WriteString("- ")
		}
		if l.Source != nil && l.Position != nil {
			if l.Source.Filename != nil {
				fmt.Fprintf(&b, "%s ", *l.Source.Filename)
			}
			if l.Source.Content != nil {
				fmt.Fprintf(&b, "%q ", *l.Source.Content)
			}
		}
		if l.Frame != nil {
			b.WriteString("[")
			for j, v := range *l.Frame {
				if j > 0 {
					b.WriteByte(' ')
				}
				b.WriteString(canonReal(v))
			}
			b.WriteString("]")
		} else {
			b.WriteString("noframe")
		}
		out = append(out, b.String())
	}
	return out
}

// runScript runs one script; the events are the probes, suspensions and outcome
func (s *realSession) runScript(n int, src string) (o obs, stack []string) {
	r := parseReal(src, s.o.capture)
	if !r.Success {
		return obs{"parse: " + r.Message}, nil
	}
	p := s.scope.PrepareProcess(s.scope.Compile(*r.Script))
	return s.drive(n, p)
}

func (s *realSession) drive(n int, p *hd.Process) (o obs, stack []string) {
	for k := 0; ; k++ {
		res := p.Run()
		o = append(o, s.takeLog()...)
		if s.keepOn {
			s.keep(res.Value)
		}
		o = append(o, resultText(realCode(res), canonReal(res.Value)))
		if res.Code != core.ResultCode_YIELD {
			if res.Code == core.ResultCode_ERROR {
				s.errors++
				stack = realStack(res)
			}
			return
		}
		s.yields++
		if k >= s.o.maxYields || s.o.noResume {
			return
		}
		if s.o.feed != nil {
			p.YieldBack(core.STR(s.o.feed(n, k)))
		}
	}
}

// refSession runs scripts with the specification
type refSession struct {
	o    sessOpts
	m    *ref.Machine
	root *ref.Scope
	log  []string
}

func newRefSession(o sessOpts) *refSession {
	fuel := o.fuel
	if fuel == 0 {
		fuel = 20000
	}
	s := &refSession{o: o, m: ref.NewMachine(fuel), root: ref.NewRoot()}
	s.m.Capture = o.errStack
	s.m.ReadFile = refReadFile
	dir := o.dir
	if dir == "" {
		dir, _ = os.Getwd()
	}
	s.m.RegisterAll(s.root, dir)
	s.root.Register("probe", ref.Fn(func(m *ref.Machine, args []ref.Value, _ *ref.Scope) ref.Result {
		parts := make([]string, len(args))
		for i, a := range args {
			parts[i] = ref.Canon(a)
		}
		s.log = append(s.log, strings.Join(parts, " "))
		m.Charge(len(s.log[len(s.log)-1]))
		if len(args) == 1 {
			return ref.Result{Code: ref.OK, Val: ref.Nil{}}
		}
		return ref.Result{Code: ref.OK, Val: args[len(args)-1]}
	}))
	if o.dir != "" {
		s.root.Register("regmod", ref.Fn(func(m *ref.Machine, args []ref.Value, _ *ref.Scope) ref.Result {
			if len(args) == 3 {
				if name, _ := ref.String(args[1]); m.RegisterModule(name, args[2]) {
					return ref.Result{Code: ref.OK, Val: args[2]}
				}
			}
			return ref.Result{Code: ref.ERROR, Val: ref.Str("regmod")}
		}))
	}
	return s
}

func refReadFile(path string) (string, string) {
	b, err := os.ReadFile(path)
	if err != nil {
		return "", err.Error()
	}
	return string(b), ""
}

func (s *refSession) takeLog() []string {
	l := s.log
	s.log = nil
	return l
}

func refStack(r ref.Result, capture bool) []string {
	var out []string
	for _, l := range r.Stack {
		var b strings.Builder
		if l.HasPos && capture {
			fmt.Fprintf(&b, "%d:%d:%d ", l.Pos.Index, l.Pos.Line, l.Pos.Col)
		} else {
			b.WriteString("- ")
		}
		if l.HasPos && capture {
			if l.File != "" {
				fmt.Fprintf(&b, "%s ", l.File)
			}
			if l.Src != nil {
				fmt.Fprintf(&b, "%q ", *l.Src)
			}
		}
		if l.Call {
			b.WriteString("[")
			for j, v := range l.Frame {
				if j > 0 {
					b.WriteByte(' ')
				}
				b.WriteString(ref.Canon(v))
			}
			b.WriteString("]")
		} else {
			b.WriteString("*")
		}
		out = append(out, b.String())
	}
	return out
}

func (s *refSession) runScript(n int, src string) (o obs, stack []string) {
	sc, msg := ref.Parse(src)
	if msg != "" {
		return obs{"parse: " + msg}, nil
	}
	ref.SetSource(sc, "", &src)
	p := s.m.Start(sc, s.root)
	for k := 0; ; k++ {
		res := p.Run()
		o = append(o, s.takeLog()...)
		o = append(o, resultText(res.Code.String(), ref.Canon(res.Val)))
		if res.Code != ref.YIELD {
			if res.Code == ref.ERROR {
				stack = refStack(res, s.o.capture)
			}
			return
		}
		if k >= s.o.maxYields || s.o.noResume {
			return
		}
		if s.o.feed != nil {
			p.YieldBack(ref.Str(s.o.feed(n, k)))
		}
	}
}

// refRun runs a session with the specification. why is not empty when the
// specification does not decide it.
func refRun(o sessOpts, scripts []string) (all []obs, stacks [][]string, why string, m *ref.Machine) {
	s := newRefSession(o)
	m = s.m
	defer s.m.Close()
	defer func() {
		if e := recover(); e != nil {
			if i, is := e.(ref.Inconclusive); is {
				why = i.Why
				return
			}
			panic(e)
		}
	}()
	for n, src := range scripts {
		ob, st := s.runScript(n, src)
		all = append(all, ob)
		stacks = append(stacks, st)
	}
	return
}

// session compares a session with the specification. Returns false when it
// could not be decided.
func (c *Ctx) session(o sessOpts, scripts []string) bool {
	if o.maxYields == 0 {
		o.maxYields = 12
	}
	all := strings.Join(scripts, "\n--------\n")
	c.Input(all)
	want, wstacks, why, m := refRun(o, scripts)
	if why != "" {
		c.Count("undecided: "+why, 1)
		// Decide what comes before the script that exceeded the limits
		scripts = scripts[:len(want)]
		if len(scripts) == 0 {
			return false
		}
	}
	for k, v := range m.Counters {
		c.Count(k, v)
	}
	s := newRealSession(o)
	s.keepOn = true
	for n, src := range scripts {
		got, gstack := s.runScript(n, src)
		g, w := got.String(), want[n].String()
		if g != w {
			c.Fail("behaviour", "script %d: %s\ngot\n%s\nwant\n%s", n+1, trunc(src, 600), trunc(g, 1500), trunc(w, 1500))
			return true
		}
		if o.stacks && o.errStack && !m.Unsure {
			if d := stackDiff(gstack, wstacks[n]); d != "" {
				c.Fail("error stack", "script %d: %s\n%s\ngot\n%s\nwant\n%s", n+1, trunc(src, 600), d, strings.Join(gstack, "\n"), strings.Join(wstacks[n], "\n"))
				return true
			}
			c.Count("error levels compared", len(gstack))
		}
		c.Count("scripts compared", 1)
		for _, l := range got {
			code, _, _ := strings.Cut(l, " ")
			if debugErrors && code == "error" {
				c.Count("E "+trunc(l, 45), 1)
			}
			switch code {
			case "ok", "return", "yield", "error", "break", "continue":
				c.Count("outcome "+code, 1)
			case "\"probe\"":
				c.Count("probes", 1)
			case "parse:":
				c.Count("outcome parse error", 1)
			}
		}
	}
	if a := s.altered(); a != "" {
		c.Fail("altered value", "%s", a)
	}
	c.Count("values watched", len(s.kept))
	c.Eval(all)
	return true
}

func stackDiff(got, want []string) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d levels instead of %d", len(got), len(want))
	}
	for i := range got {
		w := want[i]
		if strings.HasSuffix(w, " *") {
			w = w[:len(w)-1]
			if !strings.HasPrefix(got[i], w) {
				return fmt.Sprintf("level %d", i)
			}
		} else if got[i] != w {
			return fmt.Sprintf("level %d", i)
		}
	}
	return ""
}
