// Runs the sessions of a file and prints what can be observed.
//
// The file is a list of sections:
//
//	=== TITLE [capture] [stack] [picol] [tokens] [resume=VALUE] [noresume]
//	script
//	---
//	next script of the same session
//	=== @file NAME
//	content of a module file, written in the working directory
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"helena/core"
	hd "helena/helena_dialect"
	"helena/picol_dialect"
)

type cmd func(args []core.Value, context any) core.Result

func (c cmd) Execute(args []core.Value, context any) core.Result { return c(args, context) }

func show(v core.Value) string {
	if v == nil {
		return "<null>"
	}
	switch v.Type() {
	case core.ValueType_STRING:
		return fmt.Sprintf("%q", v.(core.StringValue).Value)
	case core.ValueType_LIST:
		return "list" + shows(v.(core.ListValue).Values)
	case core.ValueType_TUPLE:
		return shows(v.(core.TupleValue).Values)
	case core.ValueType_DICTIONARY:
		m := v.(core.DictionaryValue).Map
		var out []string
		for k, e := range m {
			out = append(out, fmt.Sprintf("%q=%s", k, show(e)))
		}
		sort.Strings(out)
		return "dict(" + strings.Join(out, " ") + ")"
	case core.ValueType_SCRIPT:
		sv := v.(core.ScriptValue)
		if sv.Source != nil {
			return fmt.Sprintf("script{%s}#%d", *sv.Source, len(sv.Script.Sentences))
		}
		return fmt.Sprintf("script#%d", len(sv.Script.Sentences))
	}
	return fmt.Sprintf("%T %s", v, core.Display(v, func(any) string { return "{#{}#}" }))
}

func shows(vs []core.Value) string {
	var out []string
	for _, v := range vs {
		out = append(out, show(v))
	}
	return "(" + strings.Join(out, " ") + ")"
}

func parse(src string, capture bool) core.ParseResult {
	in := core.NewStringStream(src)
	out := core.NewArrayTokenStream([]core.Token{}, in.Source())
	(&core.Tokenizer{}).TokenizeStream(in, out)
	return core.NewParser(&core.ParserOptions{CapturePositions: capture}).Parse(out)
}

func session(opts map[string]string, scripts []string) {
	_, capture := opts["capture"]
	_, stack := opts["stack"]
	_, noresume := opts["noresume"]
	if _, is := opts["tokens"]; is {
		for _, s := range scripts {
			for _, t := range (core.Tokenizer{}).Tokenize(s) {
				fmt.Printf("%d %v %q %q\n", t.Type, t.Position, t.Literal, t.Sequence)
			}
		}
		return
	}
	probe := cmd(func(args []core.Value, _ any) core.Result {
		fmt.Println("probe", shows(args[1:]))
		if len(args) == 1 {
			return core.OK(core.NIL)
		}
		return core.OK(args[len(args)-1])
	})
	if _, is := opts["picol"]; is {
		scope := picol_dialect.NewPicolScope(nil)
		picol_dialect.InitPicolCommands(scope)
		for _, s := range scripts {
			p := parse(s, capture)
			if !p.Success {
				fmt.Println("parse error", p.Message)
				continue
			}
			r := scope.Evaluator.EvaluateScript(*p.Script)
			fmt.Println(core.RESULT_CODE_NAME(r), show(r.Value))
		}
		return
	}
	cwd, _ := os.Getwd()
	scope := hd.NewRootScope(&hd.ScopeOptions{CapturePositions: capture, CaptureErrorStack: stack})
	hd.InitCommandsForModule(scope, hd.NewModuleRegistry(&hd.ModuleOptions{CapturePositions: capture, CaptureErrorStack: stack}), cwd)
	scope.RegisterNamedCommand("probe", probe)
	for _, s := range scripts {
		p := parse(s, capture)
		if !p.Success {
			fmt.Println("parse error", p.Message)
			continue
		}
		process := scope.PrepareProcess(scope.Compile(*p.Script))
		for {
			r := process.Run()
			fmt.Println(core.RESULT_CODE_NAME(r), show(r.Value))
			if es, is := r.Data.(*core.ErrorStack); is && es != nil && stack {
				for i := uint(0); i < es.Depth(); i++ {
					l := es.Level(i)
					pos, frame := "-", "-"
					if l.Position != nil {
						pos = fmt.Sprint(*l.Position)
					}
					if l.Frame != nil {
						frame = shows(*l.Frame)
					}
					fmt.Println("  at", pos, frame)
				}
			}
			if r.Code != core.ResultCode_YIELD || noresume {
				break
			}
			if v, is := opts["resume"]; is {
				process.YieldBack(core.STR(v))
			}
		}
	}
}

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	sections := strings.Split("\n"+strings.TrimSuffix(string(b), "\n"), "\n=== ")[1:]
	for _, s := range sections {
		head, body, _ := strings.Cut(s, "\n")
		if name, is := strings.CutPrefix(head, "@file "); is {
			os.MkdirAll(filepath.Dir(name), 0o755)
			os.WriteFile(name, []byte(body), 0o644)
		}
	}
	for _, s := range sections {
		head, body, _ := strings.Cut(s, "\n")
		if strings.HasPrefix(head, "@file ") {
			continue
		}
		fmt.Println("===", head)
		opts := map[string]string{}
		for _, f := range strings.Fields(head)[1:] {
			k, v, _ := strings.Cut(f, "=")
			opts[k] = v
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					fmt.Println("panic", e)
				}
			}()
			session(opts, strings.Split(body, "\n---\n"))
		}()
	}
}
