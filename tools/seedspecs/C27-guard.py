id='C27-guard-run'; prop='C27'
needs='deep recursion through the bodies of guarded procs; or guarded procs that yield'
breaks='guarded procs use the host stack, and cannot suspend'
edits=[('helena_dialect/procs.go','''	if proc.guard != nil {
		return CreateContinuationValueWithCallback(subscope, proc.program, nil, func(result core.Result, data any) core.Result {
			switch result.Code {''','''	if proc.guard != nil {
		process := subscope.PrepareProcess(proc.program)
		return CreateContinuationValueWithCallback(proc.scope, proc.scope.CompileArgs([]core.Value{core.NewCommandValue(guardedBodyCmd{process})}), nil, func(result core.Result, data any) core.Result {
			switch result.Code {'''),('helena_dialect/procs.go','''func (proc *procCommand) Execute(''','''// Run body of guarded procs
type guardedBodyCmd struct{ process *Process }

func (cmd guardedBodyCmd) Execute(_ []core.Value, _ any) core.Result {
	return cmd.process.Run()
}
func (cmd guardedBodyCmd) Resume(result core.Result, _ any) core.Result {
	cmd.process.YieldBack(result.Value)
	return cmd.process.Run()
}

func (proc *procCommand) Execute(''')]
demo_go='''package main

import (
	"fmt"
	"helena/core"
	"helena/helena_dialect"
	"runtime/debug"
)

func main() {
	debug.SetMaxStack(16 << 20)
	scope := helena_dialect.NewRootScope(nil)
	helena_dialect.InitCommands(scope)
	src := "proc f (n) (idem {if [$n == 0] {idem 0} else {f [$n - 1]}}); f 100000"
	tokens := core.Tokenizer{}.Tokenize(src)
	script := core.NewParser(nil).ParseTokens(tokens, nil).Script
	r := scope.PrepareProcess(scope.Compile(*script)).Run()
	fmt.Println("> ", r.Code, r.Value)
}
'''
cases=''
