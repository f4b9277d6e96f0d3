id='C04-selectors'; prop='C04'
needs='a tuple holding a host value with its own selection'
breaks='the selection of host values in tuples is bypassed'
edits=[('core/values.go','''		result := ApplySelector(v, selector)
''','''		result := selector.Apply(v)
''')]
cases=''
demo_go='''package main

import (
	"fmt"
	"helena/core"
)

type host struct{}

func (host) Type() core.ValueType { return core.ValueType_CUSTOM }
func (host) Select(s core.Selector) core.Result { return core.OK(core.STR("selected")) }
func (host) SelectIndex(i core.Value) core.Result { return core.OK(core.STR("indexed")) }

type vars struct{}

func (vars) Resolve(name string) core.Value {
	switch name {
	case "h":
		return host{}
	case "t":
		return core.TUPLE([]core.Value{host{}, core.TUPLE([]core.Value{host{}})})
	}
	return nil
}

type idem struct{}

func (idem) Execute(args []core.Value, _ any) core.Result { return core.OK(args[len(args)-1]) }

type cmds struct{}

func (cmds) Resolve(name core.Value) core.Command { return idem{} }

type sels struct{}

func (sels) Resolve(rules []core.Value) (core.Result, core.Selector) {
	return core.OK(core.NIL), core.IndexedSelector{Index: core.INT(1)}
}

func main() {
	for _, src := range []string{"idem $h{x}", "idem $t{x}", "idem $[idem $t]{x}", "idem $(t h){x}"} {
		r := core.NewParser(nil).ParseTokens(core.Tokenizer{}.Tokenize(src), nil)
		program := core.NewCompiler(nil).CompileScript(*r.Script)
		e := core.Executor{VariableResolver: vars{}, CommandResolver: cmds{}, SelectorResolver: sels{}}
		res := e.Execute(program, core.NewProgramState())
		fmt.Println(res.Code, core.Display(res.Value, nil))
	}
}
'''
