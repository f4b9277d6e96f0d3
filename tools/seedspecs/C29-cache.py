id='C29-shared-regexps'; prop='C29'
needs='Longest applied to one of several values compiled from the same expression'
breaks='the other values change too'
edits=[('native/go_regexp/go_regexp.go','''		re, err := regexp.Compile(expr)
		if err != nil {
			return core.ERROR(err.Error())
		}
		return core.OK(NewRegexpValue(re))
''','''		if re, ok := compiled.Load(expr); ok {
			return core.OK(NewRegexpValue(re.(*regexp.Regexp)))
		}
		re, err := regexp.Compile(expr)
		if err != nil {
			return core.ERROR(err.Error())
		}
		compiled.Store(expr, re)
		return core.OK(NewRegexpValue(re))
'''),('native/go_regexp/go_regexp.go','''type RegexpCmd struct{}''','''// Compiled expressions
var compiled sync.Map

type RegexpCmd struct{}'''),('native/go_regexp/go_regexp.go','''	"regexp"
''','''	"regexp"
	"sync"
''')]
demo_go='''package main

import (
	"fmt"
	"helena/core"
	"helena/native/go_regexp"
)

func main() {
	cmd := go_regexp.RegexpCmd{}
	call := func(args ...core.Value) core.Value {
		return cmd.Execute(append([]core.Value{core.STR("regexp")}, args...), nil).Value
	}
	re1 := call(core.STR("Compile"), core.STR("a|ab"))
	call(core.STR("Longest"), re1)
	re2 := call(core.STR("Compile"), core.STR("a|ab"))
	fmt.Println("> ", core.Display(call(core.STR("FindString"), re1, core.STR("ab")), nil))
	fmt.Println("> ", core.Display(call(core.STR("FindString"), re2, core.STR("ab")), nil))
}
'''
cases=''
