id='C25-number-names'; prop='C25'
needs='several interpreters running concurrently'
breaks='concurrent interpreters write to a shared map'
edits=[('helena_dialect/core.go','''	if core.StringIsNumber(cmdname) {
		return numberCmd
	}
	return nil
}
func (scope *Scope) ResolveNamedCommand''','''	isNumber, ok := numberNames[cmdname]
	if !ok {
		isNumber = core.StringIsNumber(cmdname)
		if len(numberNames) < 1000 {
			numberNames[cmdname] = isNumber
		}
	}
	if isNumber {
		return numberCmd
	}
	return nil
}

// Cached tests of number names
var numberNames = map[string]bool{}

func (scope *Scope) ResolveNamedCommand''')]
demo_go='''package main

import (
	"fmt"
	"helena/core"
	"helena/helena_dialect"
	"sync"
)

func main() {
	var wg sync.WaitGroup
	for n := 0; n < 8; n++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			scope := helena_dialect.NewRootScope(nil)
			helena_dialect.InitCommands(scope)
			for i := 0; i < 1000; i++ {
				src := fmt.Sprintf("%d.%d + 1", i, n)
				tokens := core.Tokenizer{}.Tokenize(src)
				script := core.NewParser(nil).ParseTokens(tokens, nil).Script
				if r := scope.PrepareProcess(scope.Compile(*script)).Run(); r.Code != core.ResultCode_OK {
					panic("failed")
				}
			}
		}()
	}
	wg.Wait()
	fmt.Println("> done")
}
'''
cases=''
