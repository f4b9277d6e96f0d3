id='C28-int'; prop='C28'
needs='a product of whole numbers beyond the range of 64-bit integers'
breaks='the product wraps around'
edits=[('picol_dialect/picol_dialect.go','''			total *= n
''','''			if total == float64(int64(total)) && n == float64(int64(n)) {
				// Keep whole products exact
				total = float64(int64(total) * int64(n))
			} else {
				total *= n
			}
''')]
cases=''
demo_go='''package main

import (
	"fmt"
	"helena/core"
	"helena/picol_dialect"
)

func main() {
	for _, src := range []string{"* 3 4", "* 4294967296 4294967296", "* 1e10 1e10 -1", "* 1.5 2"} {
		scope := picol_dialect.NewPicolScope(nil)
		picol_dialect.InitPicolCommands(scope)
		r := core.NewParser(nil).ParseTokens(core.Tokenizer{}.Tokenize(src), nil)
		v := scope.Evaluator.EvaluateScript(*r.Script)
		_, s := core.ValueToString(v.Value)
		fmt.Println(">", v.Code, s)
	}
}
'''
