id='C01-stale-token'; prop='C01'
needs='a tokenizer object reused after its first stream was abandoned before the end'
breaks='the token buffered for the abandoned stream is emitted (or merged) at the start of the next stream'
edits=[('core/tokenizer.go','''	tokenizer.input = input
	tokenizer.currentToken = nil
''','''	if tokenizer.input == nil {
		tokenizer.currentToken = nil
	}
	tokenizer.input = input
''')]
cases='=== x\n'
demo_go='''package main

import (
	"fmt"
	"helena/core"
)

func main() {
	t := &core.Tokenizer{}
	t.Begin(core.NewStringStream("abc def; ghi"))
	for i := 0; i < 3; i++ {
		fmt.Println(*t.Next())
	}
	t.Begin(core.NewStringStream("xyz"))
	for !t.End() {
		fmt.Println(*t.Next())
	}
	fmt.Println(t.Next() == nil)
}
'''
