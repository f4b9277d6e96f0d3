id='C03-parser-reuse'; prop='C03'
needs='a parser reused after a parse that stopped right after a substitution mark'
breaks='the substitution state of the previous parse is carried over to the next one'
edits=[('core/parser.go','''	parser.context = &context{
		script: newScriptNode(firstToken),
	}
	parser.stream = stream
''','''	script := newScriptNode(firstToken)
	if parser.context != nil && parser.context.parentContext == nil {
		// Reuse the existing context
		parser.context.node = nil
		parser.context.script = script
		parser.context.sentence = nil
		parser.context.word = nil
		parser.context.morphemes = nil
	} else {
		parser.context = &context{
			script: script,
		}
	}
	parser.stream = stream
''')]
cases='=== x\n'
demo_go='''package main

import (
	"fmt"
	"helena/core"
)

func main() {
	p := core.NewParser(nil)
	for _, s := range []string{"a b", "c $", "# comment", "a$", "b$c", "d]", "e $[f"} {
		fmt.Println(p.ParseStream(core.NewArrayTokenStream(core.Tokenizer{}.Tokenize(s), nil)))
	}
	fmt.Println(p.ParseTokens(core.Tokenizer{}.Tokenize("ab cd"), nil).Success)
	p.ParseStream(core.NewArrayTokenStream(core.Tokenizer{}.Tokenize("c $"), nil))
	r := p.ParseTokens(core.Tokenizer{}.Tokenize("##{ block }##"), nil)
	fmt.Println(r.Success, r.Message)
}
'''
