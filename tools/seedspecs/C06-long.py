id='C06-long'; prop='C06'
needs='displaying a long string whose special characters are all far from its start'
breaks='the string is displayed without quotes'
edits=[('core/display.go','''	tokens := tokenizer.Tokenize(str)
	if len(tokens) == 0 {
		return `""`
	}''','''	tokens := tokenizer.Tokenize(str[:min(len(str), 128)])
	if len(tokens) == 0 {
		return `""`
	}'''),('core/display.go','''		return tokens[0].Literal
	}
	re := regexp.MustCompile(`[\\\\$"({[]`)''','''		return str
	}
	re := regexp.MustCompile(`[\\\\$"({[]`)''')]
demo_go='''package main

import (
	"fmt"
	"helena/core"
	"strings"
)

func main() {
	for _, n := range []int{1, 200} {
		s := core.STR(strings.Repeat("a", n) + " b").Display(nil)
		fmt.Println(">", len(s), s[:1])
	}
}
'''
cases=''
