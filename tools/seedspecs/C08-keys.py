id='C08-keys'; prop='C08'
needs='two values made from the same qualified value with three keys, by selecting different keys, both held'
breaks='selecting another key changes the qualified values made before'
edits=[('core/values.go','''			keys := make([]Value, len(last.Keys)+1)
			copy(keys, last.Keys)
			keys[len(last.Keys)] = key
''','''			keys := append(last.Keys, key)
''')]
demo_go='''package main

import (
	"fmt"
	"helena/core"
)

func main() {
	q := core.NewQualifiedValue(core.STR("a"), nil)
	var v core.KeySelectable = q
	for _, k := range []string{"x", "y", "z"} {
		v = v.SelectKey(core.STR(k)).Value.(core.KeySelectable)
	}
	p := v.SelectKey(core.STR("p")).Value
	r := v.SelectKey(core.STR("r")).Value
	fmt.Println(">", p.(core.Displayable).Display(nil), r.(core.Displayable).Display(nil))
}
'''
cases=''
