id='C09-usage-skip'; prop='C09'
needs='help for subcommands of ensembles that take fewer arguments than the ensemble'
breaks='the host crashes'
edits=[('helena_dialect/arguments.go','''	result := ""
	if skip > uint(len(args)) {
		return result
	}
	for i, arg := range args[skip:] {''','''	result := ""
	if len(args) == 0 {
		return result
	}
	for i, arg := range args[skip:] {''')]
cases='''
=== skip
ensemble e (a b c) {macro m (x) {}; macro n () {}; macro o (x y z t) {}}
probe [help e 1 2 3 n]
---
probe [help e 1 2 3 o]
---
probe [help e 1 2 3 m]
'''
