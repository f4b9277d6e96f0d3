id='C17-unset-nested'; prop='C17'
needs='unset with nested tuples whose later names do not exist'
breaks='a failing unset removes some of its variables'
edits=[('helena_dialect/variables.go','''	if check {
		return core.OK(core.NIL)
	}
	// Second pass for actual setting
	for i := 0; i < len(variables.Values); i++ {
		unset(scope, variables.Values[i], false)
	}
	return core.OK(core.NIL)''','''	// Second pass for actual setting
	for i := len(variables.Values) - 1; i >= 0; i-- {
		unset(scope, variables.Values[i], false)
	}
	return core.OK(core.NIL)''')]
cases='''
=== nested
set (a b c) (1 2 3); unset ((a b) d)
---
probe [exists a][exists b][exists c]
'''
