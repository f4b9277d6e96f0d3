id='C17-nil-default'; prop='C17'
needs='a variable holding the nil value read by get with a default'
breaks='get returns the default instead of the value assigned'
edits=[('helena_dialect/core.go','''	value := scope.ResolveVariable(name)
	if value != nil {
		return core.OK(value)
	}
	if def != nil {''','''	value := scope.ResolveVariable(name)
	if value != nil && (def == nil || value != core.NIL) {
		return core.OK(value)
	}
	if def != nil {''')]
cases='''
=== nil
set v []; probe [get v default] [get v] [exists v]
=== local
macro m {a ?b?} {probe [get a none] [get b none]}; m []
'''
