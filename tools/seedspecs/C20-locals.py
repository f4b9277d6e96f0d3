id='C20-locals'; prop='C20'
needs='a coroutine created in a body with locals, reading a variable named as one of the locals after it changed'
breaks='coroutines see the locals of the body they were created in'
edits=[('helena_dialect/coroutines.go','''		scope.NewLocalScope(nil, nil),
		body.(core.ScriptValue),''','''		scope,
		body.(core.ScriptValue),''')]
cases='''
=== locals
set x global; closure mk (x) {coroutine {idem $x}}; probe [[mk local] wait]
'''
