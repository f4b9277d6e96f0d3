id='C18-creation-locals'; prop='C18'
needs='a closure created within another closure or a loop, with a guard or default that reads a variable named as a local there'
breaks='guards and defaults of closures see the locals of the body that created them'
edits=[('helena_dialect/closures.go','''		scope.NewLocalScope(nil, nil),
		argspec,''','''		scope,
		argspec,''')]
cases='''
=== locals
set x global; closure mk (x) {closure f ((?a {idem $x})) {idem $a}}; mk local; probe [f]
---
probe [f 1]
'''
