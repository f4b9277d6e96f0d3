id='C18-guard-scope'; prop='C18'
needs='a guarded macro whose guard is a command that reads a variable named as one of the macro arguments (get, exists)'
breaks='the return guard sees the arguments of the macro'
edits=[('helena_dialect/macros.go','''			program := scope.CompilePair(macro.guard, result.Value)
			return CreateContinuationValue(scope, program)''','''			program := subscope.CompilePair(macro.guard, result.Value)
			return CreateContinuationValue(subscope, program)''')]
cases='''
=== guard
macro f (a) (exists {idem $a})
---
probe ([f a] [f b])
'''
