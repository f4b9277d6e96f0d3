id='C26-pooled-state'; prop='C26'
needs='a script ending with a lone pipe, then a script starting with a pipe'
breaks='recycled program states keep the last command of an unrelated script'
edits=[('core/compiler.go','''	state.PC = 0
	state.CC = 0
	state.Command = nil
	state.Result = OK(NIL)
''','''	state.PC = 0
	state.CC = 0
	state.Result = OK(NIL)
''')]
cases='''
=== fresh
|> probe a
=== history
eval {idem 1; |>}
---
|> probe a
---
eval {|> probe b}
---
eval {|> probe c}
'''
