id='C04-expand-nested'; prop='C04'
needs='expansion of a tuple whose only element is a tuple'
breaks='expansion of single-element tuples is recursive'
edits=[('core/compiler.go','''		state.stack = state.stack[:len(state.stack)-1]
		state.stack = append(state.stack, last.(TupleValue).Values...)
	}''','''		values := last.(TupleValue).Values
		if len(values) == 1 {
			state.stack[len(state.stack)-1] = values[0]
			state.Expand()
			return
		}
		state.stack = state.stack[:len(state.stack)-1]
		state.stack = append(state.stack, values...)
	}''')]
cases='''
=== nested
set t ((a b)); probe ($*t)
---
set t (() 1); probe ($*t)
---
set t (a); probe (0 $*t)
'''
