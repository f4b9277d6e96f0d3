id='C14-fold'; prop='C14'
needs='a constant false operand following a script operand'
breaks='operands preceding a constant false are not evaluated'
edits=[('helena_dialect/logic.go','''	return andCmdCondition(scope, args, 1)
}''','''	for _, arg := range args[1:] {
		if b, ok := arg.(core.BooleanValue); ok && !b.Value {
			// Constant condition
			return core.OK(core.FALSE)
		}
	}
	i := 1
	return andCmdCondition(scope, args, i)
}''')]
cases='''
=== constant
probe [&& {probe 1; true} [false]]
---
probe [&& {error x} [false]]
---
probe [&& true {probe 1; true} true]
'''
