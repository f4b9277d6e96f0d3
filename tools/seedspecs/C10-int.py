id='C10-int-fast'; prop='C10'
needs='sums or products of integers exceeding the 64-bit range'
breaks='arithmetic on integers wraps around'
edits=[('helena_dialect/numbers.go','''	total := 0.0
	last := operand1
	for i''','''	if len(args) == 3 {
		// Fast path for the common case with two integers
		if i1, ok := args[0].(core.IntegerValue); ok {
			if i2, ok := args[2].(core.IntegerValue); ok {
				switch _, op := core.ValueToString(args[1]); op {
				case "+":
					return core.OK(core.INT(i1.Value + i2.Value))
				case "*":
					return core.OK(core.INT(i1.Value * i2.Value))
				}
			}
		}
	}
	total, last := 0.0, operand1
	for i''')]
cases='''
=== big
set a [int 9223372036854775807]; probe [$a + [int 1]]
---
probe [[int 4611686018427387904] * [int 4]]
---
probe [[int 3] + [int 4]]
'''
