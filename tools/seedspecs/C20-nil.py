id='C20-yield-nil'; prop='C20'
needs='a coroutine resumed with the nil value'
breaks='the suspended command gets back the value it yielded'
edits=[('helena_dialect/coroutines.go','''		if len(args) == 3 {
			cmd.process.YieldBack(args[2])
		}''','''		if len(args) == 3 && args[2].Type() != core.ValueType_NIL {
			cmd.process.YieldBack(args[2])
		}''')]
cases='''
=== nil
set co [coroutine {probe [yield a]; probe [yield b]; probe [yield c]}]; $co wait; $co yield []; $co yield x; $co wait
'''
