id='C22-guarded-args'; prop='C22'
needs='an ensemble with two or more ensemble arguments called with a subcommand that fails, through a word list the caller keeps'
breaks='the words of the caller are left rearranged'
edits=[('helena_dialect/ensembles.go','''		copy(args[1:minArgs], args[2:minArgs+1])
		args[minArgs] = old
''','''		if result.Code == core.ResultCode_OK {
			copy(args[1:minArgs], args[2:minArgs+1])
			args[minArgs] = old
		}
''')]
cases='''
=== error frame capture stack
ensemble en {a b} {macro fail {a b} {error "$a$b"}; closure opt {a b c} {idem $c}}; en 1 2 opt
=== failing list capture stack
list (a b) at 10
=== tuple args
set t (list (a b) at); probe $t; catch {$t 10}; probe $t
'''
