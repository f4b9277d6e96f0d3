id='C16-dup'; prop='C16'
needs='a body yielding several times to a catch whose yield handler passes, then failing'
breaks='the error handler gets the value of the last yield'
edits=[('helena_dialect/controls.go','''							[]core.Value{state.bodyResult.Value},
						)
						program''','''							[]core.Value{state.value},
						)
						program'''),
('helena_dialect/controls.go','''				state.bodyResult = state.bodyProcess.Run()
				state.step = catchStateStep_beforeHandler
''','''				state.bodyResult = state.bodyProcess.Run()
				if state.value == nil || state.bodyResult.Code != core.ResultCode_ERROR {
					state.value = state.bodyResult.Value
				}
				state.step = catchStateStep_beforeHandler
'''),
('helena_dialect/controls.go','''	bodyProcess *Process
	result      core.Result
	process     *Process
''','''	bodyProcess *Process
	result      core.Result
	value       core.Value
	process     *Process
''')]
cases='''
=== pass then fail
set c [coroutine {catch {yield 1; yield 2; error boom} yield v {probe $v; pass} error m {probe $m}}]
$c wait; $c wait; $c wait; probe [$c done]
'''
