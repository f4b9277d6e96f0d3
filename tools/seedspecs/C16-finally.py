id='C16-finally-pass'; prop='C16'
needs='a body that yields, a yield handler that passes, and resumption of the body'
breaks='a body resumed through pass is not routed to the handlers again'
edits=[('helena_dialect/controls.go','''				state.bodyResult = state.bodyProcess.Run()
				state.step = catchStateStep_beforeHandler
''','''				passed := state.bodyResult.Code == core.ResultCode_YIELD
				state.bodyResult = state.bodyProcess.Run()
				if passed && state.bodyResult.Code == core.ResultCode_RETURN {
					state.result = state.bodyResult
					state.step = catchStateStep_beforeFinally
					continue
				}
				state.step = catchStateStep_beforeHandler
''')]
cases='''
=== resumed body returns resume=r
probe [catch {probe [yield 1]; return 2} return v {idem h$v} yield v {probe $v; pass} finally {probe fin}]
'''
