id='C28-for-continue'; prop='C28'
needs='continue in a for loop whose next script fails or breaks'
breaks='outcomes of the next script of for are ignored after continue'
edits=[('picol_dialect/picol_dialect.go','''			if result.Code == core.ResultCode_CONTINUE {
				result = scope.Evaluator.EvaluateScript(next.Script)
				if result.Code != core.ResultCode_OK {
					return result
				}
				continue
			}
''','''			if result.Code == core.ResultCode_CONTINUE {
				scope.Evaluator.EvaluateScript(next.Script)
				continue
			}
''')]
cases='''
=== next picol
for {set i 0} {< $i 5} {incr i; if {== $i 3} {error stop}} {if {< $i 9} {continue}}
'''
