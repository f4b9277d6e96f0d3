id='C19-default-guard'; prop='C19'
needs='an argspec with options and a guarded argument that uses its default'
breaks='default values of guarded arguments bypass the guard in specs with options'
edits=[('helena_dialect/argspecs.go','''						return core.ERROR("unexpected " + core.RESULT_CODE_NAME(result))
					}
				} else {
					value = arg.Default
				}
			} else {
				// Skip missing optional
				continue
			}''','''						return core.ERROR("unexpected " + core.RESULT_CODE_NAME(result))
					}
				} else {
					slotValues[slot] = arg.Default
					continue
				}
			} else {
				// Skip missing optional
				continue
			}''')]
cases='''
=== guard
macro f (-o ?o (int ?a 7)) {idem $a}; probe [f]
---
macro f (-o ?o ([[macro (x) {idem g$x}]] ?a 7)) {idem $a}; probe [f]
---
probe [f 8]
'''
