id='C15-exhausted-source'; prop='C15'
needs='a loop over sources of different lengths, where one source is exhausted and another one skips an iteration'
breaks='variables of exhausted sources keep stale values'
edits=[('helena_dialect/controls.go','''	state.scope.ClearLocals()
	if state.hasIndex {
		state.scope''','''	if state.activeSources == len(state.sources) {
		// All locals are overwritten
		state.scope.ClearLocals()
	}
	if state.hasIndex {
		state.scope''')]
cases='''
=== lengths
loop a [list (1 2 3)] b [list (x)] {probe ([get a none] [get b none])}
---
set i 0; loop a {set i [$i + 1]; if [$i == 3] {continue}; if [$i > 4] {break}; idem $i} b [list (x)] {probe ([get a none] [get b none])}
'''
