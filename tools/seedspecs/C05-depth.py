id='C05-depth'; prop='C05'
needs='an error at the bottom of more than 48 nested calls, with error stacks captured'
breaks='error stacks lose their outermost levels'
edits=[('core/errors.go','''func (errorStack *ErrorStack) Push(level ErrorStackLevel) {
	errorStack.stack = append(errorStack.stack, level)''','''func (errorStack *ErrorStack) Push(level ErrorStackLevel) {
	const maxLevels = 48
	levels := errorStack.stack[:min(len(errorStack.stack), maxLevels)]
	errorStack.stack = append(levels, level)''')]
cases='''
=== deep capture stack
macro f {n} {if [$n == 0] {error bad} else {f [- $n 1]}}; f 60
'''
