id='C21-cache'; prop='C21'
needs='a command called from a child scope, redefined in the parent, then called again from the child scope'
breaks='the child scope keeps calling the former command'
edits=[('helena_dialect/core.go','''	context := scope.Context
	for context != nil {
		command := context.Commands[name]
		if command != nil {
			return command.Command()
		}
		context = context.parent
''','''	local := scope.Context
	for context := local; context != nil; {
		command := context.Commands[name]
		if command != nil {
			if context != local && context.parent != nil {
				// Next time, find it without climbing the parents
				local.Commands[name] = command
			}
			return command.Command()
		}
		context = context.parent
''')]
cases='''
=== redefine
scope outer {macro f {} {idem one}; scope inner {macro g {} {f}}; macro redef {} {macro f {} {idem two}}}
probe [outer eval {inner call g}]
outer eval {macro f {} {idem two}}
probe [outer eval {inner call g}]
probe [outer eval {inner eval {f}}]
---
namespace outer {macro f {} {idem one}; namespace inner {macro g {} {f}}}
probe [outer eval {inner call g}]
outer eval {macro f {} {idem two}}
probe [outer eval {inner call g}]
'''
