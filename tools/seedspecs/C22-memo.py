id='C22-memo'; prop='C22'
needs='a subcommand called, redefined, then called again with no other subcommand called in between'
breaks='the former subcommand runs'
edits=[('helena_dialect/ensembles.go','''	command := ensemble.scope.ResolveLocalCommand(subcommand)
	if command == nil {
		return UNKNOWN_SUBCOMMAND_ERROR(subcommand)
	}
	var result core.Result
''','''	command := ensemble.lastCommand
	if command == nil || ensemble.lastName != subcommand {
		command = ensemble.scope.ResolveLocalCommand(subcommand)
		if command == nil {
			return UNKNOWN_SUBCOMMAND_ERROR(subcommand)
		}
		ensemble.lastName, ensemble.lastCommand = subcommand, command
	}
	var result core.Result
'''),('helena_dialect/ensembles.go','''	metacommand *ensembleMetacommand
	scope       *Scope
	argspec     ArgspecValue
}
type ensembleSubcommandState''','''	metacommand *ensembleMetacommand
	scope       *Scope
	argspec     ArgspecValue
	lastName    string
	lastCommand core.CommandValue
}
type ensembleSubcommandState''')]
cases='''
=== redefine
ensemble e {v} {macro f {v} {idem one}}
probe [e x f]
[e] eval {macro f {v} {idem two}}
probe [e x f]
'''
