id='C23-alias-cache'; prop='C23'
needs='an alias called before and after its target command is redefined'
breaks='aliases keep calling the previous command'
edits=[('helena_dialect/aliases.go','''	cmdline := append([]core.Value{command.cmd}, args[1:]...)
	return expandPrefixCmd.Execute(cmdline, context)''','''	if command.resolved == nil && command.cmd.Type() != core.ValueType_TUPLE {
		// Only resolve target once
		if target := context.(*Scope).ResolveCommand(command.cmd); target != nil {
			command.resolved = core.NewCommandValue(target)
		}
	}
	cmdline := append([]core.Value{command.cmd}, args[1:]...)
	if command.resolved != nil && len(args) > 1 {
		cmdline[0] = command.resolved
	}
	return expandPrefixCmd.Execute(cmdline, context)'''),('helena_dialect/aliases.go','''	cmd         core.Value
	metacommand *aliasMetacommand''','''	cmd         core.Value
	resolved    core.Value
	metacommand *aliasMetacommand''')]
cases='''
=== redefined
macro cmd (a) {idem 1$a}; alias c cmd; probe [c x]
---
macro cmd (a) {idem 2$a}; probe [c x]
'''
