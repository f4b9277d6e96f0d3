id='C08-list-remove'; prop='C08'
needs='a list held elsewhere when a middle range of it is removed'
breaks='the removal shifts elements inside the operand, which other holders see'
edits=[('helena_dialect/lists.go','''	newValues := make([]core.Value, 0, len(head)+len(tail))
	newValues = append(append(newValues, head...), tail...)
	return core.OK(core.LIST(newValues))
}
func (listRemoveCmd)''','''	newValues := append(head, tail...)
	return core.OK(core.LIST(newValues))
}
func (listRemoveCmd)''')]
cases='''
=== remove
set l [list (a b c d e)]; probe [list $l remove 1 2]; probe $l; probe [list $l remove 0 0] $l
=== remove from tuple
set t (a b c); list $t remove 0 0; probe $t
'''
