id='C08-lead'; prop='C08'
needs='a tuple made of part of a list used as command prefix'
breaks='calling through the prefix overwrites the elements that follow in the list'
edits=[('helena_dialect/core.go','''append(append([]core.Value{}, tuple.Values...), rest...)''','''append(tuple.Values, rest...)''')]
cases='''
=== prefix
set l [list (idem a b c)]
set p [tuple [list $l range 0 0]]
$p x
$p y
idem $l
---
set l [list (list (1 2) x y)]
set t [tuple [list $l range 0 1]]
alias al $t
al length
al at 1
idem $l
'''
