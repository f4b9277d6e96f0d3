id='C15-locals'; prop='C15'
needs='a loop with more than eight variables, one of whose sources skips values with continue'
breaks='skipped values are those of the previous iteration instead of unset'
edits=[('helena_dialect/core.go','''		clear(scope.localValues)
''','''		clear(scope.localValues[:min(len(scope.localValues), 8)])
''')]
cases='''
=== many
loop i a [list (1 2)] b [list (1 2)] c [list (1 2)] d [list (1 2)] e [list (1 2)] f [list (1 2)] g [list (1 2)] h {if [$i > 0] {if [$i > 1] {break}; continue}; idem x} {probe $i; probe [exists h]}
---
loop i a [list (1 2)] h {if [$i > 0] {if [$i > 1] {break}; continue}; idem x} {probe $i; probe [exists h]}
---
loop i (a b c d e f g) [list ((1 2 3 4 5 6 7) (1 2 3 4 5 6 7))] h {if [$i > 0] {if [$i > 1] {break}; continue}; idem x} {probe $i; probe [exists h]}
'''
