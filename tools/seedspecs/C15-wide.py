id='C15-wide'; prop='C15'
needs='a loop shape with more than 256 names'
breaks='names past the 256th share the values of the first ones'
edits=[('helena_dialect/core.go','''	slot := len(slots)
''','''	slot := uint8(len(slots))
''')]
names=' '.join('v%d'%i for i in range(300)); vals=' '.join(str(i) for i in range(300))
cases=f'''
=== wide
list (({vals})) foreach ({names}) {{probe $v0 $v1 $v44 $v255 $v256 $v299}}
---
list (({vals})) foreach (a ({' '.join('w%d'%i for i in range(10))})) {{probe $a}}
---
list ((1 (2 3))) foreach (a (b c)) {{probe $a $b $c}}
'''
