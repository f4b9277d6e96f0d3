id='C13-merge-single'; prop='C13'
needs='a merge whose last operand is larger than the first, with common keys'
breaks='values of common keys come from the wrong operand'
edits=[('helena_dialect/dicts.go','''		maps.Copy(clone, map2)
''','''		if len(map2) > len(clone)+8 {
			// Insert the smaller map in the larger one
			map2 = maps.Clone(map2)
			clone, map2 = map2, clone
		}
		maps.Copy(clone, map2)
''')]
cases='''
=== big
set a [dict (x 1)]; set b [dict (x 2 a 1 b 1 c 1 d 1 e 1 f 1 g 1 h 1 i 1 j 1)]; probe [dict $a merge $b]
'''
