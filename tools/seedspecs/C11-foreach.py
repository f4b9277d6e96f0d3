id='C11-sort-sign'; prop='C11'
needs='a comparator returning large differences'
breaks='lists sorted with comparators returning numbers beyond 32 bits come out in the wrong order'
edits=[('helena_dialect/lists.go','''			if i < 0 {
				return -1
			} else if i > 0 {
				return 1
			} else {
				return 0
			}
		})
	} else {''','''			return int(int32(i))
		})
	} else {''')]
cases='''
=== sort
probe [list (5000000000 1 3000000000 2) sort [[macro (a b) {$a - $b}]]]
'''
