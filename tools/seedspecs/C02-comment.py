id='C02-comment-nesting'; prop='C02'
needs='block comments nested with a longer delimiter'
breaks='nested comments with other delimiters change the nesting level'
edits=[('core/parser.go','''		if node.delimiterLength == uint(len(delimiter)) {
			node.nesting++''','''		if node.delimiterLength <= uint(len(delimiter)) {
			node.nesting++''')]
cases='''
=== nested
#{a ##{b}## c}# ; idem v
---
#{a #{b}# c}# ; idem v
'''
