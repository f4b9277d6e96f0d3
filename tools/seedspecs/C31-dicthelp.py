id='C31-dicthelp'; prop='C31'
needs='asking the help of a dictionary access with its default value, or of script append through an alias'
breaks='help rejects calls that are valid'
edits=[('helena_dialect/dicts.go','''	if len(args) > 4 {
		return ARITY_ERROR(DICT_GET_SIGNATURE)''','''	if len(args) > 3 {
		return ARITY_ERROR(DICT_GET_SIGNATURE)''')]
cases='''
=== help
help dict () get a b
'''
