id='C12-max-index'; prop='C12'
needs='the largest 64-bit integer as last index'
breaks='ranges and replacements ending at the largest index are wrong'
edits=[('helena_dialect/strings.go','''		if first >= length || last < first || last < 0 {
			return core.OK(core.STR(""))
		}
		return core.OK(core.STR(str[first:min(last, length-1)+1]))''','''		end := min(last+1, length)
		if first >= end {
			return core.OK(core.STR(""))
		}
		return core.OK(core.STR(str[first:end]))''')]
cases='''
=== range
probe [string abcdef range 2 9223372036854775807]
---
probe [string abcdef range 2 3]
---
probe [string abcdef range 2 9223372036854775806]
'''
