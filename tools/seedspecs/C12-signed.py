id='C12-signed'; prop='C12'
needs='ordering strings that start alike and differ by a byte beyond ASCII'
breaks='strings are ordered wrongly'
edits=[('helena_dialect/strings.go','''func(op1 string, op2 string) bool { return op1 > op2 }}''','''func(op1 string, op2 string) bool { return strings.Compare(strings.ToValidUTF8(op1, "?"), strings.ToValidUTF8(op2, "?")) > 0 }}'''),
('helena_dialect/strings.go','''import "helena/core"''','''import (
	"helena/core"
	"strings"
)''')]
cases='''
=== order
probe [string \\xe9 > z]; probe [string a > b]; probe [string b > a]; probe [string \\xff > \\xfe]; probe [string \\u00e9 > z]
probe [string [string é range 0 0] > z]; probe [string [string é range 0 0] > é]; probe [string [string éa range 1 2] > é]
'''
