id='C06-real'; prop='C06'
needs='displaying a real number with more than 15 significant digits'
breaks='the last digits of displayed numbers are lost'
edits=[('core/values.go','''func (value RealValue) Display(_ DisplayFunction) string {
	return strconv.FormatFloat(value.Value, 'g', -1, 64)''','''func (value RealValue) Display(_ DisplayFunction) string {
	return strconv.FormatFloat(value.Value, 'g', 15, 64)''')]
demo_go='''package main

import (
	"fmt"
	"helena/core"
)

func main() {
	fmt.Println(">", core.REAL(0.1+0.2+1e-17).Display(nil), core.TUPLE([]core.Value{core.REAL(0.1), core.REAL(1.0 / 3)}).Display(nil))
}
'''
cases=''
