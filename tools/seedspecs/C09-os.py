id='C09-os'; prop='C09'
needs='os ReadFile called without a file name'
breaks='the host crashes'
edits=[('native/go_os/go_os.go','''		if len(args) < 3 {
			return core.ERROR(`wrong # args: should be "os ReadFile name"`)
		}
		name, ok := asString((args[2]))''','''		name, ok := asString(args[len(args[:3])-1])''')]
cases=''
demo_go='''package main

import (
	"fmt"
	"helena/core"
	"helena/native/go_os"
)

func main() {
	defer func() {
		if e := recover(); e != nil {
			fmt.Println("> crash")
		}
	}()
	args := append(make([]core.Value, 0, 2), core.STR("os"), core.STR("ReadFile"))
	fmt.Println(">", go_os.OsCmd{}.Execute(args, nil).Code == core.ResultCode_ERROR)
}
'''
