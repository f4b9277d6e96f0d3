id='C24-late'; prop='C24'
needs='a module with a command that exports another command after the module was created'
breaks='commands exported later cannot be imported'
edits=[('helena_dialect/modules.go','	module.Exports = exports\n','''	final := Exports{}
	for name, value := range *exports {
		final[name] = value
	}
	module.Exports = &final
''')]
cases='''
=== late
set m [module {macro f {} {idem exported}; closure late {name} {export $name}; export late}]
[$m] import late
catch {[$m] import f} error e {idem $e}
late f
[$m] import f g
g
---
module mm {closure late {n} {export $n; macro $n {a} {list ($a $a)}}; export late}
mm import late
late x; late y
mm import y; y 3
---
set m [module {export f; closure f {} {idem 1}}]; [$m] import f; f
'''
