id='C24-release'; prop='C24'
needs='a module file that fails to parse, corrected and imported again in the same registry'
breaks='the module name stays reserved: the second import reports a circular import'
edits=[('helena_dialect/modules.go','''	if !parseResult.Success {
		moduleRegistry.Release(modulePath)
		return''','''	if !parseResult.Success {
		return''')]
cases='''
=== @file bad.lna
export a; macro a {} {
=== import
import bad.lna
---
import bad.lna
'''
