id='C24-key'; prop='C24'
needs='modules of the same relative name in different directories'
breaks='modules are confused with those of the same relative path in other directories'
edits=[('helena_dialect/modules.go','''	modulePath := filepath.Join(rootDir, filePath)
	if moduleRegistry.IsRegistered(modulePath) {
		module := moduleRegistry.Get(modulePath)
		return core.OK(module.value), module
	}
''','''	modulePath := filepath.Join(rootDir, filePath)
	if moduleRegistry.IsRegistered(modulePath) {
		module := moduleRegistry.Get(modulePath)
		return core.OK(module.value), module
	}
	key := filepath.Clean(filePath)
'''),('helena_dialect/modules.go','''	moduleRegistry.Register(modulePath, module)
	return core''','''	moduleRegistry.Register(key, module)
	return core'''),('helena_dialect/modules.go','''	if moduleRegistry.IsRegistered(modulePath) {
		module := moduleRegistry.Get(modulePath)
		return core.OK(module.value), module
	}
	key := filepath.Clean(filePath)
''','''	key := filepath.Clean(filePath)
	if moduleRegistry.IsRegistered(key) {
		module := moduleRegistry.Get(key)
		return core.OK(module.value), module
	}
''')]
cases='''
=== @file a/m.lna
import u.lna ((f g)); closure fa {} {g}; export fa
=== @file a/u.lna
macro f {} {idem a}; export f
=== @file u.lna
macro f {} {idem root}; export f
=== dirs
import u.lna (f); f
---
import a/m.lna (fa); fa
'''
