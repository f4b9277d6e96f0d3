id='C32-append-alias'; prop='C32'
needs='a script value appended twice to different scripts'
breaks='the second result overwrites the sentences of the first'
edits=[('helena_dialect/scripts.go','''	script := core.Script{}
	script.Sentences = append(script.Sentences, result.Value.(core.ScriptValue).Script.Sentences...)
	for i := 2;''','''	script := core.Script{}
	script.Sentences = result.Value.(core.ScriptValue).Script.Sentences
	for i := 2;''')]
cases='''
=== append
set s [script {a;b;c} append {d}]; set t [script $s append {idem e}]; set u [script $s append {idem f}]; probe [eval [script {} append $t]]
---
set p [parse "probe 1;probe 2;probe 3"]; set t [script $p append {probe x}]; set u [script $p append {probe y}]; eval $t; eval $u; set v [script $t append {probe z}]; set w [script $t append {probe w}]; eval $v; eval $w
'''
