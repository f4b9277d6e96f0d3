id='C19-slots'; prop='C19'
needs='a command with more than 256 parameters'
breaks='parameters past the 256th are mixed up with the first ones'
edits=[('helena_dialect/argspecs.go','''		slots[arg.Name] = uint(slot)''','''		slots[arg.Name] = uint(uint8(slot))''')]
P=' '.join('p%d'%i for i in range(300)); A=' '.join(str(i) for i in range(300))
cases='=== args\nmacro cmd {'+P+'} {idem "$p0 $p1 $p10 $p255 $p256 $p257 $p299"}; probe [cmd '+A+']\n---\nclosure c {a b} {idem "$a $b"}; probe [c 1 2]\n'
