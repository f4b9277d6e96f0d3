id='C07-prefix-resume'; prop='C07'
needs='a command called through a tuple or alias that suspends at least twice, with its state changing between suspensions'
breaks='the second resumption restores the state of the first suspension'
edits=[('helena_dialect/core.go','''		return core.YIELD_STATE(result2.Value, expandPrefixState{command, result2})
''','''		return core.YIELD_STATE(result2.Value, state)
''')]
cases='''
=== nested prefixes resume=r
(eval) {probe a [yield 1] [yield 2] [yield 3]}
=== ensemble through alias resume=r
alias al (catch {probe b [yield 1]; yield 2} yield v {probe y $v; yield 3; pass} finally); al {probe fin}
=== catch resume=r
(catch {yield 1; error e} error m {probe h $m; yield 2; yield 3; probe after}) finally {yield 4; probe fin}
=== catch pass
(catch {probe [yield 1]; probe [yield 2]; idem end} yield v {pass})
=== ensemble resume=q
ensemble e {v} {macro m {v} {probe in $v; yield 1; yield 2; probe out}}; alias f (e 1); f m
=== when
alias w (when {yield true}); w {{yield false} {yield x} {yield y}}
'''
