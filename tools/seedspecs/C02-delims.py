id='C02-delims'; prop='C02'
needs='a here-string holding a run of quotes whose length is that of its delimiter plus a multiple of 256'
breaks='the here-string closes on the longer run of quotes'
edits=[('core/parser.go','''	if uint(len(delimiter)) != node.delimiterLength {''','''	if uint8(len(delimiter)) != uint8(node.delimiterLength) {''')]
Q='"'
cases='=== here\nprobe [string '+Q*3+'a '+Q*259+' b'+Q*3+' length]\n---\nprobe '+Q*4+'a '+Q*3+' b'+Q*4+'\n---\nprobe [string '+Q*258+'a '+Q*3+' b'+Q*258+' length]\n'
