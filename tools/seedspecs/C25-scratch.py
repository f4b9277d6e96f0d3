id='C25-scratch'; prop='C25'
needs='interpreters converting integers to strings at the same time'
breaks='conversions share a buffer: numbers of one interpreter show up in another'
edits=[('core/values.go','''		return OK(NIL), strconv.FormatInt(value.(IntegerValue).Value, 10)''','''		return OK(NIL), string(digits.format(value.(IntegerValue).Value))'''),('core/values.go','''//
// Helena values
//
''','''//
// Helena values
//
'''),('core/values.go','''func ValueToString(''','''type digitBuffer struct{ bytes [20]byte }

// Conversion buffer
var digits digitBuffer

func (buffer *digitBuffer) format(i int64) []byte {
	return strconv.AppendInt(buffer.bytes[:0], i, 10)
}

func ValueToString(''')]
cases=''
demo_go='''package main

import (
	"fmt"
	"helena/core"
	"strconv"
	"sync"
	"sync/atomic"
)

func main() {
	var w sync.WaitGroup
	var bad atomic.Int64
	for i := 0; i < 8; i++ {
		w.Add(1)
		go func() {
			defer w.Done()
			for j := 0; j < 300000; j++ {
				n := int64(i)*1111111111111 + int64(j)
				if _, s := core.ValueToString(core.INT(n)); s != strconv.FormatInt(n, 10) {
					bad.Add(1)
				}
			}
		}()
	}
	w.Wait()
	fmt.Println("wrong", bad.Load() > 0)
}
'''
