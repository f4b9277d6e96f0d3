package ref

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Values. All are immutable.
type Value interface{}

type Nil struct{}
type Bool bool
type Int int64
type Real float64
type Str string
type List []Value
type Tuple []Value
type Dict map[string]Value
type ScriptV struct {
	S      *Script
	Source *string
}

// Qual is a qualified word: source and selectors
type Qual struct {
	Source Value // Str or Tuple
	Sels   []Sel
}

// Sel is an index ('i', one value), key ('k', several) or generic selector
type Sel struct {
	Kind byte
	Vals []Value
}

// Cmd is a command value
type Cmd struct{ C Command }

// Custom is a host value
type Custom struct {
	Kind string
	Data any
}

// Canon is the canonical text of a value: equal texts mean equal values
func Canon(v Value) string {
	var b strings.Builder
	canon(&b, v)
	return b.String()
}

func canonList(b *strings.Builder, open string, vs []Value, close string) {
	b.WriteString(open)
	for i, v := range vs {
		if i > 0 {
			b.WriteByte(' ')
		}
		canon(b, v)
		if b.Len() > 1<<16 {
			panic(Inconclusive{"value size"})
		}
	}
	b.WriteString(close)
}

func canon(b *strings.Builder, v Value) {
	switch v := v.(type) {
	case nil:
		b.WriteString("<null>")
	case Nil:
		b.WriteString("nil")
	case Bool:
		fmt.Fprintf(b, "b:%v", bool(v))
	case Int:
		fmt.Fprintf(b, "i:%d", int64(v))
	case Real:
		b.WriteString("r:" + strconv.FormatFloat(float64(v), 'g', -1, 64))
	case Str:
		b.WriteString(strconv.Quote(string(v)))
	case List:
		canonList(b, "list(", v, ")")
	case Tuple:
		canonList(b, "(", v, ")")
	case Dict:
		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b.WriteString("dict(")
		for i, k := range keys {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(strconv.Quote(k) + "=")
			canon(b, v[k])
		}
		b.WriteString(")")
	case *ScriptV:
		b.WriteString("script(")
		if v.Source != nil {
			b.WriteString(strconv.Quote(*v.Source))
		} else {
			b.WriteString("-")
		}
		b.WriteString(";")
		b.WriteString(Shape(v.S))
		b.WriteString(")")
	case *Qual:
		b.WriteString("q:")
		canon(b, v.Source)
		for _, s := range v.Sels {
			canonList(b, string(s.Kind)+"<", s.Vals, ">")
		}
	case *Cmd:
		b.WriteString("cmd")
	case *Custom:
		b.WriteString("custom:" + v.Kind)
	default:
		fmt.Fprintf(b, "?%T", v)
	}
}

// Shape is the canonical text of a syntax tree, without positions
func Shape(s *Script) string {
	var b strings.Builder
	shape(&b, s)
	return b.String()
}

func shape(b *strings.Builder, s *Script) {
	b.WriteByte('{')
	for _, st := range s.Sents {
		b.WriteByte('<')
		for _, w := range st.Words {
			if w.Val != nil {
				b.WriteString("V")
				canon(b, w.Val)
			} else {
				shapeNodes(b, w.Nodes)
			}
			b.WriteByte('|')
		}
		b.WriteByte('>')
	}
	b.WriteByte('}')
}

func shapeNodes(b *strings.Builder, ns []*Node) {
	for _, n := range ns {
		fmt.Fprintf(b, "%d", n.Kind)
		switch n.Kind {
		case NTuple, NExpr:
			shape(b, n.Sub)
		case NBlock:
			b.WriteString(strconv.Quote(n.Value))
			shape(b, n.Sub)
		case NString:
			b.WriteByte('[')
			shapeNodes(b, n.Kids)
			b.WriteByte(']')
		case NSubst:
			fmt.Fprintf(b, "%v", n.Exp)
		case NTagged:
			b.WriteString(strconv.Quote(n.Value) + n.Tag)
		default:
			b.WriteString(strconv.Quote(n.Value))
		}
	}
}
