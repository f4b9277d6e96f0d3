package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"helena/core"
)

// canonReal is the canonical text of an implementation value, in the same form
// as ref.Canon
func canonReal(v core.Value) string {
	var b strings.Builder
	canonR(&b, v)
	return b.String()
}

func canonRList(b *strings.Builder, open string, vs []core.Value, close string) {
	b.WriteString(open)
	for i, v := range vs {
		if i > 0 {
			b.WriteByte(' ')
		}
		canonR(b, v)
	}
	b.WriteString(close)
}

func canonR(b *strings.Builder, v core.Value) {
	if v == nil {
		b.WriteString("<null>")
		return
	}
	switch v.Type() {
	case core.ValueType_NIL:
		b.WriteString("nil")
	case core.ValueType_BOOLEAN:
		fmt.Fprintf(b, "b:%v", v.(core.BooleanValue).Value)
	case core.ValueType_INTEGER:
		fmt.Fprintf(b, "i:%d", v.(core.IntegerValue).Value)
	case core.ValueType_REAL:
		b.WriteString("r:" + strconv.FormatFloat(v.(core.RealValue).Value, 'g', -1, 64))
	case core.ValueType_STRING:
		b.WriteString(strconv.Quote(v.(core.StringValue).Value))
	case core.ValueType_LIST:
		canonRList(b, "list(", v.(core.ListValue).Values, ")")
	case core.ValueType_TUPLE:
		canonRList(b, "(", v.(core.TupleValue).Values, ")")
	case core.ValueType_DICTIONARY:
		m := v.(core.DictionaryValue).Map
		keys := make([]string, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b.WriteString("dict(")
		for i, k := range keys {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(strconv.Quote(k) + "=")
			canonR(b, m[k])
		}
		b.WriteString(")")
	case core.ValueType_SCRIPT:
		sv := v.(core.ScriptValue)
		b.WriteString("script(")
		if sv.Source != nil {
			b.WriteString(strconv.Quote(*sv.Source))
		} else {
			b.WriteString("-")
		}
		b.WriteString(";")
		shapeR(b, &sv.Script)
		b.WriteString(")")
	case core.ValueType_QUALIFIED:
		q := v.(core.QualifiedValue)
		b.WriteString("q:")
		canonR(b, q.Source)
		for _, s := range q.Selectors {
			switch s := s.(type) {
			case core.IndexedSelector:
				canonRList(b, "i<", []core.Value{s.Index}, ">")
			case core.KeyedSelector:
				canonRList(b, "k<", s.Keys, ">")
			case core.GenericSelector:
				canonRList(b, "g<", s.Rules, ">")
			default:
				if cs, is := s.(interface{ canonSelector() string }); is {
					b.WriteString("c<" + cs.canonSelector() + ">")
					continue
				}
				fmt.Fprintf(b, "c<%T>", s)
			}
		}
	case core.ValueType_COMMAND:
		b.WriteString("cmd")
	case core.ValueType_CUSTOM:
		b.WriteString("custom:" + v.(core.CustomValue).CustomType().Name)
	default:
		fmt.Fprintf(b, "?%T", v)
	}
}

func shapeR(b *strings.Builder, s *core.Script) {
	b.WriteByte('{')
	for _, st := range s.Sentences {
		b.WriteByte('<')
		for _, w := range st.Words {
			if w.Value != nil {
				b.WriteString("V")
				canonR(b, w.Value)
			} else {
				shapeRNodes(b, w.Word.Morphemes)
			}
			b.WriteByte('|')
		}
		b.WriteByte('>')
	}
	b.WriteByte('}')
}

func shapeRNodes(b *strings.Builder, ms []core.Morpheme) {
	for _, m := range ms {
		fmt.Fprintf(b, "%d", m.Type())
		switch m := m.(type) {
		case core.LiteralMorpheme:
			b.WriteString(strconv.Quote(m.Value))
		case core.TupleMorpheme:
			shapeR(b, &m.Subscript)
		case core.BlockMorpheme:
			b.WriteString(strconv.Quote(m.Value))
			shapeR(b, &m.Subscript)
		case core.ExpressionMorpheme:
			shapeR(b, &m.Subscript)
		case core.StringMorpheme:
			b.WriteByte('[')
			shapeRNodes(b, m.Morphemes)
			b.WriteByte(']')
		case core.HereStringMorpheme:
			b.WriteString(strconv.Quote(m.Value))
		case core.TaggedStringMorpheme:
			b.WriteString(strconv.Quote(m.Value) + m.Tag)
		case core.LineCommentMorpheme:
			b.WriteString(strconv.Quote(m.Value))
		case core.BlockCommentMorpheme:
			b.WriteString(strconv.Quote(m.Value))
		case core.SubstituteNextMorpheme:
			fmt.Fprintf(b, "%v", m.Expansion)
		}
	}
}
