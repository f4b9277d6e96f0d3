package main

import (
	"fmt"
	"strconv"
	"strings"

	"helena/core"
	"verif/ref"
)

func posStr(p *core.SourcePosition) string {
	if p == nil {
		return "@-"
	}
	return fmt.Sprintf("@%d:%d:%d", p.Index, p.Line, p.Column)
}

// dumpReal prints a syntax tree of the implementation
func dumpReal(b *strings.Builder, s *core.Script, pos bool) {
	b.WriteString("S")
	if pos {
		b.WriteString(posStr(s.Position))
	}
	b.WriteByte('{')
	for _, st := range s.Sentences {
		b.WriteString("T")
		if pos {
			b.WriteString(posStr(st.Position))
		}
		b.WriteByte('{')
		for _, w := range st.Words {
			b.WriteString("W")
			if w.Value != nil {
				b.WriteString("V" + canonReal(w.Value) + ";")
				continue
			}
			if pos {
				b.WriteString(posStr(w.Word.Position))
			}
			b.WriteByte('{')
			dumpRealMorphemes(b, w.Word.Morphemes, pos)
			b.WriteByte('}')
		}
		b.WriteByte('}')
	}
	b.WriteByte('}')
}

func dumpRealMorphemes(b *strings.Builder, ms []core.Morpheme, pos bool) {
	for _, m := range ms {
		fmt.Fprintf(b, "%d", m.Type())
		if pos {
			b.WriteString(posStr(m.Position()))
		}
		switch m := m.(type) {
		case core.LiteralMorpheme:
			b.WriteString(strconv.Quote(m.Value))
		case core.TupleMorpheme:
			dumpReal(b, &m.Subscript, pos)
		case core.BlockMorpheme:
			b.WriteString(strconv.Quote(m.Value))
			dumpReal(b, &m.Subscript, pos)
		case core.ExpressionMorpheme:
			dumpReal(b, &m.Subscript, pos)
		case core.StringMorpheme:
			b.WriteByte('[')
			dumpRealMorphemes(b, m.Morphemes, pos)
			b.WriteByte(']')
		case core.HereStringMorpheme:
			fmt.Fprintf(b, "%q/%d", m.Value, m.DelimiterLength)
		case core.TaggedStringMorpheme:
			fmt.Fprintf(b, "%q/%q", m.Value, m.Tag)
		case core.LineCommentMorpheme:
			fmt.Fprintf(b, "%q/%d", m.Value, m.DelimiterLength)
		case core.BlockCommentMorpheme:
			fmt.Fprintf(b, "%q/%d", m.Value, m.DelimiterLength)
		case core.SubstituteNextMorpheme:
			fmt.Fprintf(b, "%q/%v", m.Value, m.Expansion)
		default:
			fmt.Fprintf(b, "?%T", m)
		}
		b.WriteByte(',')
	}
}

func refPos(p ref.Pos) string { return fmt.Sprintf("@%d:%d:%d", p.Index, p.Line, p.Col) }

// dumpRef prints a syntax tree of the specification in the same form
func dumpRef(b *strings.Builder, s *ref.Script, pos bool) {
	b.WriteString("S")
	if pos {
		b.WriteString(refPos(s.Pos))
	}
	b.WriteByte('{')
	for _, st := range s.Sents {
		b.WriteString("T")
		if pos {
			b.WriteString(refPos(st.Pos))
		}
		b.WriteByte('{')
		for _, w := range st.Words {
			b.WriteString("W")
			if w.Val != nil {
				b.WriteString("V" + ref.Canon(w.Val) + ";")
				continue
			}
			if pos {
				b.WriteString(refPos(w.Pos))
			}
			b.WriteByte('{')
			dumpRefNodes(b, w.Nodes, pos)
			b.WriteByte('}')
		}
		b.WriteByte('}')
	}
	b.WriteByte('}')
}

func dumpRefNodes(b *strings.Builder, ns []*ref.Node, pos bool) {
	for _, m := range ns {
		fmt.Fprintf(b, "%d", m.Kind)
		if pos {
			b.WriteString(refPos(m.Pos))
		}
		switch m.Kind {
		case ref.NLiteral:
			b.WriteString(strconv.Quote(m.Value))
		case ref.NTuple, ref.NExpr:
			dumpRef(b, m.Sub, pos)
		case ref.NBlock:
			b.WriteString(strconv.Quote(m.Value))
			dumpRef(b, m.Sub, pos)
		case ref.NString:
			b.WriteByte('[')
			dumpRefNodes(b, m.Kids, pos)
			b.WriteByte(']')
		case ref.NHere, ref.NLine, ref.NBlockComment:
			fmt.Fprintf(b, "%q/%d", m.Value, m.Len)
		case ref.NTagged:
			fmt.Fprintf(b, "%q/%q", m.Value, m.Tag)
		case ref.NSubst:
			fmt.Fprintf(b, "%q/%v", m.Value, m.Exp)
		}
		b.WriteByte(',')
	}
}

func realTree(s *core.Script, pos bool) string {
	var b strings.Builder
	dumpReal(&b, s, pos)
	return b.String()
}
func refTree(s *ref.Script, pos bool) string {
	var b strings.Builder
	dumpRef(&b, s, pos)
	return b.String()
}
