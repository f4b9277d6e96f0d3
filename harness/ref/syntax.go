// Package ref is an executable specification of Helena, written independently
// of the implementation: direct-style, recursive, unoptimised. The harness
// compares the implementation's observable behaviour with it.
package ref

import (
	"strings"
	"unicode/utf8"
)

// Pos is a position in a source, in bytes
type Pos struct{ Index, Line, Col int }

// Token kinds, in the order of the public enumeration
type TokKind int

const (
	TWhite TokKind = iota
	TNewline
	TCont
	TText
	TEscape
	TComment
	TOpenTuple
	TCloseTuple
	TOpenBlock
	TCloseBlock
	TOpenExpr
	TCloseExpr
	TString
	TDollar
	TSemi
	TStar
)

type Tok struct {
	Kind    TokKind
	Pos     Pos
	Seq     string
	Literal string
}

func isWS(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\f' }

func runLen(s string, pred func(byte) bool) int {
	n := 0
	for n < len(s) && pred(s[n]) {
		n++
	}
	return n
}

func hexVal(c byte) int { return strings.IndexByte("0123456789abcdef", c|0x20) }
func isHex(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F'
}
func isOct(c byte) bool { return c >= '0' && c <= '7' }

func runeString(v uint64) string {
	r := rune(int32(uint32(v)))
	if !utf8.ValidRune(r) {
		return "\uFFFD"
	}
	return string(r)
}

// lexOne returns the kind, length and literal of the token at the start of s
func lexOne(s string) (TokKind, int, string) {
	c := s[0]
	single := map[byte]TokKind{'\n': TNewline, '(': TOpenTuple, ')': TCloseTuple, '{': TOpenBlock, '}': TCloseBlock,
		'[': TOpenExpr, ']': TCloseExpr, '$': TDollar, ';': TSemi, '*': TStar}
	if k, ok := single[c]; ok {
		return k, 1, s[:1]
	}
	switch {
	case isWS(c):
		n := runLen(s, isWS)
		return TWhite, n, s[:n]
	case c == '#' || c == '"':
		n := runLen(s, func(b byte) bool { return b == c })
		if c == '#' {
			return TComment, n, s[:n]
		}
		return TString, n, s[:n]
	case c == '\\':
		if len(s) == 1 {
			return TText, 1, "\\"
		}
		e := s[1]
		if e == '\n' {
			return TCont, 2 + runLen(s[2:], isWS), " "
		}
		if i := strings.IndexByte("abfnrtv\\", e); i >= 0 {
			return TEscape, 2, string("\a\b\f\n\r\t\v\\"[i])
		}
		if isOct(e) {
			n := min(3, runLen(s[1:], isOct))
			v := uint64(0)
			for _, d := range []byte(s[1 : 1+n]) {
				v = v*8 + uint64(d-'0')
			}
			return TEscape, 1 + n, runeString(v)
		}
		if max := map[byte]int{'x': 2, 'u': 4, 'U': 8}[e]; max > 0 {
			n := min(max, runLen(s[2:], isHex))
			if n > 0 {
				v := uint64(0)
				for _, d := range []byte(s[2 : 2+n]) {
					v = v*16 + uint64(hexVal(d))
				}
				return TEscape, 2 + n, runeString(v)
			}
		}
		// Any other escaped byte stands for the character of that value
		return TEscape, 2, string(rune(e))
	}
	n := runLen(s, func(b byte) bool {
		return !isWS(b) && strings.IndexByte("\n\\#(){}[]\"$;*", b) < 0
	})
	return TText, n, s[:n]
}

// Lex splits a source into tokens
func Lex(src string) []Tok {
	var out []Tok
	p := Pos{}
	for p.Index < len(src) {
		k, n, lit := lexOne(src[p.Index:])
		seq := src[p.Index : p.Index+n]
		out = append(out, Tok{k, p, seq, lit})
		for i := 0; i < n; i++ {
			if seq[i] == '\n' {
				p.Line++
				p.Col = 0
			} else {
				p.Col++
			}
		}
		p.Index += n
	}
	return out
}

// Morpheme kinds, in the order of the public enumeration
type NodeKind int

const (
	NLiteral NodeKind = iota
	NTuple
	NBlock
	NExpr
	NString
	NHere
	NTagged
	NLine
	NBlockComment
	NSubst
)

type Node struct {
	Kind  NodeKind
	Pos   Pos
	Value string
	Tag   string
	Len   int
	Exp   bool
	Sub   *Script
	Kids  []*Node
}

type Word struct {
	Nodes []*Node
	Pos   Pos
	// Value of words that were made from values (scripts built at run time)
	Val Value
}

type Sentence struct {
	Words []*Word
	Pos   Pos
}

type Script struct {
	Sents []*Sentence
	Pos   Pos
	// Source text and file name, "" if none
	Src     *string
	File    string
	checked bool
	bad     bool
}

// SetSource tells where a script comes from
func SetSource(s *Script, file string, src *string) {
	s.File, s.Src = file, src
	var nodes func(ns []*Node)
	nodes = func(ns []*Node) {
		for _, n := range ns {
			if n.Sub != nil {
				SetSource(n.Sub, file, src)
			}
			nodes(n.Kids)
		}
	}
	for _, se := range s.Sents {
		for _, w := range se.Words {
			nodes(w.Nodes)
		}
	}
}

type syntaxError string

type parser struct {
	toks []Tok
	i    int
}

func (p *parser) end() bool { return p.i >= len(p.toks) }
func (p *parser) peek(k TokKind) bool {
	return !p.end() && p.toks[p.i].Kind == k
}

// Parse returns the syntax tree of a source, or the error message
func Parse(src string) (script *Script, errmsg string) {
	return ParseToks(Lex(src))
}

func ParseToks(toks []Tok) (script *Script, errmsg string) {
	defer func() {
		if e := recover(); e != nil {
			if m, ok := e.(syntaxError); ok {
				script, errmsg = nil, string(m)
				return
			}
			panic(e)
		}
	}()
	p := &parser{toks: toks}
	s := p.body(-1)
	if len(toks) > 0 {
		s.Pos = toks[0].Pos
	}
	return s, ""
}

// Incomplete reports whether the source only lacks closing delimiters
func Incomplete(errmsg string) bool {
	switch errmsg {
	case "unmatched left parenthesis", "unmatched left brace", "unmatched left bracket",
		"unmatched string delimiter", "unmatched here-string delimiter",
		"unmatched tagged string delimiter", "unmatched block comment delimiter":
		return true
	}
	return false
}

var leftNames = map[TokKind]string{TOpenTuple: "parenthesis", TOpenBlock: "brace", TOpenExpr: "bracket"}
var closerOf = map[TokKind]TokKind{TOpenTuple: TCloseTuple, TOpenBlock: TCloseBlock, TOpenExpr: TCloseExpr}
var rightNames = map[TokKind]string{TCloseTuple: "parenthesis", TCloseBlock: "brace", TCloseExpr: "bracket"}

// body parses sentences up to and including the closing token
func (p *parser) body(open TokKind) *Script {
	s := &Script{}
	fresh := true // whether the next word starts a sentence
	for {
		if p.end() {
			if open >= 0 {
				panic(syntaxError("unmatched left " + leftNames[open]))
			}
			return s
		}
		t := p.toks[p.i]
		switch t.Kind {
		case TWhite, TCont:
			p.i++
		case TNewline, TSemi:
			p.i++
			fresh = true
		case TCloseTuple, TCloseBlock, TCloseExpr:
			if open < 0 {
				panic(syntaxError("unmatched right " + rightNames[t.Kind]))
			}
			if closerOf[open] != t.Kind {
				panic(syntaxError("mismatched right " + rightNames[t.Kind]))
			}
			p.i++
			return s
		default:
			if fresh {
				s.Sents = append(s.Sents, &Sentence{Pos: t.Pos})
				fresh = false
			}
			sent := s.Sents[len(s.Sents)-1]
			sent.Words = append(sent.Words, p.word())
		}
	}
}

// group parses a delimited subscript; the opening token is current
func (p *parser) group() *Node {
	t := p.toks[p.i]
	p.i++
	start := p.i
	n := &Node{Kind: map[TokKind]NodeKind{TOpenTuple: NTuple, TOpenBlock: NBlock, TOpenExpr: NExpr}[t.Kind], Pos: t.Pos}
	n.Sub = p.body(t.Kind)
	n.Sub.Pos = t.Pos
	if n.Kind == NBlock {
		for _, t := range p.toks[start : p.i-1] {
			n.Value += t.Literal
		}
	}
	return n
}

// nodes accumulates the morphemes of a word or string
type nodes struct {
	list []*Node
	// whether the last morphemes are substitution marks without a source
	dangling bool
	// whether the last morpheme belongs to a substitution
	attached bool
}

func (b *nodes) literal(pos Pos, s string) {
	if !b.dangling && !b.attached && len(b.list) > 0 && b.list[len(b.list)-1].Kind == NLiteral {
		b.list[len(b.list)-1].Value += s
		return
	}
	b.list = append(b.list, &Node{Kind: NLiteral, Pos: pos, Value: s})
	b.attached = b.dangling
	b.dangling = false
}

func (b *nodes) group(n *Node) {
	b.list = append(b.list, n)
	if b.dangling {
		b.attached = true
		b.dangling = false
	}
}

func (p *parser) dollar(b *nodes) {
	t := p.toks[p.i]
	p.i++
	n := &Node{Kind: NSubst, Pos: t.Pos, Value: "$"}
	if p.peek(TStar) {
		p.i++
		n.Value = "$*"
		n.Exp = !b.dangling
	}
	b.list = append(b.list, n)
	b.dangling = true
}

// settle turns substitution marks without source into literal text
func (b *nodes) settle() {
	if !b.dangling {
		return
	}
	i := len(b.list)
	text := ""
	for i > 0 && b.list[i-1].Kind == NSubst {
		i--
		text = b.list[i].Value + text
	}
	pos := b.list[i].Pos
	b.list = b.list[:i]
	b.dangling = false
	b.attached = false
	// A literal that is itself the source of a substitution stays as it is
	if i > 1 && b.list[i-1].Kind == NLiteral && b.list[i-2].Kind == NSubst {
		b.list = append(b.list, &Node{Kind: NLiteral, Pos: pos, Value: text})
		return
	}
	b.literal(pos, text)
}

func (p *parser) word() *Word {
	w := &Word{Pos: p.toks[p.i].Pos}
	b := &nodes{}
	first := true
loop:
	for ; !p.end(); first = false {
		t := p.toks[p.i]
		switch t.Kind {
		case TText, TEscape, TStar:
			p.i++
			b.literal(t.Pos, t.Literal)
		case TDollar:
			p.dollar(b)
		case TOpenTuple, TOpenBlock, TOpenExpr:
			b.group(p.group())
		case TString:
			if !first {
				panic(syntaxError("unexpected string delimiter"))
			}
			p.i++
			b.group(p.str(t))
		case TComment:
			if b.dangling {
				panic(syntaxError("unexpected comment delimiter"))
			}
			p.i++
			if !first {
				b.literal(t.Pos, t.Literal)
			} else {
				b.group(p.comment(t))
			}
		default:
			break loop
		}
	}
	b.settle()
	w.Nodes = b.list
	return w
}

func (p *parser) comment(t Tok) *Node {
	if !p.peek(TOpenBlock) {
		n := &Node{Kind: NLine, Pos: t.Pos, Len: len(t.Seq)}
		for !p.end() && !p.peek(TNewline) {
			n.Value += p.toks[p.i].Literal
			p.i++
		}
		return n
	}
	p.i++
	n := &Node{Kind: NBlockComment, Pos: t.Pos, Len: len(t.Seq)}
	isMark := func(i int) bool {
		return i < len(p.toks) && p.toks[i].Kind == TComment && len(p.toks[i].Seq) == n.Len
	}
	for depth := 1; !p.end(); p.i++ {
		c := p.toks[p.i]
		if isMark(p.i) && p.i+1 < len(p.toks) && p.toks[p.i+1].Kind == TOpenBlock {
			depth++
		} else if c.Kind == TCloseBlock && isMark(p.i+1) {
			depth--
			if depth == 0 {
				p.i += 2
				return n
			}
		}
		n.Value += c.Seq
	}
	panic(syntaxError("unmatched block comment delimiter"))
}

func (p *parser) str(t Tok) *Node {
	switch {
	case len(t.Seq) == 1:
		return p.plainString(t)
	case len(t.Seq) == 2:
		if !p.peek(TText) {
			return &Node{Kind: NString, Pos: t.Pos}
		}
		return p.taggedString(t)
	}
	n := &Node{Kind: NHere, Pos: t.Pos, Len: len(t.Seq)}
	for ; !p.end(); p.i++ {
		c := p.toks[p.i]
		if c.Kind == TString && len(c.Seq) == n.Len {
			p.i++
			return n
		}
		n.Value += c.Seq
	}
	panic(syntaxError("unmatched here-string delimiter"))
}

func (p *parser) taggedString(t Tok) *Node {
	n := &Node{Kind: NTagged, Pos: t.Pos, Tag: p.toks[p.i].Literal}
	for !p.end() {
		p.i++
		if p.toks[p.i-1].Kind == TNewline {
			break
		}
	}
	raw := ""
	for ; !p.end(); p.i++ {
		c := p.toks[p.i]
		if c.Kind == TText && c.Literal == n.Tag && p.i+1 < len(p.toks) &&
			p.toks[p.i+1].Kind == TString && len(p.toks[p.i+1].Seq) == 2 {
			p.i += 2
			lines := strings.Split(raw, "\n")
			indent := len(lines[len(lines)-1])
			for i, l := range lines {
				lines[i] = l[min(indent, len(l)):]
			}
			n.Value = strings.Join(lines, "\n")
			return n
		}
		raw += c.Seq
	}
	panic(syntaxError("unmatched tagged string delimiter"))
}

func (p *parser) plainString(t Tok) *Node {
	n := &Node{Kind: NString, Pos: t.Pos}
	b := &nodes{}
	for !p.end() {
		c := p.toks[p.i]
		if b.dangling {
			switch c.Kind {
			case TText, TDollar, TOpenBlock, TOpenExpr:
			default:
				b.settle()
			}
		}
		switch {
		case c.Kind == TString:
			if len(c.Seq) != 1 {
				panic(syntaxError("extra characters after string delimiter"))
			}
			p.i++
			b.settle()
			n.Kids = b.list
			return n
		case c.Kind == TDollar:
			p.dollar(b)
		case c.Kind == TOpenExpr,
			(c.Kind == TOpenTuple || c.Kind == TOpenBlock) && (b.dangling || b.attached):
			b.group(p.group())
		default:
			p.i++
			b.literal(c.Pos, c.Literal)
		}
	}
	panic(syntaxError("unmatched string delimiter"))
}

// Word categories, in the order of the public enumeration
type WordKind int

const (
	WRoot WordKind = iota
	WCompound
	WSubst
	WQualified
	WIgnored
	WInvalid
)

func isSelector(n *Node) bool { return n.Kind == NTuple || n.Kind == NBlock || n.Kind == NExpr }

// Classify determines the category of a word
func Classify(ns []*Node) WordKind {
	if len(ns) == 0 {
		return WInvalid
	}
	sels := func(from int) int {
		for from < len(ns) && isSelector(ns[from]) {
			from++
		}
		return from
	}
	switch ns[0].Kind {
	case NString, NHere, NTagged:
		if len(ns) == 1 {
			return WRoot
		}
		return WInvalid
	case NLine, NBlockComment:
		if len(ns) == 1 {
			return WIgnored
		}
		return WInvalid
	}
	if len(ns) == 1 {
		if ns[0].Kind == NSubst {
			return WInvalid
		}
		return WRoot
	}
	if k := ns[0].Kind; k == NLiteral || k == NTuple || k == NBlock {
		if sels(1) == len(ns) {
			return WQualified
		}
		if k != NLiteral {
			return WInvalid
		}
	}
	// A sequence of stems: literal | expression | $... source selector...
	stems, tuples := 0, false
	for i := 0; i < len(ns); {
		stems++
		switch ns[i].Kind {
		case NLiteral, NExpr:
			i++
		case NSubst:
			for i < len(ns) && ns[i].Kind == NSubst {
				i++
			}
			if i == len(ns) {
				return WInvalid
			}
			switch ns[i].Kind {
			case NTuple:
				tuples = true
			case NLiteral, NBlock, NExpr:
			default:
				return WInvalid
			}
			i = sels(i + 1)
		default:
			return WInvalid
		}
	}
	if tuples && stems > 1 {
		return WInvalid
	}
	if ns[0].Kind == NSubst && stems == 1 {
		return WSubst
	}
	return WCompound
}
