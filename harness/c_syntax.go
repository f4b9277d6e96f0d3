package main

import (
	"fmt"
	"strings"

	"helena/core"
	"verif/ref"
)

// exhaustive short sources: all sequences of up to n symbols of an alphabet
func nthSource(alphabet []string, i int) string {
	s := ""
	for {
		s += alphabet[i%len(alphabet)]
		i = i/len(alphabet) - 1
		if i < 0 {
			return s
		}
	}
}

var lexAlphabet = []string{"a", " ", "\n", "\\", "#", "\"", "{", "}", "x", "4", "u", "\xff", "$", "*", "(", "U", "0"}
var parseAlphabet = []string{"a", " ", "\n", "#", "\"", "{", "}", "$", "*", "(", ")", "[", "]", ";", "\\"}

func checkTokens(c *Ctx, src string) {
	c.Input(src)
	var tk core.Tokenizer
	toks := tk.Tokenize(src)
	// Invariants, independent of any reference
	pos := core.SourcePosition{}
	for i, t := range toks {
		if t.Position != pos {
			c.Fail("position", "token %d %q at %v, expected %v", i, t.Sequence, t.Position, pos)
			return
		}
		if len(t.Sequence) == 0 {
			c.Fail("empty token", "token %d", i)
			return
		}
		for k := 0; k < len(t.Sequence); k++ {
			pos.Index++
			if t.Sequence[k] == '\n' {
				pos.Line++
				pos.Column = 0
			} else {
				pos.Column++
			}
		}
		if int(pos.Index) > len(src) || src[t.Position.Index:pos.Index] != t.Sequence {
			c.Fail("lossy", "token %d %q is not the source at its position", i, t.Sequence)
			return
		}
	}
	if int(pos.Index) != len(src) {
		c.Fail("lossy", "tokens cover %d of %d bytes", pos.Index, len(src))
		return
	}
	want := ref.Lex(src)
	for i := 0; i < len(want) || i < len(toks); i++ {
		if i >= len(want) || i >= len(toks) || int(toks[i].Type) != int(want[i].Kind) || toks[i].Sequence != want[i].Seq || toks[i].Literal != want[i].Literal {
			c.Fail("token", "token %d differs: got %v want %v", i, tokAt(toks, i), refTokAt(want, i))
			return
		}
	}
	// Incremental interface
	var inc core.Tokenizer
	inc.Begin(core.NewStringStream(src))
	n := 0
	for steps := 0; !inc.End(); steps++ {
		if steps > 2*len(src)+4 {
			c.Fail("incremental", "no end after %d steps", steps)
			return
		}
		t := inc.Next()
		if t == nil {
			continue
		}
		if n >= len(toks) || *t != toks[n] {
			c.Fail("incremental", "token %d differs: %v", n, *t)
			return
		}
		n++
	}
	if n != len(toks) {
		c.Fail("incremental", "%d of %d tokens", n, len(toks))
	}
	// Stream interface, reused tokenizer
	in := core.NewStringStreamFromFile(src, "f")
	out := core.NewArrayTokenStream(nil, in.Source())
	inc.TokenizeStream(in, out)
	n = 0
	for !out.End() {
		t := out.Next()
		if n >= len(toks) || t != toks[n] {
			c.Fail("stream", "token %d differs: %v", n, t)
			return
		}
		n++
	}
	if n != len(toks) {
		c.Fail("stream", "%d of %d tokens", n, len(toks))
	}
	// Tokenizer reused after a stream abandoned anywhere
	for round := 0; round < 2 && len(src) > 0; round++ {
		cut := c.R.IntN(len(src) + 1)
		inc.Begin(core.NewStringStream(src[cut:] + src[:cut]))
		for k := c.R.IntN(4); k > 0 && !inc.End(); k-- {
			inc.Next()
		}
		var again []core.Token
		if round == 0 {
			inc.Begin(core.NewStringStream(src))
			for !inc.End() {
				if t := inc.Next(); t != nil {
					again = append(again, *t)
				}
			}
		} else if again = inc.Tokenize(src); c.R.IntN(2) == 0 {
			out := core.NewArrayTokenStream(nil, in.Source())
			inc.Begin(core.NewStringStream(src[cut:]))
			if !inc.End() {
				inc.Next()
			}
			inc.TokenizeStream(core.NewStringStream(src), out)
			again = nil
			for !out.End() {
				again = append(again, out.Next())
			}
		}
		for i := 0; i < len(again) || i < len(toks); i++ {
			if i >= len(again) || i >= len(toks) || again[i] != toks[i] {
				c.Fail("reuse", "reused tokenizer: token %d differs: got %s want %s", i, tokAt(again, i), tokAt(toks, i))
				return
			}
		}
		c.Count("tokenizers reused", 1)
	}
	c.Count("tokens", len(toks))
	for _, t := range toks {
		if t.Type == core.TokenType_ESCAPE {
			c.Count("escapes", 1)
		}
	}
	key := ""
	if len(toks) > 1 {
		key = src
	}
	c.Eval(key)
}

func tokAt(t []core.Token, i int) string {
	if i >= len(t) {
		return "(none)"
	}
	return fmt.Sprintf("%d %q %q", t[i].Type, t[i].Sequence, t[i].Literal)
}
func refTokAt(t []ref.Tok, i int) string {
	if i >= len(t) {
		return "(none)"
	}
	return fmt.Sprintf("%d %q %q", t[i].Kind, t[i].Seq, t[i].Literal)
}

type parseOutcome struct {
	ok   bool
	msg  string
	tree string
}

func outcomeOf(r core.ParseResult, pos bool) parseOutcome {
	if !r.Success {
		return parseOutcome{false, r.Message, ""}
	}
	if r.Script == nil {
		return parseOutcome{true, "", "(no script)"}
	}
	return parseOutcome{true, "", realTree(r.Script, pos)}
}

func refOutcome(src string, pos bool) parseOutcome {
	s, msg := ref.Parse(src)
	if msg != "" {
		return parseOutcome{false, msg, ""}
	}
	return parseOutcome{true, "", refTree(s, pos)}
}

func (o parseOutcome) String() string {
	if o.ok {
		return "tree " + o.tree
	}
	return "error: " + o.msg
}

func realParse(p *core.Parser, src string) core.ParseResult {
	var tk core.Tokenizer
	in := core.NewStringStream(src)
	return p.ParseTokens(tk.Tokenize(src), in.Source())
}

func checkParse(c *Ctx, src string) {
	c.Input(src)
	for _, capture := range []bool{false, true} {
		p := core.NewParser(&core.ParserOptions{CapturePositions: capture})
		r := realParse(p, src)
		got, want := outcomeOf(r, capture), refOutcome(src, capture)
		if got != want {
			c.Fail("parse", "capture=%v\ngot  %v\nwant %v", capture, got, want)
			return
		}
		if !capture && r.Success {
			if strings.Contains(realTree(r.Script, true), "@") && !onlyAbsent(realTree(r.Script, true)) {
				c.Fail("positions", "positions captured without being asked for")
				return
			}
		}
		if r.Success {
			if r.Script.Source == nil || r.Script.Source.Content == nil || *r.Script.Source.Content != src {
				c.Fail("source", "script does not refer to its source")
				return
			}
		}
	}
	p := core.NewParser(nil)
	r := realParse(p, src)
	if got, want := outcomeOf(r, false), refOutcome(src, false); got != want {
		c.Fail("parse", "default options\ngot  %v\nwant %v", got, want)
		return
	}
	s, msg := ref.Parse(src)
	if msg != "" {
		c.Count("rejected", 1)
		c.Eval("E " + src)
		return
	}
	c.Count("accepted", 1)
	checkWords(c, r.Script, s)
	key := ""
	if len(s.Sents) > 0 {
		key = src
	}
	c.Eval(key)
}

func onlyAbsent(tree string) bool {
	for i := 0; i < len(tree); i++ {
		if tree[i] == '"' {
			// skip quoted text
			for i++; i < len(tree) && tree[i] != '"'; i++ {
				if tree[i] == '\\' {
					i++
				}
			}
			continue
		}
		if tree[i] == '@' && (i+1 >= len(tree) || tree[i+1] != '-') {
			return false
		}
	}
	return true
}

// checkWords compares the classification of every word
func checkWords(c *Ctx, s *core.Script, r *ref.Script) {
	for i, st := range s.Sentences {
		for j, w := range st.Words {
			rw := r.Sents[i].Words[j]
			got := core.SyntaxChecker{}.CheckWord(w.Word)
			want := ref.Classify(rw.Nodes)
			c.Count(fmt.Sprintf("words of kind %d", want), 1)
			if int(got) != int(want) {
				c.Fail("word type", "sentence %d word %d: got %d want %d", i, j, got, want)
				return
			}
			checkSubWords(c, w.Word.Morphemes, rw.Nodes)
		}
	}
}

func checkSubWords(c *Ctx, ms []core.Morpheme, ns []*ref.Node) {
	for k, m := range ms {
		switch m := m.(type) {
		case core.TupleMorpheme:
			checkWords(c, &m.Subscript, ns[k].Sub)
		case core.BlockMorpheme:
			checkWords(c, &m.Subscript, ns[k].Sub)
		case core.ExpressionMorpheme:
			checkWords(c, &m.Subscript, ns[k].Sub)
		case core.StringMorpheme:
			checkSubWords(c, m.Morphemes, ns[k].Kids)
		}
	}
}

// incremental parsing

// stepParse parses with the stream interface, token by token. It returns the
// outcome and the number of tokens left when an error was reported.
func stepParse(p *core.Parser, src string, capture bool) (parseOutcome, bool) {
	var tk core.Tokenizer
	in := core.NewStringStream(src)
	stream := core.NewArrayTokenStream(tk.Tokenize(src), in.Source())
	p.Begin(stream)
	for !p.End() {
		r := p.Next()
		if !r.Success {
			return outcomeOf(r, capture), false
		}
	}
	return outcomeOf(p.CloseStream(), capture), true
}

func checkIncremental(c *Ctx, srcs []string) {
	capture := c.R.IntN(2) == 0
	mk := func() *core.Parser { return core.NewParser(&core.ParserOptions{CapturePositions: capture}) }
	shared := mk()
	for _, src := range srcs {
		c.Input(strings.Join(srcs, "\n=====\n"))
		want := outcomeOf(realParse(mk(), src), capture)
		if w := refOutcome(src, capture); w != want {
			c.Fail("parse", "%q\ngot  %v\nwant %v", src, want, w)
			return
		}
		complete := want.ok || ref.Incomplete(want.msg)
		got, closed := stepParse(mk(), src, capture)
		if got != want {
			c.Fail("stepwise", "%q\ngot  %v\nwant %v", src, got, want)
			return
		}
		if closed != complete {
			c.Fail("completeness", "%q: the stream was accepted: %v, expected %v (%v)", src, closed, complete, want)
			return
		}
		// A reused parser, by every entry point
		var tk core.Tokenizer
		in := core.NewStringStream(src)
		toks := tk.Tokenize(src)
		switch c.R.IntN(4) {
		case 0:
			got = outcomeOf(realParse(shared, src), capture)
		case 1:
			got, _ = stepParse(shared, src, capture)
		case 2:
			got = outcomeOf(shared.Parse(core.NewArrayTokenStream(toks, in.Source())), capture)
		case 3:
			r := shared.ParseStream(core.NewArrayTokenStream(toks, in.Source()))
			if r.Success != complete {
				c.Fail("completeness", "%q: ParseStream success=%v, expected %v (%v)", src, r.Success, complete, want)
				return
			}
			if r.Success {
				r = shared.CloseStream()
			}
			got = outcomeOf(r, capture)
		}
		if got != want {
			c.Fail("reuse", "%q\ngot  %v\nwant %v", src, got, want)
			return
		}
		// Abandoned parse
		if len(toks) > 1 && c.R.IntN(2) == 0 {
			k := c.R.IntN(len(toks))
			shared.Begin(core.NewArrayTokenStream(toks, in.Source()))
			for i := 0; i < k && !shared.End(); i++ {
				if !shared.Next().Success {
					break
				}
			}
			c.Count("abandoned parses", 1)
		}
		c.Eval(src)
		c.Count("parses", 4)
		if !want.ok {
			c.Count("failures", 1)
		}
	}
}

func init() {
	register(&Check{ID: "C01", Quick: 40000, Deep: 1500000,
		Rule: "random, exhaustive-short and generated byte strings; non-trivial: at least two tokens",
		Run: func(c *Ctx) {
			if c.Case%4 == 0 {
				for k := 0; k < 8; k++ {
					checkTokens(c, nthSource(lexAlphabet, c.Case*2+k))
				}
				return
			}
			if c.R.IntN(3) == 0 {
				checkTokens(c, randomSource(c.R, 20))
			} else if c.R.IntN(4) == 0 {
				b := make([]byte, c.R.IntN(12))
				for i := range b {
					b[i] = byte(c.R.IntN(256))
				}
				checkTokens(c, string(b))
			} else {
				checkTokens(c, anySource(c.R))
			}
		}})
	register(&Check{ID: "C02", Quick: 40000, Deep: 1500000,
		Rule: "exhaustive-short, generated and mutated sources, positions on and off; non-trivial: rejected, or at least one sentence",
		Run: func(c *Ctx) {
			if c.Case%4 == 0 {
				for k := 0; k < 8; k++ {
					checkParse(c, nthSource(parseAlphabet, c.Case*2+k))
				}
				return
			}
			if c.R.IntN(200) == 0 {
				// Deep nesting
				n := 50 + c.R.IntN(400)
				o, cl := "", ""
				for i := 0; i < n; i++ {
					k := c.R.IntN(4)
					o += []string{"(", "[", "{", "\"["}[k]
					cl = []string{")", "]", "}", "]\""}[k] + cl
					if k < 3 {
						o += pickw(c.R, "", " ", "a ", "$a ", "\n")
					}
				}
				if c.R.IntN(3) == 0 && len(cl) > 1 {
					cl = cl[:c.R.IntN(len(cl))]
				}
				checkParse(c, o+cl)
				return
			}
			checkParse(c, anySource(c.R))
		}})
	register(&Check{ID: "C03", Quick: 12000, Deep: 500000,
		Rule: "histories of sources on one parser object, and every token prefix of generated sources; distinct sources",
		Run: func(c *Ctx) {
			switch c.R.IntN(3) {
			case 0:
				// All prefixes
				src := anySource(c.R)
				if len(src) > 120 {
					src = src[:120]
				}
				var srcs []string
				n := 0
				for _, t := range ref.Lex(src) {
					n += len(t.Seq)
					srcs = append(srcs, src[:n])
				}
				checkIncremental(c, srcs)
			default:
				var srcs []string
				for i := 0; i < 2+c.R.IntN(8); i++ {
					if c.R.IntN(3) == 0 {
						srcs = append(srcs, randomSource(c.R, 8))
					} else {
						srcs = append(srcs, anySource(c.R))
					}
				}
				checkIncremental(c, srcs)
			}
		}})
}
