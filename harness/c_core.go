package main

import (
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"strconv"
	"strings"

	"helena/core"
	"verif/ref"
)

// The core evaluator with resolvers of the host: any source can be run, since
// any name may stand for a variable or command. What a name stands for is a
// function of its canonical text, hence the same for both sides.

type world struct {
	seed uint64
	log  []string
	// Number of suspensions so far
	yields int
	noSel  bool
	// Whether failures are frequent, and whether most values can be selected
	harsh, lush, stringy bool
}

func (w *world) event(format string, args ...any) {
	if len(w.log) > 4000 {
		panic(ref.Inconclusive{Why: "log"})
	}
	w.log = append(w.log, fmt.Sprintf(format, args...))
}

func (w *world) rand(kind, text string) *rand.Rand {
	h := fnv.New64a()
	h.Write([]byte(kind + "\x00" + text))
	return rand.New(rand.NewPCG(w.seed, h.Sum64()))
}

// value draws a value, in terms of the reference
func (w *world) value(r *rand.Rand, depth int) ref.Value {
	n := 16
	if depth <= 0 {
		n = 6
	}
	if w.stringy && r.IntN(8) > 0 {
		return ref.Str(pickw(r, "a", "b", "foo", "x1", "A", "é"))
	}
	if w.lush && depth > 0 && r.IntN(3) > 0 {
		n = -1
	}
	some := func() []ref.Value {
		var vs []ref.Value
		for i := r.IntN(4); i > 0; i-- {
			vs = append(vs, w.value(r, depth-1))
		}
		return vs
	}
	k := 0
	if n < 0 {
		// Values that accept any selection
		k = pick(r, []int{5, 5, 8, 13})
		if k == 5 {
			return w.host("all", strconv.Itoa(r.IntN(100)))
		}
	} else {
		k = r.IntN(n)
	}
	switch k {
	case 0:
		return ref.Int(r.IntN(5) - 1)
	case 1:
		return pick(r, []ref.Value{ref.Bool(true), ref.Bool(false), ref.Nil{}, ref.Real(1.5)})
	case 2, 3, 4:
		return ref.Str(pickw(r, "a", "b", "foo", "x1", "A", "é", "", "0", "1", "2", "a b", "xyz"))
	case 5:
		return w.host(pickw(r, "index", "key", "rules", "select", "both", "all", "none"), strconv.Itoa(r.IntN(100)))
	case 6, 7:
		return ref.List(some())
	case 8, 9, 10:
		return ref.Tuple(some())
	case 11, 12:
		d := ref.Dict{}
		for i := r.IntN(5); i > 0; i-- {
			d[pickw(r, "a", "b", "foo", "x1", "A", "1", "*")] = w.value(r, depth-1)
		}
		return d
	case 13, 14:
		q := &ref.Qual{Source: ref.Str(pickw(r, "a", "b", "foo", "x1"))}
		if r.IntN(4) == 0 {
			q.Source = ref.Tuple{ref.Str(pickw(r, "a", "b")), ref.Str("foo")}
		}
		for i := r.IntN(3); i > 0; i-- {
			switch r.IntN(4) {
			case 0:
				q.Sels = append(q.Sels, ref.Sel{Kind: 'i', Vals: []ref.Value{ref.Int(r.IntN(3))}})
			case 1:
				q.Sels = append(q.Sels, ref.Sel{Kind: 'k', Vals: []ref.Value{ref.Str(pickw(r, "a", "b", "foo"))}})
			case 2:
				q.Sels = append(q.Sels, ref.Sel{Kind: 'g', Vals: []ref.Value{ref.Tuple{ref.Str(pickw(r, "a", "b"))}}})
			case 3:
				q.Sels = append(q.Sels, w.selector("s"+strconv.Itoa(r.IntN(9))))
			}
		}
		return q
	}
	src := pickw(r, "a", "", "b; c", " $x ")
	s, _ := ref.Parse(src)
	return &ref.ScriptV{S: s, Source: &src}
}

// outcome of a selection in a host value, as a function of the text
func (w *world) outcome(op, text string) (ref.Value, string) {
	w.event("%s %s", op, text)
	r := w.rand("select", op+text)
	switch r.IntN(8) {
	case 0:
		if w.harsh {
			return nil, op + " refused"
		}
	case 1, 2:
		return w.value(r, 2), ""
	case 3:
		return w.host("all", strconv.Itoa(r.IntN(100))), ""
	}
	return ref.Str(op + text), ""
}

func (w *world) refOutcome(op, text string) ref.Result {
	v, msg := w.outcome(op, text)
	if msg != "" {
		return ref.Result{Code: ref.ERROR, Val: ref.Str(msg)}
	}
	return ref.Result{Code: ref.OK, Val: v}
}

func (w *world) realOutcome(op, text string) core.Result {
	v, msg := w.outcome(op, text)
	if msg != "" {
		return core.ERROR(msg)
	}
	return core.OK(w.real(v))
}

// Host values of the reference
type refHost struct {
	w        *world
	kind, id string
}

func (w *world) host(kind, id string) *ref.Custom {
	return &ref.Custom{Kind: kind + id, Data: &refHost{w, kind, id}}
}

func refTexts(vs []ref.Value) string {
	s := ""
	for _, v := range vs {
		s += " " + ref.Canon(v)
	}
	return s
}
func realTexts(vs []core.Value) string {
	s := ""
	for _, v := range vs {
		s += " " + canonReal(v)
	}
	return s
}

func (h *refHost) SelIndex(v ref.Value) (ref.Result, bool) {
	if h.kind != "index" && h.kind != "all" {
		return ref.Result{}, false
	}
	return h.w.refOutcome(h.id+" index", ref.Canon(v)), true
}
func (h *refHost) SelKey(v ref.Value) (ref.Result, bool) {
	if h.kind != "key" && h.kind != "all" {
		return ref.Result{}, false
	}
	return h.w.refOutcome(h.id+" key", ref.Canon(v)), true
}
func (h *refHost) SelRules(rules []ref.Value) (ref.Result, bool) {
	if h.kind != "rules" && h.kind != "all" && h.kind != "both" {
		return ref.Result{}, false
	}
	return h.w.refOutcome(h.id+" rules", refTexts(rules)), true
}
func (h *refHost) Sel(s ref.Sel) (ref.Result, bool) {
	if h.kind != "select" && h.kind != "both" {
		return ref.Result{}, false
	}
	return h.w.refOutcome(h.id+" select", string(s.Kind)+refTexts(s.Vals)), true
}

// Custom selectors
type refSelector struct {
	w    *world
	name string
}

func (w *world) selector(name string) ref.Sel {
	return ref.Sel{Kind: 'c', Vals: []ref.Value{&ref.Custom{Kind: name, Data: &refSelector{w, name}}}}
}

func (s *refSelector) Apply(v ref.Value) ref.Result {
	self := s.w.selector(s.name)
	switch v := v.(type) {
	case ref.Tuple, *ref.Qual:
		return ref.Select(v, self)
	case *ref.Custom:
		if r, can := v.Data.(ref.Host).Sel(self); can {
			return r
		}
	}
	return s.w.refOutcome(s.name, ref.Canon(v))
}

// Host values of the implementation
type realHost struct {
	w        *world
	kind, id string
}

func (h realHost) Type() core.ValueType { return core.ValueType_CUSTOM }
func (h realHost) CustomType() core.CustomValueType {
	return core.CustomValueType{Name: h.kind + h.id}
}
func (h realHost) index(v core.Value) core.Result {
	return h.w.realOutcome(h.id+" index", canonReal(v))
}
func (h realHost) key(v core.Value) core.Result { return h.w.realOutcome(h.id+" key", canonReal(v)) }
func (h realHost) rules(rules []core.Value) core.Result {
	return h.w.realOutcome(h.id+" rules", realTexts(rules))
}

type hostIndex struct{ realHost }
type hostKey struct{ realHost }
type hostRules struct{ realHost }
type hostSelect struct{ realHost }
type hostBoth struct{ hostSelect }
type hostAll struct{ realHost }

func (h hostIndex) SelectIndex(v core.Value) core.Result    { return h.index(v) }
func (h hostKey) SelectKey(v core.Value) core.Result        { return h.key(v) }
func (h hostRules) SelectRules(vs []core.Value) core.Result { return h.rules(vs) }
func (h hostAll) SelectIndex(v core.Value) core.Result      { return h.index(v) }
func (h hostAll) SelectKey(v core.Value) core.Result        { return h.key(v) }
func (h hostAll) SelectRules(vs []core.Value) core.Result   { return h.rules(vs) }
func (h hostBoth) SelectRules(vs []core.Value) core.Result  { return h.rules(vs) }
func (h hostSelect) Select(s core.Selector) core.Result {
	text := ""
	switch s := s.(type) {
	case core.IndexedSelector:
		text = "i" + realTexts([]core.Value{s.Index})
	case core.KeyedSelector:
		text = "k" + realTexts(s.Keys)
	case core.GenericSelector:
		text = "g" + realTexts(s.Rules)
	case realSelector:
		text = "c custom:" + s.name
	default:
		text = fmt.Sprintf("%T", s)
	}
	return h.w.realOutcome(h.id+" select", text)
}

type realSelector struct {
	w    *world
	name string
}

func (s realSelector) canonSelector() string { return "custom:" + s.name }
func (s realSelector) Apply(v core.Value) core.Result {
	if sel, is := v.(core.Selectable); is {
		return sel.Select(s)
	}
	return s.w.realOutcome(s.name, canonReal(v))
}

// real converts a value of the reference
func (w *world) real(v ref.Value) core.Value {
	list := func(vs []ref.Value) []core.Value {
		out := make([]core.Value, len(vs))
		for i, v := range vs {
			out[i] = w.real(v)
		}
		return out
	}
	switch v := v.(type) {
	case ref.Nil:
		return core.NIL
	case ref.Bool:
		return core.BOOL(bool(v))
	case ref.Int:
		return core.INT(int64(v))
	case ref.Real:
		return core.REAL(float64(v))
	case ref.Str:
		return core.STR(string(v))
	case ref.List:
		return core.LIST(list(v))
	case ref.Tuple:
		return core.TUPLE(list(v))
	case ref.Dict:
		m := map[string]core.Value{}
		for k, x := range v {
			m[k] = w.real(x)
		}
		return core.DICT(m)
	case *ref.ScriptV:
		return core.NewScriptValue(*parseReal(*v.Source, false).Script, *v.Source)
	case *ref.Qual:
		var sels []core.Selector
		for _, s := range v.Sels {
			sels = append(sels, w.realSel(s))
		}
		return core.NewQualifiedValue(w.real(v.Source), sels)
	case *ref.Custom:
		h := v.Data.(*refHost)
		b := realHost{w, h.kind, h.id}
		switch h.kind {
		case "index":
			return hostIndex{b}
		case "key":
			return hostKey{b}
		case "rules":
			return hostRules{b}
		case "select":
			return hostSelect{b}
		case "both":
			return hostBoth{hostSelect{b}}
		case "all":
			return hostAll{b}
		}
		return b
	}
	panic(fmt.Sprintf("%T", v))
}

func (w *world) realSel(s ref.Sel) core.Selector {
	var vs []core.Value
	if s.Kind != 'c' {
		for _, v := range s.Vals {
			vs = append(vs, w.real(v))
		}
	}
	switch s.Kind {
	case 'i':
		return core.IndexedSelector{Index: vs[0]}
	case 'k':
		return core.KeyedSelector{Keys: vs}
	case 'g':
		return core.GenericSelector{Rules: vs}
	}
	return realSelector{w, s.Vals[0].(*ref.Custom).Data.(*refSelector).name}
}

// Resolvers

func (w *world) variable(name string) ref.Value {
	w.event("var %q", name)
	r := w.rand("var", name)
	if r.IntN(10) == 0 && (w.harsh || r.IntN(10) == 0) {
		return nil
	}
	return w.value(r, 3)
}

func (w *world) Resolve(name string) core.Value {
	v := w.variable(name)
	if v == nil {
		return nil
	}
	return w.real(v)
}

// command decides what a command does, by its name and words
type action int

const (
	actNone action = iota
	actLast
	actShift
	actCall
)

func (w *world) command(name string) action {
	switch r := w.rand("cmd", name); r.IntN(16) {
	case 0:
		if w.harsh {
			return actNone
		}
	case 1:
		return actLast
	case 2, 3:
		return actShift
	}
	return actCall
}

// call gives the outcome of a call: "ok", "words" (the last word), "tuple", "list",
// "yield", "resume" (several times), or another result code
func (w *world) call(texts string, n int) (how string, v ref.Value) {
	w.event("call%s", texts)
	r := w.rand("call", texts)
	switch r.IntN(14) {
	case 0:
		if w.harsh {
			return "error", ref.Str("failed")
		}
	case 1:
		if w.harsh || r.IntN(4) == 0 {
			return pickw(r, "return", "break", "continue"), w.value(r, 1)
		}
	case 2:
		return "yield", w.value(r, 1)
	case 3:
		return "resume", w.value(r, 1)
	case 4, 5:
		return "tuple", nil
	case 6:
		return "list", nil
	case 7, 8, 9:
		return "last", nil
	}
	return "ok", w.value(r, 3)
}

func (w *world) resumeValue() ref.Value {
	w.yields++
	return w.value(w.rand("resume", strconv.Itoa(w.yields)), 1)
}

type realCall struct {
	w     *world
	name  string
	count int
	got   []core.Value
}

func (c *realCall) Execute(args []core.Value, _ any) core.Result {
	how, v := c.w.call(realTexts(args), len(args))
	switch how {
	case "error":
		return core.ERROR("failed")
	case "return":
		return core.RETURN(c.w.real(v))
	case "break":
		return core.BREAK(c.w.real(v))
	case "continue":
		return core.CONTINUE(c.w.real(v))
	case "yield":
		return core.YIELD(c.w.real(v))
	case "resume":
		c.count = 3
		return core.YIELD(c.w.real(v))
	case "tuple":
		return core.OK(core.TUPLE(append([]core.Value{}, args[1:]...)))
	case "list":
		return core.OK(core.LIST(append([]core.Value{}, args[1:]...)))
	case "last":
		if len(args) > 1 {
			return core.OK(args[len(args)-1])
		}
		return core.OK(core.NIL)
	}
	return core.OK(c.w.real(v))
}

type resumableCall struct{ *realCall }

func (c resumableCall) Resume(result core.Result, _ any) core.Result {
	c.w.event("resumed %s", canonReal(result.Value))
	c.got = append(c.got, result.Value)
	if c.count--; c.count > 0 {
		return core.YIELD(result.Value)
	}
	return core.OK(core.LIST(append([]core.Value{}, c.got...)))
}

type worldCommands struct{ w *world }

func (c worldCommands) Resolve(name core.Value) core.Command {
	text := canonReal(name)
	switch c.w.command(text) {
	case actNone:
		return nil
	case actLast:
		return core.LAST_RESULT
	case actShift:
		return core.SHIFT_LAST_FRAME_RESULT
	}
	call := &realCall{w: c.w, name: text}
	if c.w.rand("kind", text).IntN(3) == 0 {
		return resumableCall{call}
	}
	return call
}

type worldSelectors struct{ w *world }

// rules decides what rules stand for
func (w *world) rules(text string, n int, first int) string {
	w.event("rules%s", text)
	r := w.rand("rules", text)
	switch r.IntN(9) {
	case 0, 1:
		if w.harsh {
			return pickw(r, "none", "error")
		}
	case 2, 3:
		return "s" + strconv.Itoa(r.IntN(9))
	case 4:
		if n > 0 && first > 0 {
			return "index"
		}
	case 5:
		if n > 0 && first > 0 {
			return "keys"
		}
	}
	return "generic"
}

func (c worldSelectors) Resolve(rules []core.Value) (core.Result, core.Selector) {
	var first []core.Value
	if len(rules) > 0 {
		first = rules[0].(core.TupleValue).Values
	}
	switch k := c.w.rules(realTexts(rules), len(rules), len(first)); k {
	case "none":
		return core.OK(core.NIL), nil
	case "error":
		return core.ERROR("bad rules"), nil
	case "index":
		r, s := core.CreateIndexedSelector(first[0])
		return r, s
	case "keys":
		r, s := core.CreateKeyedSelector(append([]core.Value{}, first...))
		return r, s
	case "generic":
		r, s := core.CreateGenericSelector(append([]core.Value{}, rules...))
		return r, s
	default:
		return core.OK(core.NIL), realSelector{c.w, k}
	}
}

func refFail(msg string) ref.Result { return ref.Result{Code: ref.ERROR, Val: ref.Str(msg)} }

// hooks are the same resolvers for the reference. yields tells whether
// suspended commands are resumed.
func (w *world) hooks(yields bool) *ref.Hooks {
	h := &ref.Hooks{Var: w.variable}
	h.Cmd = func(name ref.Value) ref.Command {
		text := ref.Canon(name)
		switch w.command(text) {
		case actNone:
			return nil
		case actLast:
			return ref.LastResult
		case actShift:
			return ref.Shift
		}
		resumable := w.rand("kind", text).IntN(3) == 0
		return ref.Fn(func(m *ref.Machine, args []ref.Value, s *ref.Scope) ref.Result {
			how, v := w.call(refTexts(args), len(args))
			okay := func(v ref.Value) ref.Result { return ref.Result{Code: ref.OK, Val: v} }
			switch how {
			case "error":
				return refFail("failed")
			case "return":
				return ref.Result{Code: ref.RETURN, Val: v}
			case "break":
				return ref.Result{Code: ref.BREAK, Val: v}
			case "continue":
				return ref.Result{Code: ref.CONTINUE, Val: v}
			case "yield", "resume":
				if !yields {
					return ref.Result{Code: ref.YIELD, Val: v}
				}
				w.event("yield %s", ref.Canon(v))
				x := w.resumeValue()
				if !resumable {
					return okay(x)
				}
				n := 1
				if how == "resume" {
					n = 3
				}
				var got ref.List
				for {
					w.event("resumed %s", ref.Canon(x))
					got = append(got, x)
					if n--; n <= 0 {
						return okay(got)
					}
					w.event("yield %s", ref.Canon(x))
					x = w.resumeValue()
				}
			case "tuple":
				return okay(ref.Tuple(append([]ref.Value{}, args[1:]...)))
			case "list":
				return okay(ref.List(append([]ref.Value{}, args[1:]...)))
			case "last":
				if len(args) > 1 {
					return okay(args[len(args)-1])
				}
				return okay(ref.Nil{})
			}
			return okay(v)
		})
	}
	h.Sel = func(rules []ref.Value) (ref.Result, *ref.Sel) {
		var first []ref.Value
		if len(rules) > 0 {
			first = rules[0].(ref.Tuple)
		}
		okay := ref.Result{Code: ref.OK}
		switch k := w.rules(refTexts(rules), len(rules), len(first)); k {
		case "none":
			return okay, nil
		case "error":
			return refFail("bad rules"), nil
		case "index":
			if _, is := first[0].(ref.Nil); is {
				return refFail("invalid index"), nil
			}
			return okay, &ref.Sel{Kind: 'i', Vals: first[:1]}
		case "keys":
			return okay, &ref.Sel{Kind: 'k', Vals: first}
		case "generic":
			if len(rules) == 0 {
				return refFail("empty selector"), nil
			}
			return okay, &ref.Sel{Kind: 'g', Vals: rules}
		default:
			s := w.selector(k)
			return okay, &s
		}
	}
	if w.noSel {
		h.Sel = nil
	}
	return h
}

// evaluableSource draws a source that parses and mostly has valid words only
func evaluableSource(c *Ctx) (string, *ref.Script) {
	for i := 0; i < 40; i++ {
		g := &srcGen{r: c.R, valid: i < 20 && c.R.IntN(4) > 0, depth: c.R.IntN(6)}
		src := ""
		switch c.R.IntN(10) {
		case 0:
			src = anySource(c.R)
		case 1:
			src = mutate(c.R, g.script(3))
		case 2, 3:
			src = g.word()
		case 4:
			src = pickw(c.R, "$", "$*", "$$", "a", "(a b)", "") + pickw(c.R, "a", "[a]", "{b}", "(a $b)") + g.selectors() + g.selectors()
		default:
			src = g.script(1 + c.R.IntN(4))
		}
		if s, msg := ref.Parse(src); msg == "" && (!s.Invalid() || c.R.IntN(30) == 0) && len(s.Sents) > 0 {
			return src, s
		}
	}
	return "a", func() *ref.Script { s, _ := ref.Parse("a"); return s }()
}

func message(s string) string {
	if strings.HasPrefix(s, `"cannot resolve selector`) {
		return `"cannot resolve selector"`
	}
	return s
}

// coreCase runs a source through the interfaces of the core package
func coreCase(c *Ctx) {
	src, rs := evaluableSource(c)
	c.Input(src)
	seed := c.R.Uint64()
	w := world{seed: seed, harsh: c.R.IntN(4) == 0}
	switch c.R.IntN(5) {
	case 0, 1:
		w.lush = true
	case 2, 3:
		w.stringy = true
	}
	w2 := w
	wr, wi := &w, &w2
	if c.R.IntN(25) == 0 {
		wr.noSel, wi.noSel = true, true
	}
	capture := c.R.IntN(2) == 0
	parsed := parseReal(src, capture)
	if !parsed.Success {
		c.Fail("parse", "%s", parsed.Message)
		return
	}
	script := *parsed.Script

	mode := pickw(c.R, "script", "script", "state", "state", "steps", "again", "sentences", "words", "tuple", "constant")
	if rs.Invalid() {
		mode = pickw(c.R, "script", "words", "sentences")
	}
	resume := mode == "state" || mode == "steps" || mode == "again"

	// Reference
	m := ref.NewMachine(100000)
	defer m.Close()
	sc := ref.NewRoot()
	sc.Hooks = wr.hooks(resume)
	var want []string
	note := func(r ref.Result, w *world) {
		v := "-"
		if r.Val != nil {
			v = message(ref.Canon(r.Val))
		}
		w.event("result %v %s", r.Code, v)
	}
	why := ""
	func() {
		defer func() {
			if e := recover(); e != nil {
				if i, is := e.(ref.Inconclusive); is {
					why = i.Why
					return
				}
				panic(e)
			}
		}()
		switch mode {
		case "sentences":
			for _, s := range rs.Sents {
				note(m.Run(&ref.Script{Sents: []*ref.Sentence{s}}, sc), wr)
			}
		case "words":
			for _, s := range rs.Sents {
				for _, w := range s.Words {
					if ref.InvalidWord(w) {
						note(refFail("invalid word structure"), wr)
						continue
					}
					r := m.Words([]*ref.Sentence{{Words: []*ref.Word{w}}}, sc)
					if r.Code == ref.OK {
						vs := r.Val.(ref.Tuple)
						if len(vs) == 0 {
							wr.event("result nothing")
							continue
						}
						r.Val = vs[len(vs)-1]
					}
					note(r, wr)
				}
			}
		case "tuple":
			note(m.Words(rs.Sents, sc), wr)
		case "constant":
			note(ref.Result{Code: ref.OK, Val: wr.value(wr.rand("constant", ""), 3)}, wr)
		default:
			note(m.Run(rs, sc), wr)
			if mode == "again" {
				note(m.Run(rs, sc), wr)
			}
		}
		want = wr.log
	}()
	if why != "" {
		c.Count("undecided: "+why, 1)
		return
	}

	// Implementation
	sels := core.SelectorResolver(worldSelectors{wi})
	if wi.noSel {
		sels = nil
	}
	ev := core.NewCompilingEvaluator(wi, worldCommands{wi}, sels, nil)
	ex := &core.Executor{VariableResolver: wi, CommandResolver: worldCommands{wi}, SelectorResolver: sels}
	comp := core.NewCompiler(&core.CompilerOptions{CapturePositions: capture})
	got := func(r core.Result) {
		wi.event("result %s %s", realCode(r), message(canonReal(r.Value)))
	}
	// drive runs a program to the end, resuming suspended commands
	drive := func(p *core.Program, st *core.ProgramState) {
		for i := 0; ; i++ {
			if mode == "steps" {
				stopped := false
				for stop := uint(1); stop <= uint(len(p.OpCodes)) && !stopped; stop += 1 + uint(c.R.IntN(3)) {
					if r := ex.ExecuteUntil(p, st, stop); r.Code != core.ResultCode_OK {
						if r.Code != core.ResultCode_YIELD {
							got(r)
							return
						}
						stopped = true
					}
				}
				if stopped {
					wi.event("yield %s", canonReal(st.Result.Value))
					st.Result.Value = wi.real(wi.resumeValue())
					continue
				}
			}
			r := ex.Execute(p, st)
			if r.Code != core.ResultCode_YIELD {
				got(r)
				return
			}
			wi.event("yield %s", canonReal(r.Value))
			st.Result.Value = wi.real(wi.resumeValue())
		}
	}
	switch mode {
	case "script":
		got(ev.EvaluateScript(script))
	case "sentences":
		for _, s := range script.Sentences {
			got(ev.EvaluateSentence(s))
		}
	case "words":
		for _, s := range script.Sentences {
			for _, w := range s.Words {
				r := ev.EvaluateWord(w.Word)
				if len(want) > len(wi.log) && want[len(wi.log)] == "result nothing" {
					// No word: the result is that of no command in particular
					wi.event("result nothing")
					continue
				}
				got(r)
			}
		}
	case "tuple":
		got(ex.Execute(comp.CompileSentences(script.Sentences), nil))
	case "constant":
		got(ex.Execute(comp.CompileConstant(wi.real(wi.value(wi.rand("constant", ""), 3))), nil))
	case "again":
		p := comp.CompileScript(script)
		st := core.NewProgramState()
		drive(p, st)
		if c.R.IntN(2) == 0 {
			st.Reset()
		} else {
			st = core.NewProgramState()
		}
		drive(p, st)
	default:
		drive(comp.CompileScript(script), core.NewProgramState())
	}
	for i := 0; i < len(want) || i < len(wi.log); i++ {
		if i >= len(want) || i >= len(wi.log) || want[i] != wi.log[i] {
			g, w := "nothing", "nothing"
			if i < len(wi.log) {
				g = wi.log[i]
			}
			if i < len(want) {
				w = want[i]
			}
			c.Fail("evaluation", "%s (seed %d): event %d: got %s want %s", mode, seed, i, g, w)
			return
		}
	}
	c.Count("core: "+mode, 1)
	if m := want[len(want)-1]; debugErrors && strings.HasPrefix(m, "result error") {
		c.Count("E "+m, 1)
	}
	c.Count("core events", len(want))
	for _, e := range want {
		if f := strings.Fields(e); f[0] == "result" {
			c.Count("core result "+f[1], 1)
		} else if f[0] == "call" || f[0] == "var" || f[0] == "yield" || f[0] == "resumed" {
			c.Count("core "+f[0], 1)
		} else {
			c.Count("core selections", 1)
		}
	}
}
