package ref

import (
	"iter"
	"strconv"
	"strings"
)

// Result codes, in the order of the public enumeration
type Code int

const (
	OK Code = iota
	RETURN
	YIELD
	ERROR
	BREAK
	CONTINUE
	PASS
)

var codeNames = []string{"ok", "return", "yield", "error", "break", "continue", "pass"}

func (c Code) String() string { return codeNames[c] }

// Level is a level of an error stack
type Level struct {
	Frame []Value
	// Whether the frame is that of a failed call
	Call   bool
	HasPos bool
	Pos    Pos
	File   string
	Src    *string
}

type Result struct {
	Code  Code
	Val   Value
	Stack []Level
}

func ok(v Value) Result       { return Result{Code: OK, Val: v} }
func fail(msg string) Result  { return Result{Code: ERROR, Val: Str(msg)} }
func arity(sig string) Result { return fail(`wrong # args: should be "` + sig + `"`) }

// Command is a command of the specification
type Command interface {
	Exec(m *Machine, args []Value, s *Scope) Result
}

// Helper is a command with help
type Helper interface {
	Help(m *Machine, args []Value, o HelpOpts, s *Scope) Result
}

type HelpOpts struct {
	Prefix string
	Skip   int
}

// Fn is a command made of a function
type Fn func(m *Machine, args []Value, s *Scope) Result

func (f Fn) Exec(m *Machine, args []Value, s *Scope) Result { return f(m, args, s) }

// Inconclusive is thrown when the limits of the specification are reached
type Inconclusive struct{ Why string }

type abortCo struct{}

// Machine runs scripts
type Machine struct {
	Fuel, MaxFuel int
	depth         int
	made          map[*Cmd]*Module
	first         Value // initial result of the next script
	Capture       bool
	co            *coro
	all           []*coro
	// Observable events
	Log []string
	// Modules
	Modules map[string]*Module
	loading map[string]bool
	// Reads a module file
	ReadFile func(path string) (string, string)
	RootDir  string
	Counters map[string]int
	// Whether the error stack of the next error is unspecified
	Unsure bool
}

func NewMachine(fuel int) *Machine {
	return &Machine{Fuel: fuel, MaxFuel: fuel, Modules: map[string]*Module{}, made: map[*Cmd]*Module{}, loading: map[string]bool{}, Counters: map[string]int{}}
}

// Close releases suspended coroutines
func (m *Machine) Close() {
	for i := len(m.all) - 1; i >= 0; i-- {
		m.all[i].stop()
	}
	m.all = nil
}

func (m *Machine) burn(n int) {
	m.Fuel -= n
	if m.Fuel < 0 {
		panic(Inconclusive{"fuel"})
	}
}

// Charge accounts for the text of an observation
func (m *Machine) Charge(n int) { m.burn(n / 256) }

func (m *Machine) size(n int) {
	if n > 1<<17 {
		panic(Inconclusive{"size"})
	}
	m.burn(n / 64)
}

// coro is a suspendable computation
type coro struct {
	next  func() (Result, bool)
	halt  func()
	yield func(Result) bool
	in    Value
	done  bool
	last  Result
}

func (m *Machine) newCoro(f func() Result) *coro {
	c := &coro{}
	var seq iter.Seq[Result] = func(yield func(Result) bool) {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(abortCo); !ok {
					panic(e)
				}
			}
		}()
		c.yield = yield
		r := f()
		c.done, c.last = true, r
		yield(r)
	}
	c.next, c.halt = iter.Pull(seq)
	m.all = append(m.all, c)
	return c
}

func (c *coro) stop() { c.halt() }

// resume runs the computation until it yields or ends
func (m *Machine) resume(c *coro, in Value) Result {
	if c.done {
		return c.last
	}
	m.depth++
	if m.depth > 1500 {
		panic(Inconclusive{"depth"})
	}
	prev, d := m.co, m.depth
	m.co = c
	c.in = in
	r, _ := c.next()
	m.co, m.depth = prev, d-1
	if c.done {
		c.halt()
	}
	return r
}

// yieldNow suspends the current computation and returns what it is resumed with
func (m *Machine) yieldNow(v Value) Value {
	c := m.co
	depth := m.depth
	if !c.yield(Result{Code: YIELD, Val: v}) {
		panic(abortCo{})
	}
	m.depth = depth
	return c.in
}

// isolated runs a computation that cannot be resumed: yields are results
func (m *Machine) isolated(f func() Result) Result {
	c := m.newCoro(f)
	return m.resume(c, nil)
}

// Context holds the named entities of a scope
type Context struct {
	parent *Context
	consts map[string]Value
	vars   map[string]Value
	cmds   map[string]*Cmd
	// Picol scope: commands have names only
	picol bool
}

// Scope is a view on a context with optional local variables
type Scope struct {
	ctx   *Context
	slots map[string]int
	vals  []Value
	// Neither variables nor commands can be resolved
	sealed bool
	// Resolvers of the host, in place of those of the dialect
	Hooks *Hooks
}

// Hooks are resolvers given by the host; nil ones are absent
type Hooks struct {
	Var func(name string) Value
	Cmd func(name Value) Command
	Sel func(rules []Value) (Result, *Sel)
}

// Host is implemented by the data of custom values that can be selected; false
// means that the value does not support the selection
type Host interface {
	SelIndex(v Value) (Result, bool)
	SelKey(v Value) (Result, bool)
	SelRules(rules []Value) (Result, bool)
	Sel(s Sel) (Result, bool)
}

// CustomSelector is implemented by the only value of custom selectors
type CustomSelector interface {
	Apply(v Value) Result
}

func newContext(parent *Context) *Context {
	return &Context{parent: parent, consts: map[string]Value{}, vars: map[string]Value{}, cmds: map[string]*Cmd{}}
}

func NewRoot() *Scope { return &Scope{ctx: newContext(nil)} }

func (s *Scope) child() *Scope { return &Scope{ctx: newContext(s.ctx)} }
func (s *Scope) local(slots map[string]int, vals []Value) *Scope {
	c := &Scope{ctx: s.ctx, slots: slots, vals: vals}
	if vals == nil {
		c.vals = make([]Value, len(slots))
	}
	return c
}

// Command returns a command of the scope
func (s *Scope) Command(name string) Command { return s.ctx.cmds[name].C }

func (s *Scope) Register(name string, c Command) { s.ctx.cmds[name] = &Cmd{c} }

func (s *Scope) lookup(name string) Value {
	if s.Hooks != nil {
		return s.Hooks.Var(name)
	}
	if s.slots != nil {
		if i, ok := s.slots[name]; ok {
			return s.vals[i]
		}
	}
	if v, ok := s.ctx.consts[name]; ok {
		return v
	}
	if v, ok := s.ctx.vars[name]; ok {
		return v
	}
	return nil
}

// intrinsics
type intrinsic int

const (
	lastResultCmd intrinsic = iota
	shiftCmd
)

func (intrinsic) Exec(m *Machine, args []Value, s *Scope) Result {
	return fail("intrinsic command cannot be called directly")
}

func isNumberString(s string) bool {
	_, err := strconv.ParseFloat(s, 64)
	return err == nil
}

func (s *Scope) named(name string) Command {
	for c := s.ctx; c != nil; c = c.parent {
		if cmd := c.cmds[name]; cmd != nil {
			return cmd.C
		}
	}
	return nil
}

func (s *Scope) command(v Value) Command {
	if s.sealed {
		return nil
	}
	if s.Hooks != nil {
		return s.Hooks.Cmd(v)
	}
	if s.ctx.picol {
		name, _ := str(v)
		return s.named(name)
	}
	switch v := v.(type) {
	case Tuple:
		return prefixCmd{}
	case *Cmd:
		return v.C
	case Int, Real:
		return numberCmd{}
	}
	name, is := str(v)
	if !is {
		return nil
	}
	if c := s.named(name); c != nil {
		return c
	}
	if isNumberString(name) {
		return numberCmd{}
	}
	return nil
}

// prefixCmd calls commands given as tuples
type prefixCmd struct{}

func flattenLead(args []Value) []Value {
	for len(args) > 0 {
		t, is := args[0].(Tuple)
		if !is {
			break
		}
		args = append(append([]Value{}, t...), args[1:]...)
	}
	return args
}

func (prefixCmd) Exec(m *Machine, args []Value, s *Scope) Result {
	args = flattenLead(args)
	if len(args) == 0 {
		return ok(Nil{})
	}
	c := s.command(args[0])
	if c == nil {
		if name, is := str(args[0]); is {
			return fail(`cannot resolve command "` + name + `"`)
		}
		return fail("invalid command name")
	}
	return m.call(c, args, s)
}

func (prefixCmd) Help(m *Machine, args []Value, o HelpOpts, s *Scope) Result {
	panic(Inconclusive{"help"})
}

func (m *Machine) call(c Command, args []Value, s *Scope) Result {
	m.depth++
	if m.depth > 1500 {
		panic(Inconclusive{"depth"})
	}
	r := c.Exec(m, append([]Value{}, args...), s)
	m.depth--
	return r
}

// state is the state of a script being run
type state struct {
	scope   *Scope
	script  *Script
	result  Value
	frames  []Value
	frame   []Value
	isCall  bool
	pos     Pos
	hasPos  bool
	prev    Command
	dynamic bool
	// Whether the script completed normally
	completed bool
}

func (st *state) at(p Pos) { st.pos, st.hasPos, st.isCall = p, true, false }
func (st *state) noPos()   { st.hasPos, st.isCall = false, false }
func (st *state) open() {
	st.frames = append(st.frames, Nil{})
	st.frame = nil
}
func (st *state) close(frame []Value) {
	st.frames = st.frames[:len(st.frames)-1]
	st.frame = frame
}
func (st *state) set(v Value) {
	st.result = v
	st.frames[len(st.frames)-1] = v
}

func newState(sc *Scope, s *Script) *state {
	return &state{scope: sc, script: s, result: Nil{}, frames: []Value{Nil{}}}
}

// stack adds a level to an error
func (m *Machine) level(st *state, r Result) Result {
	if r.Code != ERROR || !m.Capture {
		r.Stack = nil
		return r
	}
	if st.completed {
		// The error comes from the caller
		return r
	}
	l := Level{Frame: append([]Value{}, st.frame...), Call: st.isCall}
	if st.hasPos && !st.dynamic && st.pos.Line >= 0 {
		l.HasPos, l.Pos, l.File, l.Src = true, st.pos, st.script.File, st.script.Src
	}
	r.Stack = append(append([]Level{}, r.Stack...), l)
	return r
}

// raw runs a script without adding its level to errors
func (m *Machine) raw(s *Script, sc *Scope) (Result, *state) {
	st := newState(sc, s)
	if m.first != nil {
		st.result, st.frames[0] = m.first, m.first
		m.first = nil
	}
	if s.invalid() {
		st.dynamic = true
		st.frame = []Value{&Cmd{nil}}
		return fail("invalid word structure"), st
	}
	m.depth++
	if m.depth > 1500 {
		panic(Inconclusive{"depth"})
	}
	defer func() { m.depth-- }()
	st.completed = true
	if len(s.Sents) == 0 {
		return ok(Nil{}), st
	}
	v, e := m.sentences(st, s)
	if e != nil {
		st.completed = false
		return *e, st
	}
	return ok(v), st
}

// run runs a script
func (m *Machine) run(s *Script, sc *Scope) Result {
	r, st := m.raw(s, sc)
	return m.level(st, r)
}

// rawArgs evaluates a sentence made of values
func (m *Machine) rawArgs(args []Value, sc *Scope) (Result, *state) {
	st := newState(sc, &Script{})
	st.dynamic = true
	m.depth++
	if m.depth > 1500 {
		panic(Inconclusive{"depth"})
	}
	defer func() { m.depth-- }()
	st.frame = args
	if e := m.evaluate(st, args); e != nil {
		return *e, st
	}
	st.completed = true
	return ok(st.result), st
}

func (m *Machine) runArgs(args []Value, sc *Scope) Result {
	r, st := m.rawArgs(args, sc)
	return m.level(st, r)
}

// invalid reports whether any word of the script has an invalid structure
func (s *Script) invalid() bool {
	if s.checked {
		return s.bad
	}
	bad := false
	for _, se := range s.Sents {
		for _, w := range se.Words {
			if w.Val == nil && invalidWord(w) {
				bad = true
			}
		}
	}
	s.checked, s.bad = true, bad
	return bad
}

func invalidWord(w *Word) bool {
	switch Classify(w.Nodes) {
	case WInvalid:
		return true
	case WIgnored:
		return false
	}
	return invalidNodes(w.Nodes)
}

func invalidNodes(ns []*Node) bool {
	inStem := false
	for i, n := range ns {
		switch n.Kind {
		case NTuple, NExpr:
			if n.Sub.invalid() {
				return true
			}
		case NString:
			if invalidNodes(n.Kids) {
				return true
			}
		case NBlock:
			// Only selectors are evaluated
			if i > 0 && ns[i-1].Kind != NSubst && n.Sub.invalid() {
				return true
			}
		}
	}
	_ = inStem
	return false
}

// sentences evaluates the sentences of a script or expression
func (m *Machine) sentences(st *state, s *Script) (Value, *Result) {
	for _, se := range s.Sents {
		st.open()
		var frame []Value
		for _, w := range se.Words {
			if e := m.word(st, w, &frame); e != nil {
				return nil, e
			}
		}
		st.close(frame)
		st.at(se.Pos)
		if e := m.evaluate(st, frame); e != nil {
			return nil, e
		}
	}
	return st.result, nil
}

func (m *Machine) evaluate(st *state, args []Value) *Result {
	m.burn(1)
	st.isCall = true
	for len(args) > 0 {
		c := st.scope.command(args[0])
		if c == nil {
			var r Result
			if name, is := str(args[0]); is {
				r = fail(`cannot resolve command "` + name + `"`)
			} else {
				r = fail("invalid command name")
			}
			return &r
		}
		prev := st.prev
		st.prev = c
		if c == lastResultCmd {
			return nil
		}
		if c == shiftCmd {
			if len(args) < 2 || prev == shiftCmd {
				return nil
			}
			args[0], args[1] = args[1], st.frames[len(st.frames)-1]
			continue
		}
		pos, has, frame := st.pos, st.hasPos, st.frame
		r := m.call(c, args, st.scope)
		st.pos, st.hasPos, st.frame, st.isCall = pos, has, frame, true
		if r.Code != OK {
			return &r
		}
		st.set(r.Val)
		return nil
	}
	return nil
}

func bail(r Result) *Result { return &r }

// word evaluates a word into the given frame
func (m *Machine) word(st *state, w *Word, frame *[]Value) *Result {
	push := func(v Value) { *frame = append(*frame, v) }
	if w.Val != nil {
		push(w.Val)
		return nil
	}
	ns := w.Nodes
	switch Classify(ns) {
	case WIgnored:
		return nil
	case WRoot:
		v, e := m.root(st, ns[0])
		if e != nil {
			return e
		}
		push(v)
	case WCompound:
		v, e := m.join(st, ns, w.Pos)
		if e != nil {
			return e
		}
		push(v)
	case WSubst:
		n, v, e := m.stem(st, ns, 0)
		if e != nil {
			return e
		}
		if n != len(ns) {
			panic("substitution word")
		}
		if t, is := v.(Tuple); is && ns[0].Exp {
			*frame = append(*frame, t...)
			m.size(len(*frame))
		} else {
			push(v)
		}
	case WQualified:
		var src Value
		var e *Result
		switch ns[0].Kind {
		case NLiteral, NBlock:
			src = Str(ns[0].Value)
		default:
			if src, e = m.tuple(st, ns[0]); e != nil {
				return e
			}
		}
		v, e := m.selectors(st, &Qual{Source: src}, ns[1:])
		if e != nil {
			return e
		}
		push(v)
	default:
		panic("invalid word")
	}
	return nil
}

func (m *Machine) root(st *state, n *Node) (Value, *Result) {
	switch n.Kind {
	case NLiteral, NHere, NTagged:
		return Str(n.Value), nil
	case NTuple:
		return m.tuple(st, n)
	case NBlock:
		src := n.Value
		return &ScriptV{S: n.Sub, Source: &src}, nil
	case NExpr:
		return m.expr(st, n)
	case NString:
		return m.join(st, n.Kids, n.Pos)
	}
	panic("root")
}

func (m *Machine) expr(st *state, n *Node) (Value, *Result) {
	if len(n.Sub.Sents) == 0 {
		return Nil{}, nil
	}
	return m.sentences(st, n.Sub)
}

func (m *Machine) words(st *state, s *Script) ([]Value, *Result) {
	st.open()
	var vs []Value
	for _, se := range s.Sents {
		for _, w := range se.Words {
			if e := m.word(st, w, &vs); e != nil {
				return nil, e
			}
		}
	}
	st.close(vs)
	return vs, nil
}

func (m *Machine) tuple(st *state, n *Node) (Value, *Result) {
	vs, e := m.words(st, n.Sub)
	if e != nil {
		return nil, e
	}
	return Tuple(vs), nil
}

// stem evaluates a stem (literal, expression or substitution) and returns the
// index of the next node
func (m *Machine) stem(st *state, ns []*Node, i int) (int, Value, *Result) {
	switch ns[i].Kind {
	case NLiteral:
		return i + 1, Str(ns[i].Value), nil
	case NExpr:
		v, e := m.expr(st, ns[i])
		return i + 1, v, e
	}
	first := i
	for ns[i].Kind == NSubst {
		i++
	}
	levels := i - first
	var v Value
	var e *Result
	switch n := ns[i]; n.Kind {
	case NExpr:
		v, e = m.expr(st, n)
	default:
		switch n.Kind {
		case NLiteral, NBlock:
			v = Str(n.Value)
		case NTuple:
			v, e = m.tuple(st, n)
		}
		if e == nil {
			st.at(ns[first+levels-1].Pos)
			v, e = resolve(st.scope, v)
		}
	}
	if e != nil {
		return 0, nil, e
	}
	i++
	end := i
	for end < len(ns) && isSelector(ns[end]) {
		end++
	}
	v, e = m.selectors(st, v, ns[i:end])
	if e != nil {
		return 0, nil, e
	}
	for l := levels - 1; l >= 1; l-- {
		st.at(ns[first+l-1].Pos)
		if v, e = resolve(st.scope, v); e != nil {
			return 0, nil, e
		}
	}
	return end, v, nil
}

func (m *Machine) join(st *state, ns []*Node, pos Pos) (Value, *Result) {
	st.open()
	var vs []Value
	for i := 0; i < len(ns); {
		n, v, e := m.stem(st, ns, i)
		if e != nil {
			return nil, e
		}
		vs = append(vs, v)
		i = n
	}
	st.close(vs)
	st.at(pos)
	var b strings.Builder
	for _, v := range vs {
		s, is := str(v)
		if !is {
			return nil, bail(fail("value has no string representation"))
		}
		b.WriteString(s)
	}
	m.size(b.Len())
	return Str(b.String()), nil
}

func (m *Machine) selectors(st *state, v Value, ns []*Node) (Value, *Result) {
	for _, n := range ns {
		switch n.Kind {
		case NExpr:
			i, e := m.expr(st, n)
			if e != nil {
				return nil, e
			}
			st.at(n.Pos)
			if _, is := i.(Nil); is {
				return nil, bail(fail("invalid index"))
			}
			r := selectIndex(v, i)
			if r.Code != OK {
				return nil, &r
			}
			v = r.Val
		case NTuple:
			ks, e := m.words(st, n.Sub)
			if e != nil {
				return nil, e
			}
			st.at(n.Pos)
			if len(ks) == 0 {
				return nil, bail(fail("empty selector"))
			}
			r := selectKeys(v, ks)
			if r.Code != OK {
				return nil, &r
			}
			v = r.Val
		case NBlock:
			st.open()
			var rules []Value
			for _, se := range n.Sub.Sents {
				st.open()
				var vs []Value
				for _, w := range se.Words {
					if e := m.word(st, w, &vs); e != nil {
						return nil, e
					}
				}
				st.close(vs)
				rules = append(rules, Tuple(vs))
			}
			st.close(rules)
			st.at(n.Pos)
			if st.scope.Hooks == nil || st.scope.Hooks.Sel == nil {
				return nil, bail(fail("no selector resolver"))
			}
			r, sel := st.scope.Hooks.Sel(rules)
			if r.Code != OK {
				return nil, &r
			}
			if sel == nil {
				return nil, bail(fail("cannot resolve selector"))
			}
			if r = applySel(v, *sel); r.Code != OK {
				return nil, &r
			}
			v = r.Val
		}
	}
	return v, nil
}

// resolve gives the value of a variable name, tuple or qualified word
func resolve(s *Scope, v Value) (Value, *Result) {
	switch v := v.(type) {
	case Tuple:
		out := make(Tuple, len(v))
		for i, e := range v {
			x, err := resolve(s, e)
			if err != nil {
				return nil, err
			}
			out[i] = x
		}
		return out, nil
	case *Qual:
		x, err := resolve(s, v.Source)
		if err != nil {
			return nil, err
		}
		for _, sel := range v.Sels {
			r := selApply(sel, x)
			if r.Code != OK {
				return nil, &r
			}
			x = r.Val
		}
		return x, nil
	}
	name, is := str(v)
	if !is {
		return nil, bail(fail("invalid variable name"))
	}
	if x := s.lookup(name); x != nil {
		return x, nil
	}
	return nil, bail(fail(`cannot resolve variable "` + name + `"`))
}

// applySel selects a value by a selector found from rules
func applySel(v Value, s Sel) Result {
	switch v := v.(type) {
	case Tuple:
		out := make(Tuple, len(v))
		for i, x := range v {
			r := applySel(x, s)
			if r.Code != OK {
				return r
			}
			out[i] = r.Val
		}
		return ok(out)
	case *Qual:
		return ok(&Qual{v.Source, append(append([]Sel{}, v.Sels...), s)})
	case *Custom:
		if h, is := v.Data.(Host); is {
			if r, can := h.Sel(s); can {
				return r
			}
		}
	}
	return selApply(s, v)
}

// selApply applies the selection that a selector stands for
func selApply(s Sel, v Value) Result {
	switch s.Kind {
	case 'i':
		return selectIndex(v, s.Vals[0])
	case 'k':
		return selectKeys(v, s.Vals)
	case 'c':
		return s.Vals[0].(*Custom).Data.(CustomSelector).Apply(v)
	}
	switch v := v.(type) {
	case Tuple, *Qual:
		return applySel(v, s)
	case *Custom:
		if h, is := v.Data.(Host); is {
			if r, can := h.Sel(s); can {
				return r
			}
			if r, can := h.SelRules(s.Vals); can {
				return r
			}
		}
	}
	return fail("value is not selectable")
}

func selectIndex(v, index Value) Result {
	switch v := v.(type) {
	case *Custom:
		if h, is := v.Data.(Host); is {
			if r, can := h.SelIndex(index); can {
				return r
			}
		}
	case Str:
		i, e := toInt(index)
		if e != nil {
			return *e
		}
		if i < 0 || i >= int64(len(v)) {
			return fail(`index out of range "` + strconv.FormatInt(i, 10) + `"`)
		}
		return ok(v[i : i+1])
	case List:
		i, e := toInt(index)
		if e != nil {
			return *e
		}
		if i < 0 || i >= int64(len(v)) {
			return fail(`index out of range "` + strconv.FormatInt(i, 10) + `"`)
		}
		return ok(v[i])
	case Tuple:
		out := make(Tuple, len(v))
		for i, x := range v {
			r := selectIndex(x, index)
			if r.Code != OK {
				return r
			}
			out[i] = r.Val
		}
		return ok(out)
	case *Qual:
		if _, is := index.(Nil); is {
			return fail("invalid index")
		}
		return ok(&Qual{v.Source, append(append([]Sel{}, v.Sels...), Sel{'i', []Value{index}})})
	}
	return fail("value is not index-selectable")
}

func selectKeys(v Value, keys []Value) Result {
	for _, k := range keys {
		r := selectKey(v, k)
		if r.Code != OK {
			return r
		}
		v = r.Val
	}
	return ok(v)
}

func selectKey(v, key Value) Result {
	switch v := v.(type) {
	case Dict:
		k, is := str(key)
		if !is {
			return fail("invalid key")
		}
		x, has := v[k]
		if !has {
			return fail("unknown key")
		}
		return ok(x)
	case Tuple:
		out := make(Tuple, len(v))
		for i, x := range v {
			r := selectKey(x, key)
			if r.Code != OK {
				return r
			}
			out[i] = r.Val
		}
		return ok(out)
	case *Qual:
		sels := append([]Sel{}, v.Sels...)
		if n := len(sels); n > 0 && sels[n-1].Kind == 'k' {
			sels[n-1] = Sel{'k', append(append([]Value{}, sels[n-1].Vals...), key)}
		} else {
			sels = append(sels, Sel{'k', []Value{key}})
		}
		return ok(&Qual{v.Source, sels})
	case *Custom:
		if h, is := v.Data.(Host); is {
			if r, can := h.SelKey(key); can {
				return r
			}
		}
	case *Cmd:
		if ks, is := v.C.(interface{ SelectKey(Value) Result }); is {
			return ks.SelectKey(key)
		}
	}
	return fail("value is not key-selectable")
}

// Conversions

func str(v Value) (string, bool) {
	switch v := v.(type) {
	case Str:
		return string(v), true
	case Bool:
		return strconv.FormatBool(bool(v)), true
	case Int:
		return strconv.FormatInt(int64(v), 10), true
	case Real:
		return strconv.FormatFloat(float64(v), 'g', -1, 64), true
	case *ScriptV:
		if v.Source != nil {
			return *v.Source, true
		}
	}
	return "", false
}

func noString() *Result { return bail(fail("value has no string representation")) }

func toStr(v Value) (string, *Result) {
	s, is := str(v)
	if !is {
		return "", noString()
	}
	return s, nil
}

func toInt(v Value) (int64, *Result) {
	if i, is := v.(Int); is {
		return int64(i), nil
	}
	s, is := str(v)
	if !is {
		return 0, noString()
	}
	i, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return 0, bail(fail(`invalid integer "` + s + `"`))
	}
	return i, nil
}

func toFloat(v Value) (float64, *Result) {
	switch v := v.(type) {
	case Real:
		return float64(v), nil
	case Int:
		return float64(v), nil
	}
	s, is := str(v)
	if !is {
		return 0, noString()
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return 0, bail(fail(`invalid number "` + s + `"`))
	}
	return f, nil
}

func toBool(v Value) (bool, *Result) {
	if b, is := v.(Bool); is {
		return bool(b), nil
	}
	s, is := str(v)
	if !is {
		return false, noString()
	}
	switch s {
	case "true":
		return true, nil
	case "false":
		return false, nil
	}
	return false, bail(fail(`invalid boolean "` + s + `"`))
}

func number(f float64) Value {
	if f >= -9.2e18 && f <= 9.2e18 {
		if i := int64(f); float64(i) == f {
			return Int(i)
		}
	} else if f == -9223372036854775808 || f > -9223372036854775808 && f < 9223372036854775808 {
		return Int(int64(f))
	}
	return Real(f)
}

// Source evaluates a script in a scope on behalf of a command
func (m *Machine) Source(s *Script, sc *Scope) Result { return m.run(s, sc) }

// LastResult and Shift are the intrinsic commands
var LastResult, Shift Command = lastResultCmd, shiftCmd

// Str gives the string form of a value
func String(v Value) (string, bool) { return str(v) }

// Invalid reports whether a script has words with an invalid structure
func (s *Script) Invalid() bool { return s.invalid() }

// InvalidWord reports whether a word has an invalid structure
func InvalidWord(w *Word) bool { return invalidWord(w) }

// Run runs a script
func (m *Machine) Run(s *Script, sc *Scope) Result { return m.run(s, sc) }

// Words evaluates the words of sentences in turn; single tells whether the only
// word gave one value
func (m *Machine) Words(ss []*Sentence, sc *Scope) Result {
	st := newState(sc, &Script{})
	vs, e := m.words(st, &Script{Sents: ss})
	if e != nil {
		return *e
	}
	return ok(Tuple(vs))
}

// Select applies a selector to a value
func Select(v Value, s Sel) Result { return applySel(v, s) }
