package ref

const (
	sigLoop  = "loop ?index? ?value source ...? body"
	sigWhile = "while test body"
	sigIf    = "if test body ?elseif test body ...? ?else? ?body?"
	sigWhen  = "when ?command? {?test body ...? ?default?}"
	sigCatch = "catch body ?return value handler? ?yield value handler? ?error message handler? ?break handler? ?continue handler? ?finally handler?"
)

// simple is a command with a fixed signature and arity
type simple struct {
	sig      string
	min, max int // number of arguments, including the command; max -1: any
	// Upper bound used by help, if different
	helpExact bool
	f         func(m *Machine, a []Value, s *Scope) Result
}

func (c *simple) Exec(m *Machine, a []Value, s *Scope) Result {
	if len(a) < c.min || c.max >= 0 && len(a) > c.max {
		return arity(c.sig)
	}
	return c.f(m, a, s)
}

func (c *simple) Help(m *Machine, a []Value, o HelpOpts, s *Scope) Result {
	if c.max >= 0 && len(a) > c.max || c.helpExact && len(a) != c.max {
		return arity(c.sig)
	}
	return ok(Str(c.sig))
}

func constResult(c Code) func(m *Machine, a []Value, s *Scope) Result {
	return func(m *Machine, a []Value, s *Scope) Result {
		if len(a) == 2 {
			return Result{Code: c, Val: a[1]}
		}
		return Result{Code: c, Val: Nil{}}
	}
}

func registerBasic(s *Scope) {
	def := func(name, sig string, min, max int, f func(m *Machine, a []Value, s *Scope) Result) {
		s.Register(name, &simple{sig: sig, min: min, max: max, f: f})
	}
	def("idem", "idem value", 2, 2, func(m *Machine, a []Value, s *Scope) Result { return ok(a[1]) })
	def("return", "return ?result?", 1, 2, constResult(RETURN))
	def("yield", "yield ?result?", 1, 2, func(m *Machine, a []Value, s *Scope) Result {
		var v Value = Nil{}
		if len(a) == 2 {
			v = a[1]
		}
		return ok(m.yieldNow(v))
	})
	def("error", "error message", 2, 2, func(m *Machine, a []Value, s *Scope) Result {
		if _, is := str(a[1]); !is {
			return fail("invalid message")
		}
		return Result{Code: ERROR, Val: a[1]}
	})
	def("break", "break", 1, 1, constResult(BREAK))
	def("continue", "continue", 1, 1, constResult(CONTINUE))
	def("eval", "eval body", 2, 2, func(m *Machine, a []Value, s *Scope) Result {
		switch b := a[1].(type) {
		case *ScriptV:
			return m.run(b.S, s)
		case Tuple:
			return m.runArgs(append([]Value{}, b...), s)
		}
		return fail("body must be a script or tuple")
	})
	def("help", "help command ?arg ...?", 2, -1, func(m *Machine, a []Value, s *Scope) Result {
		c := s.command(a[1])
		name, is := str(a[1])
		if c == nil {
			if is {
				return fail(`unknown command "` + name + `"`)
			}
			return fail("invalid command name")
		}
		if h, can := c.(Helper); can {
			if _, p := c.(prefixCmd); !p {
				return h.Help(m, a[1:], HelpOpts{}, s)
			}
		}
		if is {
			return fail(`no help for command "` + name + `"`)
		}
		return fail("no help for command")
	})
	s.Register("^", lastResultCmd)
	s.Register("|>", shiftCmd)

	def("let", "let constname value", 3, 3, func(m *Machine, a []Value, s *Scope) Result {
		return destructure(a[1], a[2], s.checkConst, func(n string, v Value) { s.ctx.consts[n] = v })
	})
	def("set", "set varname value", 3, 3, func(m *Machine, a []Value, s *Scope) Result {
		return destructure(a[1], a[2], s.checkVar, func(n string, v Value) { s.ctx.vars[n] = v })
	})
	def("get", "get varname ?default?", 2, 3, func(m *Machine, a []Value, s *Scope) Result {
		switch a[1].(type) {
		case Tuple:
			if len(a) == 3 {
				return fail("cannot use default with name tuples")
			}
			return get(s, a[1])
		case *Qual:
			r := get(s, a[1])
			if len(a) == 3 && r.Code != OK {
				return ok(a[2])
			}
			return r
		}
		n, is := str(a[1])
		if !is {
			return fail("invalid variable name")
		}
		if v := s.lookup(n); v != nil {
			return ok(v)
		}
		if len(a) == 3 {
			return ok(a[2])
		}
		return fail(`cannot get "` + n + `": no such variable`)
	})
	def("exists", "exists varname", 2, 2, func(m *Machine, a []Value, s *Scope) Result {
		if _, is := a[1].(Tuple); is {
			return fail("invalid value")
		}
		return ok(Bool(get(s, a[1]).Code == OK))
	})
	def("unset", "unset varname", 2, 2, func(m *Machine, a []Value, s *Scope) Result {
		if e := s.checkUnset(a[1]); e != nil {
			return *e
		}
		s.unset(a[1])
		return ok(Nil{})
	})
}

func get(s *Scope, v Value) Result {
	x, e := resolve(s, v)
	if e != nil {
		return *e
	}
	return ok(x)
}

func (s *Scope) checkConst(v Value) *Result {
	n, is := str(v)
	if !is {
		return bail(fail("invalid constant name"))
	}
	if _, is := s.slots[n]; is {
		return bail(fail(`cannot define constant "` + n + `": local already exists`))
	}
	if s.ctx.consts[n] != nil {
		return bail(fail(`cannot redefine constant "` + n + `"`))
	}
	if s.ctx.vars[n] != nil {
		return bail(fail(`cannot define constant "` + n + `": variable already exists`))
	}
	return nil
}

func (s *Scope) checkVar(v Value) *Result {
	n, is := str(v)
	if !is {
		return bail(fail("invalid variable name"))
	}
	if _, is := s.slots[n]; is {
		return bail(fail(`cannot redefine local "` + n + `"`))
	}
	if s.ctx.consts[n] != nil {
		return bail(fail(`cannot redefine constant "` + n + `"`))
	}
	return nil
}

func (s *Scope) checkUnset(v Value) *Result {
	if t, is := v.(Tuple); is {
		for _, x := range t {
			if e := s.checkUnset(x); e != nil {
				return e
			}
		}
		return nil
	}
	n, is := str(v)
	if !is {
		return bail(fail("invalid variable name"))
	}
	if _, is := s.slots[n]; is {
		return bail(fail(`cannot unset local "` + n + `"`))
	}
	if s.ctx.consts[n] != nil {
		return bail(fail(`cannot unset constant "` + n + `"`))
	}
	if s.ctx.vars[n] == nil {
		return bail(fail(`cannot unset "` + n + `": no such variable`))
	}
	return nil
}

func (s *Scope) unset(v Value) {
	if t, is := v.(Tuple); is {
		for _, x := range t {
			s.unset(x)
		}
		return
	}
	n, _ := str(v)
	delete(s.ctx.vars, n)
}

// destructure checks everything, then assigns everything
func destructure(shape, value Value, check func(Value) *Result, set func(string, Value)) Result {
	var visit func(shape, value Value, apply bool) *Result
	visit = func(shape, value Value, apply bool) *Result {
		t, is := shape.(Tuple)
		if !is {
			if apply {
				n, _ := str(shape)
				set(n, value)
				return nil
			}
			return check(shape)
		}
		vs, is := value.(Tuple)
		if !is || len(vs) < len(t) {
			return bail(fail("bad value shape"))
		}
		for i := range t {
			if e := visit(t[i], vs[i], apply); e != nil {
				return e
			}
		}
		return nil
	}
	if e := visit(shape, value, false); e != nil {
		return *e
	}
	visit(shape, value, true)
	return ok(value)
}

// localSlots collects the names of a shape
func localSlots(shape Value, slots map[string]int) *Result {
	if t, is := shape.(Tuple); is {
		for _, x := range t {
			if e := localSlots(x, slots); e != nil {
				return e
			}
		}
		return nil
	}
	n, is := str(shape)
	if !is {
		return bail(fail("invalid local name"))
	}
	if _, dup := slots[n]; dup {
		return bail(fail(`duplicate local name "` + n + `"`))
	}
	slots[n] = len(slots)
	return nil
}

func (s *Scope) destructureLocal(shape, value Value) Result {
	return destructure(shape, value, func(v Value) *Result {
		n, is := str(v)
		if !is {
			return bail(fail("invalid local name"))
		}
		if _, is := s.slots[n]; !is {
			return bail(fail(`unknown local "` + n + `"`))
		}
		return nil
	}, func(n string, v Value) { s.vals[s.slots[n]] = v })
}

func registerLogic(s *Scope) {
	boolean := func(name string, value bool) {
		s.Register(name, boolCmd{name, value})
	}
	boolean("true", true)
	boolean("false", false)
	s.Register("!", &simple{sig: "! arg", min: 2, max: 2, f: func(m *Machine, a []Value, s *Scope) Result {
		b, e := m.condition(a[1], s)
		if e != nil {
			return *e
		}
		return ok(Bool(!b))
	}})
	chain := func(stop bool) func(m *Machine, a []Value, s *Scope) Result {
		return func(m *Machine, a []Value, s *Scope) Result {
			for _, v := range a[1:] {
				b, e := m.condition(v, s)
				if e != nil {
					return *e
				}
				if b == stop {
					return ok(Bool(stop))
				}
			}
			return ok(Bool(!stop))
		}
	}
	s.Register("&&", &simple{sig: "&& arg ?arg ...?", min: 2, max: -1, f: chain(false)})
	s.Register("||", &simple{sig: "|| arg ?arg ...?", min: 2, max: -1, f: chain(true)})
}

// condition evaluates a boolean value or script
func (m *Machine) condition(v Value, s *Scope) (bool, *Result) {
	sv, is := v.(*ScriptV)
	if !is {
		return toBool(v)
	}
	r, st := m.raw(sv.S, s)
	if r.Code == OK {
		b, e := toBool(r.Val)
		if e == nil {
			return b, nil
		}
		r = *e
	}
	r = m.level(st, r)
	return false, &r
}

type boolCmd struct {
	name  string
	value bool
}

func (c boolCmd) Exec(m *Machine, a []Value, s *Scope) Result {
	if len(a) == 1 {
		return ok(Bool(c.value))
	}
	sub, is := str(a[1])
	if !is {
		return fail("invalid subcommand name")
	}
	switch sub {
	case "subcommands":
		if len(a) != 2 {
			return arity(c.name + " subcommands")
		}
		return ok(strs("subcommands", "?", "!?"))
	case "?", "!?":
		if len(a) < 3 || len(a) > 4 {
			return arity(c.name + " " + sub + " arg ?arg?")
		}
		if c.value == (sub == "?") {
			return ok(a[2])
		}
		if len(a) == 4 {
			return ok(a[3])
		}
		return ok(Nil{})
	}
	return fail(`unknown subcommand "` + sub + `"`)
}

func (c boolCmd) Help(m *Machine, a []Value, o HelpOpts, s *Scope) Result {
	if len(a) == 1 {
		return ok(Str(c.name + " ?subcommand?"))
	}
	sub, is := str(a[1])
	if !is {
		return fail("invalid subcommand name")
	}
	sig, max := "", 0
	switch sub {
	case "subcommands":
		sig, max = c.name+" subcommands", 2
	case "?", "!?":
		sig, max = c.name+" "+sub+" arg ?arg?", 4
	default:
		return fail(`unknown subcommand "` + sub + `"`)
	}
	if len(a) > max {
		return arity(sig)
	}
	return ok(Str(sig))
}

func strs(ss ...string) List {
	l := make(List, len(ss))
	for i, s := range ss {
		l[i] = Str(s)
	}
	return l
}

func registerControls(s *Scope) {
	s.Register("loop", &simple{sig: sigLoop, min: 2, max: -1, f: doLoop})
	s.Register("while", &simple{sig: sigWhile, min: 3, max: 3, f: doWhile})
	s.Register("if", &simple{sig: sigIf, min: 0, max: -1, f: doIf})
	s.Register("when", &simple{sig: sigWhen, min: 2, max: 3, f: doWhen})
	s.Register("catch", &simple{sig: sigCatch, min: 0, max: -1, f: doCatch})
	s.Register("pass", &simple{sig: "pass", min: 1, max: 1, helpExact: true, f: constResult(PASS)})
}

func doWhile(m *Machine, a []Value, s *Scope) Result {
	body, is := a[2].(*ScriptV)
	if !is {
		return fail("body must be a script")
	}
	test, dynamic := a[1].(*ScriptV)
	last := ok(Nil{})
	if !dynamic {
		b, e := toBool(a[1])
		if e != nil {
			return *e
		}
		if !b {
			return last
		}
	}
	for {
		m.burn(1)
		if dynamic {
			b, e := m.condition(test, s)
			if e != nil {
				return *e
			}
			if !b {
				return last
			}
		}
		r := m.run(body.S, s)
		switch r.Code {
		case OK:
			last = r
		case BREAK:
			return last
		case CONTINUE:
		default:
			return r
		}
	}
}

func doIf(m *Machine, a []Value, s *Scope) Result {
	if len(a) == 2 {
		return fail("wrong # args: missing if body")
	}
	i := 3
	for i < len(a) {
		k, is := str(a[i])
		if !is {
			return fail("invalid keyword")
		}
		left := len(a) - i
		switch {
		case k == "elseif" && left == 1:
			return fail("wrong # args: missing elseif test")
		case k == "elseif" && left == 2:
			return fail("wrong # args: missing elseif body")
		case k == "elseif":
			i += 3
		case k == "else" && left == 1:
			return fail("wrong # args: missing else body")
		case k == "else":
			i += 2
		default:
			return fail(`invalid keyword "` + k + `"`)
		}
	}
	if i != len(a) {
		return arity(sigIf)
	}
	for i := 0; i < len(a); i += 3 {
		var body Value
		if k, _ := str(a[i]); k == "else" && i > 0 {
			body = a[i+1]
		} else {
			b, e := m.condition(a[i+1], s)
			if e != nil {
				return *e
			}
			if !b {
				continue
			}
			body = a[i+2]
		}
		sv, is := body.(*ScriptV)
		if !is {
			return fail("body must be a script")
		}
		return m.run(sv.S, s)
	}
	return ok(Nil{})
}

func doWhen(m *Machine, a []Value, s *Scope) Result {
	cases, e := m.array(a[len(a)-1])
	if e != nil {
		return *e
	}
	body := func(v Value) Result {
		sv, is := v.(*ScriptV)
		if !is {
			return fail("body must be a script")
		}
		return m.run(sv.S, s)
	}
	for i := 0; i < len(cases); i += 2 {
		if i == len(cases)-1 {
			return body(cases[i])
		}
		test := cases[i]
		if len(a) == 3 {
			cmd := a[1]
			if sv, is := cmd.(*ScriptV); is {
				r := m.run(sv.S, s)
				if r.Code != OK {
					return r
				}
				cmd = r.Val
			}
			if t, is := test.(Tuple); is {
				test = append(Tuple{cmd}, t...)
			} else {
				test = Tuple{cmd, test}
			}
		}
		var b bool
		if t, is := test.(Tuple); is {
			r, st := m.rawArgs(append([]Value{}, t...), s)
			if r.Code == OK {
				var e *Result
				if b, e = toBool(r.Val); e != nil {
					r = *e
				}
			}
			if r.Code != OK {
				return m.level(st, r)
			}
		} else {
			var e *Result
			if b, e = m.condition(test, s); e != nil {
				return *e
			}
		}
		if b {
			return body(cases[i+1])
		}
	}
	return ok(Nil{})
}

func doLoop(m *Machine, a []Value, s *Scope) Result {
	hasIndex := len(a)%2 == 1
	slots := map[string]int{}
	first := 1
	index := ""
	if hasIndex {
		var is bool
		if index, is = str(a[1]); !is {
			return fail("invalid index name")
		}
		first = 2
		slots[index] = 0
	}
	body, is := a[len(a)-1].(*ScriptV)
	if !is {
		return fail("body must be a script")
	}
	type source struct {
		shape Value
		next  func(i int) Result
		off   bool
		run   bool
	}
	var sources []*source
	for i := first; i < len(a)-1; i += 2 {
		if e := localSlots(a[i], slots); e != nil {
			return *e
		}
	}
	sub := s.local(slots, nil)
	for i := first; i < len(a)-1; i += 2 {
		src := &source{shape: a[i]}
		items := func(vs []Value) {
			src.next = func(i int) Result {
				if i >= len(vs) {
					return Result{Code: BREAK}
				}
				return ok(vs[i])
			}
		}
		switch v := a[i+1].(type) {
		case List:
			items(v)
		case Dict:
			items(dictEntries(v))
		case *ScriptV:
			src.run = true
			src.next = func(int) Result { return m.run(v.S, sub) }
		default:
			if s.command(v) == nil {
				return fail("invalid source")
			}
			src.run = true
			src.next = func(i int) Result { return m.runArgs([]Value{v, Int(i)}, sub) }
		}
		sources = append(sources, src)
	}
	last := ok(Nil{})
	active := len(sources)
	jumped := false
	for i := 0; ; i++ {
		m.burn(1)
		clear(sub.vals)
		if hasIndex {
			sub.vals[0] = Int(i)
		}
		for _, src := range sources {
			if src.off {
				continue
			}
			if active == 0 {
				break
			}
			r := src.next(i)
			if src.run {
				jumped = r.Code != OK
			}
			switch r.Code {
			case BREAK:
				src.off = true
				active--
			case CONTINUE:
			case OK:
				if r := sub.destructureLocal(src.shape, r.Val); r.Code != OK {
					// Reported by the context that jumped
					m.Unsure = m.Unsure || jumped
					return r
				}
			default:
				return r
			}
		}
		if len(sources) > 0 && active == 0 {
			return last
		}
		r := m.run(body.S, sub)
		jumped = r.Code != OK
		switch r.Code {
		case OK:
			last = r
		case BREAK:
			return last
		case CONTINUE:
		default:
			return r
		}
	}
}

// dictEntries gives the entries of a dictionary, whose order is unspecified
func dictEntries(d Dict) []Value {
	if len(d) > 1 {
		panic(Inconclusive{"dictionary order"})
	}
	var out []Value
	for k, v := range d {
		out = append(out, Tuple{Str(k), v})
	}
	return out
}

func doCatch(m *Machine, a []Value, s *Scope) Result {
	type handler struct {
		name string
		body *Script
	}
	handlers := map[string]handler{}
	for i := 2; i < len(a); {
		k, is := str(a[i])
		if !is {
			return fail("invalid keyword")
		}
		left := len(a) - i
		n := 2
		switch k {
		case "return", "yield", "error":
			n = 3
			if left == 1 {
				return fail("wrong #args: missing " + k + " handler parameter")
			}
			if left == 2 {
				return fail("wrong #args: missing " + k + " handler body")
			}
			if _, is := str(a[i+1]); !is {
				return fail("invalid " + k + " handler parameter name")
			}
		case "break", "continue", "finally":
			if left == 1 {
				return fail("wrong #args: missing " + k + " handler body")
			}
		default:
			return fail(`invalid keyword "` + k + `"`)
		}
		b, is := a[i+n-1].(*ScriptV)
		if !is {
			return fail("invalid " + k + " handler body")
		}
		if _, has := handlers[k]; !has {
			name, _ := str(a[i+1])
			handlers[k] = handler{name, b.S}
		}
		i += n
	}
	if len(a) == 1 {
		return arity(sigCatch)
	}
	body, is := a[1].(*ScriptV)
	if !is {
		return fail("body must be a script")
	}
	if len(a) == 2 {
		r := m.isolated(func() Result { return m.run(body.S, s) })
		switch r.Code {
		case BREAK, CONTINUE, PASS:
			return ok(Tuple{Str(r.Code.String())})
		}
		return ok(Tuple{Str(r.Code.String()), r.Val})
	}
	co := m.newCoro(func() Result { return m.run(body.S, s) })
	var in Value
	for {
		outcome := m.resume(co, in)
		result := outcome
		h, has := handlers[outcome.Code.String()]
		if has && outcome.Code != OK {
			sub := s
			if outcome.Code == RETURN || outcome.Code == YIELD || outcome.Code == ERROR {
				sub = s.local(map[string]int{h.name: 0}, []Value{outcome.Val})
			}
			result = m.run(h.body, sub)
			if result.Code == PASS {
				if outcome.Code == YIELD {
					in = m.yieldNow(outcome.Val)
					continue
				}
				result = outcome
			} else if result.Code != OK {
				return result
			}
		}
		if f, has := handlers["finally"]; has {
			r := m.run(f.body, s)
			if r.Code != OK {
				return r
			}
		}
		if result.Code == YIELD {
			// Unhandled yields end the body
			return ok(m.yieldNow(result.Val))
		}
		return result
	}
}
