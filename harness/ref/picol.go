package ref

import (
	"strconv"
	"strings"
)

// Picol dialect

func picolStr(v Value) string {
	if _, is := v.(Nil); is {
		return ""
	}
	s, is := str(v)
	if !is {
		panic(Inconclusive{"name without string form"})
	}
	return s
}

func NewPicolRoot() *Scope {
	s := NewRoot()
	s.ctx.picol = true
	registerPicol(s)
	return s
}

func picolArith(name string, min int, one func(float64) float64, f func(a, b float64) float64) Command {
	return Fn(func(m *Machine, a []Value, s *Scope) Result {
		if len(a) < min {
			if min == 3 {
				return arity(name + " arg arg ?arg ...?")
			}
			return arity(name + " arg ?arg ...?")
		}
		t, e := toFloat(a[1])
		if e != nil {
			return *e
		}
		if len(a) == 2 {
			return ok(Real(one(t)))
		}
		for _, v := range a[2:] {
			n, e := toFloat(v)
			if e != nil {
				return *e
			}
			t = f(t, n)
		}
		return ok(Real(t))
	})
}

func picolEqual(a, b Value) bool {
	_, na := a.(Nil)
	_, nb := b.(Nil)
	if na && nb {
		return true
	}
	if x, is := a.(Real); is {
		if y, is := b.(Real); is && x == y {
			return true
		}
	}
	x, ia := str(a)
	y, ib := str(b)
	if ia && ib {
		return x == y
	}
	if ia != ib {
		panic(Inconclusive{"comparison without string form"})
	}
	switch a.(type) {
	case Tuple:
		if _, is := b.(Tuple); is {
			return false
		}
	case *ScriptV:
		if _, is := b.(*ScriptV); is {
			return false
		}
	case *Qual:
		if _, is := b.(*Qual); is {
			return false
		}
	}
	panic(Inconclusive{"comparison without string form"})
}

// picolTest evaluates a condition
func picolTest(m *Machine, v Value, s *Scope) (bool, *Result) {
	switch v := v.(type) {
	case Bool:
		return bool(v), nil
	case Int:
		return v != 0, nil
	case *ScriptV:
		r := m.run(v.S, s)
		if r.Code != OK {
			return false, &r
		}
		if _, is := r.Val.(Nil); is {
			return false, noString()
		}
		return toBool(r.Val)
	}
	t, _ := str(v)
	switch t {
	case "true", "yes", "1":
		return true, nil
	case "false", "no", "0":
		return false, nil
	}
	i, err := strconv.ParseInt(t, 10, 64)
	if err != nil {
		return false, bail(fail(`invalid boolean "` + t + `"`))
	}
	return i != 0, nil
}

func emptyIfNil(v Value) Result {
	if _, is := v.(Nil); is {
		return ok(Str(""))
	}
	return ok(v)
}

type picolArg struct {
	name string
	def  Value
}

type picolProc struct {
	args []picolArg
	body *ScriptV
}

func (p *picolProc) variadic() bool { return len(p.args) > 0 && p.args[len(p.args)-1].name == "args" }

func (p *picolProc) usage(name Value) string {
	s, _ := str(name)
	for i, a := range p.args {
		switch {
		case i == len(p.args)-1 && p.variadic():
			s += " ?arg ...?"
		case a.def != nil:
			s += " ?" + a.name + "?"
		default:
			s += " " + a.name
		}
	}
	return s
}

func (p *picolProc) Exec(m *Machine, a []Value, s *Scope) Result {
	m.burn(1)
	in := s.child()
	in.ctx.picol = true
	given := a[1:]
	formal := p.args
	if p.variadic() {
		formal = formal[:len(formal)-1]
	} else if len(given) > len(formal) {
		return arity(p.usage(a[0]))
	}
	for i, f := range formal {
		switch {
		case i < len(given):
			in.ctx.vars[f.name] = given[i]
		case f.def != nil:
			in.ctx.vars[f.name] = f.def
		default:
			return arity(p.usage(a[0]))
		}
	}
	if p.variadic() {
		rest := Tuple{}
		if len(given) > len(formal) {
			rest = append(rest, given[len(formal):]...)
		}
		in.ctx.vars["args"] = rest
	}
	r := m.run(p.body.S, in)
	if r.Code == ERROR {
		return r
	}
	return emptyIfNil(r.Val)
}

// picolArray reads a value as an array of words evaluated without resolvers
func picolArray(m *Machine, v Value) ([]Value, *Result) {
	switch v := v.(type) {
	case Tuple:
		return v, nil
	case *ScriptV:
		sealed := &Scope{ctx: newContext(nil), sealed: true}
		sealed.ctx.picol = true
		var out []Value
		for _, se := range v.S.Sents {
			for _, w := range se.Words {
				if w.Val == nil {
					switch Classify(w.Nodes) {
					case WIgnored:
						panic(Inconclusive{"comment in list"})
					case WInvalid:
						return nil, bail(fail("invalid word structure"))
					}
				}
				var frame []Value
				if e := m.word(newState(sealed, v.S), w, &frame); e != nil {
					if t, _ := str(e.Val); strings.HasPrefix(t, "cannot resolve variable") {
						return nil, bail(fail("no variable resolver"))
					} else if strings.HasPrefix(t, "cannot resolve command") || t == "invalid command name" {
						return nil, bail(fail("no command resolver"))
					}
					return nil, e
				}
				if len(frame) != 1 {
					panic(Inconclusive{"expansion in list"})
				}
				out = append(out, frame[0])
			}
		}
		return out, nil
	}
	return nil, bail(fail("unsupported list format"))
}

func picolArgs(m *Machine, v Value) ([]picolArg, *Result) {
	vs, e := picolArray(m, v)
	if e != nil {
		return nil, e
	}
	var out []picolArg
	for _, x := range vs {
		sv, is := x.(*ScriptV)
		if !is {
			out = append(out, picolArg{picolStr(x), nil})
			continue
		}
		parts, e := picolArray(m, sv)
		if e != nil {
			return nil, e
		}
		if len(parts) == 0 {
			return nil, bail(fail("argument with no name"))
		}
		name := picolStr(parts[0])
		if name == "" {
			return nil, bail(fail("argument with no name"))
		}
		switch len(parts) {
		case 1:
			out = append(out, picolArg{name, nil})
		case 2:
			out = append(out, picolArg{name, parts[1]})
		default:
			t, _ := str(sv)
			return nil, bail(fail(`too many fields in argument specifier "` + t + `"`))
		}
	}
	return out, nil
}

func registerPicol(s *Scope) {
	id := func(x float64) float64 { return x }
	s.Register("+", picolArith("+", 2, id, func(a, b float64) float64 { return a + b }))
	s.Register("-", picolArith("-", 2, func(x float64) float64 { return -x }, func(a, b float64) float64 { return a - b }))
	s.Register("*", picolArith("*", 2, id, func(a, b float64) float64 { return a * b }))
	s.Register("/", picolArith("/", 3, id, func(a, b float64) float64 { return a / b }))
	def := func(name, sig string, min, max int, f func(m *Machine, a []Value, s *Scope) Result) {
		s.Register(name, &simple{sig: sig, min: min, max: max, f: f})
	}
	def("==", "== arg arg", 3, 3, func(m *Machine, a []Value, s *Scope) Result { return ok(Bool(picolEqual(a[1], a[2]))) })
	def("!=", "!= arg arg", 3, 3, func(m *Machine, a []Value, s *Scope) Result { return ok(Bool(!picolEqual(a[1], a[2]))) })
	for name, f := range map[string]func(a, b float64) bool{
		">": func(a, b float64) bool { return a > b }, ">=": func(a, b float64) bool { return a >= b },
		"<": func(a, b float64) bool { return a < b }, "<=": func(a, b float64) bool { return a <= b },
	} {
		def(name, name+" arg arg", 3, 3, func(m *Machine, a []Value, s *Scope) Result {
			x, e := toFloat(a[1])
			if e != nil {
				return *e
			}
			y, e := toFloat(a[2])
			if e != nil {
				return *e
			}
			return ok(Bool(f(x, y)))
		})
	}
	def("!", "! arg", 2, 2, func(m *Machine, a []Value, s *Scope) Result {
		b, e := picolTest(m, a[1], s)
		if e != nil {
			return *e
		}
		return ok(Bool(!b))
	})
	for name, stop := range map[string]bool{"&&": false, "||": true} {
		def(name, name+" arg ?arg ...?", 2, -1, func(m *Machine, a []Value, s *Scope) Result {
			for _, v := range a[1:] {
				b, e := picolTest(m, v, s)
				if e != nil {
					return *e
				}
				if b == stop {
					return ok(Bool(stop))
				}
			}
			return ok(Bool(!stop))
		})
	}
	body := func(v Value) (*Script, *Result) {
		if sv, is := v.(*ScriptV); is {
			return sv.S, nil
		}
		return nil, bail(fail("invalid script"))
	}
	s.Register("if", Fn(func(m *Machine, a []Value, s *Scope) Result {
		if len(a) != 3 && len(a) != 5 {
			return arity("if test script1 ?else script2?")
		}
		b, e := picolTest(m, a[1], s)
		if e != nil {
			return *e
		}
		chosen := a[2]
		if !b {
			if len(a) == 3 {
				return ok(Str(""))
			}
			chosen = a[4]
		}
		sc, e := body(chosen)
		if e != nil {
			return *e
		}
		r := m.run(sc, s)
		if r.Code != OK {
			return r
		}
		return emptyIfNil(r.Val)
	}))
	// iterate runs a loop
	iterate := func(m *Machine, test Value, bd, next *Script, s *Scope) Result {
		for {
			m.burn(1)
			b, e := picolTest(m, test, s)
			if e != nil {
				return *e
			}
			if !b {
				return ok(Str(""))
			}
			r := m.run(bd, s)
			switch r.Code {
			case OK, CONTINUE:
			case BREAK:
				return ok(Str(""))
			default:
				return r
			}
			if next != nil {
				if r := m.run(next, s); r.Code != OK {
					return r
				}
			}
		}
	}
	def("for", "for start test next command", 5, 5, func(m *Machine, a []Value, s *Scope) Result {
		start, e1 := body(a[1])
		next, e2 := body(a[3])
		bd, e3 := body(a[4])
		for _, e := range []*Result{e1, e2, e3} {
			if e != nil {
				return *e
			}
		}
		if r := m.run(start, s); r.Code != OK {
			return r
		}
		return iterate(m, a[2], bd, next, s)
	})
	def("while", "while test script", 3, 3, func(m *Machine, a []Value, s *Scope) Result {
		bd, e := body(a[2])
		if e != nil {
			return *e
		}
		return iterate(m, a[1], bd, nil, s)
	})
	def("set", "set varName ?newValue?", 2, 3, func(m *Machine, a []Value, s *Scope) Result {
		name := picolStr(a[1])
		if len(a) == 3 {
			s.ctx.vars[name] = a[2]
			return ok(a[2])
		}
		if v, is := s.ctx.vars[name]; is {
			return ok(v)
		}
		return fail(`can't read "` + name + `": no such variable`)
	})
	def("incr", "incr varName ?increment?", 2, 3, func(m *Machine, a []Value, s *Scope) Result {
		by := int64(1)
		if len(a) == 3 {
			i, e := toInt(a[2])
			if e != nil {
				return *e
			}
			by = i
		}
		name := picolStr(a[1])
		if v, is := s.ctx.vars[name]; is {
			i, e := toInt(v)
			if e != nil {
				return *e
			}
			by += i
		}
		s.ctx.vars[name] = Int(by)
		return ok(Int(by))
	})
	def("proc", "proc name args body", 4, 4, func(m *Machine, a []Value, s *Scope) Result {
		sv, is := a[3].(*ScriptV)
		if !is {
			return fail("invalid script")
		}
		args, e := picolArgs(m, a[2])
		if e != nil {
			return *e
		}
		s.Register(picolStr(a[1]), &picolProc{args, sv})
		return ok(Str(""))
	})
	def("return", "return ?result?", 1, 2, func(m *Machine, a []Value, s *Scope) Result {
		if len(a) == 2 {
			return Result{Code: RETURN, Val: a[1]}
		}
		return Result{Code: RETURN, Val: Str("")}
	})
	def("break", "break", 1, 1, func(m *Machine, a []Value, s *Scope) Result { return Result{Code: BREAK, Val: Nil{}} })
	def("continue", "continue", 1, 1, func(m *Machine, a []Value, s *Scope) Result { return Result{Code: CONTINUE, Val: Nil{}} })
	def("error", "error message", 2, 2, func(m *Machine, a []Value, s *Scope) Result { return Result{Code: ERROR, Val: a[1]} })
}

// RunScript runs a script without suspensions
func (m *Machine) RunScript(s *Script, sc *Scope) Result { return m.run(s, sc) }
