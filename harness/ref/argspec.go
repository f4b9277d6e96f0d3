package ref

import "strings"

// Argument specifications

type argKind int

const (
	argRequired argKind = iota
	argOptional
	argRemainder
)

type option struct {
	names []string
	flag  bool
}

func (o *option) String() string { return strings.Join(o.names, "|") }

type argument struct {
	name  string
	kind  argKind
	def   Value
	guard Value
	opt   *option
}

// Argspec is an argument specification
type Argspec struct {
	args []argument
}

func (a *Argspec) required() int {
	n := 0
	for _, x := range a.args {
		if x.kind == argRequired {
			n++
			if x.opt != nil {
				n++
			}
		}
	}
	return n
}

func (a *Argspec) count(k argKind) int {
	n := 0
	for _, x := range a.args {
		if x.opt == nil && x.kind == k {
			n++
		}
	}
	return n
}

func (a *Argspec) options() bool {
	for _, x := range a.args {
		if x.opt != nil {
			return true
		}
	}
	return false
}

// slots maps names to argument indexes; the last one wins
func (a *Argspec) slots() map[string]int {
	out := map[string]int{}
	for i, x := range a.args {
		out[x.name] = i
	}
	return out
}

func (a *Argspec) usage(skip int) string {
	var out []string
	for i, x := range a.args {
		if i < skip {
			continue
		}
		s := x.name
		switch {
		case x.opt != nil && x.opt.flag:
			s = "?" + x.opt.String() + "?"
		case x.opt != nil && x.kind == argRequired:
			s = x.opt.String() + " " + s
		case x.opt != nil:
			s = "?" + x.opt.String() + " " + s + "?"
		case x.kind == argOptional:
			s = "?" + s + "?"
		case x.kind == argRemainder:
			if s == "*" {
				s = "arg"
			}
			s = "?" + s + " ...?"
		}
		out = append(out, s)
	}
	return strings.Join(out, " ")
}

func (a *Argspec) arityOK(n int) bool {
	if n < a.required() {
		return false
	}
	return a.options() || a.count(argRemainder) > 0 || n <= a.required()+a.count(argOptional)
}

func usagePrefix(name Value, def string, o HelpOpts) string {
	out := o.Prefix
	if o.Skip == 0 {
		s, is := str(name)
		if !is {
			s = def
		}
		if out != "" {
			out += " "
		}
		out += s
	}
	return out
}

func (a *Argspec) usageWith(name Value, def string, o HelpOpts) string {
	p := usagePrefix(name, def, o)
	u := a.usage(max(0, o.Skip-1))
	if p != "" && u != "" {
		return p + " " + u
	}
	return p + u
}

func (m *Machine) argspecOf(v Value) (*Argspec, *Result) {
	if c, is := v.(*Custom); is && c.Kind == "argspec" {
		return c.Data.(*Argspec), nil
	}
	vs, e := m.array(v)
	if e != nil {
		return nil, bail(fail("invalid argument list"))
	}
	spec := &Argspec{}
	names, optnames := map[string]bool{}, map[string]bool{}
	var last *option
	rem := false
	for _, v := range vs {
		opt, e := m.optionOf(v)
		if e != nil {
			return nil, e
		}
		if opt != nil {
			if rem {
				return nil, bail(fail("cannot use remainder argument before options"))
			}
			for _, n := range opt.names {
				if optnames[n] {
					return nil, bail(fail(`duplicate option "` + n + `"`))
				}
				optnames[n] = true
			}
			last = opt
			continue
		}
		arg, e := m.argumentOf(v)
		if e != nil {
			return nil, e
		}
		if last != nil {
			if last.flag && arg.kind != argOptional {
				return nil, bail(fail(`argument for flag "` + last.String() + `" must be optional`))
			}
			if !last.flag && arg.kind == argRemainder {
				return nil, bail(fail(`argument for option "` + last.String() + `" cannot be a remainder`))
			}
			arg.opt, last = last, nil
			spec.args = append(spec.args, arg)
			continue
		}
		if arg.kind == argRemainder {
			if rem {
				return nil, bail(fail("only one remainder argument is allowed"))
			}
		}
		if names[arg.name] {
			return nil, bail(fail(`duplicate argument "` + arg.name + `"`))
		}
		if arg.kind == argRemainder {
			rem = true
		}
		names[arg.name] = true
		spec.args = append(spec.args, arg)
	}
	if last != nil {
		return nil, bail(fail(`missing argument for option "` + last.String() + `"`))
	}
	return spec, nil
}

func isSequence(v Value) bool {
	switch v.(type) {
	case List, Tuple, *ScriptV:
		return true
	}
	return false
}

func (m *Machine) optionOf(v Value) (*option, *Result) {
	vs := []Value{v}
	if isSequence(v) {
		var e *Result
		if vs, e = m.array(v); e != nil {
			return nil, e
		}
	}
	o := &option{}
	for _, v := range vs {
		n, is := str(v)
		if !is {
			break
		}
		flag := strings.HasPrefix(n, "?-") && len(n) > 2
		if !flag && (!strings.HasPrefix(n, "-") || len(n) < 2) {
			break
		}
		if flag {
			n = n[1:]
		}
		if n == "--" {
			return nil, bail(fail("cannot use option terminator as option name"))
		}
		if len(o.names) > 0 && o.flag != flag {
			break
		}
		o.flag = flag
		o.names = append(o.names, n)
	}
	if len(o.names) == 0 {
		return nil, nil
	}
	if len(o.names) != len(vs) {
		return nil, bail(fail(`incompatible aliases for option "` + o.String() + `"`))
	}
	return o, nil
}

func (m *Machine) argumentOf(v Value) (argument, *Result) {
	bad := func(msg string) (argument, *Result) { return argument{}, bail(fail(msg)) }
	empty := func(n string) bool { return n == "" || n == "?" }
	const emptyMsg, invalidMsg = "empty argument name", "invalid argument name"
	if !isSequence(v) {
		n, is := str(v)
		switch {
		case !is:
			return bad(invalidMsg)
		case empty(n):
			return bad(emptyMsg)
		case n == "*":
			return argument{name: n, kind: argRemainder}, nil
		case n[0] == '*':
			return argument{name: n[1:], kind: argRemainder}, nil
		case n[0] == '?':
			return argument{name: n[1:], kind: argOptional}, nil
		}
		return argument{name: n}, nil
	}
	specs, e := m.array(v)
	if e != nil {
		return argument{}, e
	}
	switch len(specs) {
	case 0:
		return bad("empty argument specifier")
	case 1:
		n, is := str(specs[0])
		switch {
		case !is:
			return bad(invalidMsg)
		case empty(n):
			return bad(emptyMsg)
		case n[0] == '?':
			return argument{name: n[1:], kind: argOptional}, nil
		}
		return argument{name: n}, nil
	case 2:
		a, isA := str(specs[0])
		b, isB := str(specs[1])
		switch {
		case !isA && !isB:
			return bad(invalidMsg)
		case empty(a) && empty(b):
			return bad(emptyMsg)
		case isA && a == "?":
			return bad(emptyMsg)
		case isA && a != "" && a[0] == '?':
			return argument{name: a[1:], kind: argOptional, def: specs[1]}, nil
		case !isB:
			return bad(invalidMsg)
		case empty(b):
			return bad(emptyMsg)
		case b[0] == '?':
			return argument{name: b[1:], kind: argOptional, guard: specs[0]}, nil
		}
		return argument{name: b, guard: specs[0]}, nil
	case 3:
		n, is := str(specs[1])
		switch {
		case !is:
			return bad(invalidMsg)
		case empty(n):
			return bad(emptyMsg)
		case n[0] != '?':
			return bad(`default argument "` + n + `" must be optional`)
		}
		return argument{name: n[1:], kind: argOptional, guard: specs[0], def: specs[2]}, nil
	}
	n, is := str(specs[0])
	if !is {
		return bad(invalidMsg)
	}
	return bad(`too many specifiers for argument "` + n + `"`)
}

// slot of a value: index of the first argument and number of arguments
type slot struct{ at, n int }

// assign distributes argument values between the arguments
func (a *Argspec) assign(vals []Value) (map[int]slot, *Result) {
	out := map[int]slot{}
	req, opts := a.required(), a.count(argOptional)
	if !a.options() {
		extra := len(vals) - req
		nopt := min(opts, extra)
		rest := extra - nopt
		i := 0
		for k, x := range a.args {
			n := 0
			switch x.kind {
			case argRequired:
				n = 1
			case argOptional:
				if nopt > 0 {
					nopt--
					n = 1
				}
			case argRemainder:
				n = rest
			}
			if n > 0 {
				out[k] = slot{i, n}
				i += n
			}
		}
		return out, nil
	}
	i, k := 0, 0
	for i < len(vals) && k < len(a.args) {
		// A group of positional arguments
		for ; k < len(a.args) && a.args[k].opt == nil && i < len(vals); k++ {
			left := len(vals) - i
			switch a.args[k].kind {
			case argRequired:
				req--
				out[k] = slot{i, 1}
				i++
			case argOptional:
				if left > req {
					opts--
					out[k] = slot{i, 1}
					i++
				}
			case argRemainder:
				if left > req+opts {
					out[k] = slot{i, left - req - opts}
					i += left - req - opts
				}
			}
		}
		if i >= len(vals) {
			break
		}
		// A group of options
		first, lastk, needed := k, k, 0
		for lastk < len(a.args) && a.args[lastk].opt != nil {
			if a.args[lastk].kind == argRequired {
				needed++
			}
			lastk++
		}
		for seen := 0; i < len(vals) && seen < lastk-first; seen++ {
			name, is := str(vals[i])
			target := -1
			if is {
				for j, x := range a.args {
					if x.opt != nil {
						for _, n := range x.opt.names {
							if n == name {
								target = j
							}
						}
					}
				}
			}
			if !is || name == "--" || target < 0 {
				if needed == 0 {
					break
				}
				switch {
				case !is:
					return nil, bail(fail("invalid option"))
				case name == "--":
					return nil, bail(fail("unexpected option terminator"))
				}
				return nil, bail(fail(`unknown option "` + name + `"`))
			}
			if target < first || target >= lastk {
				return nil, bail(fail(`unexpected option "` + name + `"`))
			}
			x := a.args[target]
			if _, dup := out[target]; dup {
				return nil, bail(fail(`duplicate values for option "` + x.opt.String() + `"`))
			}
			if x.opt.flag {
				out[target] = slot{i, 1}
				i++
				continue
			}
			if i+1 >= len(vals) {
				return nil, bail(fail(`missing value for option "` + x.opt.String() + `"`))
			}
			if x.kind == argRequired {
				req -= 2
				needed--
			}
			out[target] = slot{i + 1, 1}
			i += 2
		}
		if i < len(vals) {
			if s, is := str(vals[i]); is && s == "--" {
				i++
			}
		}
		k = lastk
	}
	if i < len(vals) {
		return nil, bail(fail("extra values after arguments"))
	}
	return out, nil
}

// bind gives the values of the arguments, nil for missing optional ones
func (m *Machine) bind(a *Argspec, s *Scope, vals []Value) ([]Value, *Result) {
	slots, e := a.assign(vals)
	if e != nil {
		return nil, e
	}
	out := make([]Value, len(a.args))
	unexpected := func(r Result) *Result {
		if r.Code == ERROR {
			return &r
		}
		return bail(fail("unexpected " + r.Code.String()))
	}
	for k, x := range a.args {
		sl, has := slots[k]
		var v Value
		switch {
		case x.kind == argRemainder:
			v = Tuple(append([]Value{}, vals[sl.at:sl.at+sl.n]...))
		case x.opt != nil && x.opt.flag:
			v = Bool(has)
		case has:
			v = vals[sl.at]
		case x.kind == argRequired:
			if x.opt != nil {
				return nil, bail(fail(`missing value for option "` + x.opt.String() + `"`))
			}
			return nil, bail(fail(`missing value for argument "` + x.name + `"`))
		case x.def != nil:
			v = x.def
			if sv, is := v.(*ScriptV); is {
				r := m.isolated(func() Result { return m.run(sv.S, s) })
				if r.Code != OK {
					return nil, unexpected(r)
				}
				v = r.Val
			}
		default:
			continue
		}
		if x.guard != nil {
			r := m.isolated(func() Result { return m.runArgs([]Value{x.guard, v}, s) })
			if r.Code != OK {
				return nil, unexpected(r)
			}
			v = r.Val
		}
		out[k] = v
	}
	return out, nil
}

func registerArgspec(s *Scope) {
	spec := func(f func(m *Machine, a []Value, s *Scope, spec *Argspec) Result) func(m *Machine, a []Value, s *Scope) Result {
		return func(m *Machine, a []Value, s *Scope) Result {
			sp, e := m.argspecOf(a[1])
			if e != nil {
				return *e
			}
			return f(m, a, s, sp)
		}
	}
	c := newValueCmd(s, "argspec", func(m *Machine, v Value) Result {
		sp, e := m.argspecOf(v)
		if e != nil {
			return *e
		}
		return ok(&Custom{"argspec", sp})
	})
	c.sub("usage", "argspec value usage", 2, 2, spec(func(m *Machine, a []Value, s *Scope, sp *Argspec) Result {
		return ok(Str(sp.usage(0)))
	}))
	c.sub("set", "argspec value set values", 3, 3, spec(func(m *Machine, a []Value, s *Scope, sp *Argspec) Result {
		vs, e := m.array(a[2])
		if e != nil {
			return *e
		}
		if !sp.arityOK(len(vs)) {
			return fail(`wrong # values: should be "` + sp.usage(0) + `"`)
		}
		bound, e := m.bind(sp, s, vs)
		if e != nil {
			return *e
		}
		names := sp.slots()
		// All or nothing; the first failure in slot order is reported
		var bad *Result
		first := len(bound)
		for n, i := range names {
			if bound[i] != nil && i < first {
				if e := s.checkVar(Str(n)); e != nil {
					bad, first = e, i
				}
			}
		}
		if bad != nil {
			return *bad
		}
		for n, i := range names {
			if bound[i] != nil {
				s.ctx.vars[n] = bound[i]
			}
		}
		return ok(Nil{})
	}))
}
