package ref

import (
	"path/filepath"
)

// meta is a metacommand or command object with fixed subcommands
type meta struct {
	// Title in usages, when it doesn't depend on the name
	title string
	def   string
	subs  []sub
	self  func() Value
	// Whether the object has help
	helps bool
	// Key selection
	key func(Value) Result
}

type sub struct {
	name, sig string
	min, max  int
	f         func(m *Machine, a []Value, s *Scope) Result
}

func (c *meta) prefix(name Value, o HelpOpts) string {
	if c.title != "" {
		return c.title
	}
	return usagePrefix(name, c.def, o)
}

func (c *meta) find(name string) *sub {
	for i := range c.subs {
		if c.subs[i].name == name {
			return &c.subs[i]
		}
	}
	return nil
}

func (c *meta) Exec(m *Machine, a []Value, s *Scope) Result {
	if len(a) == 1 {
		return ok(c.self())
	}
	n, is := str(a[1])
	if !is {
		return fail("invalid subcommand name")
	}
	if n == "subcommands" {
		if len(a) != 2 {
			return arity(c.prefix(a[0], HelpOpts{}) + " subcommands")
		}
		out := strs("subcommands")
		for _, s := range c.subs {
			out = append(out, Str(s.name))
		}
		return ok(out)
	}
	sb := c.find(n)
	if sb == nil {
		return fail(`unknown subcommand "` + n + `"`)
	}
	if len(a) < sb.min || sb.max >= 0 && len(a) > sb.max {
		return arity(c.prefix(a[0], HelpOpts{}) + " " + sb.sig)
	}
	return sb.f(m, a, s)
}

// helpMeta is a meta with help
type helpMeta struct{ *meta }

func (c helpMeta) Help(m *Machine, a []Value, o HelpOpts, s *Scope) Result {
	p := c.prefix(a[0], o)
	if len(a) == 1 {
		return ok(Str(p + " ?subcommand? ?arg ...?"))
	}
	n, is := str(a[1])
	if !is {
		return fail("invalid subcommand name")
	}
	sig, max := "subcommands", 2
	if n != "subcommands" {
		sb := c.find(n)
		if sb == nil {
			return fail(`unknown subcommand "` + n + `"`)
		}
		sig, max = sb.sig, sb.max
	}
	if max >= 0 && len(a) > max {
		return arity(p + " " + sig)
	}
	return ok(Str(p + " " + sig))
}

func (c *meta) SelectKey(k Value) Result {
	if c.key == nil {
		return fail("value is not key-selectable")
	}
	return c.key(k)
}

func evalIn(sc *Scope) func(m *Machine, a []Value, s *Scope) Result {
	return func(m *Machine, a []Value, s *Scope) Result {
		switch b := a[2].(type) {
		case *ScriptV:
			return m.run(b.S, sc)
		case Tuple:
			return m.runArgs(append([]Value{}, b...), sc)
		}
		return fail("body must be a script or tuple")
	}
}

// localCommand finds a command of a scope
func localCommand(sc *Scope, v Value) (*Cmd, *Result) {
	n, is := str(v)
	if !is {
		return nil, bail(fail("invalid command name"))
	}
	c := sc.ctx.cmds[n]
	if c == nil {
		return nil, bail(fail(`unknown command "` + n + `"`))
	}
	return c, nil
}

// callIn calls a local command of a scope in another scope
func callIn(sc, in *Scope) func(m *Machine, a []Value, s *Scope) Result {
	return func(m *Machine, a []Value, s *Scope) Result {
		c, e := localCommand(sc, a[2])
		if e != nil {
			return *e
		}
		if in == nil {
			return m.runArgs(append([]Value{c}, a[3:]...), s)
		}
		return m.runArgs(append([]Value{c}, a[3:]...), in)
	}
}

func (s *Scope) define(name Value, c Command) *Result {
	n, is := str(name)
	if !is {
		return bail(fail("invalid command name"))
	}
	s.Register(n, c)
	return nil
}

func (s *Scope) locals(first Value) Result {
	if len(s.ctx.cmds) > 1 {
		panic(Inconclusive{"commands order"})
	}
	out := List{first}
	for n := range s.ctx.cmds {
		out = append(out, Str(n))
	}
	return ok(out)
}

// callable is a closure, macro or procedure
type callable struct {
	kind  string
	scope *Scope
	spec  *Argspec
	body  *Script
	guard Value
}

func (c *callable) Exec(m *Machine, a []Value, s *Scope) Result {
	if !c.spec.arityOK(len(a) - 1) {
		return arity(c.spec.usageWith(a[0], "<"+c.kind+">", HelpOpts{}))
	}
	sc := c.scope
	if c.kind == "macro" {
		sc = s
	}
	vals, e := m.bind(c.spec, sc, a[1:])
	if e != nil {
		return *e
	}
	sub := sc
	if c.kind == "proc" {
		sub = sc.child()
		for n, i := range c.spec.slots() {
			if vals[i] != nil {
				sub.ctx.vars[n] = vals[i]
			}
		}
	} else {
		sub = sc.local(c.spec.slots(), vals)
	}
	r, st := m.raw(c.body, sub)
	if c.kind == "proc" {
		switch r.Code {
		case OK, ERROR:
		case RETURN:
			r = ok(r.Val)
		default:
			r = fail("unexpected " + r.Code.String())
		}
	}
	if r.Code == OK && c.guard != nil {
		return m.runArgs([]Value{c.guard, r.Val}, sc)
	}
	return m.level(st, r)
}

func (c *callable) Help(m *Machine, a []Value, o HelpOpts, s *Scope) Result {
	sig := c.spec.usageWith(a[0], "<"+c.kind+">", o)
	if !c.spec.arityOK(len(a)-1) && len(a) > c.spec.required() {
		return arity(sig)
	}
	return ok(Str(sig))
}

func registerCallables(s *Scope) {
	for _, kind := range []string{"closure", "macro", "proc"} {
		s.Register(kind, &simple{sig: kind + " ?name? argspec body", min: 3, max: 4, f: func(m *Machine, a []Value, s *Scope) Result {
			specs, body := a[len(a)-2], a[len(a)-1]
			c := &callable{kind: kind, scope: s.local(nil, nil)}
			if t, is := body.(Tuple); is {
				switch len(t) {
				case 0:
					return fail("empty body specifier")
				case 2:
					c.guard, body = t[0], t[1]
				default:
					return fail("invalid body specifier")
				}
			}
			sv, is := body.(*ScriptV)
			if !is {
				return fail("body must be a script")
			}
			c.body = sv.S
			var e *Result
			if c.spec, e = m.argspecOf(specs); e != nil {
				return *e
			}
			if len(a) == 4 {
				if e := s.define(a[1], c); e != nil {
					return *e
				}
			}
			self := &Cmd{c}
			mc := helpMeta{&meta{title: "<metacommand>", self: func() Value { return self }}}
			mc.subs = []sub{{"argspec", "argspec", 2, 2, func(m *Machine, a []Value, s *Scope) Result {
				return ok(&Custom{"argspec", c.spec})
			}}}
			return ok(&Cmd{mc})
		}})
	}
}

// ensemble is a command with user-defined subcommands
type ensemble struct {
	scope *Scope
	spec  *Argspec
	meta  *Cmd
}

func newEnsemble(sc *Scope, spec *Argspec) *ensemble {
	c := &ensemble{scope: sc, spec: spec}
	mc := helpMeta{&meta{title: "<metacommand>", self: func() Value { return c.meta }}}
	mc.subs = []sub{
		{"eval", "eval body", 3, 3, evalIn(sc)},
		{"call", "call cmdname ?arg ...?", 3, -1, callIn(sc, nil)},
		{"argspec", "argspec", 2, 2, func(m *Machine, a []Value, s *Scope) Result {
			return ok(&Custom{"argspec", spec})
		}},
	}
	c.meta = &Cmd{mc}
	return c
}

func (c *ensemble) Exec(m *Machine, a []Value, s *Scope) Result {
	if len(a) == 1 {
		return ok(c.meta)
	}
	n := c.spec.required() + 1
	usage := c.spec.usageWith(a[0], "<ensemble>", HelpOpts{})
	if len(a) < n {
		return arity(usage + " ?subcommand? ?arg ...?")
	}
	if len(a) == n {
		vals, e := m.bind(c.spec, s, a[1:])
		if e != nil {
			return *e
		}
		return ok(Tuple(vals))
	}
	name, is := str(a[n])
	if !is {
		return fail("invalid subcommand name")
	}
	if name == "subcommands" {
		if len(a) != n+1 {
			return arity(usage + " subcommands")
		}
		return c.scope.locals(a[n])
	}
	cmd := c.scope.ctx.cmds[name]
	if cmd == nil {
		return fail(`unknown subcommand "` + name + `"`)
	}
	vals, e := m.bind(c.spec, s, a[1:n])
	if e != nil {
		return *e
	}
	return m.call(cmd.C, append(append([]Value{cmd}, vals...), a[n+1:]...), s)
}

func (c *ensemble) Help(m *Machine, a []Value, o HelpOpts, s *Scope) Result {
	sig := c.spec.usageWith(a[0], "<ensemble>", o)
	n := c.spec.required() + 1
	if len(a) <= n {
		return ok(Str(sig + " ?subcommand? ?arg ...?"))
	}
	name, is := str(a[n])
	if !is {
		return fail("invalid subcommand name")
	}
	if name == "subcommands" {
		if len(a) > n+1 {
			return arity(sig + " subcommands")
		}
		return ok(Str(sig + " subcommands"))
	}
	cmd := c.scope.ctx.cmds[name]
	if cmd == nil {
		return fail(`unknown subcommand "` + name + `"`)
	}
	if h, is := helperOf(cmd.C); is {
		args := append(append([]Value{a[n]}, a[1:n]...), a[n+1:]...)
		return h.Help(m, args, HelpOpts{sig + " " + name, n}, s)
	}
	return fail(`no help for subcommand "` + name + `"`)
}

func helperOf(c Command) (Helper, bool) {
	if _, is := c.(prefixCmd); is {
		return nil, false
	}
	h, is := c.(Helper)
	return h, is
}

// namespace is a command whose subcommands run in their own scope
type namespace struct {
	scope *Scope
	meta  *Cmd
}

func (c *namespace) Exec(m *Machine, a []Value, s *Scope) Result {
	if len(a) == 1 {
		return ok(c.meta)
	}
	name, is := str(a[1])
	if !is {
		return fail("invalid subcommand name")
	}
	if name == "subcommands" {
		if len(a) != 2 {
			return arity(usagePrefix(a[0], "<namespace>", HelpOpts{}) + " subcommands")
		}
		return c.scope.locals(a[1])
	}
	cmd := c.scope.ctx.cmds[name]
	if cmd == nil {
		return fail(`unknown subcommand "` + name + `"`)
	}
	return m.runArgs(append([]Value{cmd}, a[2:]...), c.scope)
}

func (c *namespace) Help(m *Machine, a []Value, o HelpOpts, s *Scope) Result {
	sig := usagePrefix(a[0], "<namespace>", o)
	if len(a) <= 1 {
		return ok(Str(sig + " ?subcommand? ?arg ...?"))
	}
	name, is := str(a[1])
	if !is {
		return fail("invalid subcommand name")
	}
	if name == "subcommands" {
		if len(a) > 2 {
			return arity(sig + " subcommands")
		}
		return ok(Str(sig + " subcommands"))
	}
	cmd := c.scope.ctx.cmds[name]
	if cmd == nil {
		return fail(`unknown subcommand "` + name + `"`)
	}
	if h, is := helperOf(cmd.C); is {
		return h.Help(m, a[1:], HelpOpts{sig + " " + name, 1}, s)
	}
	return fail(`no help for subcommand "` + name + `"`)
}

// definition runs the body of a scoped entity and registers it
func definition(m *Machine, s *Scope, name Value, body Value, make func(sub *Scope) (Command, Value)) Result {
	sv, is := body.(*ScriptV)
	if !is {
		return fail("body must be a script")
	}
	sub := s.child()
	r, st := m.raw(sv.S, sub)
	switch r.Code {
	case OK, RETURN:
		c, v := make(sub)
		if name != nil {
			if e := s.define(name, c); e != nil {
				return m.level(st, *e)
			}
		}
		if r.Code == RETURN {
			v = r.Val
		}
		return ok(v)
	case ERROR:
	default:
		r = fail("unexpected " + r.Code.String())
	}
	return m.level(st, r)
}

func registerScopes(s *Scope) {
	s.Register("namespace", &simple{sig: "namespace ?name? body", min: 2, max: 3, f: func(m *Machine, a []Value, s *Scope) Result {
		var name Value
		if len(a) == 3 {
			name = a[1]
		}
		return definition(m, s, name, a[len(a)-1], func(sub_ *Scope) (Command, Value) {
			c := &namespace{scope: sub_}
			mc := helpMeta{&meta{title: "<metacommand>", self: func() Value { return c.meta }}}
			mc.key = func(k Value) Result {
				n, is := str(k)
				switch k.(type) {
				case Tuple, *Qual:
					return get(sub_, k)
				}
				if !is {
					return fail("invalid variable name")
				}
				if v := sub_.lookup(n); v != nil {
					return ok(v)
				}
				return fail(`cannot get "` + n + `": no such variable`)
			}
			mc.subs = []sub{
				{"eval", "eval body", 3, 3, evalIn(sub_)},
				{"call", "call cmdname ?arg ...?", 3, -1, callIn(sub_, sub_)},
				{"import", "import name ?alias?", 3, 4, func(m *Machine, a []Value, s *Scope) Result {
					n, is := str(a[2])
					if !is {
						return fail("invalid import name")
					}
					alias := n
					if len(a) == 4 {
						if alias, is = str(a[3]); !is {
							return fail("invalid alias name")
						}
					}
					cmd := sub_.ctx.cmds[n]
					if cmd == nil {
						return fail(`cannot resolve imported command "` + n + `"`)
					}
					s.Register(alias, cmd.C)
					return ok(Nil{})
				}},
			}
			c.meta = &Cmd{mc}
			return c, c.meta
		})
	}})
	s.Register("scope", &simple{sig: "scope ?name? body", min: 2, max: 3, f: func(m *Machine, a []Value, s *Scope) Result {
		var name Value
		if len(a) == 3 {
			name = a[1]
		}
		return definition(m, s, name, a[len(a)-1], func(sub_ *Scope) (Command, Value) {
			c := helpMeta{&meta{def: "<scope>"}}
			v := &Cmd{c}
			c.self = func() Value { return v }
			c.subs = []sub{
				{"eval", "eval body", 3, 3, evalIn(sub_)},
				{"call", "call cmdname ?arg ...?", 3, -1, func(m *Machine, a []Value, s *Scope) Result {
					if _, e := localCommand(sub_, a[2]); e != nil {
						return *e
					}
					return m.runArgs(append([]Value{}, a[2:]...), sub_)
				}},
			}
			return c, v
		})
	}})
	s.Register("ensemble", &simple{sig: "ensemble ?name? argspec body", min: 3, max: 4, f: func(m *Machine, a []Value, s *Scope) Result {
		var name Value
		if len(a) == 4 {
			name = a[1]
		}
		body := a[len(a)-1]
		if _, is := body.(*ScriptV); !is {
			return fail("body must be a script")
		}
		spec, e := m.argspecOf(a[len(a)-2])
		if e != nil {
			return *e
		}
		if spec.count(argOptional) > 0 || spec.count(argRemainder) > 0 {
			return fail("ensemble arguments cannot be variadic")
		}
		if spec.options() {
			return fail("ensemble arguments cannot have options")
		}
		return definition(m, s, name, body, func(sub *Scope) (Command, Value) {
			c := newEnsemble(sub, spec)
			return c, c.meta
		})
	}})
}

func registerCoroutines(s *Scope) {
	s.Register("coroutine", &simple{sig: "coroutine body", min: 2, max: 2, f: func(m *Machine, a []Value, s *Scope) Result {
		sv, is := a[1].(*ScriptV)
		if !is {
			return fail("body must be a script")
		}
		sc := s.local(nil, nil)
		const (
			inactive = iota
			active
			done
		)
		state, running := inactive, false
		var co *coro
		var in Value
		run := func(m *Machine) Result {
			running = true
			r := m.resume(co, in)
			running = false
			switch r.Code {
			case YIELD:
				in = r.Val
				return ok(r.Val)
			case OK, RETURN:
				state = done
				return ok(r.Val)
			case ERROR:
				state = done
				return r
			}
			state = done
			return fail("unexpected " + r.Code.String())
		}
		c := &meta{title: "<coroutine>"}
		v := &Cmd{c}
		c.self = func() Value { return v }
		c.subs = []sub{
			{"wait", "wait", 2, 2, func(m *Machine, a []Value, s *Scope) Result {
				if running {
					return fail("coroutine is already running")
				}
				if state == inactive {
					state = active
					co = m.newCoro(func() Result { return m.run(sv.S, sc) })
				}
				return run(m)
			}},
			{"active", "active", 2, 2, func(m *Machine, a []Value, s *Scope) Result { return ok(Bool(state == active)) }},
			{"done", "done", 2, 2, func(m *Machine, a []Value, s *Scope) Result { return ok(Bool(state == done)) }},
			{"yield", "yield ?value?", 2, 3, func(m *Machine, a []Value, s *Scope) Result {
				switch {
				case running:
					return fail("coroutine is already running")
				case state == inactive:
					return fail("coroutine is inactive")
				case state == done:
					return fail("coroutine is done")
				}
				if len(a) == 3 {
					in = a[2]
				}
				return run(m)
			}},
		}
		return ok(v)
	}})
}

// alias is a command that prefixes another one
type alias struct{ cmd Value }

func (c *alias) Exec(m *Machine, a []Value, s *Scope) Result {
	return prefixCmd{}.Exec(m, append([]Value{Tuple{c.cmd}}, a[1:]...), s)
}

func registerAliases(s *Scope) {
	s.Register("alias", &simple{sig: "alias name command", min: 3, max: 3, f: func(m *Machine, a []Value, s *Scope) Result {
		c := &alias{a[2]}
		if e := s.define(a[1], c); e != nil {
			return *e
		}
		self := &Cmd{c}
		mc := &meta{title: "<alias>", self: func() Value { return self }}
		mc.subs = []sub{{"command", "command", 2, 2, func(m *Machine, a []Value, s *Scope) Result { return ok(c.cmd) }}}
		return ok(&Cmd{mc})
	}})
}

// Module is a module
type Module struct {
	scope   *Scope
	exports map[string]bool
	value   *Cmd
}

func (m *Machine) newModule(sc *Script, dir string) (*Module, *Result) {
	root := NewRoot()
	m.RegisterAll(root, dir)
	mod := &Module{scope: root, exports: map[string]bool{}}
	root.Register("export", &simple{sig: "export name", min: 2, max: 2, f: func(m *Machine, a []Value, s *Scope) Result {
		n, is := str(a[1])
		if !is {
			return fail("invalid export name")
		}
		mod.exports[n] = true
		return ok(Nil{})
	}})
	r := m.isolated(func() Result { return m.run(sc, root) })
	switch r.Code {
	case OK:
	case ERROR:
		return nil, &r
	default:
		return nil, bail(fail("unexpected " + r.Code.String()))
	}
	c := helpMeta{&meta{def: "<module>"}}
	mod.value = &Cmd{c}
	m.made[mod.value] = mod
	c.self = func() Value { return mod.value }
	c.subs = []sub{
		{"exports", "exports", 2, 2, func(m *Machine, a []Value, s *Scope) Result {
			if len(mod.exports) > 1 {
				panic(Inconclusive{"exports order"})
			}
			out := List{}
			for n := range mod.exports {
				out = append(out, Str(n))
			}
			return ok(out)
		}},
		{"import", "import name ?alias?", 3, 4, func(m *Machine, a []Value, s *Scope) Result {
			return mod.importTo(s, a[2], a[len(a)-1])
		}},
	}
	return mod, nil
}

func (mod *Module) importTo(s *Scope, name, alias Value) Result {
	n, is := str(name)
	if !is {
		return fail("invalid import name")
	}
	al, is := str(alias)
	if !is {
		return fail("invalid alias name")
	}
	if !mod.exports[n] {
		return fail(`unknown export "` + n + `"`)
	}
	c := mod.scope.named(n)
	if c == nil {
		return fail(`cannot resolve export "` + n + `"`)
	}
	s.Register(al, c)
	return ok(Nil{})
}

// RegisterModule makes a module available under a name
func (m *Machine) RegisterModule(name string, v Value) bool {
	c, is := v.(*Cmd)
	if !is || m.made[c] == nil {
		return false
	}
	m.Modules[name] = m.made[c]
	return true
}

func (m *Machine) load(path string) (*Module, *Result) {
	if m.loading[path] {
		return nil, bail(fail("circular imports are forbidden"))
	}
	m.loading[path] = true
	defer delete(m.loading, path)
	src, msg := m.ReadFile(path)
	if msg != "" {
		return nil, bail(fail("error reading module: " + msg))
	}
	sc, msg := Parse(src)
	if msg != "" {
		return nil, bail(fail(msg))
	}
	if m.Capture {
		SetSource(sc, path, nil)
	} else {
		noPos(sc)
	}
	return m.newModule(sc, filepath.Dir(path))
}

func (m *Machine) module(dir, name string) (*Module, *Result) {
	if mod := m.Modules[name]; mod != nil {
		return mod, nil
	}
	path := filepath.Join(dir, name)
	if mod := m.Modules[path]; mod != nil {
		return mod, nil
	}
	if m.ReadFile == nil {
		panic(Inconclusive{"files"})
	}
	mod, e := m.load(path)
	if e == nil {
		m.Modules[path] = mod
	}
	return mod, e
}

func (m *Machine) registerModules(s *Scope, dir string) {
	s.Register("module", &simple{sig: "module ?name? body", min: 2, max: 3, f: func(m *Machine, a []Value, s *Scope) Result {
		sv, is := a[len(a)-1].(*ScriptV)
		if !is {
			return fail("body must be a script")
		}
		mod, e := m.newModule(sv.S, dir)
		if e != nil {
			return *e
		}
		if len(a) == 3 {
			if e := s.define(a[1], mod.value.C); e != nil {
				return *e
			}
		}
		return ok(mod.value)
	}})
	s.Register("import", &simple{sig: "import path ?name|imports?", min: 2, max: 3, f: func(m *Machine, a []Value, s *Scope) Result {
		path, is := str(a[1])
		if !is {
			return fail("invalid path")
		}
		mod, e := m.module(dir, path)
		if e != nil {
			return *e
		}
		if len(a) == 3 {
			if !isSequence(a[2]) {
				if e := s.define(a[2], mod.value.C); e != nil {
					return *e
				}
				return ok(mod.value)
			}
			names, e := m.array(a[2])
			if e != nil {
				return *e
			}
			for _, n := range names {
				al := n
				if t, is := n.(Tuple); is {
					if len(t) != 2 {
						return fail("invalid (name alias) tuple")
					}
					n, al = t[0], t[1]
				}
				if r := mod.importTo(s, n, al); r.Code != OK {
					return r
				}
			}
		}
		return ok(mod.value)
	}})
}

// RegisterAll defines the commands of the dialect
func (m *Machine) RegisterAll(s *Scope, dir string) {
	registerBasic(s)
	registerMath(s)
	registerLogic(s)
	registerControls(s)
	registerData(s)
	registerArgspec(s)
	registerScopes(s)
	m.registerModules(s, dir)
	registerCallables(s)
	registerCoroutines(s)
	registerAliases(s)
}

// Run runs a script in a scope as a process: it can be resumed with Resume
type Process struct {
	m  *Machine
	co *coro
	in Value
}

func (m *Machine) Start(s *Script, sc *Scope) *Process {
	return &Process{m: m, co: m.newCoro(func() Result { return m.run(s, sc) })}
}

// StartFrom is Start with the result of a previous script
func (m *Machine) StartFrom(s *Script, sc *Scope, last Value) *Process {
	return &Process{m: m, co: m.newCoro(func() Result {
		m.first = last
		return m.run(s, sc)
	})}
}

// Run runs or resumes the process
func (p *Process) Run() Result {
	r := p.m.resume(p.co, p.in)
	if r.Code == YIELD {
		p.in = r.Val
	}
	return r
}

// YieldBack sets the value to resume with
func (p *Process) YieldBack(v Value) { p.in = v }
