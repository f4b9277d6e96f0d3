package ref

import (
	"sort"
	"strconv"
)

// array converts a value to a sequence of values
func (m *Machine) array(v Value) ([]Value, *Result) {
	switch v := v.(type) {
	case List:
		return v, nil
	case Tuple:
		return v, nil
	case *ScriptV:
		bad := bail(fail("invalid list"))
		if v.S.invalid() {
			return nil, bad
		}
		// Words are evaluated without any variable nor command
		st := newState(&Scope{ctx: newContext(nil), sealed: true}, v.S)
		vs, e := m.words(st, v.S)
		if e != nil {
			return nil, bad
		}
		return vs, nil
	}
	return nil, bail(fail("invalid list"))
}

func registerMath(s *Scope) {
	op := func(sig string, min int, f func(vs []float64) float64) {
		s.Register(sig[:1], &simple{sig: sig, min: min, max: -1, f: func(m *Machine, a []Value, s *Scope) Result {
			vs := make([]float64, len(a)-1)
			for i := range vs {
				f, e := toFloat(a[i+1])
				if e != nil {
					return *e
				}
				vs[i] = f
			}
			return ok(number(f(vs)))
		}})
	}
	fold := func(f func(a, b float64) float64) func(vs []float64) float64 {
		return func(vs []float64) float64 {
			t := vs[0]
			for _, v := range vs[1:] {
				t = f(t, v)
			}
			return t
		}
	}
	op("+ number ?number ...?", 2, fold(func(a, b float64) float64 { return a + b }))
	sub := fold(func(a, b float64) float64 { return a - b })
	op("- number ?number ...?", 2, func(vs []float64) float64 {
		if len(vs) == 1 {
			return -vs[0]
		}
		return sub(vs)
	})
	op("* number ?number ...?", 2, fold(func(a, b float64) float64 { return a * b }))
	op("/ number number ?number ...?", 3, fold(func(a, b float64) float64 { return a / b }))
}

// numberCmd calls numbers as commands
type numberCmd struct{}

func (numberCmd) Exec(m *Machine, a []Value, s *Scope) Result {
	first, e := toFloat(a[0])
	if e != nil {
		return *e
	}
	if len(a) == 1 {
		return ok(number(first))
	}
	sub, is := str(a[1])
	if !is {
		return fail("invalid subcommand name")
	}
	switch sub {
	case "subcommands":
		if len(a) != 2 {
			return arity("<number> subcommands")
		}
		return ok(strs("subcommands", "+", "-", "*", "/", "==", "!=", ">", ">=", "<", "<="))
	case "+", "-", "*", "/":
		if len(a)%2 == 0 {
			return fail(`wrong # operands: should be "operand ?operator operand? ?...?"`)
		}
		sum, term := 0.0, first
		for i := 1; i < len(a); i += 2 {
			o, is := str(a[i])
			switch {
			case !is:
				return fail("invalid operator")
			case o != "+" && o != "-" && o != "*" && o != "/":
				return fail(`invalid operator "` + o + `"`)
			}
			v, e := toFloat(a[i+1])
			if e != nil {
				return *e
			}
			switch o {
			case "+":
				sum, term = sum+term, v
			case "-":
				sum, term = sum+term, -v
			case "*":
				term = term * v
			case "/":
				term = term / v
			}
		}
		return ok(number(sum + term))
	}
	if !isComparison(sub) {
		return fail(`unknown subcommand "` + sub + `"`)
	}
	if len(a) != 3 {
		return fail(`wrong # operands: should be "operand1 ` + sub + ` operand2"`)
	}
	if same(a[0], a[2]) {
		return ok(Bool(compare(sub, 0)))
	}
	second, e := toFloat(a[2])
	if e != nil {
		return *e
	}
	switch {
	case first < second:
		return ok(Bool(compare(sub, -1)))
	case first > second:
		return ok(Bool(compare(sub, 1)))
	case first == second:
		return ok(Bool(compare(sub, 0)))
	}
	return ok(Bool(sub == "!="))
}

func isComparison(op string) bool {
	switch op {
	case "==", "!=", ">", ">=", "<", "<=":
		return true
	}
	return false
}

func compare(op string, order int) bool {
	switch op {
	case "==":
		return order == 0
	case "!=":
		return order != 0
	case ">":
		return order > 0
	case ">=":
		return order >= 0
	case "<":
		return order < 0
	}
	return order <= 0
}

// same reports whether values are identical simple values
func same(a, b Value) bool {
	switch a := a.(type) {
	case Nil:
		_, is := b.(Nil)
		return is
	case Bool:
		x, is := b.(Bool)
		return is && a == x
	case Int:
		x, is := b.(Int)
		return is && a == x
	case Real:
		x, is := b.(Real)
		return is && a == x
	case Str:
		x, is := b.(Str)
		return is && a == x
	case *Cmd:
		x, is := b.(*Cmd)
		if is && a == x {
			return true
		}
		if is {
			panic(Inconclusive{"command identity"})
		}
	case *ScriptV:
		// Not compared by content
		if x, is := b.(*ScriptV); is {
			if a == x {
				panic(Inconclusive{"script identity"})
			}
		}
	case *Custom:
		if x, is := b.(*Custom); is && x.Kind == a.Kind {
			panic(Inconclusive{"custom identity"})
		}
	}
	return false
}

// valueCmd is the ensemble of operations on a type of values
type valueCmd struct {
	*ensemble
	convert func(m *Machine, v Value) Result
}

func newValueCmd(s *Scope, name string, convert func(m *Machine, v Value) Result) *valueCmd {
	e := newEnsemble(s.child(), &Argspec{args: []argument{{name: "value"}}})
	c := &valueCmd{e, convert}
	s.Register(name, c)
	return c
}

func (c *valueCmd) Exec(m *Machine, a []Value, s *Scope) Result {
	if len(a) == 2 {
		return c.convert(m, a[1])
	}
	return c.ensemble.Exec(m, a, s)
}

func (c *valueCmd) sub(name, sig string, min, max int, f func(m *Machine, a []Value, s *Scope) Result) {
	c.scope.Register(name, &simple{sig: sig, min: min, max: max, f: f})
}

func conv[T any](f func(Value) (T, *Result), wrap func(T) Value) func(m *Machine, v Value) Result {
	return func(m *Machine, v Value) Result {
		x, e := f(v)
		if e != nil {
			return *e
		}
		return ok(wrap(x))
	}
}

func registerData(s *Scope) {
	newValueCmd(s, "bool", conv(toBool, func(b bool) Value { return Bool(b) }))
	newValueCmd(s, "int", conv(toInt, func(i int64) Value { return Int(i) }))
	newValueCmd(s, "real", conv(toFloat, func(f float64) Value { return Real(f) }))
	registerStrings(s)
	registerLists(s)
	registerDicts(s)
	registerScripts(s)
}

type stringOp string

func (o stringOp) sig() string { return "string value1 " + string(o) + " value2" }
func (o stringOp) Exec(m *Machine, a []Value, s *Scope) Result {
	if len(a) != 3 {
		return fail(`wrong # operands: should be "` + o.sig() + `"`)
	}
	if same(a[1], a[2]) {
		return ok(Bool(compare(string(o), 0)))
	}
	x, e := toStr(a[1])
	if e != nil {
		return *e
	}
	y, e := toStr(a[2])
	if e != nil {
		return *e
	}
	order := 0
	if x < y {
		order = -1
	} else if x > y {
		order = 1
	}
	return ok(Bool(compare(string(o), order)))
}
func (o stringOp) Help(m *Machine, a []Value, _ HelpOpts, s *Scope) Result {
	if len(a) > 3 {
		return fail(`wrong # operands: should be "` + o.sig() + `"`)
	}
	return ok(Str(o.sig()))
}

// clamp limits a position to a sequence
func clamp(i int64, n int) int {
	if i < 0 {
		return 0
	}
	if i > int64(n) {
		return n
	}
	return int(i)
}

// span converts inclusive bounds to positions
func span(first, last int64, n int) (int, int) {
	i := clamp(first, n)
	j := i
	if last >= 0 && clamp(last, n-1) >= i && i < n {
		j = clamp(last, n-1) + 1
	}
	if n == 0 {
		return 0, 0
	}
	return i, j
}

func ints(a []Value, idx ...int) ([]int64, *Result) {
	var out []int64
	for _, i := range idx {
		n, e := toInt(a[i])
		if e != nil {
			return nil, e
		}
		out = append(out, n)
	}
	return out, nil
}

// registerSequence defines the operations shared by strings and lists
func registerSequence[T any](c *valueCmd, name, what string, get func(m *Machine, v Value) (T, *Result),
	length func(T) int, slice func(T, int, int) T, join func(m *Machine, ts ...T) T, at func(T, int) Value, wrap func(T) Value) {
	type op func(m *Machine, a []Value, v T) Result
	def := func(op, sig string, min, max int, f op) {
		if op == "append" {
			min = 2
		}
		c.sub(op, name+" value "+sig, min, max, func(m *Machine, a []Value, s *Scope) Result {
			v, e := get(m, a[1])
			if e != nil {
				return *e
			}
			return f(m, a, v)
		})
	}
	def("length", "length", 2, 2, func(m *Machine, a []Value, v T) Result { return ok(Int(length(v))) })
	def("at", "at index ?default?", 3, 4, func(m *Machine, a []Value, v T) Result {
		i, e := toInt(a[2])
		switch {
		case e != nil:
			return *e
		case i >= 0 && i < int64(length(v)):
			return ok(at(v, int(i)))
		case len(a) == 4:
			return ok(a[3])
		}
		return fail(`index out of range "` + strconv.FormatInt(i, 10) + `"`)
	})
	if name == "tuple" {
		return
	}
	def("range", "range first ?last?", 3, 4, func(m *Machine, a []Value, v T) Result {
		n := length(v)
		if len(a) == 3 {
			p, e := ints(a, 2)
			if e != nil {
				return *e
			}
			return ok(wrap(slice(v, clamp(p[0], n), n)))
		}
		p, e := ints(a, 2, 3)
		if e != nil {
			return *e
		}
		i, j := span(p[0], p[1], n)
		return ok(wrap(slice(v, i, j)))
	})
	def("append", "append ?"+what+" ...?", 2, -1, func(m *Machine, a []Value, v T) Result {
		parts := []T{v}
		for _, x := range a[2:] {
			y, e := get(m, x)
			if e != nil {
				return *e
			}
			parts = append(parts, y)
		}
		return ok(wrap(join(m, parts...)))
	})
	def("remove", "remove first last", 4, 4, func(m *Machine, a []Value, v T) Result {
		p, e := ints(a, 2, 3)
		if e != nil {
			return *e
		}
		n := length(v)
		i, j := span(p[0], p[1], n)
		return ok(wrap(join(m, slice(v, 0, i), slice(v, j, n))))
	})
	def("insert", "insert index value2", 4, 4, func(m *Machine, a []Value, v T) Result {
		p, e := ints(a, 2)
		if e != nil {
			return *e
		}
		x, e := get(m, a[3])
		if e != nil {
			return *e
		}
		n := length(v)
		i := clamp(p[0], n)
		return ok(wrap(join(m, slice(v, 0, i), x, slice(v, i, n))))
	})
	def("replace", "replace first last value2", 5, 5, func(m *Machine, a []Value, v T) Result {
		p, e := ints(a, 2, 3)
		if e != nil {
			return *e
		}
		x, e := get(m, a[4])
		if e != nil {
			return *e
		}
		n := length(v)
		i, j := span(p[0], p[1], n)
		return ok(wrap(join(m, slice(v, 0, i), x, slice(v, j, n))))
	})
}

func registerStrings(s *Scope) {
	c := newValueCmd(s, "string", conv(toStr, func(s string) Value { return Str(s) }))
	registerSequence(c, "string", "string",
		func(m *Machine, v Value) (string, *Result) { return toStr(v) },
		func(s string) int { return len(s) },
		func(s string, i, j int) string { return s[i:j] },
		func(m *Machine, ss ...string) string {
			out := ""
			for _, s := range ss {
				out += s
			}
			m.size(len(out))
			return out
		},
		func(s string, i int) Value { return Str(s[i : i+1]) },
		func(s string) Value { return Str(s) })
	for _, o := range []string{"==", "!=", ">", ">=", "<", "<="} {
		c.scope.Register(o, stringOp(o))
	}
}

func joinValues(m *Machine, vs ...[]Value) []Value {
	out := []Value{}
	for _, v := range vs {
		out = append(out, v...)
	}
	m.size(len(out))
	return out
}

func registerLists(s *Scope) {
	get := func(m *Machine, v Value) ([]Value, *Result) { return m.array(v) }
	length := func(v []Value) int { return len(v) }
	slice := func(v []Value, i, j int) []Value { return v[i:j] }
	at := func(v []Value, i int) Value { return v[i] }
	c := newValueCmd(s, "list", func(m *Machine, v Value) Result {
		vs, e := m.array(v)
		if e != nil {
			return *e
		}
		return ok(List(vs))
	})
	registerSequence(c, "list", "list", get, length, slice, joinValues, at, func(v []Value) Value { return List(v) })
	c.sub("sort", "list value sort ?comparator?", 2, 3, func(m *Machine, a []Value, s *Scope) Result {
		vs, e := m.array(a[1])
		if e != nil {
			return *e
		}
		if len(a) == 3 {
			return m.sort(vs, func(x, y Value) (int, *Result) {
				r := m.isolated(func() Result { return m.runArgs([]Value{a[2], x, y}, s) })
				if r.Code != OK {
					return 0, &r
				}
				i, e := toInt(r.Val)
				if e != nil {
					return 0, e
				}
				switch {
				case i < 0:
					return -1, nil
				case i > 0:
					return 1, nil
				}
				return 0, nil
			})
		}
		return m.sort(vs, func(x, y Value) (int, *Result) {
			a, e := toStr(x)
			if e != nil {
				return 0, e
			}
			b, e := toStr(y)
			if e != nil {
				return 0, e
			}
			switch {
			case a < b:
				return -1, nil
			case a > b:
				return 1, nil
			}
			return 0, nil
		})
	})
	c.sub("foreach", "list value foreach ?index? element body", 4, 5, func(m *Machine, a []Value, s *Scope) Result {
		return m.foreach(a, s, func() ([]Value, *Result) { return m.array(a[1]) })
	})

	t := newValueCmd(s, "tuple", func(m *Machine, v Value) Result {
		if !isSequence(v) {
			return fail("invalid tuple")
		}
		vs, e := m.array(v)
		if e != nil {
			return *e
		}
		return ok(Tuple(vs))
	})
	registerSequence(t, "tuple", "", get, length, slice, joinValues, at, func(v []Value) Value { return Tuple(v) })
}

// sort sorts values; the comparisons made are unspecified so they must be
// consistent
func (m *Machine) sort(vs []Value, cmp func(x, y Value) (int, *Result)) Result {
	n := len(vs)
	if n < 2 {
		return ok(List(append([]Value{}, vs...)))
	}
	if n > 40 {
		panic(Inconclusive{"sort size"})
	}
	logs := len(m.Log)
	order := make([][]int, n)
	var failed *Result
	fails, total := 0, 0
	for i := range vs {
		order[i] = make([]int, n)
		for j := range vs {
			if i == j {
				continue
			}
			total++
			o, e := cmp(vs[i], vs[j])
			if e != nil {
				fails++
				if failed != nil && (failed.Code != e.Code || Canon(failed.Val) != Canon(e.Val)) {
					panic(Inconclusive{"sort failures"})
				}
				failed = e
			}
			order[i][j] = o
		}
	}
	if len(m.Log) != logs {
		panic(Inconclusive{"sort side effects"})
	}
	if fails > 0 {
		// A failure is certain when all the comparisons of some value fail
		for i := range vs {
			all := true
			for j := range vs {
				if i == j {
					continue
				}
				if _, e := cmp(vs[i], vs[j]); e == nil {
					all = false
				}
				if _, e := cmp(vs[j], vs[i]); e == nil {
					all = false
				}
			}
			if all {
				return *failed
			}
		}
		panic(Inconclusive{"sort failures"})
	}
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	for i := range vs {
		for j := range vs {
			if order[i][j] != -order[j][i] {
				panic(Inconclusive{"sort inconsistency"})
			}
			if i != j && order[i][j] == 0 && Canon(vs[i]) != Canon(vs[j]) {
				panic(Inconclusive{"sort order"})
			}
			for k := range vs {
				if order[i][j] <= 0 && order[j][k] <= 0 && order[i][k] > 0 {
					panic(Inconclusive{"sort inconsistency"})
				}
			}
		}
	}
	sort.SliceStable(idx, func(a, b int) bool { return order[idx[a]][idx[b]] < 0 })
	out := make(List, n)
	for i, k := range idx {
		out[i] = vs[k]
	}
	return ok(out)
}

// foreach iterates over elements with local variables
func (m *Machine) foreach(a []Value, s *Scope, get func() ([]Value, *Result)) Result {
	slots := map[string]int{}
	shape, body := a[len(a)-2], a[len(a)-1]
	index := len(a) == 5
	if index {
		n, is := str(a[2])
		if !is {
			return fail("invalid index name")
		}
		slots[n] = 0
	}
	vs, e := get()
	if e != nil {
		return *e
	}
	sv, is := body.(*ScriptV)
	if !is {
		return fail("body must be a script")
	}
	if e := localSlots(shape, slots); e != nil {
		return *e
	}
	sub := s.local(slots, nil)
	last := ok(Nil{})
	jumped := false
	for i, v := range vs {
		m.burn(1)
		if index {
			sub.vals[0] = Int(i)
		}
		if r := sub.destructureLocal(shape, v); r.Code != OK {
			m.Unsure = m.Unsure || jumped
			return r
		}
		r := m.run(sv.S, sub)
		jumped = r.Code != OK
		switch r.Code {
		case OK:
			last = r
		case BREAK:
			return last
		case CONTINUE:
		default:
			return r
		}
	}
	return last
}

// dict converts a value to a dictionary
func (m *Machine) dict(v Value) (Dict, *Result) {
	if d, is := v.(Dict); is {
		return d, nil
	}
	vs, e := m.array(v)
	if e != nil {
		return nil, e
	}
	if len(vs)%2 == 1 {
		return nil, bail(fail("invalid key-value list"))
	}
	d := Dict{}
	for i := 0; i < len(vs); i += 2 {
		k, is := str(vs[i])
		if !is {
			return nil, bail(fail("invalid key"))
		}
		d[k] = vs[i+1]
	}
	return d, nil
}

func (d Dict) clone() Dict {
	out := Dict{}
	for k, v := range d {
		out[k] = v
	}
	return out
}

func registerDicts(s *Scope) {
	toDict := func(m *Machine, v Value) Result {
		if _, is := v.(Dict); !is && !isSequence(v) {
			return fail("invalid dictionary")
		}
		d, e := m.dict(v)
		if e != nil {
			return *e
		}
		return ok(d)
	}
	c := newValueCmd(s, "dict", toDict)
	def := func(op, sig string, min, max int, f func(m *Machine, a []Value, d Dict) Result) {
		c.sub(op, "dict value "+sig, min, max, func(m *Machine, a []Value, s *Scope) Result {
			if len(a) == 2 && (op == "remove" || op == "merge") {
				return toDict(m, a[1])
			}
			d, e := m.dict(a[1])
			if e != nil {
				return *e
			}
			return f(m, a, d)
		})
	}
	def("size", "size", 2, 2, func(m *Machine, a []Value, d Dict) Result { return ok(Int(len(d))) })
	def("has", "has key", 3, 3, func(m *Machine, a []Value, d Dict) Result {
		k, is := str(a[2])
		if !is {
			return fail("invalid key")
		}
		_, has := d[k]
		return ok(Bool(has))
	})
	def("get", "get key ?default?", 3, 4, func(m *Machine, a []Value, d Dict) Result {
		get := func(v Value) Result {
			k, is := str(v)
			if !is {
				return fail("invalid key")
			}
			if x, has := d[k]; has {
				return ok(x)
			}
			if len(a) == 4 {
				return ok(a[3])
			}
			return fail(`unknown key "` + k + `"`)
		}
		t, is := a[2].(Tuple)
		if !is {
			return get(a[2])
		}
		if len(a) == 4 {
			return fail("cannot use default with key tuples")
		}
		out := Tuple{}
		for _, k := range t {
			r := get(k)
			if r.Code != OK {
				return r
			}
			out = append(out, r.Val)
		}
		return ok(out)
	})
	def("add", "add key value", 4, 4, func(m *Machine, a []Value, d Dict) Result {
		k, is := str(a[2])
		if !is {
			return fail("invalid key")
		}
		d = d.clone()
		d[k] = a[3]
		return ok(d)
	})
	def("remove", "remove ?key ...?", 2, -1, func(m *Machine, a []Value, d Dict) Result {
		d = d.clone()
		for _, v := range a[2:] {
			k, is := str(v)
			if !is {
				return fail("invalid key")
			}
			delete(d, k)
		}
		return ok(d)
	})
	def("merge", "merge ?dict ...?", 2, -1, func(m *Machine, a []Value, d Dict) Result {
		d = d.clone()
		for _, v := range a[2:] {
			d2, e := m.dict(v)
			if e != nil {
				return *e
			}
			for k, x := range d2 {
				d[k] = x
			}
		}
		return ok(d)
	})
	each := func(op string, f func(e Tuple) Value) {
		def(op, op, 2, 2, func(m *Machine, a []Value, d Dict) Result {
			out := List{}
			for _, e := range dictEntries(d) {
				out = append(out, f(e.(Tuple)))
			}
			return ok(out)
		})
	}
	each("keys", func(e Tuple) Value { return e[0] })
	each("values", func(e Tuple) Value { return e[1] })
	each("entries", func(e Tuple) Value { return e })
	c.sub("foreach", "dict value foreach ?index? entry body", 4, 5, func(m *Machine, a []Value, s *Scope) Result {
		return m.foreach(a, s, func() ([]Value, *Result) {
			d, e := m.dict(a[1])
			if e != nil {
				return nil, e
			}
			return dictEntries(d), nil
		})
	})
}

func registerScripts(s *Scope) {
	s.Register("parse", &simple{sig: "parse source", min: 2, max: 2, f: func(m *Machine, a []Value, s *Scope) Result {
		src, e := toStr(a[1])
		if e != nil {
			return *e
		}
		sc, msg := Parse(src)
		if msg != "" {
			return fail(msg)
		}
		noPos(sc)
		return ok(&ScriptV{S: sc, Source: &src})
	}})
	get := func(v Value) (*ScriptV, *Result) {
		switch v := v.(type) {
		case *ScriptV:
			return v, nil
		case Tuple:
			sc := &Script{}
			if len(v) > 0 {
				se := &Sentence{Pos: unknownPos}
				for _, x := range v {
					se.Words = append(se.Words, &Word{Val: x})
				}
				sc.Sents = append(sc.Sents, se)
			}
			return &ScriptV{S: sc}, nil
		}
		return nil, bail(fail("value must be a script or tuple"))
	}
	c := newValueCmd(s, "script", conv(get, func(s *ScriptV) Value { return s }))
	c.sub("length", "script value length", 2, 2, func(m *Machine, a []Value, s *Scope) Result {
		v, e := get(a[1])
		if e != nil {
			return *e
		}
		return ok(Int(len(v.S.Sents)))
	})
	c.sub("append", "script value append ?script ...?", 2, -1, func(m *Machine, a []Value, s *Scope) Result {
		v, e := get(a[1])
		if e != nil {
			return *e
		}
		if len(a) == 2 {
			return ok(v)
		}
		sc := &Script{Sents: append([]*Sentence{}, v.S.Sents...)}
		for _, x := range a[2:] {
			w, e := get(x)
			if e != nil {
				return *e
			}
			sc.Sents = append(sc.Sents, w.S.Sents...)
		}
		m.size(len(sc.Sents))
		return ok(&ScriptV{S: sc})
	})
	c.sub("split", "script value split", 2, 2, func(m *Machine, a []Value, s *Scope) Result {
		v, e := get(a[1])
		if e != nil {
			return *e
		}
		out := List{}
		for _, se := range v.S.Sents {
			out = append(out, &ScriptV{S: &Script{Sents: []*Sentence{se}}})
		}
		return ok(out)
	})
}

var unknownPos = Pos{Line: -1}

// noPos removes positions from a script
func noPos(s *Script) {
	for _, se := range s.Sents {
		se.Pos = unknownPos
		for _, w := range se.Words {
			w.Pos = unknownPos
			noPosNodes(w.Nodes)
		}
	}
}

func noPosNodes(ns []*Node) {
	for _, n := range ns {
		n.Pos = unknownPos
		if n.Sub != nil {
			noPos(n.Sub)
		}
		noPosNodes(n.Kids)
	}
}
