package main

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"sync/atomic"

	"helena/core"
	hd "helena/helena_dialect"
	"helena/native/go_regexp"
)

// Operations called directly by goroutines. Running scripts takes and returns
// recycled objects, which orders the memory accesses of the goroutines and so
// hides races between them; these don't.
type directOp struct {
	name string
	// Operands: indexes of the values of the goroutine
	args []int
	src  string
}

var (
	directData  = strings.Fields("list list list dict dict string string string script tuple argspec bool int real parse idem + - * / == true false && || ! 1 2.5 set get exists let unset help error return list dict string")
	directSubs  = strings.Fields("length at range append remove insert replace foreach sort size has get add remove merge keys values entries usage set subcommands split == != < > <= >= + - * / ? !? usage set subcommands")
	directPicol = strings.Fields("+ - * / == != > < >= <= ! && || if set incr expr proc true false 1 2.5 $ return error")
	directMeths = strings.Fields("Compile MustCompile MatchString FindString FindAllString FindStringIndex FindStringSubmatch ReplaceAllString Split QuoteMeta NumSubexp SubexpNames String LiteralPrefix FindAllStringIndex")
)

func (c *Ctx) directJobs(shared map[string]core.Value, sources []string) (jobs []*job) {
	for k := 2 + c.R.IntN(3); k > 0; k-- {
		// Either the same operations on the same values, or others
		if len(jobs) > 0 && c.R.IntN(3) == 0 {
			jobs = append(jobs, &job{kind: "direct", f: jobs[0].f})
			continue
		}
		jobs = append(jobs, c.directJob(shared, sources))
	}
	return
}

func (c *Ctx) directJob(shared map[string]core.Value, sources []string) *job {
	r := c.R
	var exprs []string
	for i := 12 + r.IntN(10); i > 0; i-- {
		exprs = append(exprs, pickw(r, pickw(r, "[+ 1 2]", "[+ 40 2000000]", "[* 1.5 1.25]", "[list (3 1 2)]", "[list ([+ 1 1] [- 7 3])]", "[dict (a 1 b [+ 1 2])]", "[string abc length]", "[/ 1 3]", "[true]", "[- 9 2]", "[* 1 -7]", fmt.Sprintf("[* %d %d]", r.IntN(1000000)-500000, r.IntN(1000000)), fmt.Sprintf("[- %d.%d]", r.IntN(1000000), r.IntN(1000000)), fmt.Sprintf("[list ([+ %d] [+ %d 0.25])]", r.IntN(1000000), r.IntN(1000000)), fmt.Sprintf("\"%d \\\\ %d\"", r.IntN(100000), r.IntN(100000))), pick(r, anyValues)))
	}
	var names []string
	for name := range shared {
		names = append(names, name)
	}
	sort.Strings(names)
	n := len(exprs) + len(names)
	var ops []directOp
	for k := 15 + r.IntN(30); k > 0; k-- {
		op := directOp{}
		for j := r.IntN(4); j > 0; j-- {
			op.args = append(op.args, r.IntN(n))
		}
		switch r.IntN(12) {
		case 0, 1, 2, 3:
			op.name = "call " + pick(r, directData)
			if r.IntN(4) > 0 {
				op.name += " " + pick(r, directSubs)
			}
			if len(op.args) == 0 {
				op.args = append(op.args, r.IntN(n))
			}
		case 4:
			op.name = "picol " + pick(r, directPicol)
		case 5:
			op.name = "regexp " + pick(r, directMeths)
		case 6, 7, 8:
			op.name = "convert"
			op.args = []int{r.IntN(n)}
		case 9:
			op.name = "select"
			op.args = []int{r.IntN(n), r.IntN(n)}
		case 10:
			op.name = "parse"
			op.src = pick(r, sources)
			if r.IntN(2) == 0 {
				op.src = anySource(r)
			}
		case 11:
			op.name = "display"
			op.args = []int{r.IntN(n)}
		}
		ops = append(ops, op)
	}
	// Values are built once, or by each goroutine
	build := func() (vs []core.Value, s *realSession) {
		s = newRealSession(sessOpts{noResume: true})
		s.runScript(0, robustPrelude)
		for _, e := range exprs {
			p := parseReal("idem "+e, false)
			v := core.Value(core.NIL)
			if p.Success {
				if res := s.scope.PrepareProcess(s.scope.Compile(*p.Script)).Run(); res.Code == core.ResultCode_OK {
					v = res.Value
				}
			}
			vs = append(vs, v)
		}
		for _, name := range names {
			vs = append(vs, shared[name])
		}
		return
	}
	text := func() string {
		var b strings.Builder
		fmt.Fprintf(&b, "%v\n", exprs)
		for _, op := range ops {
			fmt.Fprintf(&b, "%s %v %q; ", op.name, op.args, op.src)
		}
		return b.String()
	}
	reps := 1 + r.IntN(4)
	run := func(out []any) []any {
		vs, s := build()
		ps := newPicolSession()
		for k := 0; k < reps; k++ {
			for _, op := range ops {
				out = op.run(out, vs, s, ps)
			}
		}
		return out
	}
	directText := text()
	c.Input(c.input + directText)
	want := directTexts(run(nil))
	j := &job{kind: "direct"}
	j.f = func(r *rand.Rand, tick func()) string {
		out := run(make([]any, 0, len(want)+16))
		got := directTexts(out)
		for i := range want {
			if i >= len(got) || got[i] != want[i] {
				return fmt.Sprintf("direct operations\n%s\nresult %d: got %s alone %s", directText, i, trunc(got[min(i, len(got)-1)], 300), trunc(want[i], 300))
			}
		}
		directOps.Add(int64(len(got)))
		return ""
	}
	return j
}

func (op directOp) run(out []any, vs []core.Value, s *realSession, ps *picolReal) []any {
	words := strings.Fields(op.name)
	var args []core.Value
	for _, w := range words[1:] {
		args = append(args, core.STR(w))
	}
	for i, a := range op.args {
		if i == 0 && words[0] == "call" && len(args) == 2 {
			// Ensemble argument
			args = append(args[:1], vs[a], args[1])
			continue
		}
		args = append(args, vs[a])
	}
	var res core.Result
	switch words[0] {
	case "call":
		cmd := s.scope.ResolveNamedCommand(words[1])
		if cmd == nil {
			cmd = s.scope.ResolveCommand(args[0])
		}
		if cmd == nil {
			return out
		}
		res = cmd.Execute(args, s.scope)
		if h, has := cmd.(core.CommandWithHelp); has {
			if help := h.Help(args, core.CommandHelpOptions{}, s.scope); help.Code == core.ResultCode_OK {
				out = append(out, help)
			}
		}
	case "picol":
		cmd := ps.scope.Commands[words[1]]
		if cmd == nil {
			return out
		}
		res = cmd.Execute(args, ps.scope)
	case "regexp":
		args = append([]core.Value{core.STR("regexp")}, args...)
		if len(args) > 2 {
			compiled := go_regexp.RegexpCmd{}.Execute([]core.Value{args[0], core.STR("Compile"), args[2]}, s.scope)
			if compiled.Code == core.ResultCode_OK {
				out = append(out, go_regexp.RegexpCmd{}.Execute(append([]core.Value{args[0], args[1], compiled.Value}, args[3:]...), s.scope))
			}
		}
		res = go_regexp.RegexpCmd{}.Execute(args, s.scope)
	case "convert":
		v := vs[op.args[0]]
		r1, x := core.ValueToString(v)
		r2, i := core.ValueToInteger(v)
		r3, f := core.ValueToFloat(v)
		r4, b := core.ValueToBoolean(v)
		r5, l := core.ValueToValues(v)
		// Many times, as values are converted quickly
		for k := 0; k < 200; k++ {
			if _, y := core.ValueToString(v); x != y {
				return append(out, "converted to "+x+" then to "+y)
			}
			if _, y := core.ValueToInteger(v); i != y {
				return append(out, "converted to other integers")
			}
			if _, y := core.ValueToFloat(v); f != y && f == f {
				return append(out, "converted to other reals")
			}
		}
		return append(out, r1, x, r2, i, r3, f, r4, b, r5, len(l))
	case "select":
		v, k := vs[op.args[0]], vs[op.args[1]]
		if x, is := v.(core.IndexSelectable); is {
			out = append(out, x.SelectIndex(k))
		}
		if x, is := v.(core.KeySelectable); is {
			out = append(out, x.SelectKey(k))
		}
		return out
	case "parse":
		var tk core.Tokenizer
		out = append(out, len(tk.Tokenize(op.src)))
		p := parseReal(op.src, true)
		out = append(out, p)
		if p.Success && p.Script != nil {
			program := s.scope.Compile(*p.Script)
			out = append(out, len(program.OpCodes))
		}
		return out
	case "display":
		if d, is := vs[op.args[0]].(core.Displayable); is {
			text := d.Display(nil)
			if vs[op.args[0]].Type() == core.ValueType_INTEGER || vs[op.args[0]].Type() == core.ValueType_STRING || vs[op.args[0]].Type() == core.ValueType_REAL {
				for k := 0; k < 50; k++ {
					if y := d.Display(nil); text != y {
						return append(out, "displayed as "+text+" then as "+y)
					}
				}
			}
			return append(out, text)
		}
		return out
	}
	return append(out, res)
}

var directOps atomic.Int64

// directTexts gives the texts of results, in no order of characters as
// dictionaries have none
func directTexts(out []any) (texts []string) {
	for _, o := range out {
		t := ""
		switch o := o.(type) {
		case core.Result:
			if _, is := o.Value.(*hd.ContinuationValue); is {
				t = "continuation"
			} else {
				t = realCode(o) + " " + canonReal(o.Value)
			}
		case core.ParseResult:
			x := outcomeOf(o, true)
			t = fmt.Sprint(x)
		default:
			t = fmt.Sprint(o)
		}
		b := []byte(t)
		sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
		texts = append(texts, string(b))
	}
	return
}
