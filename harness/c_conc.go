package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"helena/core"
	pd "helena/picol_dialect"

	"verif/ref"
)

// C25: goroutines run interpreters of their own at the same time, sharing
// compiled programs and values; the race detector watches memory and every
// operation is compared with the reference interpreter running alone.
func init() {
	register(&Check{ID: "C25", Quick: 6000, Deep: 250000,
		Rule: "a case is a set of goroutines running interpreters, parsers, displays and Picol scripts at the same time under the race detector, sharing compiled scripts and values; every outcome is compared with the reference interpreter running alone; distinct = distinct sets of scripts",
		Run:  concCase})
}

// sharable tells whether a value holds data only
func sharable(v core.Value) bool {
	switch v := v.(type) {
	case core.ListValue:
		for _, x := range v.Values {
			if !sharable(x) {
				return false
			}
		}
		return true
	case core.TupleValue:
		for _, x := range v.Values {
			if !sharable(x) {
				return false
			}
		}
		return true
	case core.DictionaryValue:
		for _, x := range v.Map {
			if !sharable(x) {
				return false
			}
		}
		return true
	case core.QualifiedValue:
		return sharable(v.Source)
	}
	switch v.Type() {
	case core.ValueType_NIL, core.ValueType_BOOLEAN, core.ValueType_INTEGER, core.ValueType_REAL, core.ValueType_STRING, core.ValueType_SCRIPT:
		return true
	}
	return false
}

// A job is what one goroutine does; it returns what differs
type job struct {
	kind string
	f    func(r *rand.Rand, tick func()) string
	// counters
	n int
}

func concCase(c *Ctx) {
	// Interpreters
	n := 2 + c.R.IntN(4)
	base := genTrack(c, "A", 1+c.R.IntN(2))
	pre := base.threads[0][0]
	tracks := []*track{base}
	var sources []string
	for len(tracks) < n {
		t := base
		if c.R.IntN(2) == 0 {
			t = genTrack(c, string(rune('A'+len(tracks))), 1+c.R.IntN(2))
			t.threads[0][0] = pre
		} else {
			t = &track{name: string(rune('A' + len(tracks))), o: base.o, threads: base.threads}
			t.makeOrder(c.R)
		}
		tracks = append(tracks, t)
	}
	var text strings.Builder
	for _, t := range tracks {
		text.WriteString(t.text())
	}
	for _, t := range tracks {
		for _, th := range t.threads {
			for _, s := range th {
				sources = append(sources, s.src)
			}
		}
	}
	c.Input(text.String())
	for _, t := range tracks {
		t.expect()
		if t.why != "" {
			c.Count("undecided: "+t.why, 1)
		}
	}
	// Programs and values built once
	builder := newRealSession(base.o)
	builder.runScript(0, pre.src)
	progs := &programs{m: map[string]sharedProg{}, fixed: true}
	for _, t := range tracks {
		scope := newRealSession(t.o).scope
		for _, th := range t.threads {
			for _, s := range th {
				if key := progKey(s.src, t.o.capture); c.R.IntN(4) > 0 {
					if _, has := progs.m[key]; !has {
						progs.m[key] = buildProg(s.src, t.o.capture, scope)
					}
				}
			}
		}
	}
	shared := map[string]core.Value{}
	for _, name := range strings.Fields("i n x s l m t u d ll dd bl z e y d1 d2") {
		if v := builder.scope.ResolveVariable(name); v != nil && sharable(v) && c.R.IntN(4) > 0 {
			shared[name] = v
		}
	}
	var held []retained
	for _, v := range shared {
		held = append(held, retained{v, canonReal(v)})
	}
	var jobs []*job
	for _, t := range tracks {
		j := &job{kind: "interpreter"}
		j.f = func(r *rand.Rand, tick func()) string {
			x := newRunner(t, r, progs)
			x.inside = tick
			for !x.done() {
				if d := x.step(); d != "" {
					return d
				}
				j.n++
				if x.op == 1 {
					for name, v := range shared {
						x.s.scope.SetNamedVariable(name, v)
					}
				}
				tick()
			}
			return x.s.altered()
		}
		jobs = append(jobs, j)
	}
	// Parsers
	for k := c.R.IntN(3); k > 0; k-- {
		srcs := append([]string{}, sources...)
		if c.R.IntN(2) == 0 {
			srcs = append(srcs, anySource(c.R))
		}
		c.R.Shuffle(len(srcs), func(i, j int) { srcs[i], srcs[j] = srcs[j], srcs[i] })
		if len(srcs) > 6 {
			srcs = srcs[:6]
		}
		var want []parseOutcome
		for _, s := range srcs {
			want = append(want, refOutcome(s, true))
		}
		j := &job{kind: "parser"}
		j.f = func(r *rand.Rand, tick func()) string {
			p := core.NewParser(&core.ParserOptions{CapturePositions: true})
			for i, s := range srcs {
				if got := outcomeOf(realParse(p, s), true); got != want[i] {
					return fmt.Sprintf("%q\ngot  %v\nwant %v", s, got, want[i])
				}
				if got, _ := stepParse(p, s, true); got != want[i] {
					return fmt.Sprintf("%q\ngot  %v\nwant %v", s, got, want[i])
				}
				j.n++
				tick()
			}
			return ""
		}
		jobs = append(jobs, j)
	}
	// Displays and conversions of shared values
	if c.R.IntN(2) == 0 && len(shared) > 0 {
		type disp struct{ name, text string }
		var ds []disp
		for name, v := range shared {
			if d, is := v.(core.Displayable); is {
				ds = append(ds, disp{name, d.Display(nil)})
			}
		}
		j := &job{kind: "display"}
		j.f = func(r *rand.Rand, tick func()) string {
			for k := 0; k < 5; k++ {
				for _, d := range ds {
					// Maps have no order
					if got := shared[d.name].(core.Displayable).Display(nil); got != d.text && !strings.Contains(d.name, "d") {
						return fmt.Sprintf("%s displayed as %s instead of %s", d.name, got, d.text)
					}
					core.ValueToString(shared[d.name])
					core.ValueToValues(shared[d.name])
					j.n++
					tick()
				}
			}
			return ""
		}
		jobs = append(jobs, j)
	}
	// Picol
	if c.R.IntN(3) == 0 {
		g := &pgen{r: c.R, wrong: 10}
		var scripts []string
		for k := 2 + c.R.IntN(6); k > 0; k-- {
			g.depth = 0
			scripts = append(scripts, g.stmt())
		}
		text.WriteString("== picol\n" + strings.Join(scripts, "\n") + "\n")
		c.Input(text.String())
		want, why := picolExpect(append([]string{picolPrelude}, scripts...))
		if why != "" {
			c.Count("undecided: "+why, 1)
		}
		parsed := make([]core.ParseResult, len(want))
		for i := range want {
			parsed[i] = parseReal(append([]string{picolPrelude}, scripts...)[i], false)
		}
		for k := 1 + c.R.IntN(2); k > 0; k-- {
			j := &job{kind: "picol"}
			j.f = func(r *rand.Rand, tick func()) string {
				ps := newPicolSession()
				ps.s.hook = tick
				for i := range want {
					if got := ps.run(parsed[i]); got != want[i] {
						return fmt.Sprintf("picol script %d\ngot\n%s\nwant\n%s", i, trunc(got, 1500), trunc(want[i], 1500))
					}
					j.n++
					tick()
				}
				return ""
			}
			jobs = append(jobs, j)
		}
	}
	// Single operations
	if c.R.IntN(2) == 0 {
		jobs = append(jobs, c.directJobs(shared, sources)...)
	}
	// Some schedules are recorded; others are not, as recording synchronises
	observed := c.R.IntN(5) == 0
	var seq atomic.Int64
	trace := make([]int32, 4096)
	pause := pick(c.R, []int{0, 2, 5, 30})
	start := make(chan struct{})
	diffs := make([]string, len(jobs))
	var wg sync.WaitGroup
	for i, j := range jobs {
		wg.Add(1)
		r := rand.New(rand.NewPCG(c.R.Uint64(), uint64(i)))
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					diffs[i] = fmt.Sprintf("panic: %v", e)
				}
			}()
			tick := func() {
				if observed {
					if k := seq.Add(1); int(k) <= len(trace) {
						atomic.StoreInt32(&trace[k-1], int32(i+1))
					}
				}
				if pause > 0 && r.IntN(pause) == 0 {
					runtime.Gosched()
				}
			}
			<-start
			diffs[i] = j.f(r, tick)
		}()
	}
	close(start)
	wg.Wait()
	for i, d := range diffs {
		if d != "" {
			c.Fail("concurrent "+jobs[i].kind, "%s", d)
			return
		}
		c.Count(jobs[i].kind+" operations", jobs[i].n)
		c.Count("goroutines", 1)
	}
	c.Count("direct operations", int(directOps.Swap(0)))
	for _, h := range held {
		if now := canonReal(h.v); now != h.text {
			c.Fail("altered value", "shared value %s is now %s", h.text, now)
			return
		}
	}
	c.Count("shared values", len(shared))
	c.Count("shared programs", len(progs.m))
	if observed {
		k := min(int(seq.Load()), len(trace))
		var b strings.Builder
		switches := 0
		for i := 0; i < k; i++ {
			b.WriteByte(byte('0' + trace[i]))
			if i > 0 && trace[i] != trace[i-1] {
				switches++
			}
		}
		c.Distinct("distinct interleavings observed", text.String()+b.String())
		c.Count("recorded schedules", 1)
		c.Count("switches in recorded schedules", switches)
	}
	c.Eval(text.String())
}

// picolExpect returns the observations the specification prescribes
func picolExpect(scripts []string) (want []string, why string) {
	m := ref.NewMachine(20000)
	defer m.Close()
	defer func() {
		if e := recover(); e != nil {
			i, is := e.(ref.Inconclusive)
			if !is {
				panic(e)
			}
			why = i.Why
		}
	}()
	root := ref.NewPicolRoot()
	var log []string
	root.Register("probe", ref.Fn(func(m *ref.Machine, args []ref.Value, _ *ref.Scope) ref.Result {
		parts := make([]string, len(args))
		for i, a := range args {
			parts[i] = ref.Canon(a)
		}
		log = append(log, strings.Join(parts, " "))
		if len(args) == 1 {
			return ref.Result{Code: ref.OK, Val: ref.Nil{}}
		}
		return ref.Result{Code: ref.OK, Val: args[len(args)-1]}
	}))
	for _, src := range scripts {
		sc, msg := ref.Parse(src)
		if msg != "" {
			want = append(want, "parse: "+msg)
			continue
		}
		log = nil
		r := m.RunScript(sc, root)
		want = append(want, strings.Join(append(log, r.Code.String()+" "+ref.Canon(r.Val)), "\n"))
	}
	return
}

// picolReal is a Picol interpreter
type picolReal struct {
	s     *realSession
	scope *pd.PicolScope
}

func newPicolSession() *picolReal {
	p := &picolReal{s: &realSession{keepOn: true}, scope: pd.NewPicolScope(nil)}
	pd.InitPicolCommands(p.scope)
	p.scope.Commands["probe"] = nativeCmd{func(args []core.Value, _ any) core.Result {
		parts := make([]string, len(args))
		for i, a := range args {
			parts[i] = canonReal(a)
			p.s.keep(a)
		}
		p.s.log = append(p.s.log, strings.Join(parts, " "))
		if p.s.hook != nil {
			p.s.hook()
		}
		if len(args) == 1 {
			return core.OK(core.NIL)
		}
		return core.OK(args[len(args)-1])
	}}
	return p
}

func (p *picolReal) run(r core.ParseResult) string {
	if !r.Success {
		return "parse: " + r.Message
	}
	p.s.log = nil
	res := p.scope.Evaluator.EvaluateScript(*r.Script)
	p.s.keep(res.Value)
	return strings.Join(append(p.s.takeLog(), realCode(res)+" "+canonReal(res.Value)), "\n")
}
