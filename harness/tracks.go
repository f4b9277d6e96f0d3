package main

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"helena/core"
	hd "helena/helena_dialect"

	"verif/ref"
)

// A track is an interpreter with threads of scripts: each thread runs its
// scripts one after another, several threads are suspended at the same time. The
// order of operations within a track is fixed; the one between tracks is not.
type track struct {
	name    string
	o       sessOpts
	threads [][]tstep
	order   []int // thread run by each operation
	want    []obs
	stacks  [][]string
	unsure  bool
	why     string
}

type tstep struct {
	src   string
	limit int // abandoned when it suspends that many times (-1: never)
}

const (
	opNone = "(nothing)"
	maxOps = 60
)

// feedOp is the value each operation resumes with
func feedOp(op int) string { return fmt.Sprintf("r%d", op) }

// expect runs the track with the specification
func (t *track) expect() {
	s := newRefSession(t.o)
	defer s.m.Close()
	defer func() {
		t.unsure = s.m.Unsure
		if e := recover(); e != nil {
			if i, is := e.(ref.Inconclusive); is {
				t.why = i.Why
				return
			}
			panic(e)
		}
	}()
	type live struct {
		p    *ref.Process
		n, k int
	}
	ths := make([]live, len(t.threads))
	for op, ti := range t.order {
		th := &ths[ti]
		if th.p == nil && th.n >= len(t.threads[ti]) {
			t.want, t.stacks = append(t.want, obs{opNone}), append(t.stacks, nil)
			continue
		}
		step := t.threads[ti][th.n]
		if th.p == nil {
			sc, msg := ref.Parse(step.src)
			if msg != "" {
				th.n++
				t.want, t.stacks = append(t.want, obs{"parse: " + msg}), append(t.stacks, nil)
				continue
			}
			src := step.src
			ref.SetSource(sc, "", &src)
			th.p, th.k = s.m.Start(sc, s.root), 0
		} else {
			th.p.YieldBack(ref.Str(feedOp(op)))
		}
		res := th.p.Run()
		o := append(obs{}, s.takeLog()...)
		o = append(o, resultText(res.Code.String(), ref.Canon(res.Val)))
		var st []string
		if res.Code == ref.ERROR {
			st = refStack(res, t.o.capture)
		}
		t.want, t.stacks = append(t.want, o), append(t.stacks, st)
		th.k++
		if res.Code != ref.YIELD || th.k == step.limit {
			th.p = nil
			th.n++
		}
	}
}

// programs shares parsed and compiled scripts between tracks. It must be filled
// beforehand when used concurrently.
type programs struct {
	m     map[string]sharedProg
	fixed bool
}

type sharedProg struct {
	script  core.Script
	program *core.Program
	fail    string
}

func progKey(src string, capture bool) string { return fmt.Sprint(capture, src) }

// runner runs a track with the implementation
type runner struct {
	t     *track
	s     *realSession
	ths   []liveThread
	op    int
	busy  bool
	r     *rand.Rand
	progs *programs
	// Odds (out of 100) of using a program or script built before
	reuse, reparse int
	kept           []*hd.Process
	// called by probes
	inside   func()
	reused   int
	levels   int
	yields   int
	finished int
	left     int
}

type liveThread struct {
	p    *hd.Process
	n, k int
}

func newRunner(t *track, r *rand.Rand, progs *programs) *runner {
	x := &runner{t: t, r: r, progs: progs, ths: make([]liveThread, len(t.threads)), reuse: 60, reparse: 50}
	x.s = newRealSession(t.o)
	x.s.hook = func() {
		if x.inside != nil {
			x.inside()
		}
	}
	return x
}

func (x *runner) done() bool { return x.op >= len(x.t.want) }

// program returns the compiled form of a script
func (x *runner) program(src string) (*core.Program, string) {
	key := progKey(src, x.t.o.capture)
	p, has := x.progs.m[key]
	if has && x.r.IntN(100) < x.reuse {
		x.reused++
		if p.fail != "" {
			return nil, p.fail
		}
		if x.r.IntN(100) < x.reparse {
			return x.s.scope.Compile(p.script), ""
		}
		return p.program, ""
	}
	p = buildProg(src, x.t.o.capture, x.s.scope)
	if !x.progs.fixed {
		x.progs.m[key] = p
	}
	return p.program, p.fail
}

func buildProg(src string, capture bool, scope *hd.Scope) sharedProg {
	r := parseReal(src, capture)
	if !r.Success {
		return sharedProg{fail: r.Message}
	}
	return sharedProg{script: *r.Script, program: scope.Compile(*r.Script)}
}

// step runs the next operation; it returns what differs from the specification
func (x *runner) step() string {
	op := x.op
	x.op++
	ti := x.t.order[op]
	th := &x.ths[ti]
	var got obs
	var stack []string
	x.busy = true
	defer func() { x.busy = false }()
	var step tstep
	switch {
	case th.p == nil && th.n >= len(x.t.threads[ti]):
		got = obs{opNone}
	default:
		step = x.t.threads[ti][th.n]
		if th.p == nil {
			prog, fail := x.program(step.src)
			if fail != "" {
				th.n++
				got = obs{"parse: " + fail}
				break
			}
			th.p, th.k = x.s.scope.PrepareProcess(prog), 0
		} else {
			th.p.YieldBack(core.STR(feedOp(op)))
		}
		res := th.p.Run()
		got = append(obs{}, x.s.takeLog()...)
		got = append(got, resultText(realCode(res), canonReal(res.Value)))
		x.s.keep(res.Value)
		if res.Code == core.ResultCode_ERROR {
			stack = realStack(res)
		}
		th.k++
		if res.Code == core.ResultCode_YIELD {
			x.yields++
		}
		if res.Code != core.ResultCode_YIELD || th.k == step.limit {
			if res.Code == core.ResultCode_YIELD {
				x.left++
				if x.r.IntN(2) == 0 {
					x.kept = append(x.kept, th.p)
				}
			} else {
				x.finished++
			}
			th.p = nil
			th.n++
		}
	}
	if g, w := got.String(), x.t.want[op].String(); g != w {
		return fmt.Sprintf("%s, operation %d (thread %d): %s\ngot\n%s\nwant\n%s", x.t.name, op, ti, trunc(step.src, 600), trunc(g, 1500), trunc(w, 1500))
	}
	if x.t.o.errStack && !x.t.unsure {
		if d := stackDiff(stack, x.t.stacks[op]); d != "" {
			return fmt.Sprintf("%s, operation %d (thread %d): %s\n%s\ngot\n%s\nwant\n%s", x.t.name, op, ti, trunc(step.src, 600), d, strings.Join(stack, "\n"), strings.Join(x.t.stacks[op], "\n"))
		}
		x.levels += len(stack)
	}
	return ""
}

var allTopics = []string{"basic", "num", "str", "list", "dict", "logic", "if", "loop", "catch", "var", "call", "argspec", "co", "ns", "ens", "alias", "script", "help", "word"}

// genTrack generates a track with the given number of threads
func genTrack(c *Ctx, name string, threads int) *track {
	t := &track{name: name}
	var ts []string
	for i := 0; i < 1+c.R.IntN(4); i++ {
		ts = append(ts, pick(c.R, allTopics))
	}
	ts = append(ts, pickw(c.R, "if", "loop", "catch", "logic", "co", "call"))
	g := newGen(c.R, append(ts, "basic")...)
	g.wrong = pick(c.R, []int{0, 10, 30, 80})
	g.yield = c.R.IntN(20)
	g.maxDepth = 1 + c.R.IntN(4)
	g.pipes = pick(c.R, []int{1, 1, 1, 12, 30})
	if c.R.IntN(3) == 0 {
		t.o.errStack, t.o.capture = true, c.R.IntN(3) > 0
	}
	pre := tstep{g.randPrelude(), -1}
	var pool []string
	for i := 0; i < threads; i++ {
		var th []tstep
		if i == 0 {
			th = append(th, pre)
		}
		for j, k := 0, 1+c.R.IntN(5); j < k; j++ {
			g.n = 0
			var src string
			if len(pool) > 0 && c.R.IntN(4) == 0 {
				src = pick(c.R, pool)
			} else {
				src = g.script(1 + c.R.IntN(3))
				pool = append(pool, src)
			}
			limit := -1
			if c.R.IntN(4) == 0 {
				limit = 1 + c.R.IntN(3)
			}
			th = append(th, tstep{src, limit})
		}
		t.threads = append(t.threads, th)
	}
	t.makeOrder(c.R)
	return t
}

func (t *track) makeOrder(r *rand.Rand) {
	t.order = []int{0}
	for len(t.order) < 10+r.IntN(maxOps-10) {
		ti := r.IntN(len(t.threads))
		for k := 1 + r.IntN(3); k > 0; k-- {
			t.order = append(t.order, ti)
		}
	}
}

// text describes a track
func (t *track) text() string {
	var b strings.Builder
	fmt.Fprintf(&b, "== %s errStack=%v capture=%v order=%v\n", t.name, t.o.errStack, t.o.capture, t.order)
	for i, th := range t.threads {
		for _, s := range th {
			fmt.Fprintf(&b, "-- thread %d limit %d\n%s\n", i, s.limit, s.src)
		}
	}
	return b.String()
}
