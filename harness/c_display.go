package main

import (
	"fmt"
	"math"
	"math/rand/v2"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"helena/core"
	hd "helena/helena_dialect"
	"helena/native/go_regexp"

	"verif/ref"
)

// C06: displayed values read back as the same value

func init() {
	register(&Check{ID: "C06", Quick: 120000, Deep: 3000000,
		Rule: "a case is a value, built at random or by a script; its display is parsed as one word, evaluated by the implementation and by the reference interpreter, and compared with the value; distinct = distinct displays",
		Run:  displayCase})
}

const hostileBytes = "\\$\"#(){}[];*\n\t\r \x00\x80\xff\xc3\xe9|^<>=&!?.+-/ab1_'`~%@,:"

func displayString(r *rand.Rand) string {
	if r.IntN(60) == 0 {
		// Long runs, with special characters anywhere
		s := strings.Repeat(pickw(r, "a", "a1", "é", "1", "-", "_", "ab", "#", "\"", "$", "\\"), pick(r, []int{30, 60, 130, 260, 600, 1100}))
		for k := r.IntN(3); k > 0; k-- {
			i := pick(r, []int{r.IntN(len(s) + 1), len(s), 0})
			s = s[:i] + pickw(r, " ", "\n", "(", "]", "\"", "$", "\\", "#", ";", "a", "}") + s[i:]
		}
		return s
	}
	switch k := r.IntN(12); {
	case k == 0:
		return string([]byte{byte(r.IntN(256))})
	case k == 1:
		return string([]byte{hostileBytes[r.IntN(len(hostileBytes))]})
	case k < 5:
		b := make([]byte, r.IntN(12))
		for i := range b {
			b[i] = hostileBytes[r.IntN(len(hostileBytes))]
		}
		return string(b)
	case k == 5:
		b := make([]byte, r.IntN(8))
		for i := range b {
			b[i] = byte(r.IntN(256))
		}
		return string(b)
	case k == 6:
		return randomSource(r, 4)
	case k == 7:
		return pickw(r, "", "true", "12", "-1.50", "1e400", "é", "日本", "a b", "a\nb", "\\", "\\\\", "a\\", "\\n", "\\\n", "\\x41", "#", "#{", "}#", "\"\"", "\"\"\"", "$", "$a", "$*a", "[]", "()", "{}", "a(b)", "*", "**", "a*b", ";", "\u2028", "\U0001F600", "\ufffd", "\ufeff")
	case k == 8:
		s := strings.Repeat(displayString(r), r.IntN(30))
		if len(s) > 500 {
			s = s[:500]
		}
		return s
	}
	return pickw(r, "a", "foo", "bar", "x1", "hello", "a-b", "k", "v")
}

func displayIndex(r *rand.Rand) core.Value {
	switch r.IntN(6) {
	case 0:
		return core.TRUE
	case 1:
		return core.INT(int64(r.Uint64()>>12) - 1<<51)
	case 3:
		return core.STR(strconv.Itoa(r.IntN(2000) - 1000))
	}
	return core.INT(int64(r.IntN(20) - 5))
}

type displayGen struct {
	r *rand.Rand
	g *gen
	n int
	// The value holds something without literal form
	opaque bool
	// The value cannot be read back by the dialect
	unread bool
}

func (d *displayGen) values(depth, min int) []core.Value {
	var vs []core.Value
	for n := min + d.r.IntN(5); n > 0; n-- {
		vs = append(vs, d.value(depth+1))
	}
	if vs == nil {
		vs = []core.Value{}
	}
	return vs
}

func (d *displayGen) blockSource() string {
	for {
		var s string
		switch d.r.IntN(4) {
		case 0:
			s = anySource(d.r)
		case 1:
			s = pickw(d.r, "", " ", "\n", "a", "a b", "a; b", "\na b\n", "a # c", "# c", "# c\n", "#{c}#", "a #{c}#", "\"a}\"", "\"\"\"a}\"\"\"", "\"\"T\na}\nT\"\"", "(a", "$", "$a(b)[c]{d}", "{}", "{{}}", "[a {b} (c)]", ";", "a;", "#a\n#b", "a #", "##{ }# }##", "a\n#", "*", "$*a", "\"#\"", "[a # b\n]")
		default:
			d.g.n = 0
			s = d.g.script(3)
		}
		if !strings.Contains(s, "\\") {
			return s
		}
	}
}

func (d *displayGen) value(depth int) core.Value {
	r := d.r
	d.n++
	k := r.IntN(20)
	if depth > 5 || d.n > 60 {
		k = r.IntN(8)
	}
	switch {
	case k == 0:
		return core.NIL
	case k == 1:
		return core.BOOL(r.IntN(2) == 0)
	case k == 2:
		return core.INT(pick(r, []int64{0, 1, -1, math.MaxInt64, math.MinInt64, int64(r.Uint64()), int64(r.IntN(100))}))
	case k == 3:
		return core.REAL(pick(r, []float64{0, 0.1, -2.5, 1e21, 1e-7, 1e300, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), math.Float64frombits(r.Uint64()), float64(r.IntN(1000)) / 8}))
	case k < 8:
		return core.STR(displayString(r))
	case k < 11:
		return core.LIST(d.values(depth, 0))
	case k < 13:
		m := map[string]core.Value{}
		for n := r.IntN(4); n > 0; n-- {
			m[displayString(r)] = d.value(depth + 1)
		}
		return core.DICT(m)
	case k < 15:
		return core.TUPLE(d.values(depth, 0))
	case k < 17:
		src := d.blockSource()
		p := parseReal(src, false)
		if !p.Success {
			return core.STR(src)
		}
		return core.NewScriptValue(*p.Script, src)
	case k == 17 && r.IntN(3) == 0:
		d.opaque = true
		switch r.IntN(4) {
		case 0:
			return core.NewCommandValue(nativeCmd{})
		case 1, 2:
			for {
				if re, err := regexp.Compile(pickw(r, "a", "}#", "a}#}", "#{", "a{2}", "[#{}]+", "\\\\}#} x", "#", "\"", displayString(r), regexp.QuoteMeta(displayString(r)))); err == nil {
					return go_regexp.NewRegexpValue(re)
				}
			}
		}
		p := parseReal("a b", false)
		return core.NewScriptValueWithNoSource(*p.Script)
	}
	// Qualified words
	var src core.Value
	switch j := r.IntN(8); {
	case j < 4:
		src = core.STR(displayString(r))
	case j == 4:
		src = core.INT(int64(r.IntN(100)))
	case j == 5 && r.IntN(4) == 0:
		d.opaque = true
		src = core.LIST(nil)
	default:
		src = core.TUPLE(d.values(depth, 0))
	}
	q := core.NewQualifiedValue(src, []core.Selector{})
	for n := 1 + r.IntN(3); n > 0; n-- {
		var res core.Result
		switch r.IntN(8) {
		case 0, 1:
			res = q.SelectIndex(displayIndex(r))
		case 2:
			var rules []core.Value
			for m := 1 + r.IntN(3); m > 0; m-- {
				rules = append(rules, core.TUPLE(d.values(depth, 1)))
			}
			res = q.SelectRules(rules)
			// Dialects have no rules
			d.unread = true
		default:
			for m := 1 + r.IntN(3); m > 0; m-- {
				res = q.SelectKey(d.value(depth + 1))
				q = res.Value.(core.QualifiedValue)
			}
		}
		q = res.Value.(core.QualifiedValue)
	}
	return q
}

// displayFn is the display function of hosts: containers of the dialect
func displayFn(x any) string {
	switch v := x.(type) {
	case core.ListValue:
		return hd.DisplayListValue(v, displayFn)
	case core.DictionaryValue:
		return hd.DisplayDictionaryValue(v, displayFn)
	case core.CommandValue:
		return core.UndisplayableValueWithLabel("command")
	}
	return core.DefaultDisplayFunction(x)
}

var undisplayable = regexp.MustCompile(`(?s)^#+\{.*\}#+$`)

func isoScript(source *string) string {
	if source == nil || undisplayable.MatchString(*source) {
		return "undisplayable"
	}
	// A final newline may be added to end a comment
	return "script" + strconv.Quote(strings.TrimSuffix(*source, "\n"))
}

// isoReal is the text of a value where scalars are known by their string
func isoReal(b *strings.Builder, v core.Value) {
	list := func(open string, vs []core.Value) {
		b.WriteString(open)
		for _, x := range vs {
			b.WriteByte(' ')
			isoReal(b, x)
		}
		b.WriteString(")")
	}
	if v == nil {
		b.WriteString("<null>")
		return
	}
	switch v := v.(type) {
	case core.NilValue:
		b.WriteString("nil")
	case core.BooleanValue:
		b.WriteString(strconv.Quote(strconv.FormatBool(v.Value)))
	case core.IntegerValue:
		b.WriteString(strconv.Quote(strconv.FormatInt(v.Value, 10)))
	case core.RealValue:
		b.WriteString(strconv.Quote(strconv.FormatFloat(v.Value, 'g', -1, 64)))
	case core.StringValue:
		b.WriteString(strconv.Quote(v.Value))
	case core.ListValue:
		list("list(", v.Values)
	case core.TupleValue:
		list("(", v.Values)
	case core.DictionaryValue:
		var keys []string
		for k := range v.Map {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b.WriteString("dict(")
		for _, k := range keys {
			b.WriteString(" " + strconv.Quote(k) + " ")
			isoReal(b, v.Map[k])
		}
		b.WriteString(")")
	case core.ScriptValue:
		b.WriteString(isoScript(v.Source))
	case core.QualifiedValue:
		b.WriteString("q:")
		isoReal(b, v.Source)
		for _, s := range v.Selectors {
			switch s := s.(type) {
			case core.IndexedSelector:
				list("i(", []core.Value{s.Index})
			case core.KeyedSelector:
				list("k(", s.Keys)
			case core.GenericSelector:
				list("g(", s.Rules)
			}
		}
	default:
		b.WriteString("undisplayable")
	}
}

func isoRef(b *strings.Builder, v ref.Value) {
	list := func(open string, vs []ref.Value) {
		b.WriteString(open)
		for _, x := range vs {
			b.WriteByte(' ')
			isoRef(b, x)
		}
		b.WriteString(")")
	}
	switch v := v.(type) {
	case ref.Nil:
		b.WriteString("nil")
	case ref.Bool:
		b.WriteString(strconv.Quote(strconv.FormatBool(bool(v))))
	case ref.Int:
		b.WriteString(strconv.Quote(strconv.FormatInt(int64(v), 10)))
	case ref.Real:
		b.WriteString(strconv.Quote(strconv.FormatFloat(float64(v), 'g', -1, 64)))
	case ref.Str:
		b.WriteString(strconv.Quote(string(v)))
	case ref.List:
		list("list(", v)
	case ref.Tuple:
		list("(", v)
	case ref.Dict:
		var keys []string
		for k := range v {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b.WriteString("dict(")
		for _, k := range keys {
			b.WriteString(" " + strconv.Quote(k) + " ")
			isoRef(b, v[k])
		}
		b.WriteString(")")
	case *ref.ScriptV:
		b.WriteString(isoScript(v.Source))
	case *ref.Qual:
		b.WriteString("q:")
		isoRef(b, v.Source)
		for _, s := range v.Sels {
			list(string(s.Kind)+"(", s.Vals)
		}
	default:
		b.WriteString("undisplayable")
	}
}

// displayKnown shows the listed finding
func displayKnown(c *Ctx) {
	if p := parseReal(`{a\{b}`, false); p.Success {
		src := "idem {a\\{b}"
		s := newRealSession(sessOpts{})
		prog := s.scope.Compile(*parseReal(src, false).Script)
		if r := s.scope.PrepareProcess(prog).Run(); r.Code == core.ResultCode_OK && core.Display(r.Value, displayFn) == "{a{b}" {
			c.Known("block-escape: blocks holding escape sequences are displayed with the unescaped characters: `idem {a\\{b}` is displayed as `{a{b}`")
		}
	}
}

func displayCase(c *Ctx) {
	if c.Case == 0 {
		displayKnown(c)
	}
	r := c.R
	d := &displayGen{r: r, g: newGen(r, "basic", "list", "call", "if")}
	d.g.maxDepth = 2
	o := sessOpts{feed: feedDefault, capture: r.IntN(2) == 0, errStack: r.IntN(2) == 0}
	var vs []core.Value
	switch r.IntN(8) {
	case 0, 2:
		// Values of an executed script
		scripts := []string{d.g.randPrelude()}
		for n := 1 + r.IntN(3); n > 0; n-- {
			d.g.n = 0
			scripts = append(scripts, d.g.script(3))
		}
		c.Input(strings.Join(scripts, "\n--------\n"))
		if strings.Contains(strings.Join(scripts, ""), "\\") {
			return
		}
		if _, _, why, _ := refRun(o, scripts); why != "" {
			return
		}
		s := newRealSession(o)
		s.keepOn = true
		for k, src := range scripts {
			s.runScript(k, src)
		}
		for _, k := range s.kept {
			vs = append(vs, k.v)
		}
		r.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
		if len(vs) > 10 {
			vs = vs[:10]
		}
		c.Count("values of scripts", len(vs))
		d.opaque = true
	case 1:
		// Deep nesting
		v := d.value(4)
		for n := r.IntN(pick(r, []int{10, 50, 200})); n > 0; n-- {
			switch r.IntN(4) {
			case 0:
				v = core.LIST([]core.Value{v})
			case 1:
				v = core.DICT(map[string]core.Value{displayString(r): v})
			case 2:
				v = core.TUPLE([]core.Value{v})
			case 3:
				q := core.NewQualifiedValue(core.STR(displayString(r)), []core.Selector{}).SelectKey(v)
				v = q.Value
			}
		}
		vs = append(vs, v)
	default:
		vs = append(vs, d.value(0))
	}
	for _, v := range vs {
		c.displayed(v, o, d.opaque, d.unread)
		if c.failed {
			return
		}
	}
}

func (c *Ctx) displayed(v core.Value, o sessOpts, opaque, unread bool) {
	held := canonReal(v)
	c.Input("value " + held)
	// Without the containers of the dialect, and with
	plain := core.Display(v, nil)
	text := core.Display(v, displayFn)
	if now := canonReal(v); now != held {
		c.Fail("altered", "display changed the value into %s", now)
		return
	}
	c.Input("value " + held + "\ndisplayed as " + text)
	c.Eval(text)
	c.Count(fmt.Sprintf("values displayed: %v", v.Type()), 1)
	texts := []string{plain, text}
	if x, is := v.(core.Displayable); is {
		texts = append(texts, x.Display(nil))
	}
	for _, t := range texts {
		p := parseReal(t, false)
		if !p.Success {
			c.Fail("display", "%s doesn't parse: %s", strconv.Quote(t), p.Message)
			return
		}
		if len(p.Script.Sentences) != 1 || len(p.Script.Sentences[0].Words) != 1 {
			c.Fail("display", "%s isn't one word", strconv.Quote(t))
			return
		}
		sc, err := ref.Parse(t)
		if err != "" || len(sc.Sents) != 1 || len(sc.Sents[0].Words) != 1 {
			c.Fail("display", "%s isn't one word of the syntax", strconv.Quote(t))
			return
		}
	}
	if _, is := v.(core.QualifiedValue); is && opaque || unread {
		return
	}
	var w strings.Builder
	isoReal(&w, v)
	want := w.String()
	if strings.Contains(want, "\\\\") && strings.Contains(want, "script\"") && opaque {
		// Scripts of unknown origin, holding escapes: listed finding
		return
	}
	if opaque && strings.Contains(want, "q:") {
		return
	}
	// Read by the implementation
	s := newRealSession(o)
	var got []core.Value
	s.scope.RegisterNamedCommand("take", nativeCmd{func(args []core.Value, _ any) core.Result {
		got = append([]core.Value{}, args[1:]...)
		return core.OK(core.NIL)
	}})
	form := pick(c.R, []string{"take %", "set v %; take $v", "take [idem %]", "closure cl {a} {take $a}; cl %"})
	src := strings.Replace(form, "%", text, 1)
	tuple := c.R.IntN(4) == 0
	if tuple {
		src = "take (" + text + " " + text + ")"
	}
	p := parseReal(src, o.capture)
	if !p.Success {
		c.Fail("read back", "%s doesn't parse: %s", src, p.Message)
		return
	}
	res := s.scope.PrepareProcess(s.scope.Compile(*p.Script)).Run()
	if res.Code != core.ResultCode_OK || len(got) != 1 {
		c.Fail("read back", "%s gives %s with %d values", src, canonReal(res.Value), len(got))
		return
	}
	if tuple {
		t, is := got[0].(core.TupleValue)
		if !is || len(t.Values) != 2 {
			c.Fail("read back", "%s gives %s", src, canonReal(got[0]))
			return
		}
		got[0] = t.Values[c.R.IntN(2)]
	}
	var g strings.Builder
	isoReal(&g, got[0])
	if g.String() != want {
		c.Fail("read back", "%s reads as\n%s\ninstead of\n%s", text, g.String(), want)
		return
	}
	c.Count("values read back", 1)
	// A display of what was read is the same, up to the order of keys
	if again := core.Display(got[0], displayFn); !strings.Contains(want, "dict(") && !opaque && again != text {
		c.Fail("display", "once read back, %s is displayed as %s", text, again)
		return
	}
	// Read by the reference interpreter
	rs := newRefSession(sessOpts{fuel: 200000})
	var rgot []ref.Value
	rs.root.Register("take", ref.Fn(func(m *ref.Machine, args []ref.Value, _ *ref.Scope) ref.Result {
		rgot = append([]ref.Value{}, args[1:]...)
		return ref.Result{Code: ref.OK, Val: ref.Nil{}}
	}))
	if len(text) > 20000 {
		return
	}
	why := func() (why string) {
		defer rs.m.Close()
		defer func() {
			if e := recover(); e != nil {
				i, is := e.(ref.Inconclusive)
				if !is {
					panic(e)
				}
				why = i.Why
			}
		}()
		rs.runScript(0, "take "+text)
		return
	}()
	if why != "" {
		c.Count("undecided: "+why, 1)
		return
	}
	if len(rgot) != 1 {
		c.Fail("read back", "%s gives %d values according to the syntax", text, len(rgot))
		return
	}
	var f strings.Builder
	isoRef(&f, rgot[0])
	if f.String() != want {
		c.Fail("read back", "%s reads according to the syntax as\n%s\ninstead of\n%s", text, f.String(), want)
		return
	}
	c.Count("values read back by the reference", 1)
}
