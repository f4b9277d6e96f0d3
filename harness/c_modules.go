package main

import (
	"fmt"
	"os"
	"path/filepath"
)

var moduleNames = []string{"m1", "m2", "sub/m3", "m4", "bad", "cyc", "sub/m5", "tick", "bi"}

// builtins is the text of a module that exports built-in commands
var builtins = "export if; export when; export catch; export list; export dict; export string; export tuple; export true; export false; export +; export *; export ==; export &&; export ||; export !; export idem; export closure; export macro; export proc; export namespace; export ensemble; export loop; export while; export set; export let; export get; export exists; export unset; export error; export return; export yield; export tailcall; export eval; export parse; export script; export argspec; export help; export alias; export import; export module; export export; export scope; export coroutine; export pass; export break; export continue; export !=; export -; export max; export ^; export $"

// moduleFile generates the text of a module
func moduleFile(g *gen, name string) string {
	up := ""
	if filepath.Dir(name) != "." {
		up = "../"
	}
	// Loading a module ticks the counter of a module shared by all
	tick := "import " + up + "tick (tick); set at [tick]; closure at {} {idem (" + name + " $at)}; export at; "
	if name == "tick" {
		return "set cnt 0; closure tick {} {set cnt [+ $cnt 1]}; export tick"
	}
	if g.p(10) {
		tick = ""
	}
	switch name {
	case "bi":
		return builtins
	case "bad":
		return tick + g.one("error failed", "a {b", "return x", "yield y; export inc; macro inc {} {}", "break", "export inc; nope", "macro inc {} {idem badinc}; export inc; error late", "import "+up+"cyc; export f")
	case "cyc":
		return tick + g.one("import cyc", "import m4; macro inc {} {idem c}; export inc", "import sub/m5", "closure inc {} {import cyc}; export inc", "closure inc {} {import m4}; export inc", "set e [catch {import cyc} error e {idem $e}]; closure inc {} {idem $e}; export inc", "catch {import cyc (at)} error e {}; macro inc {} {idem cc}; export inc")
	}
	s := tick + g.one("set cnt 0; closure inc {} {set cnt [+ $cnt 1]}; export inc; ", "set cnt 10; closure inc {(?by 1)} {set cnt [+ $cnt $by]}; export inc; ", "set cnt 0; proc inc {} {set cnt 5; idem $cnt}; export inc\n", "set cnt 0; macro inc {} {list ([get cnt none] [exists at])}; export inc; ", "macro inc {} {error frominc}; export inc\n", "closure inc {} {yield 1; idem 2}; export inc;")
	s += g.one("", "macro show {a} {idem ("+name+" $a [get v none])}; export show; ", "export show; ", "alias al inc; export al; ", "ensemble en {v} {macro show {v} {idem ("+name+" $v)}}; export en; ", "namespace ns {set v 1; closure cc {} {get v}}; export ns; ", "export inc; ", "closure f {(?a 0)} {list ([get i none] [get cnt] $a)}; export f; ", "set v mv; closure gv {} {get v}; export gv; ")
	if g.p(40) {
		s += late(g)
	}
	s += g.one("", "", "", "import "+g.one("m1", "m2", "sub/m3", "m4", "m5", up+"m1", up+"m2", "m3", "sub/m5", "cyc", "./m1", up+"m4", "sub/../m1")+g.one("", " (inc)", " ((inc other))", " (inc (inc other) at)", " ((inc inner) (at at2))")+"; "+g.one("", "export other; ", "export inc; ", "other; ", "export at2; export inner; ", "closure f {} {list ([at2] [inner])}; export f; "))
	if g.p(10) {
		s += g.script(2) + "; "
	}
	if g.p(20) {
		s += "module inner {macro f {} {idem inner}; export f}; inner import f; export f; "
	}
	return s + g.one("", "idem done", "set cnt 100; idem end")
}

// late gives commands that export, or redefine what is exported, when called
func late(g *gen) string {
	return g.one("closure late {n} {export $n}", "proc late {n} {export $n}", "closure late {n} {macro $n {} {idem lately}; export $n}") + "; export late; " +
		g.one("closure redef {n} {macro $n {} {idem redefined}}", "closure redef {n} {alias $n (idem again)}", "closure redef {n} {set cnt 50; closure $n {} {set cnt [+ $cnt 1]}}") + "; export redef; macro hidden {} {idem wasHidden}; "
}

func writeModules(g *gen, dir string) string {
	desc := ""
	for _, n := range moduleNames {
		p := filepath.Join(dir, n)
		src := moduleFile(g, n)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(src), 0o644); err != nil {
			panic(err)
		}
		desc += fmt.Sprintf("--- %s: %s\n", n, src)
	}
	return desc
}

func init() {
	topicCheck{id: "C24", rule: "modules: generated module files imported by generated scripts", quick: 30000, deep: 500000,
		topics: []string{"mod", "mod", "mod"}, extra: []string{"call", "var", "ns", "basic", "catch", "alias"}, yield: 5, length: 10,
		tune: func(c *Ctx, g *gen, o *sessOpts) []string {
			dir := filepath.Join(workDir, "mods")
			g.wrong /= 2
			c.extra = writeModules(g, dir)
			o.dir, g.dir = dir, dir
			if g.p(20) {
				return nil
			}
			return []string{
				"module mb {" + builtins + "}; set mb [idem [mb]]",
				"module mo {" + late(g) + "set cnt 0; closure inc {} {set cnt [+ $cnt 1]}; export inc; macro show {a} {list (moshow $a [exists cnt])}; export show; closure gv {} {get v none}; export gv; macro f {} {idem mof}; export f}",
				"module mp {" + late(g) + "set v mpv; closure gv {} {get v}; export gv; proc inc {} {idem mpinc}; export inc; export f; closure f {a} {set v $a}}",
				"set mv [idem [mo]]; set mw $mv; catch {set mv [import " + g.one("m1", "m2", "m4", "sub/m3") + "]} error e {}; catch {set mw [import " + g.one("m1", "m2", "m4", "sub/m5") + "]} error e {}",
				"catch {import " + g.one("m1", "m2", "m4", "sub/m5") + " " + g.one("(inc)", "((inc other))", "(at)", "((at at2) (inc inc2))", "(tick)") + "} error e {probe $e}",
			}
		}}.register()
}
